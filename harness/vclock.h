/* A virtual clock: the library reads the time with gettimeofday, time or clock_gettime; these
 * definitions take the place of libc's. Time moves when a driver says so, or a little when the
 * program only polls. vh_ns() and the watchdog keep using the kernel's clock. */
#ifndef VCLOCK_H
#define VCLOCK_H
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
static int vc_on;
static uint64_t vc_us = 1700000000ull * 1000000;	/* the virtual time, microseconds */
static long vc_idle_reads;				/* readings since the driver last did something */
static long vc_limit = 60;				/* that many readings in a row mean that the program waits */
static void (*vc_idle)(void);				/* called then; has to move the time */
static long vc_total, vc_jumps;
static uint64_t vc_read(void) {
	vc_total++;
	if (++vc_idle_reads > vc_limit) { vc_idle_reads = 0; vc_jumps++; if (vc_idle) vc_idle(); else vc_us += 1000; }
	return vc_us;
}
static void vc_act(void) { vc_idle_reads = 0; }
int gettimeofday(struct timeval *tv, void *tz) {
	struct timespec ts;
	(void)tz;
	if (vc_on) { uint64_t t = vc_read(); tv->tv_sec = (time_t)(t / 1000000); tv->tv_usec = (suseconds_t)(t % 1000000); return 0; }
	syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
	if (vc_on && (id == CLOCK_MONOTONIC || id == CLOCK_REALTIME)) { uint64_t t = vc_read(); ts->tv_sec = (time_t)(t / 1000000); ts->tv_nsec = (long)(t % 1000000) * 1000; return 0; }
	return (int)syscall(SYS_clock_gettime, id, ts);
}
time_t time(time_t *t) {
	time_t r;
	if (vc_on) r = (time_t)(vc_us / 1000000);
	else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; }
	if (t) *t = r;
	return r;
}
#endif
