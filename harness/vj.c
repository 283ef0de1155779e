/* Random delays at the entry and exit of every function of the library (variants built with
 * -finstrument-functions): widens the windows between the steps of concurrent threads. */
#include <stdint.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <sys/syscall.h>
int vj_rate = 0;			/* delays per 65536 calls; drivers and VJ_RATE set it */
int vj_sleep = 4;			/* one in that many is a sleep, the others only give way */
long vj_delays;
extern uint64_t vh_seed;
static __thread uint64_t s;
static __thread int in;
static inline void jit(void) {
	uint64_t x;
	int e;
	if (!vj_rate || in) return;
	if (!s) s = vh_seed * 0x9E3779B97F4A7C15ull + (uint64_t)syscall(SYS_gettid) * 0xD1B54A32D192ED03ull + 1;
	s ^= s << 13; s ^= s >> 7; s ^= s << 17;
	x = s >> 20;
	if ((int)(x & 65535) >= vj_rate) return;
	in = 1; vj_delays++; e = errno;
	x >>= 16;
	if (x % (unsigned)vj_sleep) { volatile int i; for (i = 0; i < (int)(x >> 8 & 1023); i++); syscall(SYS_sched_yield); }
	else { struct timespec t = { 0, (long)(x >> 8 & 0xffff) }; syscall(SYS_nanosleep, &t, 0); }
	errno = e; in = 0;
}
void __cyg_profile_func_enter(void *f, void *c) { jit(); }
void __cyg_profile_func_exit(void *f, void *c) { jit(); }
