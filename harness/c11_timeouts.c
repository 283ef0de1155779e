/* C11: timeouts of descriptors, under a virtual clock. */
#include <events.h>
#include "vh.h"
#include "ev.h"
#include "vclock.h"
#include <sys/eventfd.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#define MAXFD 700
typedef struct { int open, loop, ready; int armed; int64_t dl; long arg, since; } fdm;
static fdm F[MAXFD];
static events_t *L[3];
static int res[3], maxt[3], turn_loop, depth, nfds;
static int64_t turn_time;
static long c_fire, c_arm, c_clear, c_del, c_rearm, c_io, c_turn, c_jump, c_in, c_wait, c_late;
static uint64_t sig;
static int64_t now(void) { return (int64_t)(vc_us / 1000000); }
static void pass(int64_t s) { vc_us += (uint64_t)s * 1000000; }
static void ops(int n, int self);
int epoll_wait(int epfd, struct epoll_event *ev, int max, int timeout) {
	int r = (int)syscall(SYS_epoll_wait, epfd, ev, max, 0);
	if (turn_loop && r == 0 && timeout > 0) { vc_us += (uint64_t)timeout * 1000; c_wait++; }
	return r;
}
static void cb(fds_t fd, int ev, void *arg) {
	fdm *f = &F[fd];
	vh_beat();
	VH_MUST(turn_loop && f->open && f->loop == turn_loop && (long)(intptr_t)arg == f->arg, "timeout:stray", "callback (event %d) for descriptor %d, which is %sregistered", ev, fd, f->loop ? "elsewhere " : "not ");
	if (ev == EVENTS_TIMEOUT) {
		c_fire++;
		VH_MUST(f->armed, "timeout:not-armed", "descriptor %d has no timeout running", fd);
		VH_MUST(now() >= f->dl, "timeout:early", "descriptor %d: %ld s early (resolution %d)", fd, (long)(f->dl - now()), res[f->loop]);
		f->armed = 0;
		sig = vh_mix(sig, (uint64_t)fd * 2);
	} else {
		c_io++;
		/* the report may be older than a registration made in the same turn */
		VH_MUST(ev == EVENTS_READ && (f->ready || f->since == c_turn), "timeout:event", "event %d for descriptor %d", ev, fd);
		if (vh_p(60)) { uint64_t v; (void)!syscall(SYS_read, fd, &v, 8); f->ready = 0; }
		sig = vh_mix(sig, (uint64_t)fd * 2 + 1);
	}
	if (depth == 0 && vh_p(70)) { depth++; c_in++; if (vh_p(10)) pass((int64_t)vh_n(4)); ops(1 + (int)vh_n(5), fd); depth--; }
}
static int secs(int l) {
	uint32_t k = vh_n(10);
	int s = k < 4 ? 1 + (int)vh_n(5) : k < 6 ? maxt[l] - (int)vh_n(3) : 1 + (int)vh_n((uint32_t)maxt[l]);
	return s < 1 ? 1 : s > maxt[l] ? maxt[l] : s;
}
static int pick(int reg) {
	int i, n = 0;
	for (i = 0; i < MAXFD; i++) if (F[i].open && (reg == (F[i].loop != 0))) n++;
	if (!n) return -1;
	n = (int)vh_n((uint32_t)n);
	for (i = 0; i < MAXFD; i++) if (F[i].open && (reg == (F[i].loop != 0)) && n-- == 0) return i;
	return -1;
}
static void del(int fd) {
	c_del++;
	VH_MUST(events_del(fd) == 0, "timeout:del", "events_del of %d failed", fd);
	F[fd].loop = 0; F[fd].armed = 0;
}
static void ops(int n, int self) {
	int fd, s;
	for (; n > 0; n--) switch (vh_n(10)) {
		case 0: case 1:
			if ((fd = pick(0)) < 0) break;
			F[fd].loop = vh_p(70) ? 1 : 2; F[fd].arg = (long)vh_n(1000000); F[fd].since = c_turn;
			s = vh_p(80) ? secs(F[fd].loop) : 0;
			F[fd].armed = s != 0; F[fd].dl = now() + s; if (s) c_arm++;
			VH_MUST(events_add(L[F[fd].loop], fd, EVENTS_READ, s, cb, (void *)(intptr_t)F[fd].arg) == 0, "timeout:add", "events_add of %d failed", fd);
			break;
		case 2: case 3: case 4:
			fd = self >= 0 && F[self].loop && vh_p(50) ? self : pick(1);
			if (fd < 0) break;
			s = secs(F[fd].loop);
			if (F[fd].armed) c_rearm++;
			F[fd].armed = 1; F[fd].dl = now() + s; c_arm++;
			events_set_timeout(fd, s);
			break;
		case 5:
			fd = self >= 0 && F[self].loop && vh_p(20) ? self : pick(1);
			if (fd < 0) break;
			c_clear++; F[fd].armed = 0;
			events_set_timeout(fd, 0);
			break;
		case 6: if ((fd = vh_p(20) && self >= 0 && F[self].loop ? self : pick(1)) >= 0) del(fd); break;
		case 7: if ((fd = pick(1)) >= 0 && !F[fd].ready) { uint64_t one = 1; if (write(fd, &one, 8) == 8) F[fd].ready = 1; } break;
		case 8: if (nfds < 400) { fd = eventfd(0, EFD_NONBLOCK); if (fd < 0 || fd >= MAXFD) vh_broken("eventfd %d", fd); F[fd].open = 1; F[fd].loop = F[fd].ready = F[fd].armed = 0; nfds++; } break;
		default: if (vh_p(30) && (fd = pick(vh_p(50))) >= 0) { if (F[fd].loop) del(fd); F[fd].open = 0; nfds--; close(fd); }
	}
}
static void turn(int l) {
	int i, w = vh_p(60) ? 0 : (int)vh_n(8);
	int64_t t;
	c_turn++; turn_loop = l; t = now();
	VH_MUST(events_once(L[l], w) >= 0, "timeout:once", "events_once failed");
	turn_loop = 0;
	for (i = 0; i < MAXFD; i++)
		if (F[i].loop == l && F[i].armed && t >= F[i].dl + res[l])
			vh_fatal("timeout:late", "descriptor %d: deadline %ld s ago (resolution %d s), no timeout", i, (long)(t - F[i].dl), res[l]);
}
int main(int argc, char **argv) {
	long c;
	int i, st, fat;
	vh_init(argc, argv);
	vc_on = 1; vc_limit = 1000000000;
	if (events_init(MAXFD)) vh_fatal("failed", "events_init failed");
	for (c = 0; c < vh_cases; c++) {
		long before = c_fire;
		vh_case(c); vh_watchdog(30); sig = 5;
		/* loops of their own, up to 120 cases */
		if (c % 40 == 0) for (i = 1; i <= 2; i++) {
			static const int M[] = {1, 10, 60, 127, 128, 129, 256, 300, 600, 3000, 100000};
			maxt[i] = M[vh_n(11)]; res[i] = (maxt[i] + 127) / 128;
			if (c) events_destroy(L[i]);
			if (!(L[i] = events_create(maxt[i]))) vh_fatal("failed", "events_create failed");
		}
		st = 10 + (int)vh_n(100); fat = (int)vh_n(4);
		for (i = 0; i < (int)vh_n(fat ? 10 : 150); i++) { int fd = eventfd(0, EFD_NONBLOCK); if (fd < 0 || fd >= MAXFD) vh_broken("eventfd"); F[fd].open = 1; F[fd].loop = F[fd].ready = F[fd].armed = 0; nfds++; }
		for (i = 0; i < st; i++) {
			int64_t j = 0;
			uint32_t k = vh_n(20);
			ops((int)vh_n(8), -1);
			if (k < 8) j = (int64_t)vh_n(3);
			else if (k < 13) j = (int64_t)vh_n((uint32_t)(res[1] * 4 + 1));
			else if (k < 15) j = (int64_t)vh_n((uint32_t)maxt[1] + 2);
			else if (k == 15 && vh_p(20)) { j = (int64_t)vh_n((uint32_t)(maxt[1] * 5 + 10)); c_jump++; }
			pass(j);
			if (vh_p(30)) vc_us += vh_n(1000000);
			turn(vh_p(70) ? 1 : 2);
			if (vh_p(20)) turn(1);
		}
		for (i = 0; i < MAXFD; i++) if (F[i].open && vh_p(90)) { if (F[i].loop) del(i); F[i].open = 0; nfds--; close(i); }
		if ((c + 1) % 40 == 0) for (i = 0; i < MAXFD; i++) if (F[i].open && F[i].loop) del(i);
		vh_eval(1);
		if (c_fire - before > 1) vh_sig(sig);
		if (vh_want_sample()) vh_sample("%d turns, %ld timeouts, loops of %d and %d s", st, c_fire - before, maxt[1], maxt[2]);
	}
	vh_count("turns of a loop", c_turn); vh_count("timeouts that came", c_fire); vh_count("timeouts armed", c_arm); vh_count("armed while running", c_rearm); vh_count("cleared", c_clear);
	vh_count("unregistered", c_del); vh_count("events", c_io); vh_count("waits", c_wait); vh_count("long pauses of the program", c_jump); vh_count("callbacks that changed something", c_in);
	vh_exit();
}
