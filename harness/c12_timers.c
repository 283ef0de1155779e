/* C12: timers of a loop, under a virtual clock. */
#include <events.h>
#include "vh.h"
#include "ev.h"
#include "vclock.h"
#include <sys/eventfd.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#define MAXT 3000
typedef struct { int armed, loop, runs, bare; uint64_t dl; actor_t *a; } tm;
static tm T[MAXT];
static events_t *L[3];
static int nT, turn_loop, fired, moved, nd[3], nfd, fds[40], fdl[40], depth, limit;
static long c_fire, c_rep, c_clear, c_turn, c_many, c_zero, c_long, c_wait, c_in, c_run, c_bare, c_twice, c_undo, c_move;
static uint64_t sig;
static void ops(int n);
int epoll_wait(int epfd, struct epoll_event *ev, int max, int timeout) {
	int r = (int)syscall(SYS_epoll_wait, epfd, ev, max, 0);
	if (turn_loop && r == 0 && timeout > 0) { vc_us += (uint64_t)timeout * 1000; c_wait++; }
	return r;
}
static int armed(int l) { int i, n = 0; for (i = 0; i < nT; i++) if (T[i].armed && T[i].loop == l) n++; return n; }
static int period(void) { uint32_t k = vh_n(20); return k < 2 ? 0 : k < 8 ? (int)vh_n(5) : k < 17 ? (int)vh_n(3000) : k == 17 ? (int)vh_n(100000) : k == 18 ? 2147483647 - (int)vh_n(10) : 4000000 + (int)vh_n(1000000000); }
static void timer(actor_t *a, void *arg) {
	int i = (int)(intptr_t)arg - 1, j, again;
	tm *t;
	/* a timer made without an argument gets none, ever */
	if (!arg) { for (i = nT - 1; i >= 0 && !(T[i].bare && T[i].armed && T[i].a == a); i--) ; c_bare++; }
	vh_beat(); c_fire++; fired++;
	VH_MUST(i >= 0 && i < nT, "timer:argument", "argument %p", arg);
	t = &T[i];
	VH_MUST(t->bare == !arg, "timer:argument", "timer %d got %p", i, arg);
	VH_MUST(t->armed, "timer:not-armed", "timer %d fires, which is not armed", i);
	VH_MUST(t->loop == turn_loop, "timer:loop", "timer %d of loop %d fires while loop %d runs", i, t->loop, turn_loop);
	VH_MUST(a == t->a && events_actor_loop(a) == L[t->loop], "timer:actor", "timer %d", i);
	VH_MUST(vc_us >= t->dl, "timer:early", "timer %d fires %llu us early", i, (unsigned long long)(t->dl - vc_us));
	for (j = 0; j < nT; j++) if (T[j].armed && T[j].loop == t->loop && T[j].dl < t->dl) vh_fatal("timer:order", "timer %d before timer %d, which has a deadline %llu us earlier", i, j, (unsigned long long)(t->dl - T[j].dl));
	t->armed = 0; t->runs++;
	sig = vh_mix(sig, (uint64_t)i);
	depth++;
	if (vh_p(30)) { c_in++; ops(1 + (int)vh_n(3)); }
	if (vh_p(10)) vc_us += vh_n(5000);
	again = vh_p(50);
	if (!again && vh_p(50)) { events_clear_actor(a); c_clear++; }
	if (again) {
		int ms = period();
		c_rep++;
		t->dl = vc_us + (uint64_t)ms * 1000; t->armed = 1;
		t->a = events_repeat_actor(a, ms);
		VH_MUST(t->a == a, "timer:repeat", "another timer");
		/* once more, the last delay holds, or given up again */
		while (vh_p(15)) { c_twice++; ms = period(); t->dl = vc_us + (uint64_t)ms * 1000; events_repeat_actor(a, ms); }
		if (vh_p(15)) { c_undo++; events_clear_actor(a); t->armed = 0; }
	}
	if (vh_p(30)) ops(1);
	depth--;
}
static void ready(fds_t fd, int ev, void *arg) { if (depth == 0 && vh_p(50)) ops(1); }
static void ops(int n) {
	for (; n > 0; n--) switch (vh_n(9)) {
		case 6: if (nT && vh_p(30)) {	/* one that waits */
			tm *t = &T[vh_n((uint32_t)nT)];
			int ms = period();
			if (t->armed) { c_move++; moved = 1; t->dl = vc_us + (uint64_t)ms * 1000; VH_MUST(events_repeat_actor(t->a, ms) == t->a, "timer:repeat", "another timer"); }
			} break;
		case 0: case 1: case 2: case 3: if (nT < limit) {
			int ms = period();
			tm *t = &T[nT];
			t->loop = vh_p(75) ? 1 : 2; t->dl = vc_us + (uint64_t)ms * 1000; t->armed = 1; t->runs = 0; t->bare = vh_p(15);
			nT++; if (!ms) c_zero++; if (ms > 2000000) c_long++;
			if (!(t->a = events_actor(L[t->loop], ms, timer, t->bare ? NULL : (void *)(intptr_t)nT))) vh_fatal("timer:create", "events_actor failed");
			} break;
		case 4: if (nfd < 40) {
			int f = eventfd(vh_n(3) == 0, EFD_NONBLOCK), l = 1 + (int)vh_n(2);
			if (f < 0 || events_add(L[l], f, EVENTS_READ, 0, ready, NULL)) vh_fatal("failed", "events_add failed");
			fds[nfd] = f; fdl[nfd++] = l; nd[l]++;
			} break;
		case 5: if (nfd && vh_p(60)) { int i = (int)vh_n((uint32_t)nfd); if (events_del(fds[i])) vh_fatal("failed", "events_del failed"); close(fds[i]); nd[fdl[i]]--; nfd--; fds[i] = fds[nfd]; fdl[i] = fdl[nfd]; } break;
		default: { int l = 1 + (int)vh_n(2); c_run++;
			/* while its own function runs a timer counts until the function has returned */
			if (depth == 0) VH_MUST(events_is_running(L[l]) == (armed(l) + nd[l] > 0), "timer:is-running", "loop %d with %d timers and %d descriptors is%s running", l, armed(l), nd[l], events_is_running(L[l]) ? "" : " not"); }
	}
}
static void turn(int l) {
	uint64_t t0 = vc_us, first = 0;
	int i, due = 0, r, w = vh_p(80) ? 0 : (int)vh_n(3);
	for (i = 0; i < nT; i++) if (T[i].armed && T[i].loop == l && T[i].dl <= t0) { due++; if (!first || T[i].dl < first) first = T[i].dl; }
	if (due > 1) c_many++;
	turn_loop = l; fired = moved = 0; c_turn++;
	r = events_once(L[l], w);
	turn_loop = 0;
	VH_MUST(!due || fired || moved, "timer:late", "%d timers due for up to %llu us and none fired in a turn", due, (unsigned long long)(t0 - first));
	VH_MUST(r == armed(l) + nd[l], "timer:count", "events_once returned %d with %d timers and %d descriptors", r, armed(l), nd[l]);
}
int main(int argc, char **argv) {
	long c;
	int i, st;
	vh_init(argc, argv);
	vc_on = 1; vc_limit = 1000000000;
	if (events_init(256)) vh_fatal("failed", "events_init failed");
	if (!(L[1] = events_create(60)) || !(L[2] = events_create(600))) vh_fatal("failed", "events_create failed");
	/* the library's own task of the thread counts as work until it first waits */
	events_once(L[1], 0);
	for (c = 0; c < vh_cases; c++) {
		long before = c_fire;
		int g;
		vh_case(c); vh_watchdog(60); sig = 7;
		nT = 0; limit = vh_p(80) ? 5 + (int)vh_n(60) : 5 + (int)vh_n(MAXT - 600);
		st = 10 + (int)vh_n(150);
		for (i = 0; i < st; i++) {
			uint32_t k = vh_n(10);
			ops((int)vh_n(limit > 100 ? 60 : 6));
			if (k < 5) vc_us += vh_n(3000); else if (k < 9) vc_us += vh_n(2000000); else if (vh_p(20)) vc_us += (uint64_t)vh_n(2147483647) * 1000;
			/* just before, or exactly at a deadline */
			if (vh_p(40) && nT) { tm *t = &T[vh_n((uint32_t)nT)]; if (t->armed && t->dl > vc_us + 1) vc_us = t->dl - vh_n(2); }
			turn(vh_p(75) ? 1 : 2);
		}
		/* run out */
		limit = 0;
		for (g = 1; g <= 2; g++) while (armed(g)) {
			uint64_t m = 0;
			for (i = 0; i < nT; i++) if (T[i].armed && T[i].loop == g && (!m || T[i].dl < m)) m = T[i].dl;
			if (m > vc_us) vc_us = m;
			turn(g);
		}
		while (nfd) { nfd--; events_del(fds[nfd]); close(fds[nfd]); nd[fdl[nfd]]--; }
		for (i = 0; i < nT; i++) VH_MUST(T[i].runs > 0, "timer:lost", "timer %d never fired", i);
		for (i = 1; i <= 2; i++) VH_MUST(!events_is_running(L[i]), "timer:is-running", "loop %d without timers and descriptors is running", i);
		vh_eval(1);
		if (c_fire - before > 1) vh_sig(sig);
		if (vh_want_sample()) vh_sample("%d timers, %ld calls", nT, c_fire - before);
	}
	vh_count("turns of a loop", c_turn); vh_count("timers fired", c_fire); vh_count("repeated", c_rep); vh_count("repeated twice by the function", c_twice); vh_count("repeated and cleared", c_undo); vh_count("armed anew while armed", c_move); vh_count("cleared", c_clear); vh_count("turns with more than one timer due", c_many);
	vh_count("calls without an argument", c_bare); vh_count("delays of 0", c_zero); vh_count("delays of more than 33 minutes", c_long); vh_count("waits", c_wait); vh_count("functions that changed something", c_in); vh_count("questions whether the loop is running", c_run);
	vh_exit();
}
