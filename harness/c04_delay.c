/* C04: delay under a virtual clock: never early, in the order of the deadlines, without holding up
 * tasks that are ready, and not held up by them. With fifo=1, for C01: a sleeper whose time was up
 * after another task became ready runs after that one. */
#include <events.h>
#include "vh.h"
#include "ev.h"
#include "vclock.h"
#define MAXT 200
typedef struct { int ops, kind, doing, sleeping, overdue, ready; uint64_t dl, seed, since; uint32_t maxms; } tk;
static tk T[MAXT];
static int nT, live, style;
static uint64_t sig;
static long c_sleep, c_ready, c_long, c_zero, c_steps, c_same, c_main;
static vh_rng clk;
static int mainsleeps, fifo;
static long c_fifo;

/* the program waits: go to just before, to, or a bit after the next deadline */
static void idle(void) {
	uint64_t m = 0;
	int i;
	for (i = 0; i <= nT; i++) if (T[i].sleeping && (!m || T[i].dl < m)) m = T[i].dl;
	if (m > vc_us + 1) { uint32_t k = vh_rn(&clk, 4); vc_us = k == 0 ? m - 1 : k == 1 ? m : k == 2 ? m + vh_rn(&clk, 3000) : vc_us + 1 + (m - vc_us) / 2; }
	else vc_us += 1 + vh_rn(&clk, 500);
}
/* some task got control: what does that say about the sleepers? */
static void step(int me) {
	int i;
	T[me].ready = 0;
	vc_act(); vh_beat(); c_steps++;
	if (vh_rn(&clk, 3) == 0) vc_us += vh_rn(&clk, style == 1 ? 3000 : 60);
	for (i = 0; i <= nT; i++)
		if (i != me && T[i].sleeping && vc_us >= T[i].dl) {
			/* every other task may run a few times before a sleeper that is due is given control */
			if (++T[i].overdue > 8 * (live + 4) && !fifo) vh_fatal("late", "a sleeper whose time was up %llu us ago waits although %d other steps were made (%d tasks)", (unsigned long long)(vc_us - T[i].dl), T[i].overdue, live);
		}
}
static void sleep_for(int me, uint32_t ms) {
	tk *t = &T[me];
	uint64_t t0, t1;
	uint32_t r;
	int i;
	vc_act();
	t0 = vc_us;
	t->dl = t0 + (uint64_t)ms * 1000; t->overdue = 0; t->sleeping = 1;
	for (i = 0; i <= nT; i++) if (i != me && T[i].sleeping && T[i].dl == t->dl) c_same++;
	r = delay(ms);
	if (fifo) {
		t->sleeping = 0;
		for (i = 0; i < nT; i++) if (i != me && T[i].ready && T[i].since < t->dl)
			vh_fatal("sched:fifo", "a task whose sleep ended at %llu us ran (task %d of %d, kind %d) before one (%d, kind %d) that was ready since %llu us earlier", (unsigned long long)(t->dl % 1000000000), me, nT, t->kind, i, T[i].kind, (unsigned long long)(t->dl - T[i].since));
		for (i = 0; i < nT; i++) if (i != me && T[i].ready) c_fifo++;
		c_sleep++;
		sig = vh_mix(sig, (uint64_t)me);
		step(me);
		return;
	}
	VH_MUST(t->sleeping, "twice", "a sleeping task was continued twice");
	t->sleeping = 0;
	t1 = vc_us;
	VH_MUST(t1 >= t->dl, "early", "delay(%u) returned after %llu us", ms, (unsigned long long)(t1 - t0));
	VH_MUST((uint64_t)r >= ms && (uint64_t)r <= (t1 - t0) / 1000, "time-slept", "delay(%u) took %llu us and returned %u", ms, (unsigned long long)(t1 - t0), r);
	for (i = 0; i <= nT; i++)
		if (i != me && T[i].sleeping && T[i].dl < t->dl)
			vh_fatal("order", "a sleeper with a deadline %llu us later than that of another was woken first", (unsigned long long)(t->dl - T[i].dl));
	c_sleep++; if (!ms) c_zero++; if (ms > 5000) c_long++;
	sig = vh_mix(sig, (uint64_t)me);
	step(me);
}
static uint32_t genms(vh_rng *r, uint32_t max) {
	uint32_t k = vh_rn(r, 20);
	if (k == 0) return 0;
	if (k == 1) return 1;
	if (k == 2 && style == 2) switch (vh_rn(r, 6)) {
		case 0: return 1000000 + vh_rn(r, 2000000000u);
		case 1: return 2147483600u + vh_rn(r, 100); /* around the greatest signed number */
		case 2: return 2147483648u + vh_rn(r, 2147483647u);
		default: return 4290 + vh_rn(r, 20);
	}
	if (k < 6) return 1 + vh_rn(r, 4);
	return vh_rn(r, max);
}
static void *task(param_t a) {
	int me = a[0].integer, i, j;
	tk *t = &T[me];
	vh_rng r = {t->seed};
	for (i = 0; i < t->ops; i++) {
		step(me);
		if (t->kind == 1 || (t->kind == 2 && vh_rn(&r, 2))) {
			int n = 1 + (int)vh_rn(&r, 6);
			for (j = 0; j < n; j++) { T[me].ready = 1; T[me].since = vc_us; yield(); step(me); c_ready++; }
		} else sleep_for(me, genms(&r, t->maxms));
	}
	live--;
	return 0;
}
static void *driver(param_t a) {
	long c;
	(void)a;
	vc_idle = idle;
	for (c = 0; c < vh_cases; c++) {
		int i, mode;
		vh_case(c);
		memset(T, 0, sizeof T);
		sig = 1; clk.s = vh_rnd(); style = (int)vh_n(3); mode = (int)vh_n(4);
		nT = 1 + (int)vh_n(vh_p(80) ? 12 : MAXT - 1); live = nT;
		mainsleeps = vh_p(40);
		vc_on = 1; vc_act();
		for (i = 0; i < nT; i++) {
			tk *t = &T[i];
			t->seed = vh_rnd();
			t->ops = 1 + (int)vh_n(nT > 40 ? 6 : 25);
			t->kind = mode == 0 ? 0 : mode == 1 ? (int)vh_n(2) : (int)vh_n(3);
			t->maxms = vh_p(30) ? 4 : vh_p(60) ? 60 : 900;
			if (mode == 3 && vh_p(70)) t->maxms = 3;
			t->ready = 1; t->since = vc_us;
			if (vh_p(50)) async_task(task, 1, i); else { launch((launch_func_t)task, 1, i); }
			vc_act();
		}
		/* the main task sleeps and polls too */
		while (live > 0) {
			if (mainsleeps && vh_p(30)) { sleep_for(nT, genms(&clk, 50)); c_main++; }
			else { yield(); if (vh_p(30)) vc_us += 200; vc_us += 5; vh_beat(); }
		}
		vc_on = 0;
		vh_eval(1); vh_sig(sig);
		if (vh_want_sample()) vh_sample("%d tasks, mode %d, style %d; first: %d operations, up to %u ms", nT, mode, style, T[0].ops, T[0].maxms);
	}
	if (fifo) vh_count("tasks seen ready when a sleeper went on", c_fifo);
	vh_count("sleeps", c_sleep); vh_count("sleeps of 0 ms", c_zero); vh_count("sleeps over 5 s", c_long); vh_count("yields of ready tasks", c_ready); vh_count("steps observed", c_steps);
	vh_count("equal deadlines", c_same); vh_count("sleeps of the main task", c_main); vh_count("clock readings", vc_total); vh_count("clock jumps", vc_jumps);
	vh_exit();
	return 0;
}
int main(int argc, char **argv) {
	vh_init(argc, argv);
	fifo = (int)vh_arg("fifo", 0);
	ev_run(driver);
	return 0;
}
