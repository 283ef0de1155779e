/* C07: go() and wait groups over the threads of the pool. */
#include <events.h>
#include <except.h>
#include "vh.h"
#include "ev.h"
#define MAXT 3000
typedef struct { int nargs, runs, steps, delay, has, depth, sub, aw, ended, grp, cleaned, grd; uint32_t id; void *a[6], *val; pthread_t th; vh_rng r; int child[4]; } tk;
static tk T[MAXT];
static int nT, done_tasks, cur;
static pthread_t main_thread;
static pthread_t thr[64];
static int nthr, thr_used[64];
static atomic_spinlock thr_lock;
static long c_tasks, c_groups, c_conc, c_sub, c_aw, c_ff, c_guard, c_empty, c_on_main, c_ids, c_over, c_max;
static int new_task(uint64_t seed, int depth, int grp) {
	int n = __atomic_fetch_add(&nT, 1, __ATOMIC_SEQ_CST), i;
	tk *t;
	if (n >= MAXT) { __atomic_fetch_sub(&nT, 1, __ATOMIC_SEQ_CST); return -1; }
	t = &T[n]; memset(t, 0, sizeof *t);
	t->r.s = seed | 1; vh_rr(&t->r);
	t->nargs = 1 + (int)vh_rn(&t->r, 6); t->a[0] = (void *)(intptr_t)n;
	for (i = 1; i < 6; i++) t->a[i] = vh_rn(&t->r, 2) ? (void *)(intptr_t)vh_rn(&t->r, 1000) : (void *)(intptr_t)vh_rr(&t->r);
	t->steps = vh_rn(&t->r, 3) ? (int)vh_rn(&t->r, 4) : (int)vh_rn(&t->r, 40);
	t->delay = vh_rn(&t->r, 5) == 0 ? (int)vh_rn(&t->r, 4) : -1;
	t->has = vh_rn(&t->r, 10) < 7;
	t->val = t->has ? vh_rn(&t->r, 3) ? (void *)(intptr_t)(n * 7 + 1) : (void *)&T[n] : NULL;
	if (t->has && vh_rn(&t->r, 10) == 0) t->val = (void *)(intptr_t)-(long)(n + 1);
	t->depth = depth; t->grp = grp;
	t->sub = depth < 3 && vh_rn(&t->r, 10) < (grp ? 1 : 2) ? 1 + (int)vh_rn(&t->r, 3) : 0;
	t->aw = vh_rn(&t->r, 2);
	return n;
}
static void *body(param_t args);
static uint32_t start(int n) {
	void **a = T[n].a;
	switch (T[n].nargs) {
		case 1: return go(body, 1, a[0]);
		case 2: return go(body, 2, a[0], a[1]);
		case 3: return go(body, 3, a[0], a[1], a[2]);
		case 4: return go(body, 4, a[0], a[1], a[2], a[3]);
		case 5: return go(body, 5, a[0], a[1], a[2], a[3], a[4]);
		default: return go(body, 6, a[0], a[1], a[2], a[3], a[4], a[5]);
	}
}
static void where(tk *t, int n) { if (!pthread_equal(t->th, pthread_self())) vh_fatal("go:thread", "task %d started on one thread and goes on on another", n); }
static void *body(param_t args) {
	int n = (int)args[0].integer, i;
	tk *t;
	char local[200];
	if (n < 0 || n >= nT) vh_fatal("go:arguments", "a task got %d as its first argument of %d tasks", n, nT);
	t = &T[n];
	if (__atomic_add_fetch(&t->runs, 1, __ATOMIC_SEQ_CST) != 1) vh_fatal("go:runs", "task %d runs again", n);
	t->th = pthread_self();
	if ((int)$size(args) != t->nargs) vh_fatal("go:arguments", "task %d has %d arguments instead of %d", n, (int)$size(args), t->nargs);
	for (i = 1; i < t->nargs; i++) if (args[i].object != t->a[i]) vh_fatal("go:arguments", "task %d: argument %d is %p instead of %p", n, i, args[i].object, t->a[i]);
	if (!t->grp && pthread_equal(t->th, main_thread)) vh_fatal("go:thread", "task %d, started with go() outside of a wait group, runs on the main thread", n);
	memset(local, n, sizeof local);
	atomic_lock(&thr_lock);
	for (i = 0; i < nthr && !pthread_equal(thr[i], t->th); i++);
	if (i == nthr && nthr < 64) thr[nthr++] = t->th;
	if (i < 64) thr_used[i]++;
	atomic_unlock(&thr_lock);
	for (i = 0; i < t->sub; i++) {
		int c = new_task(vh_rr(&t->r), t->depth + 1, 0);
		if (c < 0) { t->child[i] = -1; continue; }
		t->child[i] = c;
		__atomic_fetch_add(&c_sub, 1, __ATOMIC_RELAXED);
		T[c].id = start(c);
	}
	for (i = 0; i < t->steps; i++) {
		yield(); where(t, n);
		if (i == t->steps / 2 && t->delay >= 0) { delay((uint32_t)t->delay); where(t, n); }
	}
	if (!t->steps && t->delay >= 0) { delay((uint32_t)t->delay); where(t, n); }
	if (t->aw) for (i = 0; i < t->sub; i++) if (t->child[i] >= 0) {
		int c = t->child[i];
		values_t v = await_for(T[c].id);
		where(t, n); __atomic_fetch_add(&c_aw, 1, __ATOMIC_RELAXED);
		if (!T[c].ended || v.object != T[c].val) vh_fatal("go:result", "await_for task %d gives %p, it %s %p", c, v.object, T[c].ended ? "returned" : "has not ended and will return", T[c].val);
	}
	for (i = 0; i < (int)sizeof local; i++) if (local[i] != (char)n) vh_fatal("go:locals", "a local variable of task %d has changed", n);
	if (pthread_equal(t->th, main_thread)) __atomic_fetch_add(&c_on_main, 1, __ATOMIC_RELAXED);
	__atomic_store_n(&t->ended, 1, __ATOMIC_SEQ_CST);
	return t->val;
}
static void cleanup(void *p) { tk *t = p; if (__atomic_add_fetch(&t->cleaned, 1, __ATOMIC_SEQ_CST) != 1) vh_fatal("go:cleanup", "cleaned up again"); if (!t->ended) vh_fatal("go:cleanup", "cleaned up before the task ended"); }
static void guarded_body(void *p) {
	param_t args = p;
	tk *t = args[0].object;
	if (__atomic_add_fetch(&t->runs, 1, __ATOMIC_SEQ_CST) != 1) vh_fatal("go:runs", "a guarded task runs again");
	yield();
	__atomic_store_n(&t->ended, 1, __ATOMIC_SEQ_CST);
}
static void check(int n, const char *how) {
	values_t v = results_for(T[n].id);
	if (!T[n].ended) vh_fatal("go:early", "%s: task %d has not ended", how, n);
	if (!task_is_ready(T[n].id)) vh_fatal("go:ready", "%s: task %d has ended and is not ready", how, n);
	if (v.object != T[n].val) vh_fatal("go:result", "%s: the result of task %d is %p, it returned %p", how, n, v.object, T[n].val);
}
static int running_groups;
static void *group(param_t args) {
	int n = args[0].integer, i, k, want = 0, *m, before = vh_p(30);
	uint32_t cap = vh_p(50) ? (uint32_t)n : vh_p(50) ? (uint32_t)n / 2 : (uint32_t)n * 2 + vh_n(20);
	waitgroup_t wg;
	array_t r;
	m = malloc(((size_t)n + 1) * sizeof *m);
	if (++running_groups > 1) c_conc++;
	wg = waitgroup(cap);
	VH_MUST(is_waitgroup(wg), "go:group", "not a wait group");
	for (i = k = 0; i < n; i++) {
		int c = new_task(vh_rnd(), 0, 1);
		if (c < 0) break;
		m[k++] = c;
		T[c].id = start(c);
		want += T[c].has;
		if (vh_p(5) && before) yield();
	}
	if ((uint32_t)k > cap) c_over++;
	if (k > c_max) c_max = k;
	r = waitfor(wg);
	for (i = 0; i < k; i++) { VH_MUST(T[m[i]].runs == 1 && T[m[i]].ended, "go:early", "waitfor returned, task %d of %d of the group ran %d times and has%s ended", i, k, T[m[i]].runs, T[m[i]].ended ? "" : " not"); check(m[i], "after waitfor"); }
	VH_MUST(want == (r ? (int)$size(r) : 0), "go:ids", "waitfor returned %d ids, %d of %d tasks returned a value", r ? (int)$size(r) : 0, want, k);
	if (r) for (i = 0; i < (int)$size(r); i++) {
		int j, f = 0;
		c_ids++;
		for (j = 0; j < k; j++) if (T[m[j]].id == (uint32_t)r[i].u_int && T[m[j]].has) { f++; T[m[j]].has = 2; }
		VH_MUST(f == 1, "go:ids", "waitfor returned id %u, which is not the id of a task of the group with a value", r[i].u_int);
		for (j = 0; j < i; j++) VH_MUST(r[i].u_int != r[j].u_int, "go:ids", "waitfor returned id %u twice", r[i].u_int);
	}
	if (!k) c_empty++;
	c_groups++; running_groups--; done_tasks++;
	free(m);
	return 0;
}
static void *plain(param_t args) {
	int n = args[0].integer, i, k = 0, m[64];
	for (i = 0; i < n && i < 64; i++) {
		int c = new_task(vh_rnd(), 0, 0);
		if (c < 0) break;
		if (vh_p(10)) { T[c].grd = 1; T[c].val = NULL; go_guard(Kb(32), (guarded_func_t)guarded_body, cleanup, &T[c]); c_guard++; continue; }
		m[k++] = c;
		T[c].id = start(c);
		if (vh_p(30)) yield();
	}
	while (k) {
		int x = (int)vh_n((uint32_t)k), c = m[x];
		m[x] = m[--k];
		if (vh_p(30)) { c_ff++; continue; }
		{ values_t v = await_for(T[c].id); c_aw++; VH_MUST(v.object == T[c].val && T[c].ended, "go:result", "await_for task %d gives %p, it %s %p", c, v.object, T[c].ended ? "returned" : "has not ended and will return", T[c].val); }
		check(c, "after await_for");
	}
	done_tasks++;
	return 0;
}
static void *run(param_t args) {
	long c;
	int i, n;
	main_thread = pthread_self();
	ev_ids();
	for (c = 0; c < vh_cases; c++) {
		uint64_t s = 5;
		vh_case(c); vh_watchdog(60);
		nT = 0; done_tasks = 0;
		n = vh_p(60) ? 1 : 1 + (int)vh_n(4);
		for (i = 0; i < n; i++) (void)async_task(vh_p(65) ? group : plain, 1, (void *)(intptr_t)(vh_p(20) ? vh_n(200) : vh_n(24)));
		while (done_tasks < n) { vh_beat(); yield(); }
		for (i = 0; i < nT; i++) {
			uint64_t e = vh_calm() + 30000000000ull;
			while (!__atomic_load_n(&T[i].ended, __ATOMIC_SEQ_CST) || (T[i].grd && !__atomic_load_n(&T[i].cleaned, __ATOMIC_SEQ_CST))) {
				if (vh_calm() > e) vh_fatal("go:lost", "task %d of %d has not ended, it ran %d times", i, nT, T[i].runs);
				yield();
			}
		}
		for (i = 0; i < nT; i++) {
			if (!T[i].grd) { uint64_t e = vh_calm() + 30000000000ull; while (!task_is_ready(T[i].id)) { if (vh_calm() > e) break; yield(); } check(i, "at the end"); }
			VH_MUST(T[i].runs == 1, "go:runs", "task %d ran %d times", i, T[i].runs);
			s = vh_mix(s, (uint64_t)T[i].steps * 8 + (uint64_t)T[i].has);
			{ int k; for (k = 0; k < nthr && !pthread_equal(thr[k], T[i].th); k++); s = vh_mix(s, (uint64_t)k); }
		}
		c_tasks += nT;
		vh_eval(1);
		if (nT > 1) vh_sig(s);
		if (vh_want_sample()) vh_sample("%d tasks of the main thread start %d tasks", n, nT);
	}
	vh_count("tasks", c_tasks); vh_count("groups", c_groups); vh_count("groups waited for at the same time", c_conc); vh_count("empty groups", c_empty); vh_count("groups larger than declared", c_over); vh_count("largest group", c_max);
	vh_count("ids returned by waitfor", c_ids); vh_count("tasks started by tasks of the pool", c_sub); vh_count("await_for", c_aw); vh_count("not awaited", c_ff); vh_count("guarded tasks", c_guard); vh_count("group tasks on the main thread", c_on_main); vh_count("threads", nthr);
	vh_exit();
	return 0;
}
int main(int argc, char **argv) {
	vh_init(argc, argv);
	if (events_init(1024)) vh_fatal("failed", "events_init failed");
	events_set_main((main_cb)run);
	events_t *loop = events_init_pool((uint32_t)vh_arg("pool", 1));
	async_task(run, 0);
	async_run(loop);
	vh_fatal("main-lost", "the scheduler returned before the main task ended");
	return 0;
}
