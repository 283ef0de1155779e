/* C05: task groups: tasks_wait returns after all tasks of the group, with exactly their results. */
#include <events.h>
#include "vh.h"
#include "ev.h"

typedef struct { int started, ended, steps, kind, delays; uint32_t id; void *val; unsigned char plain; } wk;
typedef struct { int n, maxd; wk w[150]; int done; int idx; uint64_t seed; } grp;
static grp G[16];
static int nG, bg_live, bg_stop, active;
static long n_overlap, n_tasks;
static uint64_t sig, sig_case;

static void run_group(grp *g, vh_rng *r, int depth);
static void *worker(param_t args) {
	grp *g = args[0].object;
	wk *w = &g->w[args[1].integer];
	vh_rng r;
	int i;
	r.s = g->seed + (uint64_t)args[1].integer * 77;
	VH_MUST(++w->started == 1, "group:twice", "a task of the group runs twice");
	VH_MUST(args[2].object == w, "group:args", "argument of a task of the group changed");
	for (i = 0; i < w->steps; i++) {
		vh_beat();
		if (w->delays && vh_rn(&r, 3) == 0) delay(vh_rn(&r, (uint32_t)w->delays));
		else yield();
		VH_MUST(!g->done, "group:early", "tasks_wait returned while task %d of %d of the group was running", args[1].integer, g->n);
	}
	if (w->kind == 3 && nG < 14 && active < 4) {	/* a group inside a group */
		grp *q = &G[nG++];
		run_group(q, &r, 1);
	}
	sig = vh_mix(sig, (uint64_t)args[1].integer);
	w->ended = 1;
	return w->val;
}
static void plain_worker(param_t args) { worker(args); }
static void *background(param_t args) {
	int n = args[0].integer, i;
	for (i = 0; i < n; i++) { yield(); if (i % 5 == 4 && args[1].integer) delay(1); }
	bg_live--;
	return NULL;
}
static void run_group(grp *g, vh_rng *r, int depth) {
	task_group_t *wg;
	array_t res;
	int i, k, want = 0, got;
	uint32_t sz = vh_rn(r, 10);
	memset(g, 0, sizeof *g);
	active++;
	if (active > 1) n_overlap++;
	g->n = depth ? (int)vh_rn(r, 6) : sz == 0 ? (int)vh_rn(r, 150) : sz == 1 ? 1 : (int)vh_rn(r, 12);
	g->seed = vh_rr(r);
	wg = task_group();
	for (i = 0; i < g->n; i++) {
		wk *w = &g->w[i];
		uint32_t m = vh_rn(r, 6);
		w->steps = m == 0 ? 0 : (int)vh_rn(r, m == 1 ? 40 : 6);
		w->delays = m == 2 || m == 3 ? 1 + (int)vh_rn(r, 4) : 0;
		w->kind = (int)vh_rn(r, 20);
		w->plain = vh_rn(r, 10) == 0;
		w->val = vh_rn(r, 3) == 0 || w->plain ? NULL : (void *)(uintptr_t)(vh_rr(r) | 1);
		if (w->plain) async_ex(12000, (launch_func_t)plain_worker, 3, g, (void *)(intptr_t)i, w);
		else w->id = async_task(worker, 3, g, (void *)(intptr_t)i, w);
		if (w->val) want++;
	}
	VH_MUST((int)tasks_count(wg) == g->n, "group:count", "tasks_count is %d for %d tasks", (int)tasks_count(wg), g->n);
	n_tasks += g->n;
	res = tasks_wait(wg);
	g->done = 1;
	active--;
	for (i = 0; i < g->n; i++)
		VH_MUST(g->w[i].ended, "group:early", "tasks_wait returned before task %d of %d ended (started: %d)", i, g->n, g->w[i].started);
	got = res ? (int)$size(res) : 0;
	VH_MUST(got == want, "group:results", "tasks_wait gives %d ids, %d of %d tasks returned a value", got, want, g->n);
	for (i = 0; i < g->n; i++) {
		int times = 0;
		wk *w = &g->w[i];
		for (k = 0; k < got; k++) if (!w->plain && res[k].max_size == w->id) times++;
		VH_MUST(times == (w->val ? 1 : 0), "group:results", "id %u is %d times in the array, the task returned %p", w->id, times, w->val);
		if (!w->plain) VH_MUST(results_for(w->id).object == w->val, "group:value", "results_for(%u) is %p, the task returned %p", w->id, results_for(w->id).object, w->val);
	}
	vh_beat();
}
static int cli;
static void *client(param_t args) {
	vh_rng r;
	r.s = (uint64_t)(uintptr_t)args[0].object;
	run_group(&G[args[1].integer], &r, 0);
	cli--;
	return NULL;
}
static void *mainfn(param_t args) {
	long c;
	int i, k;
	vh_rng r;
	(void)args;
	ev_ids();
	for (c = 0; c < vh_cases; c++) {
		vh_case(c);
		r.s = vh_rnd();
		nG = 1; n_overlap = n_tasks = 0; sig = 9;
		bg_live = (int)vh_n(4);
		for (i = bg_live; i > 0; i--) async_task(background, 2, (void *)(intptr_t)vh_n(200), (void *)(intptr_t)vh_n(2));
		cli = k = vh_p(40) ? (int)vh_n(4) : 0;	/* other tasks that wait for groups of their own */
		nG = k + 1;
		for (i = 0; i < k; i++) async_task(client, 2, (void *)(uintptr_t)vh_rnd(), (void *)(intptr_t)(i + 1));
		run_group(&G[0], &r, 0);
		for (i = 0; cli || bg_live; i++) { yield(); }
		vh_eval(1);
		vh_count("group_tasks", n_tasks); vh_count("groups", nG); vh_count("groups_waiting_at_once", n_overlap);
		if (n_tasks > 1) vh_sig(sig);
		vh_sample("case %ld: %d groups (%ld while another waited), %ld tasks, first group had %d", c, nG, n_overlap, n_tasks, G[0].n);
	}
	vh_exit();
	return NULL;
}
int main(int argc, char **argv) {
	vh_init(argc, argv);
	ev_run(mainfn);
	vh_fatal("sched:main-lost", "the scheduler returned before the main task ended (case %ld)", vh_casenr());
}
