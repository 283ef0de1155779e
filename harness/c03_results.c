/* C03: results of tasks: unique ids, readiness, await_for/results_for values, cancel requests. */
#include <events.h>
#include "vh.h"
#include "ev.h"

#define MAXT 20000
typedef struct { uint32_t id; void *val; unsigned char has, started, ended, canceled, plain; short ops; uint32_t rseed; } task_p;
static task_p *T;
static int nT, base_, live;	/* tasks of this process; first one of this case; not ended */
static long n_await, n_look, n_cancel, n_wait_real;
static uint64_t sig;

static void look(int i, const char *who) {
	task_p *p = &T[i];
	values_t v;
	bool r = task_is_ready(p->id);
	n_look++;
	VH_MUST(r == (bool)p->ended, "result:ready", "%s: task_is_ready(%u) is %d but the task has %s", who, p->id, (int)r, p->ended ? "returned" : "not returned");
	v = results_for(p->id);
	if (p->ended && p->has) VH_MUST(v.object == p->val, "result:value", "%s: results_for(%u) gives %p, the task returned %p (%d tasks created)", who, p->id, v.object, p->val, nT);
	else VH_MUST(v.object == NULL, "result:empty", "%s: results_for(%u) gives %p although the task %s", who, p->id, v.object, p->ended ? "returned nothing" : "has not returned");
}
static int mk(vh_rng *r);
static void *body(param_t args) {
	int me = args[0].integer, i, k;
	task_p *p = &T[me];
	vh_rng r;
	r.s = p->rseed;
	VH_MUST(!p->started, "sched:twice", "task %d runs twice", me);
	p->started = 1;
	vh_beat();
	if (!p->plain) VH_MUST(task_id() == p->id, "result:id", "task_id() in task %d is %u, async_task gave %u", me, task_id(), p->id);
	for (i = 0; i < p->ops; i++) {
		switch (vh_rn(&r, 12)) {
			case 0: case 1: case 2: case 3: yield(); break;
			case 4: if (vh_rn(&r, 4) == 0) delay(vh_rn(&r, 2)); break;
			case 5: if (nT < MAXT - 10 && vh_rn(&r, 2)) mk(&r); break;
			case 6: case 7: if (me > base_) {	/* only tasks created before this one: no cycles */
				int o = base_ + (int)vh_rn(&r, (uint32_t)(me - base_));
				if (!T[o].plain) {
					values_t v;
					if (!T[o].ended) n_wait_real++;
					v = await_for(T[o].id);
					n_await++;
					sig = vh_mix(sig, (uint64_t)me * 65536 + (uint64_t)o);
					VH_MUST(T[o].ended, "result:await-early", "await_for(%u) returned before the task ended", T[o].id);
					VH_MUST(v.object == (T[o].has ? T[o].val : NULL), "result:await-value", "await_for(%u) gives %p, the task returned %p", T[o].id, v.object, T[o].has ? T[o].val : NULL);
					look(o, "after await_for");
				}
			} break;
			case 8: case 9: k = (int)vh_rn(&r, (uint32_t)nT); if (vh_rn(&r, 2)) k = base_ + (int)vh_rn(&r, (uint32_t)(nT - base_)); if (!T[k].plain) look(k, "task"); break;
			case 10: if (vh_rn(&r, 3) == 0) {
				k = base_ + (int)vh_rn(&r, (uint32_t)(nT - base_));
				if (!T[k].plain && !T[k].ended) { T[k].canceled = 1; task_set_canceled(T[k].id); n_cancel++; }
			} break;
			default:
				VH_MUST(task_is_canceled() == (bool)p->canceled, "result:cancel", "task_is_canceled() in task %d (%s) is %d, cancel requests for it: %d", me, p->plain ? "without result" : "id", (int)!p->canceled, p->canceled);
		}
	}
	p->ended = 1;
	live--;
	return p->has ? p->val : NULL;
}
static void lbody(param_t args) { body(args); }
static int mk(vh_rng *r) {
	int i = nT++, j;
	task_p *p = &T[i];
	uint32_t k = vh_rn(r, 4);
	memset(p, 0, sizeof *p);
	p->ops = (short)vh_rn(r, vh_rn(r, 5) ? 12 : 60);
	p->rseed = (uint32_t)vh_rr(r);
	p->has = vh_rn(r, 10) != 0;
	p->val = k == 0 ? (void *)(uintptr_t)(vh_rr(r) | 1) : k == 1 ? (void *)(uintptr_t)(1 + vh_rn(r, 100)) : k == 2 ? (void *)-1L : (void *)p;
	p->plain = vh_rn(r, 12) == 0;
	live++;
	if (p->plain) { async_ex(9000, (launch_func_t)lbody, 1, (void *)(intptr_t)i); return i; }
	p->id = async_task(body, 1, (void *)(intptr_t)i);
	for (j = i - 1; j >= 0 && j > i - 40; j--) VH_MUST(T[j].plain || T[j].id != p->id, "result:id", "two tasks have the result id %u", p->id);
	VH_MUST(!T[i].ended, "result:id", "async_task ran its task at once");
	return i;
}
static void *mainfn(param_t args) {
	long c;
	int i, k;
	vh_rng r;
	(void)args;
	ev_ids();
	for (c = 0; c < vh_cases; c++) {
		vh_case(c);
		r.s = vh_rnd();
		if (nT > MAXT - 1500) break;
		base_ = nT; sig = 5;
		n_await = n_look = n_cancel = n_wait_real = 0;
		k = 1 + (int)vh_n(vh_p(10) ? 300 : 25);
		for (i = 0; i < k; i++) { mk(&r); if (vh_p(20)) yield(); }
		while (live) {
			yield();
			if (vh_p(20)) { k = (int)vh_n((uint32_t)nT); if (!T[k].plain) look(k, "main"); }
		}
		for (i = base_; i < nT; i++) if (!T[i].plain) look(i, "at the end");
		vh_eval(1);
		vh_count("tasks", nT - base_); vh_count("awaits", n_await); vh_count("awaits_that_waited", n_wait_real); vh_count("lookups", n_look); vh_count("cancels", n_cancel);
		if (n_await) vh_sig(vh_mix(sig, (uint64_t)(nT - base_)));
		vh_sample("case %ld: %d tasks (ids %u..), %ld awaits (%ld had to wait), %ld lookups, %ld cancels", c, nT - base_, T[base_].id, n_await, n_wait_real, n_look, n_cancel);
	}
	for (i = 0; i < nT; i++) if (!T[i].plain) look(i, "finally");	/* every result stays available */
	{	/* all ids are different */
		unsigned char *seen = calloc(1, MAXT * 4);
		for (i = 0; i < nT; i++) if (!T[i].plain && T[i].id < MAXT * 4) { VH_MUST(!seen[T[i].id], "result:id", "two tasks have the result id %u", T[i].id); seen[T[i].id] = 1; }
	}
	vh_exit();
	return NULL;
}
int main(int argc, char **argv) {
	vh_init(argc, argv);
	T = calloc(MAXT, sizeof *T);
	ev_run(mainfn);
	vh_fatal("sched:main-lost", "the scheduler returned before the main task ended (case %ld)", vh_casenr());
}
