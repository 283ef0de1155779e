/* C01: random programs of tasks; the order of all steps is compared with a FIFO reference model. */
#include <events.h>
#include "vh.h"
#include "ev.h"

#define MAXT 6000
#define MAXOPS 40
enum { OP_YIELD, OP_SPAWN, OP_LAUNCH, OP_EX, OP_MARK, OP_SUSPEND, OP_RESUME };
typedef struct { unsigned char op; short child; } op_t;
typedef struct {
	int nops, nargs, kind;
	op_t ops[MAXOPS];
	uint64_t args[40];
	int runs, susp, done;
	tasks_t *h;
	size_t stack;
} task_p;
static task_p T[MAXT];
static int nT;
typedef struct { short t, pc; } step_t;
static step_t *exp_tr;
static size_t n_exp, cap_exp, at;
static pthread_t self;
static uint64_t sig;
static int alive, resumes;
static long c_resumed, c_notsusp;

static void gen(int id, int depth, int budget) {
	task_p *p = &T[id];
	int i, kids = 0;
	p->nops = (int)vh_n(depth == 0 ? MAXOPS : 14);
	p->runs = p->susp = p->done = 0;
	for (i = 0; i < p->nops; i++) {
		uint32_t r = vh_n(100);
		p->ops[i].child = -1;
		if (r < 45) p->ops[i].op = OP_YIELD;
		else if (r < 85 && depth < 5 && nT < budget && nT < MAXT) {
			int c = nT++;
			task_p *q = &T[c];
			int k;
			p->ops[i].op = r < 65 ? OP_SPAWN : r < 75 ? OP_LAUNCH : OP_EX;
			p->ops[i].child = (short)c;
			q->kind = p->ops[i].op;
			q->nargs = vh_p(95) ? 1 + (int)vh_n(6) : vh_p(40) ? 12 : vh_p(50) ? 20 : 40;
			q->stack = (size_t)vh_n(4) * 9000;
			q->args[0] = (uint64_t)c;
			for (k = 1; k < q->nargs; k++) q->args[k] = vh_p(50) ? vh_rnd() : vh_p(50) ? vh_n(10) : (uint64_t)(uintptr_t)q;
			kids++;
			gen(c, depth + 1, budget);
		} else if (resumes && id && vh_p(40)) p->ops[i].op = OP_SUSPEND;
		else if (resumes && vh_p(60)) { p->ops[i].op = OP_RESUME; p->ops[i].child = (short)vh_n(MAXT); }
		else p->ops[i].op = OP_MARK;
	}
}
/* the task a resume is for: the next suspended one, else one that is ready or runs; -1: none */
static int target(int from) {
	int i;
	from %= nT;
	for (i = 0; i < nT; i++) if (T[(from + i) % nT].susp) return (from + i) % nT;
	return T[from].runs && !T[from].done ? from : -1;
}
static int waiting(void) {
	int i;
	if (resumes) for (i = 1; i < nT; i++) if (T[i].susp) return i;
	return -1;
}
/* --- reference: one FIFO queue ------------------------------------------------------------ */
static short Q[65536];
static unsigned qh, qt;
static void emit(int t, int pc) {
	if (n_exp == cap_exp) { cap_exp = cap_exp ? cap_exp * 2 : 4096; exp_tr = realloc(exp_tr, cap_exp * sizeof *exp_tr); }
	exp_tr[n_exp].t = (short)t; exp_tr[n_exp].pc = (short)pc; n_exp++;
}
#define qpush(x) (Q[qt++ & 65535] = (short)(x))
static void model(void) {
	static int pc[MAXT];
	int left = nT, t, sw, k;
	n_exp = 0; qh = qt = 0;
	memset(pc, 0, sizeof pc);
	qpush(0);
	for (t = 0; t < nT; t++) T[t].runs = T[t].susp = T[t].done = 0;
	while (left) {
		if (qh == qt) vh_broken("model: empty queue");
		t = Q[qh++ & 65535];
		T[t].runs = 1;
		for (sw = 0; !sw;) {
			if (pc[t] >= T[t].nops) {
				emit(t, T[t].nops);
				if (t || left == 1) { left--; sw = 1; T[t].done = 1; }	/* the main task waits for the others */
				else { sw = 1; if ((k = waiting()) >= 0) { T[k].susp = 0; qpush(k); } qpush(0); n_exp--; }
				break;
			}
			emit(t, pc[t]);
			switch (T[t].ops[pc[t]].op) {
				case OP_YIELD: qpush(t); sw = 1; break;
				case OP_SUSPEND: T[t].susp = 1; sw = 1; break;
				case OP_RESUME:
					if ((k = target(T[t].ops[pc[t]].child)) < 0) break;
					if (T[k].susp) { T[k].susp = 0; qpush(k); }
					qpush(t); sw = 1;
					break;
				case OP_SPAWN: case OP_EX: qpush(T[t].ops[pc[t]].child); break;
				case OP_LAUNCH: qpush(T[t].ops[pc[t]].child); qpush(t); sw = 1; break;
				default: break;
			}
			pc[t]++;
		}
	}
}
/* --- the real thing ------------------------------------------------------------------------ */
static void step(int t, int pc) {
	VH_MUST(at < n_exp, "sched:extra-step", "step %d of task %d after the end of all tasks", pc, t);
	VH_MUST(exp_tr[at].t == t && exp_tr[at].pc == pc, "sched:order", "step %zu is task %d op %d, FIFO order has task %d op %d (%d tasks)",
		at, t, pc, exp_tr[at].t, exp_tr[at].pc, nT);
	VH_MUST(pthread_equal(self, pthread_self()), "sched:thread", "task %d runs on another thread", t);
	at++;
	vh_beat();
}
static void *body(param_t args);
static void lbody(param_t args) { body(args); }
static void spawn_it(int c) {
	task_p *q = &T[c];
#define A(i) ((void *)(uintptr_t)q->args[i])
#define CALL(f, pre) switch (q->nargs) { \
	case 1: f(pre 1, A(0)); break; case 2: f(pre 2, A(0), A(1)); break; case 3: f(pre 3, A(0), A(1), A(2)); break; \
	case 4: f(pre 4, A(0), A(1), A(2), A(3)); break; case 5: f(pre 5, A(0), A(1), A(2), A(3), A(4)); break; \
	case 6: f(pre 6, A(0), A(1), A(2), A(3), A(4), A(5)); break; \
	case 12: f(pre 12, A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9), A(10), A(11)); break; case 20: f(pre 20, A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9), A(10), A(11), A(12), A(13), A(14), A(15), A(16), A(17), A(18), A(19)); break; \
	default: f(pre 40, A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9), A(10), A(11), A(12), A(13), A(14), A(15), A(16), A(17), A(18), A(19), A(20), A(21), A(22), A(23), A(24), A(25), A(26), A(27), A(28), A(29), A(30), A(31), A(32), A(33), A(34), A(35), A(36), A(37), A(38), A(39)); break; }
#define C_ ,
#define P_SPAWN body,
#define P_EX q->stack, (launch_func_t)lbody,
#define P_L (launch_func_t)lbody,
	if (q->kind == OP_SPAWN) { CALL(async_task, P_SPAWN) }
	else if (q->kind == OP_EX) { CALL(async_ex, P_EX) }
	else { CALL(launch, P_L) }
}
static void *run(int t) {
	int i, k;
	T[t].h = active_task();
	for (i = 0; i < T[t].nops; i++) {
		step(t, i);
		switch (T[t].ops[i].op) {
			case OP_YIELD: yield(); break;
			case OP_SUSPEND: T[t].susp = 1; suspend(); break;
			case OP_RESUME:
				if ((k = target(T[t].ops[i].child)) < 0) break;
				if (T[k].susp) c_resumed++; else c_notsusp++;
				T[k].susp = 0;
				resume(T[k].h);
				break;
			case OP_SPAWN: case OP_LAUNCH: case OP_EX: spawn_it(T[t].ops[i].child); break;
			default: break;
		}
	}
	return NULL;
}
static void *body(param_t args) {
	uint64_t t = (uint64_t)(uintptr_t)args[0].object;
	task_p *q;
	int k;
	VH_MUST(t < (uint64_t)nT, "sched:args", "first argument of a task is %llx", (unsigned long long)t);
	q = &T[t];
	for (k = 0; k < q->nargs; k++)
		VH_MUST((uint64_t)(uintptr_t)args[k].object == q->args[k], "sched:args", "argument %d of task %d is %p, given %llx", k, (int)t, args[k].object, (unsigned long long)q->args[k]);
	VH_MUST(q->runs++ == 0, "sched:twice", "task %d runs a second time", (int)t);
	alive++;
	run((int)t);
	step((int)t, q->nops);
	q->done = 1;
	alive--;
	sig = vh_mix(sig, (uint64_t)t);
	return NULL;
}
static void *mainfn(param_t args) {
	long c;
	int i, budgets[] = {2, 5, 12, 40, 120, 400};
	(void)args;
	self = pthread_self();
	ev_ids();
	for (c = 0; c < vh_cases; c++) {
		size_t ny = 0;
		vh_case(c);
		nT = 1; resumes = vh_p(50);
		gen(0, 0, vh_n(150) ? budgets[vh_n(6)] : MAXT);
		model();
		for (i = 0; i < nT; i++) T[i].runs = T[i].susp = T[i].done = 0;
		T[0].runs = 1;
		at = 0; sig = 7; alive = 0;
		run(0);
		for (i = 0; at < n_exp - 1; i++) {
			size_t b = at;
			int k = waiting();
			if (k >= 0) { T[k].susp = 0; resume(T[k].h); c_resumed++; } else yield();
			VH_MUST(at > b, "sched:lost", "no task ran although %zu steps of %d tasks are left: next would be task %d op %d", n_exp - at, nT, exp_tr[at].t, exp_tr[at].pc);
		}
		step(0, T[0].nops);
		for (i = 1; i < nT; i++) VH_MUST(T[i].runs == 1, "sched:lost", "task %d of %d ran %d times", i, nT, T[i].runs);
		for (ny = 0; ny < n_exp; ny++) sig = vh_mix(sig, (uint64_t)exp_tr[ny].t);
		vh_eval(1);
		vh_count("steps", (long)n_exp);
		vh_count("tasks", nT);
		vh_count("suspended_tasks_resumed", c_resumed); vh_count("resumes_of_ready_tasks", c_notsusp);
		c_resumed = c_notsusp = 0;
		if (nT > 2) vh_sig(sig);
		if (nT > 3 && nT < 7 && vh_want_sample()) {
			char b[400]; int n = 0; size_t k;
			for (k = 0; k < n_exp && n < 350; k++) n += snprintf(b + n, sizeof b - n, "%d.%d ", exp_tr[k].t, exp_tr[k].pc);
			vh_sample("case %ld: %d tasks, observed order task.op: %s", c, nT, b);
		}
	}
	vh_exit();
	return NULL;
}
int main(int argc, char **argv) {
	vh_init(argc, argv);
	ev_run(mainfn);
	vh_fatal("sched:main-lost", "the scheduler returned before the main task ended (case %ld)", vh_casenr());
}
