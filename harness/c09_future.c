/* C09: futures: run once in a new thread with their arguments; values, errno and exceptions arrive. */
#include <events.h>
#include <except.h>
#include <sys/wait.h>
#include <signal.h>
#include "vh.h"
#include "ev.h"
#include <time.h>
#include <sched.h>
#define MAXF 4000
extern int vj_rate __attribute__((weak));
enum { V_INT, V_NEG, V_PTR, V_NULL, V_TUPLE, V_ARR, V_THROW, V_PANIC, V_RECOVER, V_NK };
enum { E_DIV, E_OOM, E_LOGIC, E_TYPE, E_FUT, E_FPE, E_SEGV, NE };
static const char *enames[] = { "division_by_zero", "out_of_memory", "logic_error", "invalid_type", "future_error", "sig_fpe", "sig_segv" };
static const char *messages[] = { "no more room", "the wheel is broken", "x", "closed" };
typedef struct { int kind, nargs, runs, err, ended, cleanups, ncl, sleep, ex, depth, inner, trys, forget, collected; pthread_t by; pthread_t th; void *a[6]; void *val; int child; } fut;
static fut J[MAXF];
static int nJ, live, maxlive;
static long c_fut, c_get, c_ex, c_sig, c_tuple, c_err, c_wait, c_poll, c_early, c_twice, c_nest, c_rec, c_clean, c_forget, c_none;
#define ADD(x) __atomic_add_fetch(&x, 1, __ATOMIC_SEQ_CST)
#define GET(x) __atomic_load_n(&x, __ATOMIC_SEQ_CST)
static char text[64];
static volatile int zero;
static volatile int *volatile nowhere;
static void cleanup(void *p) {
	fut *j = p;
	ADD(j->cleanups); ADD(c_clean);
	if (j->a[0] != (void *)(intptr_t)(j - J)) vh_fatal("future:cleanup", "a cleanup of a future got a wrong argument");
}
static void cleanup_rec(void *p) {
	fut *j = p;
	cleanup(p);
	if (j->kind == V_PANIC) guard_caught(messages[j->ex]); else guard_caught(enames[j->ex]);
}
static __attribute__((noinline)) void raise_at(int depth, fut *j) {
	volatile char pad[200];
	pad[depth] = 1;
	if (depth > 0) { raise_at(depth - 1, j); pad[0] = 2; return; }
	if (j->kind == V_PANIC) panic(messages[j->ex]);
	switch (j->ex) {
		case E_DIV: throw(division_by_zero); break;
		case E_OOM: throw(out_of_memory); break;
		case E_LOGIC: throw(logic_error); break;
		case E_TYPE: throw(invalid_type); break;
		case E_FUT: throw(future_error); break;
		case E_FPE: zero = 7 / zero; break;
		case E_SEGV: *nowhere = 1; break;
	}
}
static int spawn_one(int depth, future_t *f);
static void collect(int n, future_t f);
static void nap(int ms) { if (ms < 0) { volatile int i; for (i = 0; i < -ms; i++); } else if (ms) vh_msleep(ms); }
static void *fn(param_t args) {
	int n = args ? (int)args[0].integer : -1, i;
	fut *j;
	if (n < 0 || n >= GET(nJ)) vh_fatal("future:arguments", "a future got %d as its first argument of %d futures", n, nJ);
	j = &J[n];
	if (ADD(j->runs) != 1) vh_fatal("future:runs", "future %d runs again", n);
	if (pthread_equal(pthread_self(), j->by)) vh_fatal("future:thread", "future %d runs on the thread that made it", n);
	j->th = pthread_self();
	if ((int)$size(args) != j->nargs) vh_fatal("future:arguments", "future %d has %d arguments instead of %d", n, (int)$size(args), j->nargs);
	for (i = 1; i < j->nargs; i++) if (args[i].object != j->a[i]) vh_fatal("future:arguments", "future %d: argument %d is %p instead of %p", n, i, args[i].object, j->a[i]);
	for (i = 0; i < j->ncl; i++) defer(cleanup, j);
	nap(j->sleep);
	if (j->trys) {
		volatile int seen = 0;
		try { throw(range_error); } catch (range_error) { seen = 1; }
		if (!seen) vh_fatal("future:try", "an exception of a try block in a future was not caught there");
	}
	if (j->inner) {
		future_t f;
		int m = spawn_one(j->depth + 1, &f);
		if (m >= 0) { ADD(c_nest); collect(m, f); }
	}
	for (i = 1; i < j->nargs; i++) if (args[i].object != j->a[i]) vh_fatal("future:arguments", "future %d: argument %d became %p instead of %p", n, i, args[i].object, j->a[i]);
	if (j->kind == V_RECOVER) defer(cleanup_rec, j);
	__atomic_store_n(&j->ended, 1, __ATOMIC_SEQ_CST);
	if (j->kind == V_THROW || j->kind == V_PANIC || j->kind == V_RECOVER) raise_at(j->err % 7, j);
	errno = j->err;
	if (j->kind == V_TUPLE) return $(j->val);
	if (j->kind == V_ARR) return $$(j->val, (void *)(intptr_t)n);
	return j->val;
}
static int in_loop;
static pthread_t loop_thread;
static int in_task(void) { return in_loop && pthread_equal(pthread_self(), loop_thread); }
static vh_rng *rng(void) { static __thread vh_rng r; if (!r.s) r.s = vh_rnd(); return &r; }
static int gp(int p) { return (int)vh_rn(rng(), 100) < p; }
static uint32_t gn(uint32_t n) { return vh_rn(rng(), n); }
static int cap = 40, signals_ok;
static int spawn_one(int depth, future_t *f) {
	int n = __atomic_fetch_add(&nJ, 1, __ATOMIC_SEQ_CST), i, l;
	fut *j = &J[n];
	if (n >= MAXF) vh_broken("too many futures");
	memset(j, 0, sizeof *j);
	if ((l = ADD(live)) > cap && depth) { __atomic_sub_fetch(&live, 1, __ATOMIC_SEQ_CST); j->runs = j->collected = j->ended = 1; j->kind = V_NULL; return -1; }
	{ int m = GET(maxlive); while (l > m && !__atomic_compare_exchange_n(&maxlive, &m, l, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)); }
	j->by = pthread_self(); j->depth = depth;
	j->nargs = 1 + (int)gn(6); j->a[0] = (void *)(intptr_t)n;
	for (i = 1; i < 6; i++) j->a[i] = gp(50) ? (void *)(intptr_t)gn(1000) : (void *)(intptr_t)vh_rr(rng());
	j->kind = (int)gn(V_NK);
	j->val = j->kind == V_NULL ? NULL : j->kind == V_NEG ? (void *)(intptr_t)-1 : j->kind == V_PTR ? (void *)&text[gn(64)] : (void *)(intptr_t)(n + 1 + gn(1000) * 10000);
	if (j->kind == V_INT && gp(10)) j->val = (void *)(intptr_t)(-(long)(n + 2));
	if (j->kind == V_RECOVER) j->val = NULL;
	j->err = gp(50) ? 1 + (int)gn(130) : 0;
	j->ex = j->kind == V_PANIC ? (int)gn(4) : (int)gn(signals_ok ? NE : E_FPE);
	j->ncl = gp(50) ? 0 : (int)gn(4);
	j->sleep = gp(40) ? 0 : gp(50) ? -(int)gn(20000) : (int)gn(4);
	j->trys = gp(20);
	j->inner = depth < 3 && gp(depth ? 30 : 15);
	ADD(c_fut);
	switch (j->nargs) {
		case 1: *f = thrd_async(fn, 1, j->a[0]); break;
		case 2: *f = thrd_async(fn, 2, j->a[0], j->a[1]); break;
		case 3: *f = thrd_async(fn, 3, j->a[0], j->a[1], j->a[2]); break;
		case 4: *f = thrd_async(fn, 4, j->a[0], j->a[1], j->a[2], j->a[3]); break;
		case 5: *f = thrd_async(fn, 5, j->a[0], j->a[1], j->a[2], j->a[3], j->a[4]); break;
		default: *f = thrd_async(fn, 6, j->a[0], j->a[1], j->a[2], j->a[3], j->a[4], j->a[5]); break;
	}
	VH_MUST(*f && is_future(*f), "future:made", "thrd_async did not give a future");
	return n;
}
static void done_is(int n, future_t f) {
	if (thrd_is_done(f)) { ADD(c_poll); VH_MUST(GET(J[n].ended), "future:done", "future %d is said to have ended and has not", n); }
	else ADD(c_early);
}
static int pauses;
static void pause_(void) { ADD(pauses); if (!in_task()) sched_yield(); else yield(); }
static void collect(int n, future_t f) {
	fut *j = &J[n];
	values_t v = {0};
	char name[64] = "", msg[64] = "";
	int e = 0, raised = 0, throws = j->kind == V_THROW || j->kind == V_PANIC;
	while (gp(40)) { done_is(n, f); if (gp(50)) nap((int)gn(2)); }
	if (gp(20)) { ADD(c_wait); thrd_wait(f, pause_); VH_MUST(GET(j->ended), "future:done", "thrd_wait of future %d returned before it had ended", n); }
	{
		volatile int r = 0;
		values_t volatile w = {0};
		volatile int ee = 0;
		char *nm = name, *ms = msg;
		try { errno = 200; values_t x = thrd_get(f); ee = errno; w.object = x.object; }
		catch_any { r = 1; snprintf(nm, 64, "%s", err.name ? err.name : "?"); snprintf(ms, 64, "%s", ex_err._panic ? ex_err._panic : ""); }
		raised = r; v.object = w.object; e = ee;
	}
	__atomic_sub_fetch(&live, 1, __ATOMIC_SEQ_CST);
	ADD(c_get);
	VH_MUST(GET(j->ended), "future:early", "thrd_get of future %d returned before it had ended", n);
	VH_MUST(GET(j->cleanups) == j->ncl + (j->kind == V_RECOVER), "future:cleanup", "thrd_get of future %d returned when %d of its %d cleanups had run", n, j->cleanups, j->ncl + (j->kind == V_RECOVER));
	if (throws) {
		const char *want = j->kind == V_PANIC ? "_panic" : enames[j->ex];
		VH_MUST(raised, "future:exception", "thrd_get of future %d, which was ended by the exception %s, raised none and gave %p", n, want, v.object);
		VH_MUST(!strcmp(name, want), "future:exception", "thrd_get of future %d, which was ended by the exception %s, raised %s", n, want, name);
		if (j->kind == V_PANIC) VH_MUST(!strcmp(msg, messages[j->ex]), "future:message", "thrd_get of future %d, which was ended by panic(%s), raised it with %s", n, messages[j->ex], msg);
		ADD(c_ex); if (j->kind == V_THROW && j->ex >= E_FPE) ADD(c_sig);
	} else {
		VH_MUST(!raised, "future:exception", "thrd_get of future %d, which returned %p, raised %s", n, j->val, name);
		if (j->kind == V_RECOVER) ADD(c_rec);
		else VH_MUST(v.object == j->val, "future:value", "thrd_get of future %d gives %p, it returned %p", n, v.object, j->val);
		if (j->kind == V_NEG && j->err) { ADD(c_err); VH_MUST(e == j->err, "future:errno", "thrd_get of future %d, which returned -1 with errno %d, gives errno %d", n, j->err, e); }
		if (j->kind == V_TUPLE || j->kind == V_ARR) ADD(c_tuple);
		if (j->kind != V_RECOVER && gp(20)) { ADD(c_twice); v = thrd_get(f); VH_MUST(v.object == j->val, "future:value", "thrd_get of future %d gives %p the second time, it returned %p", n, v.object, j->val); }
	}
	VH_MUST(ADD(j->collected) == 1, "future:harness", "collected twice");
}
/* makes futures and collects them in a random order */
static void work(int k, int can_forget) {
	future_t f[40];
	int id[40], m = 0, i, x;
	for (i = 0; i < k; i++) {
		if ((id[m] = spawn_one(0, &f[m])) >= 0) m++;
		if (in_task() && gp(20)) yield();
		if (m && gp(20)) { x = (int)gn((uint32_t)m); done_is(id[x], f[x]); }
		if (m && gp(20)) { x = (int)gn((uint32_t)m); collect(id[x], f[x]); m--; id[x] = id[m]; f[x] = f[m]; }
	}
	while (m) {
		x = (int)gn((uint32_t)m);
		if (can_forget && gp(10)) { J[id[x]].forget = 1; ADD(c_forget); __atomic_sub_fetch(&live, 1, __ATOMIC_SEQ_CST); }
		else collect(id[x], f[x]);
		m--; id[x] = id[m]; f[x] = f[m];
		if (in_task() && gp(20)) yield();
	}
}
static int tasks_done;
static void *collector(param_t args) { rng()->s ^= vh_mix(vh_rnd(), args[1].u_int); work(args[0].integer, 1); ADD(tasks_done); return 0; }
static int plain(void *p) { rng()->s = vh_mix((uint64_t)(intptr_t)p, 5); work((int)((intptr_t)p & 15), 0); ADD(tasks_done); return 0; }
static void *none_fn(param_t args) { ADD(c_none); if (args && $size(args)) vh_fatal("future:arguments", "a future without arguments has %d", (int)$size(args)); return (void *)77; }
static void none(void) { future_t f = thrd_async(none_fn, 0); VH_MUST(thrd_get(f).integer == 77, "future:value", "a future without arguments gives another value"); }
static int in_loop;
static void cases(void) {
	long c;
	int i, n, t, total;
	for (c = 0; c < vh_cases; c++) {
		uint64_t s = 9;
		vh_case(c); vh_watchdog(90); vh_beat(); if (in_loop) yield();
		rng()->s = vh_rnd();
		nJ = 0; tasks_done = 0; live = 0;
		t = 1 + (int)vh_n(vh_p(20) ? 6 : 3);
		for (i = total = 0; i < t; i++) {
			n = 1 + (int)vh_n(vh_p(20) ? 15 : 5); total += n;
			if (in_loop) (void)async_task(collector, 2, (void *)(intptr_t)n, (void *)(intptr_t)i);
			else {
				os_thread_t th[8];
				th[0] = os_create(plain, (void *)(intptr_t)((vh_n(1u << 24) << 4) | (unsigned)n));
				if (th[0] == OS_NULL) vh_fatal("failed", "os_create failed");
				if (os_join(th[0], (uint32_t)-1, NULL)) vh_fatal("failed", "os_join failed");
			}
		}
		if (in_loop) while (GET(tasks_done) < t) { vh_beat(); yield(); }
		else if (vh_p(50)) work(1 + (int)vh_n(8), 0);
		n = nJ;
		for (i = 0; i < n; i++) {
			uint64_t e = vh_calm() + 20000000000ull;
			while (J[i].forget && !GET(J[i].ended)) { vh_msleep(1); if (vh_calm() > e) vh_fatal("future:runs", "future %d, whose result nobody asked for, did not run to its end", i); }
			VH_MUST(J[i].runs == 1 && J[i].collected + J[i].forget == 1, "future:runs", "future %d ran %d times and was collected %d times", i, J[i].runs, J[i].collected);
			s = vh_mix(s, (uint64_t)(J[i].kind * 100 + J[i].nargs));
		}
		if (vh_p(10)) none();
		vh_eval(1);
		if (n > 1) vh_sig(s);
		if (vh_want_sample()) vh_sample("%d makers, %d futures", t, n);
	}
	vh_count("futures", c_fut); vh_count("results collected", c_get); vh_count("exceptions raised by thrd_get", c_ex); vh_count("of them from signals", c_sig); vh_count("arrays", c_tuple); vh_count("values of errno", c_err);
	vh_count("thrd_wait", c_wait); vh_count("seen running", c_early); vh_count("seen ended", c_poll); vh_count("collected twice", c_twice); vh_count("futures made by futures", c_nest); vh_count("recovered", c_rec);
	vh_count("cleanups", c_clean); vh_count("never collected", c_forget); vh_count("without arguments", c_none); vh_count("most at once", maxlive); vh_count("pauses of thrd_wait", pauses);
	vh_exit();
}
static void *run(param_t args) { in_loop = 1; loop_thread = pthread_self(); cases(); return 0; }
/* a future that returns a number that could be an address but is not, in a process of its own */
static void *number(param_t args) { return (void *)0x30000000L; }
static void large(void) {
	int st = 0;
	pid_t pid = fork();
	if (pid < 0) vh_broken("fork");
	if (!pid) {
		volatile int r = 0;
		vh_forked(); alarm(3);
		if (events_init(1024)) _exit(3);
		try { if (thrd_get(thrd_async(number, 1, (void *)0)).integer != 0x30000000L) r = 78; }
		catch_any { r = strcmp((const char *)err.name, "sig_segv") && strcmp((const char *)err.name, "sig_alrm") ? 79 : 77; }
		_exit(r);
	}
	if (waitpid(pid, &st, 0) != pid) vh_broken("waitpid");
	vh_count("futures that return large numbers", 1);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 3) vh_broken("start of the process of the large number");
	if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 1)) vh_fail("future:large-number", "a future returned 0x30000000, its thread got SIGSEGV and thrd_get hangs");
	else if (!WIFEXITED(st) || WEXITSTATUS(st)) vh_fail("future:large-number-value", "a future returned 0x30000000, thrd_get gave something else (status %x)", st);
}
int main(int argc, char **argv) {
	vh_init(argc, argv);
	if (!vh_shard && vh_arg("large", 0)) large();
	signals_ok = (int)vh_arg("signals", 1);
	if (&vj_rate) vj_rate = (int)vh_arg("jitter", 60);
	if (vh_arg("plain", 0)) { if (events_init(1024)) vh_fatal("failed", "events_init failed"); cases(); }
	ev_run(run);
	vh_fatal("main-lost", "the scheduler returned before the main task ended");
	return 0;
}
