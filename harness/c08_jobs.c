/* C08: jobs given to the threads of the pool: run once, in their thread, in order; values and errno. */
#include <events.h>
#include <except.h>
#include <sys/wait.h>
#include <signal.h>
#include "vh.h"
#include "ev.h"
#include <time.h>
#define MAXJ 4000
enum { V_INT, V_NEG, V_PTR, V_NULL, V_TUPLE, V_ARR, V_OWN, V_NK };
typedef struct { int used, ndef, defs, kind, nargs, runs, fut, order, err, collected, then, work, slow, errset, ended; void *a[6]; void *val; promise *p; } job;
static job J[MAXJ];
static int nJ, nfut, done_subs;
static future *F[16];
static pthread_t Ft[16];
static int Ft_set[16], Fq[16], Fr[16];
static pthread_t main_thread;
static volatile long ticks;
static volatile int ticking;
static long c_jobs, c_get, c_wait, c_prom, c_err, c_slow, c_twice, c_fut[16], c_dist, c_ticks, c_tuple, c_other, c_max;
static char text[64];
static int last_def[16];
static long c_def;
void *events_malloc(size_t);
static void job_cleanup(void *p) {
	job *j = p;
	if (!j->ended) vh_fatal("job:cleanup", "a cleanup of a job runs before its end");
	if (__atomic_add_fetch(&j->defs, 1, __ATOMIC_SEQ_CST) > j->ndef) vh_fatal("job:cleanup", "a cleanup of a job runs again");
	__atomic_add_fetch(&c_def, 1, __ATOMIC_SEQ_CST);
}
static void *job_fn(param_t args) {
	int n = (int)args[0].integer, i, f;
	job *j;
	if (n < 0 || n >= nJ || !J[n].used) vh_fatal("job:arguments", "a job got %d as its first argument of %d jobs", n, nJ);
	j = &J[n];
	if (pthread_equal(pthread_self(), main_thread)) vh_fatal("job:thread", "job %d runs on the thread that queued it", n);
	for (f = 0; f < nfut && F[f] != active_future(); f++);
	if (f == nfut || f != j->fut) vh_fatal("job:thread", "job %d was queued to thread %d and runs on thread %d of the pool", n, j->fut, f);
	if (!Ft_set[f]) { Ft[f] = pthread_self(); Ft_set[f] = 1; }
	else if (!pthread_equal(Ft[f], pthread_self())) vh_fatal("job:thread", "job %d of thread %d of the pool runs on another thread", n, f);
	if (last_def[f] >= 0 && J[last_def[f]].defs != J[last_def[f]].ndef) vh_fatal("job:cleanup", "%d of %d cleanups of job %d have run when the next job of its thread runs", J[last_def[f]].defs, J[last_def[f]].ndef, last_def[f]);
	if ((int)$size(args) != j->nargs) vh_fatal("job:arguments", "job %d has %d arguments instead of %d", n, (int)$size(args), j->nargs);
	for (i = 1; i < j->nargs; i++) if (args[i].object != j->a[i]) vh_fatal("job:arguments", "job %d: argument %d is %p instead of %p", n, i, args[i].object, j->a[i]);
	if (__atomic_add_fetch(&j->runs, 1, __ATOMIC_SEQ_CST) != 1) vh_fatal("job:runs", "job %d runs again", n);
	if (j->order != __atomic_fetch_add(&Fr[f], 1, __ATOMIC_SEQ_CST)) vh_fatal("job:order", "job %d, number %d queued to its thread, runs as number %d", n, j->order, Fr[f] - 1);
	if (j->slow) {
		/* the tasks of the other thread must get on meanwhile */
		long t0 = ticks;
		uint64_t e = vh_calm() + 20000000000ull;
		while (ticks < t0 + 20) { if (vh_calm() > e) vh_fatal("job:blocks", "no other task ran while job %d ran", n); if (j->slow == 2) vh_msleep(1); }
	}
	for (i = 0; i < j->work; i++) __asm__ volatile("");
	for (i = 0; i < j->ndef; i++) defer(job_cleanup, j);
	if (j->ndef == 2) { void *p = events_malloc(10); memset(p, 1, 10); defer_free(p); }
	if (j->ndef) last_def[f] = n;
	errno = j->errset;
	j->ended = 1;
	if (j->kind == V_TUPLE) return $(j->val);
	if (j->kind == V_ARR) return $$(j->val, (void *)(intptr_t)n);
	if (j->kind == V_OWN) { int k; array_t own = arrays(3, j->val, (void *)(intptr_t)n, (void *)7); for (k = 0; k < n % 5; k++) $append(own, n + k); return own; }
	return j->val;
}
static future *pick(void) {
	/* the one queue_work is documented to be given, or one seen before */
	future *f = nfut && vh_p(30) ? F[vh_n((uint32_t)nfut)] : futures_pool();
	int i;
	for (i = 0; i < nfut && F[i] != f; i++);
	if (i == nfut) { if (nfut == 16) vh_broken("too many threads"); F[nfut++] = f; }
	return f;
}
static int mk(future *f, int plain) {
	int n = nJ++, i;
	job *j = &J[n];
	memset(j, 0, sizeof *j);
	j->used = 1; j->nargs = 1 + (int)vh_n(6); j->a[0] = (void *)(intptr_t)n;
	for (i = 1; i < 6; i++) j->a[i] = vh_p(50) ? (void *)(intptr_t)vh_n(1000) : (void *)(intptr_t)vh_rnd();
	for (i = 0; i < nfut && F[i] != f; i++);
	j->fut = i; j->order = Fq[i]++; c_fut[i]++;
	j->kind = plain ? V_INT : (int)vh_n(V_NK);
	j->val = j->kind == V_NULL ? NULL : j->kind == V_NEG ? (void *)(intptr_t)-1 : j->kind == V_PTR ? (void *)&text[vh_n(64)] : (void *)(intptr_t)(n + 1 + vh_n(1000) * 10000);
	if (j->kind == V_INT && vh_p(10)) j->val = (void *)(intptr_t)(-(long)(n + 2));
	j->errset = vh_p(50) ? 1 + (int)vh_n(130) : 0;
	j->work = vh_p(60) ? 0 : (int)vh_n(20000);
	j->slow = vh_p(ticking ? 4 : 0) ? 1 + (int)vh_n(2) : 0;
	if (j->slow) c_slow++;
	j->ndef = vh_p(15) ? 1 + (int)vh_n(3) : 0;
	c_jobs++;
	return n;
}
static promise *queue(future *f, int n) {
	void **a = J[n].a;
	switch (J[n].nargs) {
		case 1: return queue_work(f, job_fn, 1, a[0]);
		case 2: return queue_work(f, job_fn, 2, a[0], a[1]);
		case 3: return queue_work(f, job_fn, 3, a[0], a[1], a[2]);
		case 4: return queue_work(f, job_fn, 4, a[0], a[1], a[2], a[3]);
		case 5: return queue_work(f, job_fn, 5, a[0], a[1], a[2], a[3], a[4]);
		default: return queue_work(f, job_fn, 6, a[0], a[1], a[2], a[3], a[4], a[5]);
	}
}
static void value(int n, values_t v, int e, const char *how) {
	job *j = &J[n];
	if (!__atomic_load_n(&j->ended, __ATOMIC_SEQ_CST)) vh_fatal("job:early", "%s of job %d returned before the job had ended", how, n);
	if (v.object != j->val) vh_fatal("job:value", "%s of job %d gives %p, it returned %p", how, n, v.object, j->val);
	if ((j->kind == V_NEG || j->kind == V_NULL) && j->errset) { c_err++; if (e != j->errset) vh_fatal("job:errno", "%s of job %d, which returned -1 or null with errno %d, gives errno %d", how, n, j->errset, e); }
	j->collected++;
}
static void get(int n) {
	job *j = &J[n];
	values_t v;
	int e;
	errno = 200;
	v = queue_get(j->p);
	e = errno;
	value(n, v, e, "queue_get");
	c_get++;
	if (j->kind >= V_TUPLE) c_tuple++;
	if (vh_p(20)) {
		volatile int r = 0;
		c_twice++;
		try { queue_get(j->p); } catch (logic_error) { r = 1; }
		VH_MUST(r, "job:twice", "queue_get of job %d a second time is not refused", n);
	}
	VH_MUST(!queue_is_valid(j->p), "job:valid", "the promise of job %d is valid after its result was given", n);
}
static int wset[256], nwset;
static void then(tuple_t r) {
	int i, n = -1;
	for (i = 0; i < nJ; i++) if (J[i].then && J[i].val == r->object) n = i;
	if (n < 0) vh_fatal("job:continuation", "the continuation gets %p, which no job returned", r->object);
	if (J[n].then != 1) vh_fatal("job:continuation", "the continuation gets the result of job %d again", n);
	if (J[n].kind == V_ARR && (r[1].integer != n || $size(r) != 2)) vh_fatal("job:continuation", "the second value of job %d is %d", n, r[1].integer);
	if (J[n].kind == V_OWN) {
		int k;
		if ($size(r) != 3 + n % 5 || r[1].integer != n || r[2].integer != 7) vh_fatal("job:continuation", "the array of job %d has %d values, the second %d", n, (int)$size(r), r[1].integer);
		for (k = 0; k < n % 5; k++) if (r[3 + k].integer != n + k) vh_fatal("job:continuation", "value %d of the array of job %d is %d", 3 + k, n, r[3 + k].integer);
	}
	if (J[n].kind == V_TUPLE && $size(r) != 1) vh_fatal("job:continuation", "job %d has %d values instead of one", n, (int)$size(r));
	J[n].then = 2;
	value(n, *r, 0, "queue_wait");
	c_wait++;
}
static int distinct(int n) { int i; for (i = 0; i < nJ; i++) if (i != n && J[i].val == J[n].val) return 0; return J[n].kind != V_NULL && J[n].kind != V_NEG && J[n].kind != V_PTR; }
static void *submitter(param_t args) {
	int k = 1 + (int)vh_n(args[0].u_int), i, m = 0, mine[40];
	for (i = 0; i < k && nJ < MAXJ - 10; i++) {
		if (vh_p(12)) {	/* one promise for several jobs */
			promise *p = alloc_promise();
			int q = 1 + (int)vh_n(4);
			for (; q > 0; q--) {
				/* promise_work takes the thread itself */
				int n;
				values_t v;
				n = mk(pick(), 1); Fq[J[n].fut]--; c_fut[J[n].fut]--;
				{ future *f = futures_pool(); int x; for (x = 0; x < nfut && F[x] != f; x++); if (x == nfut) F[nfut++] = f; J[n].fut = x; J[n].order = Fq[x]++; c_fut[x]++; }
				J[n].nargs = 1; J[n].slow = 0;
				promise_work(p, job_fn, 1, J[n].a[0]);
				errno = 0;
				v = promise_wait(p);
				value(n, v, errno, "promise_wait");
				c_prom++;
			}
			promise_clean(p);
		} else {
			future *f = pick();
			int n = mk(f, 0);
			if (!(J[n].p = queue(f, n))) vh_fatal("job:queue", "queue_work failed");
			mine[m++] = n;
		}
		if (vh_p(20)) yield();
		if (m && vh_p(30)) { int x = (int)vh_n((uint32_t)m), n = mine[x]; mine[x] = mine[--m]; get(n); }
	}
	c_max = c_max < m ? m : c_max;
	while (m) {
		if (vh_p(15)) {	/* the rest in one go */
			array_t a = array();
			int w[40], nw = 0;
			for (i = 0; i < m; i++) if (distinct(mine[i])) { J[mine[i]].then = 1; $append(a, J[mine[i]].p); w[nw++] = mine[i]; mine[i] = mine[--m]; i--; }
			if (nw) {
				queue_wait(a, then);
				for (i = 0; i < nw; i++) { VH_MUST(J[w[i]].then == 2, "job:continuation", "queue_wait returned and the continuation was not called for job %d", w[i]); J[w[i]].then = 0; }
			} else $delete(a);
		}
		if (m) { int x = (int)vh_n((uint32_t)m), n = mine[x]; mine[x] = mine[--m]; get(n); if (vh_p(30)) yield(); }
	}
	done_subs++;
	return 0;
}
static long c_poach;
/* a result that was given to a continuation is not given to another task, either */
static void poach(void) {
	int i, n = 0, w = -1;
	volatile int r = 0;
	for (i = 0; i < nJ; i++) if (J[i].then == 2 && vh_n((uint32_t)++n) == 0) w = i;
	if (w < 0) return;
	c_poach++;
	try { queue_get(J[w].p); } catch (logic_error) { r = 1; }
	VH_MUST(r, "job:twice", "queue_get of job %d, whose continuation was called, is not refused", w);
}
static void *ticker(param_t args) { while (ticking) { ticks++; c_ticks++; if (nJ < 300) poach(); yield(); } return 0; }
static void *run(param_t args) {
	long c;
	int i, n, t;
	main_thread = pthread_self();
	for (i = 0; i < 16; i++) last_def[i] = -1;
	ev_ids();
	for (c = 0; c < vh_cases; c++) {
		uint64_t s = 3;
		vh_case(c); vh_watchdog(60);
		for (i = 0; i < nJ; i++) s = vh_mix(s, (uint64_t)J[i].kind);
		for (i = 0; i < 16; i++) { uint64_t e = vh_calm() + 20000000000ull; while (last_def[i] >= 0 && __atomic_load_n(&J[last_def[i]].defs, __ATOMIC_SEQ_CST) != J[last_def[i]].ndef) if (vh_calm() > e) vh_fatal("job:cleanup", "a cleanup of job %d does not run", last_def[i]); last_def[i] = -1; }
		nJ = 0; done_subs = 0;
		/* the promise of a task is freed when the task ends: each case in a task of its own */
		n = 1 + (int)vh_n(vh_p(20) ? 12 : 4);
		if (vh_p(60)) { ticking = 1; (void)async_task(ticker, 0); }
		for (i = 0; i < n; i++) (void)async_task(submitter, 1, (void *)(intptr_t)(1 + vh_n(vh_p(20) ? 39 : 8)));
		while (done_subs < n) { vh_beat(); yield(); }
		if (ticking) { ticking = 0; yield(); }
		for (i = 0; i < nJ; i++) VH_MUST(J[i].runs == 1 && J[i].collected == 1, "job:runs", "job %d ran %d times and was collected %d times", i, J[i].runs, J[i].collected);
		for (i = t = 0; i < nJ; i++) { s = vh_mix(s, (uint64_t)(J[i].kind * 100 + J[i].fut)); t += J[i].slow; }
		vh_eval(1);
		if (nJ > 1) vh_sig(s);
		if (vh_want_sample()) vh_sample("%d tasks queue %d jobs, %d of them slow", n, nJ, t);
	}
	vh_count("jobs", c_jobs); vh_count("results by queue_get", c_get); vh_count("results by queue_wait", c_wait); vh_count("results by promise_wait", c_prom); vh_count("values of errno", c_err);
	vh_count("jobs that waited for other tasks", c_slow); vh_count("collected twice", c_twice); vh_count("collected by another task after the continuation", c_poach); vh_count("arrays", c_tuple); vh_count("cleanups of jobs", c_def); vh_count("threads of the pool", nfut); vh_count("ticks", c_ticks); vh_count("most uncollected jobs of a task", c_max);
	vh_exit();
	return 0;
}
/* a job that returns a number that could be an address but is not, in a process of its own */
static void *number(param_t args) { return (void *)0x30000000L; }
static void segv(int sig) { _exit(77); }
static void *run_number(param_t args) {
	promise *p = queue_work(futures_pool(), number, 1, (void *)0);
	_exit(queue_get(p).integer == 0x30000000L ? 0 : 78);
	return 0;
}
static void large(void) {
	int st = 0;
	pid_t pid = fork();
	if (pid < 0) vh_broken("fork");
	if (!pid) {
		vh_forked();
		if (events_init(1024)) _exit(3);
		events_set_main((main_cb)run_number);
		events_t *loop = events_init_pool(3);
		signal(SIGSEGV, segv); signal(SIGBUS, segv);
		alarm(60);
		async_task(run_number, 0);
		async_run(loop);
		_exit(3);
	}
	if (waitpid(pid, &st, 0) != pid) vh_broken("waitpid");
	vh_count("jobs that return large numbers", 1);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 3) vh_broken("start of the process of the large number");
	if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 1)) vh_fail("job:large-number", "a job returned 0x30000000 and the process got SIGSEGV");
	else if (WIFEXITED(st) && WEXITSTATUS(st) == 78) vh_fail("job:large-number-value", "a job returned 0x30000000, queue_get gave something else");
}
int main(int argc, char **argv) {
	vh_init(argc, argv);
	if (!vh_shard) large();
	if (events_init(1024)) vh_fatal("failed", "events_init failed");
	events_set_main((main_cb)run);
	events_t *loop = events_init_pool((uint32_t)vh_arg("pool", 3));
	async_task(run, 0);
	async_run(loop);
	vh_fatal("main-lost", "the scheduler returned before the main task ended");
	return 0;
}
