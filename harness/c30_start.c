/* C30: whole programs. A child process is given a number of cores and a workload, runs it with events_start (or the functions
 * it consists of), perhaps several times, and writes down what happened; the parent compares. */
#define _GNU_SOURCE
#include <sched.h>
#include <events.h>
#include <except.h>
#include "vh.h"
#include "ev.h"
#include <dirent.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#define MAXR 3
typedef struct {
	volatile int started, made, ended, bodies;	/* tasks of the main thread */
	volatile int pmade, pended;	/* of the pool, awaited */
	volatile int jmade, jended, jwrong;	/* jobs */
	volatile int main_in, main_out, arg_ok, after, ret, threads0, threads1, fds0, fds1, round_done, unpooled, cleanups, guards, over;
	volatile long timers, reads, steps;
} rnd;
typedef struct { rnd r[MAXR]; volatile int rounds, finished; volatile char why[200]; } shared;
static shared *S;
static rnd *R;
static int cpus, tasks_budget, rounds, style, parg;
#define ADD(x, n) __atomic_fetch_add(&(x), (n), __ATOMIC_SEQ_CST)
#define GET(x) __atomic_load_n(&(x), __ATOMIC_SEQ_CST)
static long c_tasks, c_pool, c_jobs, c_prog, c_round, c_left, c_cpu[9], c_timers, c_reads, c_guard, c_style[4], c_over, c_steps, c_never;
static int count_dir(const char *p) { int n = 0; DIR *d = opendir(p); while (d && readdir(d)) n++; if (d) closedir(d); return n - 2 - !strcmp(p, "/proc/self/fd"); }
static long serial;
static uint64_t rs(uint64_t *s) { *s = *s * 6364136223846793005ull + 1442695040888963407ull; return *s >> 33; }
static int nfut;
static int npool;	/* style 3: made one by one */
static int has_pool(void) { return style == 3 ? npool > 0 : nfut > 0 && cpus > nfut; }
static void *job(param_t a) { int k = a[0].integer; struct timespec t = {0, (k % 5) * 200000}; nanosleep(&t, 0); ADD(R->jended, 1); return (void *)(intptr_t)(k * 3 + 1); }
static void *pooled(param_t a) {
	uint64_t s = (uint64_t)a[0].integer * 77 + 1;
	int i, n = (int)(rs(&s) % 6);
	for (i = 0; i < n; i++) { ADD(R->steps, 1); if (rs(&s) % 3) yield(); else delay(1 + (int)(rs(&s) % 3)); }
	ADD(R->pended, 1);
	return (void *)(intptr_t)(a[0].integer + 5);
}
static void *task(param_t a);
static void sub_task(uint64_t *s, int depth) {
	if (R->made >= tasks_budget) return;
	ADD(R->made, 1);
	async_task(task, 2, (void *)(intptr_t)(rs(s) % 1000000000), (void *)(intptr_t)(depth + 1));
}
static void guard_end(void *p) { (void)p; R->cleanups++; }
static void body(uint64_t *s, int depth) {
	int n = (int)(rs(s) % 5), i;
	for (i = 0; i < n; i++) {
		ADD(R->steps, 1);
		switch (rs(s) % 12) {
		case 0: case 1: case 2: yield(); break;
		case 3: delay(1 + (int)(rs(s) % 10)); break;
		case 4: if (depth < 6) sub_task(s, depth); break;
		case 5: if (depth < 6) { sub_task(s, depth); sub_task(s, depth); } break;
		case 6: { int k = (int)(rs(s) % 1000); values_t v; ADD(R->jmade, 1); v = queue_get(queue_work(futures_pool(), job, 1, (void *)(intptr_t)k)); if (v.integer != k * 3 + 1) R->jwrong++; break; }
		case 7: if (has_pool()) { int k = (int)(rs(s) % 1000000); uint32_t id; ADD(R->pmade, 1); id = go(pooled, 1, (void *)(intptr_t)k); if (await_for(id).integer != k + 5) R->jwrong++; } break;
		case 8: { volatile int done = 0; R->guards++; defer(guard_end, 0); (void)done; break; }
		case 9: { int k, m = 1 + (int)(rs(s) % 5); volatile int caught = 0; for (k = 0; k < m; k++) { try { throw(range_error); } catch (range_error) { caught++; } } if (caught != m) R->jwrong++; break; }
		case 10: {	/* a descriptor that is ready some time later */
			int p[2]; char c = 0;
			if (pipe(p)) break;
			fcntl(p[0], F_SETFL, O_NONBLOCK);
			if (rs(s) % 2) if (write(p[1], "z", 1) != 1) R->jwrong++;
			if (rs(s) % 2) delay(1); else yield();
			if (write(p[1], "z", 1) != 1) R->jwrong++;
			if (async_read(p[0], &c, 1) != 1 || c != 'z') R->jwrong++;
			ADD(R->reads, 1);
			close(p[0]); close(p[1]);
			break;
		}
		default: {
			int k, m = (int)(rs(s) % 5);
			task_group_t *g = task_group(); array_t r;
			for (k = 0; k < m && R->made < tasks_budget; k++) { ADD(R->made, 1); async_task(task, 2, (void *)(intptr_t)(rs(s) % 1000000000), (void *)(intptr_t)9); }
			r = tasks_wait(g); (void)r;
		}
		}
	}
}
static void *task(param_t a) {
	uint64_t s = (uint64_t)a[0].integer * 2654435761u + 12345;
	ADD(R->bodies, 1);
	body(&s, a[1].integer);
	ADD(R->ended, 1);
	return 0;
}
static int main_len, main_never, n_first;
static uint64_t main_seed;
static void *prog_main(param_t a) {
	uint64_t s = main_seed;
	int i;
	R->main_in++;
	if (!parg) R->arg_ok = 1;
	else R->arg_ok = a[0].object == (void *)&parg;
	for (i = 0; i < n_first; i++) sub_task(&s, 0);
	for (i = 0; i < main_len; i++) body(&s, 0);
	if (has_pool() && rs(&s) % 2) {	/* a group of the pool */
		waitgroup_t g = waitgroup(8); int n = (int)(rs(&s) % 12);
		for (i = 0; i < n; i++) { ADD(R->pmade, 1); go(pooled, 1, (void *)(intptr_t)(rs(&s) % 1000)); }
		waitfor(g);
	}
	R->main_out++;
	return 0;
}
static int other(void) { return count_dir("/proc/self/task") ; }
static void program(uint64_t seed) {
	int i, j, k, maxfd;
	cpu_set_t set, all;
	uint64_t s = seed;
	sched_getaffinity(0, sizeof all, &all);
	CPU_ZERO(&set);
	for (i = 0, k = 0; i < CPU_SETSIZE && k < cpus; i++) if (CPU_ISSET(i, &all)) { CPU_SET(i, &set); k++; }
	cpus = k;
	sched_setaffinity(0, sizeof set, &set);
	for (j = 0; j < rounds; j++) {
		events_t *loop;
		R = &S->r[j];
		main_seed = rs(&s) * 31 + j;
		maxfd = 64 << (rs(&s) % 6);
		R->fds0 = count_dir("/proc/self/fd"); R->threads0 = other();
		R->started = 1;
		i = style == 0 ? cpus / 2 : (int)(rs(&s) % 4);
		nfut = style == 2 ? 0 : i < 1 ? 1 : i < cpus ? i : cpus;
		if (style == 0) R->ret = events_start(maxfd, (main_cb)prog_main, parg ? (void *)&parg : 0);
		else {
			if (events_init(maxfd)) { R->ret = -3; return; }
			if (style == 1) loop = events_init_pool((uint32_t)i);
			else { loop = events_create(6); }
			if (style == 3) {	/* the threads one by one, up to one for each core, and one too many */
				int id = 1, over = (int)(rs(&s) % 3) == 0;
				npool = 0; nfut = 1;
				for (; id < cpus + over; id++) {
					events_t *l = events_create(1 + (int)(rs(&s) % 60));
					int pl = (int)(rs(&s) % 2), r = 0;
					if (!l || events_id(l) != id + 1) { snprintf((char *)S->why, 200, "events_create for thread %d gives a loop with id %d", id + 1, l ? events_id(l) : -1); exit(8); }
					errno = 0;
					if (id < cpus) {
						if (pl) r = events_create_pool(l); else { future *f = events_create_future(l); if (!f) r = -1; nfut++; }
						if (r || errno) { snprintf((char *)S->why, 200, "thread %d of %d was not made: %d, errno %d", id + 1, cpus, r, errno); exit(8); }
						npool += pl;
					} else {
						r = events_create_pool(l);
						if (r != -1 || errno != EINVAL) { snprintf((char *)S->why, 200, "events_create_pool for thread %d on %d cores gives %d, errno %d", id + 1, cpus, r, errno); exit(8); }
						if (events_destroy(l)) { snprintf((char *)S->why, 200, "events_destroy failed"); exit(8); }
						R->over++;
					}
				}
			}
			events_set_main((main_cb)prog_main);
			if (parg) async_task(prog_main, 1, &parg); else async_task(prog_main, 0);
			async_run(loop);
			R->ret = events_destroy(loop);
			events_deinit();
		}
		R->after = R->ended;
		R->threads1 = other(); R->fds1 = count_dir("/proc/self/fd");
		R->round_done = 1;
	}
	S->finished = 1;
	exit(7);
}
int main(int argc, char **argv) {
	long c;
	int maxcpu, maxstyle;
	vh_init(argc, argv);
	maxcpu = (int)vh_arg("cpus", 4);
	maxstyle = (int)vh_arg("styles", 4);
	S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (c = 0; c < vh_cases; c++) {
		pid_t p;
		int st, j, waited;
		uint64_t sig = 3, t0, seed;
		vh_case(c); vh_beat();
		memset(S, 0, sizeof *S);
		cpus = 1 + (int)vh_n((uint32_t)maxcpu);
		style = (int)vh_n((uint32_t)maxstyle); c_style[style]++;
		if (style == 2) cpus = 1;	/* no pool */
		rounds = vh_arg("one", 0) || vh_p(60) ? 1 : 2 + (int)vh_n(MAXR - 1); S->rounds = rounds;
		tasks_budget = vh_p(70) ? (int)vh_n(40) : (int)vh_n(400);
		n_first = (int)vh_n(12); main_len = (int)vh_n(6); parg = vh_p(40);
		seed = vh_rnd();
		c_cpu[cpus]++;
		fflush(0);
		if (vh_arg("only", -1) == c) program(seed);
		if (vh_arg("only", -1) >= 0) continue;
		if ((p = fork()) < 0) vh_broken("fork");
		if (!p) program(seed);
		t0 = vh_ns();
		for (waited = 0; (j = waitpid(p, &st, WNOHANG)) == 0; ) {
			vh_msleep(1); vh_beat();
			if (vh_late(p, t0, (int)vh_arg("limit", 20))) { kill(p, SIGKILL); waitpid(p, &st, 0); waited = 1; break; }
		}
		if (S->why[0]) vh_fatal("start:threads-one-by-one", "%s", (char *)S->why);
		for (j = 0; j < rounds; j++) {
			rnd *r = &S->r[j];
			if (waited && !r->round_done) vh_fatal("start:hang", "a program on %d cores (style %d) does not end: round %d %s, main %s, %d of %d tasks ended, %d of %d of the pool, %d of %d jobs", cpus, style, j, r->started ? "started" : "not started", r->main_out ? "returned" : r->main_in ? "running" : "not run", r->ended, r->made, r->pended, r->pmade, r->jended, r->jmade);
			if (!r->round_done) vh_fatal("start:died", "the program (%d cores, style %d) ended with status 0x%x in round %d, main %s, %d of %d tasks ended, %d of %d of the pool, %d of %d jobs", cpus, style, st, j, r->main_out ? "returned" : r->main_in ? "running" : "not run", r->ended, r->made, r->pended, r->pmade, r->jended, r->jmade);
			if (r->main_in != 1 || r->main_out != 1) vh_fatal("start:main", "the main task began %d times and ended %d times", r->main_in, r->main_out);
			if (!r->arg_ok) vh_fatal("start:arg", "the main task did not get the argument of events_start");
			if (r->bodies != r->made || r->ended != r->made) vh_fatal("start:tasks", "of %d tasks %d began and %d ended before the end of events_start (%d cores, style %d, round %d)", r->made, r->bodies, r->ended, cpus, style, j);
			if (r->pended != r->pmade) vh_fatal("start:pool", "of %d tasks of the pool %d ended", r->pmade, r->pended);
			if (r->jended != r->jmade || r->jwrong) vh_fatal("start:jobs", "of %d jobs %d ended, %d wrong results", r->jmade, r->jended, r->jwrong);
			if (r->cleanups != r->guards) vh_fatal("start:defer", "%d of %d deferred functions ran", r->cleanups, r->guards);
			if (r->ret != 0) vh_fatal("start:ret", "events_start returned %d (style %d, round %d)", r->ret, style, j);
			if (r->threads1 != r->threads0) vh_fatal("start:threads", "%d threads after events_start, %d before (%d cores, style %d, round %d)", r->threads1, r->threads0, cpus, style, j);
			if (r->fds1 != r->fds0) vh_fatal("start:fds", "%d descriptors open after events_start, %d before (%d cores, style %d, round %d)", r->fds1, r->fds0, cpus, style, j);
			c_tasks += r->made; c_pool += r->pmade; c_jobs += r->jmade; c_reads += r->reads; c_guard += r->guards; c_steps += r->steps; c_over += r->over; c_round++;
			sig = vh_mix(sig, (uint64_t)r->made << 20 | (uint64_t)r->pmade << 10 | (uint64_t)r->jmade); sig = vh_mix(sig, (uint64_t)r->steps);
		}
		if (waited) vh_fatal("start:hang", "a program on %d cores (style %d) does not end after all", cpus, style);
		if (!WIFEXITED(st) || WEXITSTATUS(st) != 7) vh_fatal("start:exit", "the program ended with status 0x%x instead of exit(7) (%d cores, style %d)", st, cpus, style);
		c_prog++;
		if (vh_want_sample()) vh_sample("%d cores, style %d, %d rounds, %d tasks, %d of the pool, %d jobs in the first", cpus, style, rounds, S->r[0].made, S->r[0].pmade, S->r[0].jmade);
		vh_eval(1); vh_sig(vh_mix(sig, (uint64_t)cpus));
	}
	vh_count("programs run", c_prog); vh_count("of these with several rounds", c_round - c_prog); vh_count("tasks", c_tasks); vh_count("tasks of the pool", c_pool); vh_count("jobs", c_jobs);
	vh_count("reads of descriptors", c_reads); vh_count("deferred functions", c_guard); vh_count("steps of tasks", c_steps);
	vh_count("programs on 1 core", c_cpu[1]); vh_count("programs on 2 cores", c_cpu[2]); vh_count("programs on 3 cores", c_cpu[3]); vh_count("programs on 4 cores", c_cpu[4]);
	vh_count("programs with events_start", c_style[0]); vh_count("programs with events_init_pool", c_style[1]); vh_count("programs without a pool", c_style[2]);
	vh_count("programs with events_create_future and events_create_pool", c_style[3]); vh_count("threads refused, one more than cores", c_over);
	vh_exit();
	return 0;
}
