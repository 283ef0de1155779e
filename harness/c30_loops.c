/* C30: several loops in one program. A child process creates, uses and destroys loops, on its main thread and on others, next to each
 * other; every callback must come from the loop it was registered with, and what one loop does must not change another. */
#define _GNU_SOURCE
#include <events.h>
#include <except.h>
#include "vh.h"
#include "ev.h"
#include <dirent.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#define ML 8
#define MF 40
#define MT 12
#define NT 4
typedef struct { volatile int finished; volatile long loops, once, called, timers, moves, left, checks, most, tasks, jobs; volatile char key[40]; volatile char why[200]; } shared;
static shared *S;
static long c_prog, c_loops, c_once, c_called, c_timers, c_moves, c_left, c_checks, c_thr, c_many, c_tasks, c_mode[4];
#define ADD(x, n) __atomic_fetch_add(&(x), (n), __ATOMIC_SEQ_CST)
#define BAD(k, ...) do { if (!S->key[0]) { snprintf((char *)S->why, sizeof S->why, __VA_ARGS__); snprintf((char *)S->key, sizeof S->key, "%s", k); } _exit(9); } while (0)
#define MUST(c, k, ...) do { ADD(S->checks, 1); if (!(c)) BAD(k, __VA_ARGS__); } while (0)
typedef struct lp lp; typedef struct ctx ctx;
typedef struct { ctx *x; int r, w, used, pend, calls, wr; lp *l; } fdt;	/* a pipe */
typedef struct { ctx *x; actor_t *a; int used, fired, due; lp *l; } tmr;
struct lp { events_t *e; int used, nf, nt; };
struct ctx { lp l[ML]; fdt f[MF]; tmr t[MT]; lp *now; int id, keep, turns; uint64_t s; pthread_t th; };
static ctx X[NT];
static uint32_t rn(ctx *x, uint32_t n) { x->s = x->s * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)(x->s >> 33) % n; }
static void on_fd(fds_t fd, int ev, void *arg) {
	fdt *f = arg; char b[64]; long n;
	ADD(S->called, 1);
	MUST(f->used && f->l, "loops:stale", "callback of a descriptor that is in no loop");
	MUST(f->l == f->x->now, "loops:foreign", "the callback of descriptor %d came from a loop it does not belong to", (int)fd);
	MUST((int)fd == (f->wr ? f->w : f->r), "loops:fd", "callback with descriptor %d instead of %d", (int)fd, f->wr ? f->w : f->r);
	MUST(events_loop(fd) == f->l->e, "loops:loop", "events_loop(%d) is another loop", (int)fd);
	MUST(ev == (f->wr ? EVENTS_WRITE : EVENTS_READ), "loops:event", "events 0x%x for descriptor %d", ev, (int)fd);
	f->calls++;
	if (!f->wr) { n = read(f->r, b, sizeof b); MUST(n == f->pend, "loops:bytes", "%ld bytes in a pipe with %d", n, f->pend); f->pend = 0; }
}
static void on_timer(actor_t *a, void *arg) {
	tmr *t = arg; (void)a;
	ADD(S->timers, 1);
	MUST(t->used && t->a == a, "loops:timer", "a timer of a destroyed loop or one that has run called its function");
	MUST(t->due, "loops:timer", "a timer of the far future called its function");
	MUST(t->l == t->x->now, "loops:timerloop", "a timer came from a loop it does not belong to");
	MUST(events_actor_loop(a) == t->l->e, "loops:timerloop", "events_actor_loop is another loop");
	t->used = 0; t->fired++; t->l->nt--;
}
static void check(ctx *x) {
	int i, j;
	for (i = 0; i < ML; i++) if (x->l[i].used) {
		lp *l = &x->l[i];
		if (!x->keep && (x->id || x->turns > 2 || l->nf + l->nt)) MUST(events_is_running(l->e) == (l->nf + l->nt > 0), "loops:running", "events_is_running is %d for a loop with %d descriptors and %d timers", events_is_running(l->e), l->nf, l->nt);
		for (j = 0; j < i; j++) if (x->l[j].used) MUST(events_id(x->l[j].e) != events_id(l->e), "loops:id", "two loops have the id %d", events_id(l->e));
		MUST(events_id(l->e) != 0, "loops:id", "a loop has the id 0");
	}
	for (i = 0; i < MF; i++) if (x->f[i].used) {
		fdt *f = &x->f[i]; int fd = f->wr ? f->w : f->r;
		if (f->l) { MUST(events_is_registered(f->l->e, fd), "loops:reg", "descriptor %d is not in its loop", fd); MUST(events_loop(fd) == f->l->e, "loops:reg", "events_loop(%d) is another", fd); }
	}
}
static lp *some(ctx *x) { int i, k = (int)rn(x, ML); for (i = 0; i < ML; i++) if (x->l[(i + k) % ML].used) return &x->l[(i + k) % ML]; return 0; }
static void add(fdt *f, lp *l) {
	int fd = f->wr ? f->w : f->r;
	MUST(events_add(l->e, fd, f->wr ? EVENTS_WRITE : EVENTS_READ, rn(f->x, 3) ? 0 : 1000 + (int)rn(f->x, 100), on_fd, f) == 0, "loops:add", "events_add failed");
	f->l = l; l->nf++;
}
static void destroy(ctx *x, lp *l) {
	int i; events_t *e = l->e;
	for (i = 0; i < MT; i++) if (x->t[i].used && x->t[i].l == l) x->t[i].used = 0;	/* they end with it */
	for (i = 0; i < MF; i++) if (x->f[i].used && x->f[i].l == l) {
		if (rn(x, 4)) { MUST(events_del(x->f[i].wr ? x->f[i].w : x->f[i].r) == 0, "loops:del", "events_del failed"); }
		else ADD(S->left, 1);	/* still registered when its loop ends */
		x->f[i].l = 0;
	}
	l->used = 0;
	MUST(events_destroy(e) == 0, "loops:destroy", "events_destroy failed");
	if (!x->keep) MUST(!events_is_running(e), "loops:after", "events_is_running of a destroyed loop");
}
static void drive(ctx *x, lp *l) {
	int i, k, r, due = 0, due2 = 0, n = 0;
	for (i = 0; i < MF; i++) x->f[i].calls = 0;
	for (i = 0; i < MT; i++) if (x->t[i].used && x->t[i].l == l && x->t[i].due) due++;
	x->now = l;
	ADD(S->once, 1);
	r = events_once(l->e, rn(x, 3) || due ? 0 : l->nf ? 0 : 0);
	x->now = 0; x->turns++;
	for (i = 0; i < MT; i++) if (x->t[i].used && x->t[i].l == l && x->t[i].due) due2++;
	MUST(due == 0 || due2 < due, "loops:nottimer", "%d timers of the loop are due, none ran", due);
	MUST(r == l->nf + l->nt, "loops:once", "events_once is %d with %d descriptors and %d timers", r, l->nf, l->nt);
	for (i = 0; i < MF; i++) if (x->f[i].used && x->f[i].l == l) {
		fdt *f = &x->f[i];
		k = f->calls; n++;
		if (f->wr) MUST(k == 1, "loops:missed", "a writable descriptor of the loop was called %d times", k);
		else { MUST(f->pend == 0, "loops:missed", "a readable descriptor of the loop was not called"); MUST(k <= 1, "loops:twice", "called %d times", k); }
	}
	MUST(n == l->nf, "loops:model", "%d of %d", n, l->nf);
}
static void ops(ctx *x, int n) {
	int i, k, j; lp *l; fdt *f; tmr *t;
	for (i = 0; i < n; i++) {
		switch (rn(x, 13)) {
		case 0: case 1:
			for (k = 0; k < ML && x->l[k].used; k++) ;
			if (k < ML) {
				memset(&x->l[k], 0, sizeof x->l[k]);
				x->l[k].e = events_create(1 + (int)rn(x, 60));
				MUST(x->l[k].e, "loops:create", "events_create failed");
				x->l[k].used = 1; ADD(S->loops, 1);
			}
			break;
		case 2: if ((l = some(x)) && (!x->keep || rn(x, 3))) destroy(x, l); break;
		case 3: case 4:
			for (k = 0; k < MF && x->f[k].used; k++) ;
			if (k < MF && (l = some(x))) {
				int p[2];
				f = &x->f[k]; memset(f, 0, sizeof *f); f->x = x;
				if (pipe(p)) break;
				f->r = p[0]; f->w = p[1]; f->used = 1; f->wr = rn(x, 4) == 0;
				fcntl(p[0], F_SETFL, O_NONBLOCK); fcntl(p[1], F_SETFL, O_NONBLOCK);
				add(f, l);
			}
			break;
		case 5: case 6: k = (int)rn(x, MF); f = &x->f[k]; if (f->used && !f->wr && f->pend < 40) { MUST(write(f->w, "z", 1) == 1, "loops:write", "write failed"); f->pend++; } break;
		case 7: k = (int)rn(x, MF); f = &x->f[k]; if (f->used) { if (f->l) { MUST(events_del(f->wr ? f->w : f->r) == 0, "loops:del", "events_del failed"); f->l->nf--; } os_close(f->r); os_close(f->w); f->used = 0; } break;
		case 8:	/* to another loop */
			k = (int)rn(x, MF); f = &x->f[k]; l = some(x);
			if (f->used && l && f->l != l) {
				if (f->l) { MUST(events_del(f->wr ? f->w : f->r) == 0, "loops:del", "events_del failed"); f->l->nf--; f->l = 0; }
				add(f, l); ADD(S->moves, 1);
			}
			break;
		case 9:
			for (k = 0; k < MT && x->t[k].used; k++) ;
			if (k < MT && (l = some(x))) {
				t = &x->t[k]; t->x = x; t->used = 1; t->fired = 0; t->l = l; t->due = rn(x, 3) != 0; l->nt++;
				t->a = events_actor(l->e, t->due ? 0 : 3000000, on_timer, t);
				MUST(t->a, "loops:actor", "events_actor failed");
			}
			break;
		default: if ((l = some(x))) { j = 1 + (int)rn(x, 3); while (j--) drive(x, l); }
		}
		check(x);
	}
}
static void finish(ctx *x) {
	int i;
	for (i = 0; i < ML; i++) if (x->l[i].used) { drive(x, &x->l[i]); destroy(x, &x->l[i]); check(x); }
	for (i = 0; i < MF; i++) if (x->f[i].used) { os_close(x->f[i].r); os_close(x->f[i].w); }
}
static int mode, nthreads, nops, many, ntask;
static int count_fd(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); while (d && readdir(d)) n++; if (d) closedir(d); return n - 3; }
static int count_thr(void) { int n = 0; DIR *d = opendir("/proc/self/task"); while (d && readdir(d)) n++; if (d) closedir(d); return n - 2; }
static void *thread_main(void *a) { ctx *x = a; ops(x, nops); finish(x); return 0; }
/* tasks of the loop that runs them, while other loops come and go */
static volatile int t_ended;
static void *worker(param_t a) {
	uint64_t s = (uint64_t)a[0].integer; int i, n = 1 + (int)(s % 7);
	for (i = 0; i < n; i++) {
		s = s * 6364136223846793005ull + 1442695040888963407ull;
		switch ((s >> 40) % 4) {
		case 0: delay(1 + (unsigned)(s >> 45) % 4); break;
		case 1: { int p[2]; char c = 0; if (pipe(p)) break; fcntl(p[0], F_SETFL, O_NONBLOCK); if (write(p[1], "q", 1) != 1) BAD("loops:write", "write"); MUST(async_read(p[0], &c, 1) == 1 && c == 'q', "loops:read", "async_read of a task failed"); os_close(p[0]); os_close(p[1]); break; }
		default: yield();
		}
	}
	t_ended++;
	return 0;
}
static void *maker(param_t a) {
	ctx *x = a[0].object; int i, n = 1 + nops / 12, j;
	for (i = 0; i < n; i++) {
		int made = 0;
		for (j = 0; j < 12; j++) {	/* loops that the thread does not run */
			int k = (int)rn(x, ML);
			if (!x->l[k].used) { memset(&x->l[k], 0, sizeof x->l[k]); x->l[k].e = events_create(1 + (int)rn(x, 60)); MUST(x->l[k].e, "loops:create", "events_create failed"); x->l[k].used = 1; made++; ADD(S->loops, 1); }
			else destroy(x, &x->l[k]);
		}
		if (rn(x, 2)) yield(); else delay(1 + rn(x, 3));
	}
	for (i = 0; i < ML; i++) if (x->l[i].used) destroy(x, &x->l[i]);
	t_ended++;
	return 0;
}
static void program(void) {
	int i, fd0, fd1, th1; events_t *loop;
	ctx *x = &X[0];
	fd0 = count_fd();
	if (events_init(1024)) _exit(8);
	if (mode == 0) {	/* loops of threads */
		events_t *e = rn(x, 2) ? events_create(5) : 0;
		for (i = 1; i < nthreads; i++) if (pthread_create(&X[i].th, 0, thread_main, &X[i])) _exit(8);
		thread_main(x);
		for (i = 1; i < nthreads; i++) pthread_join(X[i].th, 0);
		if (e) { MUST(events_once(e, 0) == 0 && !events_is_running(e), "loops:running", "an unused loop runs"); MUST(events_destroy(e) == 0, "loops:destroy", "events_destroy failed"); }
	} else if (mode == 1) {
		x->keep = 1;
		loop = events_create(6);
		async_task(maker, 1, x);
		for (i = 0; i < ntask; i++) async_task(worker, 1, (void *)(intptr_t)(1 + rn(x, 100000)));
		async_run(loop);
		MUST(t_ended == ntask + 1, "loops:tasks", "of %d tasks %d ended", ntask + 1, t_ended);
		S->tasks += t_ended;
		MUST(events_destroy(loop) == 0, "loops:destroy", "events_destroy failed");
		if (rn(x, 2)) { x->keep = 0; ops(x, nops); finish(x); }
	} else {	/* a long row of loops */
		events_t *keep = events_create(9); int p[2];
		if (pipe(p)) _exit(8);
		x->f[0].x = x; x->f[0].used = 1; x->f[0].r = p[0]; x->f[0].w = p[1]; x->l[0].e = keep; x->l[0].used = 1;
		fcntl(p[0], F_SETFL, O_NONBLOCK);
		add(&x->f[0], &x->l[0]);
		for (i = 0; i < many; i++) {
			events_t *e = events_create(2);
			MUST(e && events_id(e) != events_id(keep) && events_id(e), "loops:id", "loop number %d of the program has the id %d, another one %d", i + 2, e ? events_id(e) : -1, events_id(keep));
			if (i % 64 == 0) { MUST(x->turns < 3 || !events_is_running(e), "loops:running", "events_is_running of a new loop"); if (write(p[1], "z", 1) == 1) x->f[0].pend++; if (i % 128) drive(x, &x->l[0]); else { MUST(events_once(e, 0) == 0, "loops:once", "events_once of a new loop"); } }
			MUST(events_destroy(e) == 0, "loops:destroy", "events_destroy failed");
			ADD(S->loops, 1);
		}
		drive(x, &x->l[0]);
		finish(x);
	}
	events_deinit();
	th1 = count_thr();
	MUST(th1 == 1, "loops:threads", "%d threads left", th1);
	fd1 = count_fd();
	MUST(fd1 == fd0, "loops:fds", "%d descriptors open, %d before", fd1, fd0);
	S->finished = 1;
	exit(7);
}
int main(int argc, char **argv) {
	long c;
	vh_init(argc, argv);
	S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (c = 0; c < vh_cases; c++) {
		pid_t p; int st, i, j, waited = 0; uint64_t t0, sig;
		vh_case(c); vh_beat();
		memset(S, 0, sizeof *S);
		mode = vh_p(60) ? 0 : vh_p(95) ? 1 : 2;
		nthreads = vh_p(50) ? 1 : 1 + (int)vh_n(NT); nops = 1 + (int)vh_n(vh_p(30) ? 1200 : 200); ntask = (int)vh_n(12);
		many = vh_p(30) ? 66000 : 100 + (int)vh_n(3000);
		for (i = 0; i < NT; i++) { memset(&X[i], 0, sizeof X[i]); X[i].s = vh_rnd(); X[i].id = i; }
		c_mode[mode]++; if (mode == 0 && nthreads > 1) c_thr++;
		fflush(0);
		if (vh_arg("only", -1) == c) program();
		if (vh_arg("only", -1) >= 0) continue;
		if ((p = fork()) < 0) vh_broken("fork");
		if (!p) program();
		t0 = vh_ns();
		while ((j = waitpid(p, &st, WNOHANG)) == 0) {
			usleep(200); vh_beat();
			if (vh_late(p, t0, (int)vh_arg("limit", 30))) { kill(p, SIGKILL); waitpid(p, &st, 0); waited = 1; break; }
		}
		if (S->key[0]) vh_fatal((char *)S->key, "%s (mode %d, %d threads)", (char *)S->why, mode, mode ? 1 : nthreads);
		if (waited) vh_fatal("loops:hang", "the program (mode %d, %d threads, %d operations) does not end", mode, mode ? 1 : nthreads, nops);
		if (!S->finished || !WIFEXITED(st) || WEXITSTATUS(st) != 7) vh_fatal("loops:exit", "the program ended with status 0x%x (mode %d, %d threads, %d operations, finished: %d)", st, mode, mode ? 1 : nthreads, nops, S->finished);
		c_prog++; c_loops += S->loops; c_once += S->once; c_called += S->called; c_timers += S->timers; c_moves += S->moves; c_left += S->left; c_checks += S->checks; c_tasks += S->tasks;
		if (mode == 2) c_many++;
		sig = vh_mix(vh_mix((uint64_t)S->loops, (uint64_t)S->once), vh_mix((uint64_t)S->called, (uint64_t)(S->moves * 8 + mode)));
		if (vh_want_sample()) vh_sample("mode %d, %d threads: %ld loops, %ld turns, %ld callbacks, %ld timers, %ld moves", mode, mode ? 1 : nthreads, S->loops, S->once, S->called, S->timers, S->moves);
		vh_eval(1); vh_sig(sig);
	}
	vh_count("programs run", c_prog); vh_count("loops created", c_loops); vh_count("turns of a loop", c_once); vh_count("callbacks", c_called); vh_count("timers that ran", c_timers);
	vh_count("descriptors moved to another loop", c_moves); vh_count("descriptors left in a destroyed loop", c_left); vh_count("checks", c_checks); vh_count("programs with several threads", c_thr);
	vh_count("programs whose tasks make and destroy loops", c_mode[1]); vh_count("tasks", c_tasks); vh_count("programs with hundreds or thousands of loops", c_mode[2]);
	vh_exit();
	return 0;
}
