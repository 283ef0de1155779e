/* C33: threads, their exit codes, joins with timeouts, thread-local variables and keys. */
#include <events.h>
#include "vh.h"
#include "ev.h"
#include <sched.h>
#define MAXT 24
#define NK 6
typedef struct { long a, b; } rec_t;
thrd_static(rec_t, mine, NULL)
thrd_local(rec_t, shared, NULL)
static tls_emulate_t key[NK];
static int nkeys;
typedef struct { int id, mode, ops, code, started, ended, cpu; volatile int hold; uint64_t seed; uintptr_t self; int left[NK]; void *arg; } thr;
static thr T[MAXT];
static long c_threads, c_timeout, c_joined, c_dtor, c_tls, c_aff;
static int dtor_seen[NK][MAXT];
typedef struct { int k, th; uint64_t magic; } kval;
static void dtor(int k, void *v) {
	kval *x = v;
	if (x->magic != 0xABCDEF0123ull + (uint64_t)(x->k * 100 + x->th) || x->k != k) vh_fatal("key-dtor", "the destructor of key %d got something else", k);
	if (!pthread_equal((pthread_t)T[x->th].self, pthread_self())) vh_fatal("key-dtor", "the destructor of key %d of thread %d runs in another thread", k, x->th);
	__atomic_fetch_add(&dtor_seen[k][x->th], 1, __ATOMIC_SEQ_CST);
	x->magic = 0; free(x);
}
#define D(n) static void dtor##n(void *v) { dtor(n, v); }
D(0) D(1) D(2) D(3) D(4) D(5)
static void (*dtors[NK])(void *) = {dtor0, dtor1, dtor2, dtor3, dtor4, dtor5};
static void one_op(thr *t, vh_rng *r, rec_t *model, rec_t *smodel, kval **kv) {
	int k = (int)vh_rn(r, (uint32_t)nkeys);
	rec_t *m;
	switch (vh_rn(r, 6)) {
	case 0: m = mine(); if (!m || m->a != model->a || m->b != model->b) vh_fatal("thread-local", "thread %d: its static variable is %ld,%ld, not %ld,%ld", t->id, m ? m->a : -1, m ? m->b : -1, model->a, model->b); break;
	case 1: model->a = m = mine(), model->a = m->a = (long)vh_rr(r); model->b = m->b = t->id; break;
	case 2: m = shared(); if (!m || m->a != smodel->a || m->b != smodel->b) vh_fatal("thread-local", "thread %d: its variable is %ld,%ld, not %ld,%ld", t->id, m ? m->a : -1, m ? m->b : -1, smodel->a, smodel->b);
		smodel->a = m->a = (long)vh_rr(r); break;
	case 3: if (os_tls_get(key[k]) != kv[k]) vh_fatal("key", "thread %d: key %d holds %p, not %p", t->id, k, os_tls_get(key[k]), (void *)kv[k]); break;
	case 4: {
		kval *x = vh_rn(r, 4) ? malloc(sizeof *x) : 0;
		if (x) { x->k = k; x->th = t->id; x->magic = 0xABCDEF0123ull + (uint64_t)(k * 100 + t->id); }
		if (os_tls_set(key[k], x)) vh_fatal("key", "os_tls_set failed");
		free(kv[k]); kv[k] = x;
		break; }
	default: if (vh_rn(r, 2)) sched_yield(); else { volatile int w; for (w = 0; w < 300; w++) ; }
	}
	__atomic_fetch_add(&c_tls, 1, __ATOMIC_RELAXED);
}
static int __attribute__((noinline)) deeper(int code, int n) { volatile char pad[64]; pad[0] = (char)n; if (n > 0) return deeper(code, n - 1) + (pad[0] & 0); os_exit((uint32_t)code); return 12345; }
static int thread(void *arg) {
	thr *t = arg;
	vh_rng r = {t->seed};
	rec_t model = {0, 0}, sm = {0, 0};
	kval *kv[NK] = {0};
	int i;
	if (__atomic_add_fetch(&t->started, 1, __ATOMIC_SEQ_CST) != 1) vh_fatal("twice", "thread %d: its function runs twice", t->id);
	t->self = os_self();
	if (!is_mine_null() || !is_shared_null()) vh_fatal("thread-local", "thread %d: a thread-local variable is set at its start", t->id);
	for (i = 0; i < nkeys; i++) if (os_tls_get(key[i])) vh_fatal("key", "thread %d: key %d holds something at its start", t->id, i);
	if (mine()->a || mine()->b || shared()->a) vh_fatal("thread-local", "thread %d: a thread-local variable is not empty at its start", t->id);
	for (i = 0; i < t->ops; i++) {
		one_op(t, &r, &model, &sm, kv);
		if (vh_rn(&r, 40) == 0) {	/* another record, then back to the own one */
			rec_t other = {77, t->id};
			mine_set(&other);
			if (mine() != &other || is_mine_null()) vh_fatal("thread-local", "thread %d: mine_set did not set", t->id);
			mine_reset();
			if (!is_mine_null()) vh_fatal("thread-local", "thread %d: mine_reset did not reset", t->id);
			if (mine()->a != model.a || mine()->b != model.b) vh_fatal("thread-local", "thread %d: variable lost", t->id);
		}
	}
	while (t->hold) sched_yield();
	for (i = 0; i < nkeys; i++) t->left[i] = kv[i] != 0;
	__atomic_store_n(&t->ended, 1, __ATOMIC_SEQ_CST);
	if (t->mode & 1) deeper(t->code, (int)vh_rn(&r, 5));
	return t->code;
}
static int vanish(void *arg) { __atomic_fetch_add((int *)arg, 1, __ATOMIC_SEQ_CST); return 0; }
int main(int argc, char **argv) {
	long c;
	int longwait;
	vh_init(argc, argv);
	longwait = (int)vh_arg("long", 1);
	mine()->a = 4711; shared()->a = 4712;
	for (c = 0; c < vh_cases; c++) {
		os_thread_t h[MAXT];
		int i, k, n;
		uint64_t sg = 0;
		vh_case(c);
		n = 1 + (int)vh_n(MAXT); nkeys = 1 + (int)vh_n(NK);
		for (k = 0; k < nkeys; k++) if (os_tls_alloc(&key[k], dtors[k])) vh_fatal("failed", "os_tls_alloc failed");
		memset(dtor_seen, 0, sizeof dtor_seen); memset(T, 0, sizeof T);
		for (i = 0; i < n; i++) {
			thr *t = &T[i];
			t->id = i; t->mode = (int)vh_n(4); t->ops = (int)vh_n(400); t->seed = vh_rnd(); t->hold = vh_p(40);
			t->code = vh_p(40) ? (int)vh_n(256) : vh_p(50) ? (int)vh_rnd() : -(int)vh_n(5);
			h[i] = os_create((os_thread_proc)thread, t);
			if (h[i] == OS_NULL) vh_fatal("failed", "os_create failed");
			sg = vh_mix(sg, (uint64_t)(uint32_t)t->code * 4 + (uint64_t)t->mode);
		}
		for (i = 0; i < n; i++) {
			thr *t = &T[i];
			int e, code = 991, r;
			uint64_t t0, dt;
			if (t->hold) {
				uint32_t ms = vh_p(40) ? 0 : vh_p(90) ? vh_n(12) : longwait ? 700 + vh_n(500) : 20;
				if (vh_p(10)) {
					os_cpumask m; cpu_set_t got; int cpu; cpu_set_t all;
					sched_getaffinity(0, sizeof all, &all);
					do cpu = (int)vh_n(64); while (!CPU_ISSET(cpu, &all));
					memset(&m, 0, sizeof m);
					os_cpumask_set(&m, (uint32_t)cpu);
					VH_MUST(os_affinity(h[i], &m) == 0, "affinity", "os_affinity to cpu %d failed", cpu);
					CPU_ZERO(&got); pthread_getaffinity_np((pthread_t)h[i], sizeof got, &got);
					VH_MUST(CPU_COUNT(&got) == 1 && CPU_ISSET(cpu, &got), "affinity", "the thread may run on other cpus than %d", cpu);
					pthread_setaffinity_np((pthread_t)h[i], sizeof all, &all);
					c_aff++;
				}
				errno = 0; t0 = vh_ns(); r = os_join(h[i], ms, &code); e = errno; dt = vh_ns() - t0;
				VH_MUST(r == -1 && e == ETIMEDOUT && code == 991, "join-running", "os_join(%u ms) of a running thread gave %d, errno %d, code %d", ms, r, e, code);
				VH_MUST(dt + 3000000 >= (uint64_t)ms * 1000000, "join-early", "os_join(%u ms) gave up after %llu us", ms, (unsigned long long)dt / 1000);
				c_timeout++;
				t->hold = 0;
				if (longwait && ms > 600) longwait = 0;
			}
			k = (int)vh_n(3);
			if (k == 0) r = os_join(h[i], (uint32_t)-1, &code);
			else if (k == 1) { r = os_join(h[i], 30000 + vh_n(3000), &code); }
			else { do { r = os_join(h[i], 0, &code); if (r) { VH_MUST(errno == ETIMEDOUT, "join", "os_join(0): errno %d", errno); sched_yield(); } vh_beat(); } while (r); }
			VH_MUST(r == 0, "join", "os_join of an ended thread gave %d, errno %d", r, errno);
			VH_MUST(t->started == 1 && t->ended == 1, "join", "os_join succeeded, but the thread has not ended (%d,%d)", t->started, t->ended);
			VH_MUST(code == t->code, "exit-code", "the thread ended with %d (%s), os_join gives %d", t->code, t->mode & 1 ? "os_exit" : "return", code);
			for (k = 0; k < nkeys; k++) { VH_MUST(dtor_seen[k][i] == t->left[k], "key-dtor", "thread %d left %s in key %d, the destructor ran %d times", i, t->left[k] ? "a value" : "nothing", k, dtor_seen[k][i]); c_dtor += t->left[k]; }
			c_joined++;
		}
		if (vh_p(30)) {
			int cnt = 0, w;
			os_thread_t d = os_create((os_thread_proc)vanish, &cnt);
			VH_MUST(os_detach(d) == 0, "detach", "os_detach failed");
			for (w = 0; w < 20000 && !__atomic_load_n(&cnt, __ATOMIC_SEQ_CST); w++) usleep(500);
			VH_MUST(cnt == 1, "detach", "a detached thread ran %d times", cnt);
			usleep(100);
		}
		if (vh_p(20)) { uint32_t ms = vh_n(15); uint64_t t0 = vh_ns(); VH_MUST(os_sleep(ms) == 0 && vh_ns() - t0 >= (uint64_t)ms * 1000000, "sleep", "os_sleep(%u) slept %llu us", ms, (unsigned long long)(vh_ns() - t0) / 1000); }
		VH_MUST(mine()->a == 4711 && shared()->a == 4712, "thread-local", "the variable of the main thread changed");
		for (k = 0; k < nkeys; k++) { VH_MUST(!os_tls_get(key[k]), "key", "a value of another thread in the main thread"); os_tls_free(key[k]); }
		c_threads += n;
		vh_eval(1); vh_beat(); vh_sig(sg);
		if (vh_want_sample()) vh_sample("%d threads, %d keys, first with %d operations and exit code %d", n, nkeys, T[0].ops, T[0].code);
	}
	vh_count("threads", c_threads); vh_count("joins that timed out", c_timeout); vh_count("joins", c_joined); vh_count("key destructors", c_dtor); vh_count("operations on thread-local state", c_tls); vh_count("affinities", c_aff);
	vh_exit();
}
