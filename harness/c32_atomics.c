/* C32: contending threads on spin locks and atomic operations; conservation, exclusion and ordering
 * observed directly, and (in the tsan build) by ThreadSanitizer's happens-before. */
#include <events.h>
#include "vh.h"
#include "ev.h"
#define MAXT 6
static int nt, n, mode;
static volatile int go_;
static long c_lock, c_tas, c_rmw, c_cas, c_litmus, c_both0, c_fail;
/* lock */
static struct { char pad0[64]; atomic_spinlock l; char pad1[64]; long plain, owner, sum; long buf[8]; } L;
static atomic_flag fl;
static atomic_size_t ctr, bits, win;
static atomic_ptr_t head, swp;
static unsigned char *hit;
static long nhit;
struct node { struct node *next; long id; };
static struct node *nodes;
static volatile long rounds_won;
static long arrived;
static atomic_size_t sbx, sby, mpflag; static size_t mpdata;
static volatile size_t r1, r2;
static unsigned long long xsum[MAXT], xin[MAXT];
static void wait_go(void) { while (!__atomic_load_n(&go_, __ATOMIC_ACQUIRE)) ; }
static void claim(size_t v, const char *what) {
	if (v >= (size_t)nhit) vh_fatal("rmw-value", "%s returned %zu of %ld", what, v, nhit);
	if (__atomic_exchange_n(&hit[v], 1, __ATOMIC_RELAXED)) vh_fatal("rmw-value", "%s returned %zu twice: an update was lost", what, v);
}
static void *worker(void *p) {
	int me = (int)(intptr_t)p, i, j;
	vh_rng r = {vh_seed * 1000 + (uint64_t)me};
	size_t v, w;
	wait_go();
	switch (mode) {
	case 0:	/* the lock: what is written inside is seen by the next owner */
		for (i = 0; i < n; i++) {
			atomic_lock(&L.l);
			if (L.owner) vh_fatal("exclusion", "thread %d entered while thread %ld held the lock", me + 1, L.owner);
			L.owner = me + 1; L.plain++;
			for (j = 0; j < 8; j++) if (L.buf[j] != L.sum) vh_fatal("exclusion", "thread %d saw half of what the last owner wrote", me + 1);
			L.sum = (long)(vh_rr(&r) >> 8);
			for (j = 0; j < 8; j++) L.buf[j] = L.sum;
			if (L.owner != me + 1) vh_fatal("exclusion", "thread %ld entered while thread %d held the lock", L.owner, me + 1);
			L.owner = 0;
			atomic_unlock(&L.l);
			if (i % 16 == 0) { volatile int k; for (k = 0; k < (int)(vh_rr(&r) % 200); k++) ; }
		}
		break;
	case 1:	/* flag used as a try-lock */
		for (i = 0; i < n; ) {
			if (atomic_flag_test_and_set(&fl)) { __atomic_fetch_add(&c_fail, 1, __ATOMIC_RELAXED); continue; }
			if (L.owner) vh_fatal("try-exclusion", "test_and_set succeeded twice");
			if (!atomic_flag_load(&fl)) vh_fatal("flag-load", "a flag that is set reads as clear");
			L.owner = me + 1; L.plain++; L.owner = 0;
			atomic_flag_clear(&fl);
			i++;
		}
		break;
	case 2:	/* fetch_add/sub return every value once */
		for (i = 0; i < n; i++) claim(atomic_fetch_add(&ctr, 1), "fetch_add");
		break;
	case 3:
		for (i = 0; i < n; i++) claim(atomic_fetch_sub(&ctr, 1) - 1, "fetch_sub");
		break;
	case 4:	/* each thread owns bits of one word */
		v = (size_t)1 << (me * 3) | (size_t)1 << (40 + me); w = 0;
		for (i = 0; i < n; i++) {
			uint32_t k = vh_rn(&r, 3);
			size_t old;
			if (k == 0) { old = atomic_fetch_or(&bits, v); if ((old & v) != w) goto bad; w = v; }
			else if (k == 1) { old = atomic_fetch_and(&bits, ~v); if ((old & v) != w) goto bad; w = 0; }
			else { old = atomic_fetch_xor(&bits, v); if ((old & v) != w) goto bad; w ^= v; }
			if ((atomic_load(&bits) & v) != w) goto bad;
			continue;
		bad:
			vh_fatal("bit-ops", "fetch_%s: bits of thread %d were %zx, not %zx", k == 0 ? "or" : k == 1 ? "and" : "xor", me, (size_t)old & v, w);
		}
		atomic_fetch_and(&bits, ~v);
		break;
	case 5:	/* counting with compare and swap */
		for (i = 0; i < n; i++) {
			v = atomic_load(&ctr);
			for (;;) {
				w = v;
				if (me & 1 ? atomic_cas(&ctr, &w, v + 1) : atomic_compare_exchange_strong(&ctr, &w, v + 1)) break;
				if (w == v) vh_fatal("cas-spurious", "compare and swap failed although the value %zu was present", v);
				v = w; __atomic_fetch_add(&c_fail, 1, __ATOMIC_RELAXED);
			}
			claim(v, "compare and swap");
		}
		break;
	case 6:	/* exchange hands every value on */
		for (i = 0; i < n; i++) {
			unsigned long long x = ((unsigned long long)(me + 1) << 32) | (unsigned)i;
			xin[me] += x * 0x9E3779B97F4A7C15ull;
			xsum[me] += (unsigned long long)(uintptr_t)atomic_exchange(&ctr, x) * 0x9E3779B97F4A7C15ull;
		}
		break;
	case 7:	/* a stack of nodes linked by pointer swaps, never popped while pushed */
		for (i = 0; i < n; i++) {
			struct node *nd = &nodes[me * n + i];
			void *h = (void *)atomic_load(&head);
			nd->id = me * n + i;
			do { nd->next = h; } while (!atomic_swap(&head, &h, nd));
		}
		break;
	case 8:	/* store buffering: both threads cannot miss the other's store */
		for (i = 1; i <= n; i++) {
			volatile int k;
			__atomic_fetch_add(&arrived, 1, __ATOMIC_SEQ_CST);
			while (__atomic_load_n(&arrived, __ATOMIC_SEQ_CST) < 4 * i - 2) ;
			for (k = (int)(vh_rr(&r) % 12); k > 0; k--) ;
			if (me == 0) { atomic_store(&sbx, 1); r1 = atomic_load(&sby); }
			else { atomic_store(&sby, 1); r2 = atomic_load(&sbx); }
			__atomic_fetch_add(&arrived, 1, __ATOMIC_SEQ_CST);
			while (__atomic_load_n(&arrived, __ATOMIC_SEQ_CST) < 4 * i) ;
			if (me == 0) {
				if (!r1 && !r2) vh_fatal("store-load", "two threads stored and then loaded the other's variable, and both saw the old value");
				if (r1 && r2) c_both0++;
				atomic_store(&sbx, 0); atomic_store(&sby, 0);
			}
		}
		break;
	case 9:	/* message passing */
		if (me == 0) for (i = 1; i <= n; i++) { while (atomic_load(&mpflag)) ; mpdata = (size_t)i * 7; atomic_store(&mpflag, 1); }
		else if (me == 1) for (i = 1; i <= n; i++) { while (!atomic_load(&mpflag)) ; if (mpdata != (size_t)i * 7) vh_fatal("message", "the data of message %d was not seen", i); atomic_store(&mpflag, 0); }
		break;
	}
	return 0;
}
int main(int argc, char **argv) {
	long c;
	int only;
	vh_init(argc, argv);
	only = (int)vh_arg("mode", -1);
	for (c = 0; c < vh_cases; c++) {
		pthread_t t[MAXT];
		int i;
		long tot;
		vh_case(c);
		nt = 2 + (int)vh_n(MAXT - 1); n = 200 + (int)vh_n(8000); mode = only >= 0 ? only : (int)vh_n(10);
		if (mode == 8 || mode == 9) { nt = 2; if (mode == 9) n /= 8;
#ifdef __SANITIZE_THREAD__
			if (mode == 8) n /= 20;
#endif
		 }
		tot = (long)nt * n;
		memset(&L, 0, sizeof L);
		atomic_flag_clear(&fl);
		atomic_store(&ctr, mode == 3 ? (size_t)tot : 0); atomic_store(&bits, 0); atomic_store(&head, 0);
		atomic_store(&sbx, 0); atomic_store(&sby, 0); atomic_store(&mpflag, 0);
		hit = calloc(1, (size_t)tot + 1); nhit = tot;
		nodes = calloc((size_t)tot, sizeof *nodes);
		memset(xsum, 0, sizeof xsum); memset(xin, 0, sizeof xin);
		arrived = 0;
		go_ = 0;
		for (i = 0; i < nt; i++) if (pthread_create(&t[i], 0, worker, (void *)(intptr_t)i)) vh_broken("pthread_create");
		__atomic_store_n(&go_, 1, __ATOMIC_RELEASE);
		for (i = 0; i < nt; i++) pthread_join(t[i], 0);
		if (mode == 0) { VH_MUST(L.plain == tot, "lost-update", "%ld increments under the lock, counter is %ld", tot, L.plain); c_lock += tot; }
		if (mode == 1) { VH_MUST(L.plain == tot, "lost-update", "%ld increments under the flag, counter is %ld", tot, L.plain); c_tas += tot; }
		if (mode == 2 || mode == 5) VH_MUST(atomic_load(&ctr) == (size_t)tot, "lost-update", "%ld additions gave %zu", tot, (size_t)atomic_load(&ctr));
		if (mode == 3) VH_MUST(atomic_load(&ctr) == 0, "lost-update", "%ld subtractions left %zu", tot, (size_t)atomic_load(&ctr));
		if (mode == 2 || mode == 3 || mode == 4 || mode == 6) c_rmw += tot;
		if (mode == 4) VH_MUST(atomic_load(&bits) == 0, "bit-ops", "bits %zx are left", (size_t)atomic_load(&bits));
		if (mode == 5 || mode == 7) c_cas += tot;
		if (mode == 6) {
			unsigned long long a = 0, b = (unsigned long long)atomic_load(&ctr) * 0x9E3779B97F4A7C15ull;
			for (i = 0; i < nt; i++) { a += xin[i]; b += xsum[i]; }
			VH_MUST(a == b, "exchange", "values put in by exchange are not the values that came out");
		}
		if (mode == 7) {
			struct node *nd; long k = 0;
			for (nd = (struct node *)atomic_load(&head); nd; nd = nd->next) { if (hit[nd->id]++) vh_fatal("swap", "node %ld is linked twice", nd->id); k++; }
			VH_MUST(k == tot, "swap", "%ld nodes linked with pointer swaps, %ld found", tot, k);
		}
		if (mode >= 8) c_litmus += n;
		/* without contention */
		{
			size_t e = 5;
			atomic_store(&ctr, 7);
			VH_MUST(!atomic_cas(&ctr, &e, 9) && e == 7 && atomic_load(&ctr) == 7, "cas", "compare and swap with the wrong expectation");
			VH_MUST(atomic_cas(&ctr, &e, 9) && atomic_load(&ctr) == 9 && e == 7, "cas", "compare and swap with the right expectation");
			e = vh_rnd();
			atomic_store(&ctr, e);
			VH_MUST((size_t)atomic_load(&ctr) == e && atomic_get(size_t, &ctr) == e, "store", "stored %zx, loaded %zx", e, (size_t)atomic_load(&ctr));
			VH_MUST((size_t)atomic_fetch_add(&ctr, (size_t)1 << 40) == e && (size_t)atomic_load(&ctr) == e + ((size_t)1 << 40), "fetch_add", "fetch_add of 2^40 to %zx", e);
			VH_MUST((size_t)atomic_fetch_sub(&ctr, 3) == e + ((size_t)1 << 40) && (size_t)atomic_load(&ctr) == e + ((size_t)1 << 40) - 3, "fetch_sub", "fetch_sub of 3");
			atomic_flag_clear(&fl);
			VH_MUST(!atomic_flag_load(&fl) && !atomic_flag_test_and_set(&fl) && atomic_flag_load(&fl) && atomic_flag_test_and_set(&fl), "flag", "an atomic flag");
		}
		free(hit); free(nodes);
		vh_eval(1); vh_beat();
		vh_sig(vh_mix(vh_mix((uint64_t)mode, (uint64_t)nt), (uint64_t)n));
		if (vh_want_sample()) vh_sample("mode %d: %d threads, %d operations each", mode, nt, n);
	}
	vh_count("critical sections under the lock", c_lock); vh_count("critical sections under a flag", c_tas); vh_count("read-modify-write operations", c_rmw);
	vh_count("compare and swap successes", c_cas); vh_count("failed attempts", c_fail); vh_count("ordering rounds", c_litmus); vh_count("ordering rounds where both stores were seen", c_both0);
	vh_done();
	return 0;
}
