/* C25: threads allocate, reallocate, exchange and free blocks whose contents are known; every block is
 * checked against its pattern before it is given back, moved or handed on. */
#include <events.h>
#include "vh.h"
#include "ev.h"
#define MAXT 6
#define SLOTS 64
typedef struct { unsigned char *p; size_t n, al; uint32_t id; int owner; } blk;
static blk mail[SLOTS];
static pthread_mutex_t mlock = PTHREAD_MUTEX_INITIALIZER;
static int nslots, nops, style;
static volatile uint32_t nextid;
static long c_foreign, c_orphan, c_huge, c_large, c_move, c_stay, c_ops, c_al;
#define ADD(v, n) __atomic_fetch_add(&(v), (n), __ATOMIC_RELAXED)

static unsigned char pat(uint32_t id, size_t i) { uint64_t x = ((uint64_t)id << 32 ^ i) * 0x9E3779B97F4A7C15ull; return (unsigned char)(x >> 56); }
/* the positions of a block that carry its pattern: all of it up to 8 KB, else both ends and some of every page */
#define EACH(n, i) for (i = 0; i < (n); i = (n) <= 8192 || i < 1024 || i + 1024 >= (n) || (i & 511) < 24 ? i + 1 : ((i | 511) + 1 < (n) - 1024 ? (i | 511) + 1 : (n) - 1024))
static void fill(blk *b) { size_t i; EACH(b->n, i) b->p[i] = pat(b->id, i); }
static void verify(const blk *b, const unsigned char *p, size_t n, const char *key) {
	size_t i;
	EACH(b->n, i) {
		if (i >= n) break;
		if (p[i] != pat(b->id, i)) vh_fatal(key, "block %u of %zu bytes (alignment %zu, thread %d) at %p: byte %zu changed", b->id, b->n, b->al, b->owner, (void *)p, i);
	}
}
static size_t gensize(vh_rng *r) {
	uint32_t k = vh_rn(r, 100);
	if (style == 1) return vh_rn(r, 600);
	if (style == 2) return 30000 + vh_rn(r, 400000);
	if (style == 3) return (size_t)16 << vh_rn(r, 14);	/* sizes at the borders of classes */
	if (k < 3) return 0;
	if (k < 50) return vh_rn(r, 1100);
	if (k < 75) return vh_rn(r, 33000);
	if (k < 84) { size_t e[] = {1024, 32768 - 128, 32752, 65536 - 128, 65408, 131072 - 128, 4194304 - 128}; return e[vh_rn(r, 7)] + vh_rn(r, 7) - 3; }
	if (k < 97) return vh_rn(r, 500000);
	return vh_rn(r, 9000000);
}
static size_t genalign(vh_rng *r) { return (size_t)8 << vh_rn(r, vh_rn(r, 3) ? 5 : 13); }	/* 8 .. 32768 */
static void got(blk *b, unsigned char *p, size_t n, size_t al, int th, const char *how) {
	size_t u;
	if (!p) vh_fatal("failed", "%s(%zu) failed", how, n);
	if ((uintptr_t)p % al) vh_fatal("misaligned", "%s: %p of %zu bytes is not aligned to %zu", how, (void *)p, n, al);
	u = rp_malloc_usable_size(p);
	if (u < n) vh_fatal("too-small", "%s: %zu bytes asked, %zu usable", how, n, u);
	b->p = p; b->al = al; b->owner = th; b->n = n;
	b->id = __atomic_add_fetch(&nextid, 1, __ATOMIC_RELAXED);
}
static void zeroed(blk *b) { size_t i; for (i = 0; i < b->n; i++) if (b->p[i]) vh_fatal("not-zeroed", "calloc: byte %zu of %zu at %p is %d", i, b->n, (void *)b->p, b->p[i]); }
static void alloc(blk *b, vh_rng *r, int th, int raw) {
	size_t n = gensize(r), al;
	unsigned char *p;
	uint32_t k = vh_rn(r, 100);
	if (k < 55) got(b, raw ? rpmalloc(n) : rp_malloc(n), n, 16, th, "malloc");
	else if (k < 75) { size_t e = 1 + vh_rn(r, 20); got(b, raw ? rpcalloc(n / e, e) : rp_calloc(n / e, e), n / e * e, 16, th, "calloc"); zeroed(b); }
	else {
		al = genalign(r);
		ADD(c_al, 1);
		got(b, raw ? rpaligned_alloc(al, n) : rp_memalign(al, n), n, al, th, "memalign");
	}
	if (n > 4000000) ADD(c_huge, 1); else if (n > 33000) ADD(c_large, 1);
	/* all of what the allocator says is usable may be used */
	if (vh_rn(r, 3) == 0) b->n = rp_malloc_usable_size(b->p);
	fill(b);
}
static void release(blk *b, int th, int raw) {
	verify(b, b->p, b->n, "contents");
	if (b->owner != th) ADD(c_foreign, 1);
	if (raw) rpfree(b->p); else rp_free(b->p);
	b->p = 0;
}
static void resize(blk *b, vh_rng *r, int th, int raw) {
	size_t n = vh_rn(r, 2) ? gensize(r) : b->n + vh_rn(r, 200) - (b->n > 100 ? 100 : 0), keep = n < b->n ? n : b->n, al = 16;
	unsigned char *p, *was = b->p;
	blk o = *b;
	if (!n) n = 1;
	verify(b, b->p, b->n, "contents");
	if (b->owner != th) ADD(c_foreign, 1);
	if (raw && vh_rn(r, 4) == 0) { al = genalign(r); p = rpaligned_realloc(b->p, al, n, vh_rn(r, 2) ? 0 : b->n, 0); }
	else p = raw ? rprealloc(b->p, n) : rp_realloc(b->p, n);
	if (!p) vh_fatal("failed", "realloc %zu failed", n);
	if (keep > n) keep = n;
	verify(&o, p, keep, "realloc-prefix");
	if (p == was) ADD(c_stay, 1); else ADD(c_move, 1);
	got(b, p, n, al, th, "realloc");
	fill(b);
}
struct arg { int th; uint64_t seed; };
static void *worker(void *v) {
	struct arg *a = v;
	vh_rng rr = {a->seed}, *r = &rr;
	blk own[40];
	int i, th = a->th, raw = vh_rn(r, 3) == 0, n = 1 + (int)vh_rn(r, 40);
	memset(own, 0, sizeof own);
	if (raw) rpmalloc_thread_initialize();
	for (i = 0; i < nops; i++) {
		blk *b = &own[vh_rn(r, (uint32_t)n)];
		uint32_t k = vh_rn(r, 100);
		if (!b->p) alloc(b, r, th, raw);
		else if (k < 35) release(b, th, raw);
		else if (k < 60) resize(b, r, th, raw);
		else if (k < 65) verify(b, b->p, b->n, "contents");
		else {
			blk *m = &mail[vh_rn(r, (uint32_t)nslots)], t;
			pthread_mutex_lock(&mlock);
			t = *m; *m = *b; *b = t;
			pthread_mutex_unlock(&mlock);
			if (b->p && vh_rn(r, 2)) release(b, th, raw);
		}
		vh_beat();
	}
	ADD(c_ops, nops);
	for (i = 0; i < n; i++) if (own[i].p) {
		if (vh_rn(r, 4)) release(&own[i], th, raw);
		else {	/* left behind in the mailbox after the thread ended */
			blk *m = &mail[vh_rn(r, (uint32_t)nslots)], t;
			pthread_mutex_lock(&mlock);
			t = *m; *m = own[i];
			pthread_mutex_unlock(&mlock);
			if (t.p) release(&t, th, raw);
		}
	}
	if (raw) rpmalloc_thread_finalize(1);
	return 0;
}
int main(int argc, char **argv) {
	long c;
	vh_init(argc, argv);
	rp_free(rp_malloc(1));
	for (c = 0; c < vh_cases; c++) {
		pthread_t t[MAXT * 3];
		struct arg a[MAXT * 3];
		int i, j, nt, rounds;
		vh_case(c);
		nt = 1 + (int)vh_n(MAXT); rounds = 1 + (int)vh_n(3);
		nslots = 1 + (int)vh_n(SLOTS); nops = 50 + (int)vh_n(800); style = (int)vh_n(5);
		if (style == 2) nops /= 4;
		for (j = 0; j < rounds; j++) {
			for (i = 0; i < nt; i++) { a[i].th = j * nt + i; a[i].seed = vh_rnd(); if (pthread_create(&t[i], 0, worker, &a[i])) vh_broken("pthread_create"); }
			for (i = 0; i < nt; i++) pthread_join(t[i], 0);
		}
		for (i = 0; i < nslots; i++) if (mail[i].p) { c_orphan++; release(&mail[i], -1, 0); }
		vh_eval(1);
		vh_sig(vh_mix(vh_mix((uint64_t)nt * 8 + (uint64_t)style, (uint64_t)nops * 100 + (uint64_t)nslots), a[0].seed));
		if (vh_want_sample()) vh_sample("%d threads in %d rounds, %d operations each, %d mailboxes, size style %d", nt, rounds, nops, nslots, style);
	}
	vh_count("operations", c_ops); vh_count("blocks released by another thread", c_foreign); vh_count("blocks released after their thread ended", c_orphan);
	vh_count("huge blocks", c_huge); vh_count("large blocks", c_large); vh_count("aligned blocks", c_al); vh_count("reallocations that moved", c_move); vh_count("reallocations in place", c_stay);
	vh_exit();
}
