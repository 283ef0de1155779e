/* Checking allocator: every block of the program under test has a canary on both sides, is filled
 * with a pattern when freed and kept in quarantine, so that writes outside blocks, writes after free,
 * double and foreign frees are seen. Linked with --wrap=malloc,calloc,realloc,free. */
#define _GNU_SOURCE
#include "vh.h"
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <stdlib.h>
#include <malloc.h>
#include <execinfo.h>
void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t);
void __real_free(void *);
int vm_on = 1;
#define NBT 10
#define TAIL 16
#define LIVE 0x4c495645424c4f43ULL
#define DEAD 0x4445414442454546ULL
typedef struct blk { uint64_t magic; size_t n; struct blk *next, *prev; unsigned gen, nbt; void *pad, *bt[NBT]; } blk;
static blk live = {0, 0, &live, &live};
unsigned vm_gen;	/* written into each block */
int vm_bt;	/* note where blocks come from */
static size_t n_live, b_live;
#define QN 4096
static blk *quar[QN];
static unsigned qi;
static volatile int lk;
static void lock(void) { while (__atomic_exchange_n(&lk, 1, __ATOMIC_ACQUIRE)) ; }
static void unlock(void) { __atomic_store_n(&lk, 0, __ATOMIC_RELEASE); }
/* set of all block addresses handed out by us (live or quarantined): open addressing */
#define HB 20
static blk **tab;
static size_t hidx(blk *b) { return ((uintptr_t)b >> 4) * 0x9E3779B97F4A7C15ULL >> (64 - HB); }
static void tadd(blk *b) {
	size_t i = hidx(b);
	if (!tab) tab = __real_calloc((size_t)1 << HB, sizeof *tab);
	while (tab[i]) i = (i + 1) & ((1u << HB) - 1);
	tab[i] = b;
}
static int thas(blk *b) {
	size_t i = hidx(b);
	if (!tab) return 0;
	while (tab[i]) { if (tab[i] == b) return 1; i = (i + 1) & ((1u << HB) - 1); }
	return 0;
}
static void tdel(blk *b) {
	size_t i = hidx(b), j, k, m = (1u << HB) - 1;
	while (tab[i] != b) i = (i + 1) & m;
	j = i;
	for (;;) {
		tab[i] = NULL;
		for (;;) {
			j = (j + 1) & m;
			if (!tab[j]) return;
			k = hidx(tab[j]);
			if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
			break;
		}
		tab[i] = tab[j]; i = j;
	}
}
static int tail_ok(blk *b) {
	unsigned char *t = (unsigned char *)(b + 1) + b->n;
	int i;
	for (i = 0; i < TAIL; i++) if (t[i] != 0xC7) return 0;
	return 1;
}
static size_t bad_at; static uint64_t bad_v[4];
static int dead_ok(blk *b) {
	unsigned char *t = (unsigned char *)(b + 1);
	size_t i, n = b->n > 65536 ? 65536 : b->n;
	for (i = 0; i < n; i++) if (t[i] != 0xDF) { bad_at = i; memcpy(bad_v, t + (i & ~7ul), n - (i & ~7ul) < 32 ? n - (i & ~7ul) : 32); return 0; }
	return b->magic == DEAD;
}
static __thread int in_bt;
void *__wrap_malloc(size_t n) {
	blk *b = __real_malloc(sizeof *b + n + TAIL);
	if (!b) return NULL;
	b->magic = LIVE; b->n = n; b->gen = vm_gen; b->nbt = 0;
	if (vm_bt && !in_bt) { in_bt = 1; b->nbt = (unsigned)backtrace(b->bt, NBT); in_bt = 0; }
	memset(b + 1, 0xA5, n);
	memset((char *)(b + 1) + n, 0xC7, TAIL);
	lock();
	b->next = live.next; b->prev = &live; live.next->prev = b; live.next = b;
	n_live++; b_live += n;
	tadd(b);
	unlock();
	return b + 1;
}
void *__wrap_calloc(size_t n, size_t m) {
	void *p;
	if (m && n > (size_t)-1 / 2 / m) { errno = ENOMEM; return NULL; }
	p = __wrap_malloc(n * m);
	if (p) memset(p, 0, n * m);
	return p;
}
static blk *release(void *p) {
	blk *b = (blk *)p - 1, *old;
	if (b->magic == DEAD) { unlock(); vh_fatal("heap:double-free", "block of %zu bytes freed twice", b->n); }
	if (b->magic != LIVE) { unlock(); vh_fatal("heap:underflow", "header of a block overwritten"); }
	if (!tail_ok(b)) { unlock(); vh_fatal("heap:overflow", "write past the end of a block of %zu bytes", b->n); }
	b->prev->next = b->next; b->next->prev = b->prev;
	n_live--; b_live -= b->n;
	b->magic = DEAD;
	memset(b + 1, 0xDF, b->n);
	old = quar[qi]; quar[qi] = b; qi = (qi + 1) % QN;
	if (old) {
		if (!dead_ok(old)) { unlock(); vh_fatal("heap:write-after-free", "a freed block of %zu bytes was written to (offset %zu: %lx %lx %lx %lx)", old->n, bad_at, (long)bad_v[0], (long)bad_v[1], (long)bad_v[2], (long)bad_v[3]); }
		tdel(old);
	}
	return old;
}
void __wrap_free(void *p) {
	blk *old;
	int e = errno;
	if (!p) return;
	lock();
	if (!thas((blk *)p - 1)) {	/* of libc (strdup, getline, ...) */
		unlock();
		__real_free(p);
		errno = e;
		return;
	}
	old = release(p);
	unlock();
	if (old) __real_free(old);
	errno = e;
}
void *__wrap_realloc(void *p, size_t n) {
	blk *b, *old;
	void *q;
	if (!p) return __wrap_malloc(n);
	lock();
	if (!thas((blk *)p - 1)) { unlock(); return __real_realloc(p, n); }
	b = (blk *)p - 1;
	if (b->magic == DEAD) { unlock(); vh_fatal("heap:realloc-freed", "block of %zu bytes reallocated after it was freed", b->n); }
	unlock();
	q = __wrap_malloc(n);		/* always moves, so that stale pointers are seen */
	if (!q) return NULL;
	memcpy(q, p, b->n < n ? b->n : n);
	lock();
	old = release(p);
	unlock();
	if (old) __real_free(old);
	return q;
}
char *__wrap_strdup(const char *s) {
	size_t n = strlen(s) + 1;
	char *p = __wrap_malloc(n);
	if (p) memcpy(p, s, n);
	return p;
}
size_t vm_live(void) { return n_live; }
/* blocks allocated in generations from .. to and still there (debugging aid) */
void vm_report(unsigned from, unsigned to) {
	blk *b; int k = 0;
	for (b = live.next; b != &live && k < 40; b = b->next) if (b->gen >= from && b->gen <= to) {
		dprintf(2, "-- %zu bytes of generation %u\n", b->n, b->gen); k++;
		if (b->nbt) backtrace_symbols_fd(b->bt, (int)b->nbt, 2);
	}
}
size_t vm_bytes(void) { return b_live; }
void vm_check(const char *when) {
	blk *b;
	unsigned i;
	size_t bad = 0; int kind = 0;
	lock();
	for (b = live.next; b != &live; b = b->next) {
		if (b->magic != LIVE) { kind = 1; break; }
		if (!tail_ok(b)) { kind = 2; bad = b->n; break; }
	}
	for (i = 0; i < QN && !kind; i++) if (quar[i] && !dead_ok(quar[i])) { kind = 3; bad = quar[i]->n; }
	unlock();
	if (kind == 1) vh_fatal("heap:underflow", "%s: header of a block overwritten", when);
	if (kind == 2) vh_fatal("heap:overflow", "%s: write past the end of a block of %zu bytes", when, bad);
	if (kind == 3) vh_fatal("heap:write-after-free", "%s: a freed block of %zu bytes was written to", when, bad);
}
