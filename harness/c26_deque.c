/* C26: one owner and several thieves on a work deque: conservation of the items, and a sequential model. */
#include <events.h>
#include "vh.h"
#include "ev.h"
#include "events_internal.h"
#define MAXT 5
#define MAXI 200000
#define EMPTY ((tasks_t *)0x300)
#define ABORT ((tasks_t *)0x400)
#define ITEM(i) ((tasks_t *)(uintptr_t)(0x10000 + 16 * (uintptr_t)(i)))
static unsigned char seen[MAXI];
static events_deque_t *q;
static volatile long pushed, nobt;
static volatile int stop, go_;
static long c_stolen, c_taken, c_abort, c_empty;
static void obtained(tasks_t *x, const char *how, int th) {
	uintptr_t v = (uintptr_t)x - 0x10000;
	if ((uintptr_t)x < 0x10000 || v % 16 || (long)(v / 16) >= __atomic_load_n(&pushed, __ATOMIC_SEQ_CST)) vh_fatal("invented", "%s by thread %d gave %p, which was never pushed", how, th, (void *)x);
	__atomic_fetch_add(&nobt, 1, __ATOMIC_SEQ_CST);
	if (__atomic_exchange_n(&seen[v / 16], 1, __ATOMIC_SEQ_CST)) vh_fatal("twice", "%s by thread %d gave item %ld again", how, th, (long)(v / 16));
}
static long stolen[MAXT], lastst[MAXT];
static void *thief(void *v) {
	int th = (int)(intptr_t)v;
	long n = 0, ab = 0, last = -1;
	while (!go_) ;
	while (!stop) {
		tasks_t *x = deque_steal(q);
		if (x == EMPTY) continue;
		if (x == ABORT) { ab++; continue; }
		obtained(x, "steal", th);
		/* thieves get items in the order of their pushes: what one thief gets only increases */
		if ((long)(((uintptr_t)x - 0x10000) / 16) < last) vh_fatal("steal-order", "thread %d stole item %ld after %ld", th, (long)(((uintptr_t)x - 0x10000) / 16), last);
		last = (long)(((uintptr_t)x - 0x10000) / 16);
		n++;
	}
	__atomic_fetch_add(&c_stolen, n, __ATOMIC_SEQ_CST); __atomic_fetch_add(&c_abort, ab, __ATOMIC_SEQ_CST);
	stolen[th] = n;
	return 0;
}
/* x == the item a sequential deque gives */
static void sequential(int ops, int hint) {
	static long st[MAXI];
	long lo = 0, hi = 0;
	int i;
	for (i = 0; i < ops; i++) {
		uint32_t k = vh_n(100);
		if (k < 50) { st[hi++] = pushed; deque_push(q, ITEM(pushed)); pushed++; }
		else {
			tasks_t *x = k < 75 ? deque_take(q) : deque_steal(q), *w = lo == hi ? EMPTY : ITEM(k < 75 ? st[hi - 1] : st[lo]);
			if (x != w) vh_fatal(k < 75 ? "take" : "steal", "operation %d (capacity %d, %ld items): %s gave %p, not %p", i, hint, hi - lo, k < 75 ? "take" : "steal", (void *)x, (void *)w);
			if (lo != hi) { obtained(x, "sequential", 0); if (k < 75) hi--; else lo++; c_taken++; } else c_empty++;
		}
		if (vh_n(50) == 0) while (lo < hi) { obtained(deque_steal(q), "steal", 0); lo++; }
	}
	while (lo < hi) { obtained(deque_take(q), "take", 0); hi--; }
	VH_MUST(deque_take(q) == EMPTY && deque_steal(q) == EMPTY, "not-empty", "an emptied deque gives more");
}
int main(int argc, char **argv) {
	long c;
	vh_init(argc, argv);
	events_init(64);
	for (c = 0; c < vh_cases; c++) {
		pthread_t t[MAXT];
		int i, nt, hint, mode, n, burst;
		long taken = 0;
		vh_case(c);
		q = events_calloc(1, sizeof *q);
		hint = 1 + (int)vh_n(vh_p(60) ? 8 : 300);
		deque_init(q, hint);
		memset(seen, 0, sizeof seen);
		pushed = nobt = 0; stop = go_ = 0;
		if (vh_p(30)) {
			n = 1 + (int)vh_n(2000);
			sequential(n, hint);
			vh_sig(vh_mix((uint64_t)hint, (uint64_t)n)); nt = 0;
		} else {
			nt = 1 + (int)vh_n(MAXT - 1); mode = (int)vh_n(4); n = 500 + (int)vh_n(30000); burst = 1 + (int)vh_n(mode == 2 ? 400 : 6);
			for (i = 0; i < nt; i++) if (pthread_create(&t[i], 0, thief, (void *)(intptr_t)i)) vh_broken("pthread_create");
			go_ = 1;
			while (pushed < n) {
				int k = 1 + (int)vh_n((uint32_t)burst);
				for (i = 0; i < k && pushed < MAXI - 2; i++) { __atomic_fetch_add(&pushed, 1, __ATOMIC_SEQ_CST); deque_push(q, ITEM(pushed - 1)); }
				k = mode == 0 ? 0 : mode == 1 ? k : (int)vh_n((uint32_t)(burst + 2));
				for (i = 0; i < k; i++) { tasks_t *x = deque_take(q); if (x != EMPTY) { VH_MUST(x != ABORT, "take", "take gave the value of a lost race"); obtained(x, "take", -1); taken++; } else c_empty++; }
				vh_beat();
			}
			if (vh_p(50)) { tasks_t *x; while ((x = deque_take(q)) != EMPTY) { obtained(x, "take", -1); taken++; } }
			else { long lim; for (lim = 0; lim < 200000000 && nobt != pushed; lim++) ; }
			stop = 1;
			for (i = 0; i < nt; i++) pthread_join(t[i], 0);
			{ tasks_t *x; while ((x = deque_steal(q)) != EMPTY) obtained(x, "steal", -1); }
			for (i = 0; i < pushed; i++) VH_MUST(seen[i], "lost", "item %d of %ld was never obtained (%d thieves, capacity %d)", i, (long)pushed, nt, hint);
			c_taken += taken;
			vh_sig(vh_mix(vh_mix((uint64_t)taken, (uint64_t)stolen[0]), (uint64_t)pushed));
			if (vh_want_sample()) vh_sample("capacity %d, %ld items, %d thieves: owner took %ld, first thief stole %ld", hint, (long)pushed, nt, taken, stolen[0]);
		}
		deque_free(q);
		vh_eval(1);
	}
	vh_count("items stolen", c_stolen); vh_count("items taken by the owner", c_taken); vh_count("steals that lost a race", c_abort); vh_count("takes and steals of an empty deque", c_empty);
	vh_exit();
}
