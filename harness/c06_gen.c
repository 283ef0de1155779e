/* C06: generators: every value once, in order, then the end; several generators, several consumers. */
#include <events.h>
#include "vh.h"
#include "ev.h"
#define MAXG 24
typedef struct { int id, n, next, taken, spin, naps, started, ended, ends, wantsnull; uint64_t seed; generator_t g; } gn;
static gn G[MAXG];
static int nG, live, expect;
static uint64_t sig;
static long c_val, c_end, c_after, c_multi, c_slow, c_gens, c_noisy;
static uintptr_t val(gn *g, int i) { return 0x1000000 + ((uintptr_t)g->id << 32) + (uintptr_t)i * 16; }
static void *gen(param_t a) {
	gn *g = a[0].object;
	vh_rng r = {g->seed};
	int i;
	VH_MUST(++g->started == 1, "twice", "generator %d was started twice", g->id);
	VH_MUST(a[1].integer == g->id && a[2].object == (void *)g, "arguments", "arguments of generator %d", g->id);
	for (i = 0; i < g->n; i++) {
		int k;
		vh_beat();
		for (k = 0; g->spin && k < (int)vh_rn(&r, (uint32_t)g->spin); k++) yield();
		if (g->naps && vh_rn(&r, 6) == 0) delay(vh_rn(&r, 3));
		g->next = i + 1;
		yielding((void *)val(g, i));
		/* "suspends until the data is retrieved" or at least until the next value: never two values apart */
		VH_MUST(i <= g->taken, "overrun", "generator %d passes value %d, only %d were retrieved", g->id, i, g->taken);
	}
	g->ended = 1;
	return (void *)val(g, 7777);
}
/* takes one value of a generator; false at its end */
static int take(gn *g) {
	values_t v = yielded(g->g);
	vh_beat();
	VH_MUST(gen_id() != TASK_ERRED || !v.object, "gen-id", "no generator id after yielded()");
	if (g->taken == g->n) {
		VH_MUST(v.object == 0, "value-after-end", "generator %d passed %d values and ended, yielded() gives %p", g->id, g->n, v.object);
		VH_MUST(g->ended, "early-end", "the end of generator %d before its function returned", g->id);
		if (g->ends++) c_after++; else c_end++;
		return 0;
	}
	VH_MUST(v.object != 0, "lost", "generator %d passed %d values, yielded() reports the end after %d", g->id, g->n, g->taken);
	VH_MUST((uintptr_t)v.object == val(g, g->taken), "value", "value %d of generator %d is %p, not %p", g->taken, g->id, v.object, (void *)val(g, g->taken));
	g->taken++; c_val++;
	sig = vh_mix(sig, (uint64_t)g->id);
	return 1;
}
static void *consumer(param_t a) {
	vh_rng r = {(uint64_t)a[0].long_long};
	int only = a[1].integer, more = 1, i;
	for (;;) {
		gn *g = only >= 0 ? &G[only] : &G[vh_rn(&r, (uint32_t)nG)];
		int n = 1 + (int)vh_rn(&r, 5);
		if (only < 0) {
			for (more = 0, i = 0; i < nG; i++) more |= G[i].taken < G[i].n || !G[i].ends;
			if (!more) break;
		}
		while (n-- > 0) {
			/* another consumer may take the last value while this one waits */
			if (!take(g)) break;
		}
		if (g->ends && only >= 0) break;
		if (vh_rn(&r, 4) == 0) { int k = (int)vh_rn(&r, 8); c_slow++; while (k-- > 0) yield(); }
		if (vh_rn(&r, 12) == 0) { delay(vh_rn(&r, 4)); c_slow++; }
	}
	live--;
	return 0;
}
static void *noise(param_t a) { int n = a[0].integer; while (n-- > 0) { yield(); c_noisy++; } live--; return 0; }
/* ends before its generators did: these go on, or wait for ever, and nothing else is disturbed */
static gn *AB[400];
static int nAB, stuck;
static long c_aband, c_abended;
static void *abandoner(param_t a) {
	int n = 1 + (int)vh_n(3), i, k;
	(void)a;
	for (i = 0; i < n && nAB < 400; i++) {
		gn *g = calloc(1, sizeof *g);
		g->id = 1000 + i; g->seed = vh_rnd(); g->n = (int)vh_n(12); g->spin = (int)vh_n(4);
		g->g = generator(gen, 3, g, (void *)(intptr_t)g->id, g);
		AB[nAB++] = g; c_gens++; c_aband++;
		/* one value may be left: then its function ends by itself, else it waits for ever */
		k = g->n && stuck < 6 && vh_p(15) ? stuck++, (int)vh_n((uint32_t)g->n) : g->n - (int)vh_n(2);
		while (k-- > 0) take(g);
	}
	for (k = (int)vh_n(4); k > 0; k--) yield();
	live--;
	return 0;
}
static void abandoned(void) {
	int i, n = 0;
	for (i = 0; i < nAB; i++) {
		if (AB[i]->ended) { c_abended++; free(AB[i]); }
		else { AB[n++] = AB[i]; VH_MUST(AB[i]->n - AB[i]->taken > 1 || AB[i]->ended, "abandoned", "a generator whose last value was passed did not end"); }
	}
	nAB = n;
}
static void *one_case(param_t a) {
	int i, k, sharing, late;
	(void)a;
	memset(G, 0, sizeof G);
	nG = 1 + (int)vh_n(vh_p(70) ? 5 : MAXG); live = 0; sig = 7;
	sharing = vh_p(25);
	late = vh_p(30);
	if (vh_p(40)) for (k = 1 + (int)vh_n(3); k > 0; k--) { live++; async_task(abandoner, 0); }
	for (i = 0; i < nG; i++) {
		gn *g = &G[i];
		g->id = i; g->seed = vh_rnd(); g->n = vh_p(15) ? 0 : vh_p(70) ? (int)vh_n(20) : (int)vh_n(300);
		g->spin = vh_p(50) ? 0 : 1 + (int)vh_n(5); g->naps = vh_p(20);
		g->g = generator(gen, 3, g, (void *)(intptr_t)i, g);
		VH_MUST(g->g != NULL, "create", "no generator");
		c_gens++;
		if (late && vh_p(50)) { k = (int)vh_n(6); while (k-- > 0) yield(); }
		if (vh_p(30)) { live++; async_task(noise, 1, (int)vh_n(30)); }
		if (vh_p(30)) take(&G[vh_n((uint32_t)(i + 1))]);	/* this task consumes too, before the generator ran */
	}
	if (sharing) {	/* values of one generator are taken by several tasks: together each once, in order */
		int n = 2 + (int)vh_n(3);
		for (i = 0; i < n; i++) { live++; async_task(consumer, 2, (long long)vh_rnd(), -1); }
		c_multi++;
	} else for (i = 0; i < nG; i++) { live++; async_task(consumer, 2, (long long)vh_rnd(), i); }
	while (live > 0) {
		if (!sharing && vh_p(20)) take(&G[vh_n((uint32_t)nG)]);
		else yield();
	}
	/* after the end, and after other generators came and went, the end stays the end */
	for (k = 0; k < 3; k++) {
		for (i = 0; i < nG; i++) if (vh_p(60)) { while (take(&G[i])) ; }
		if (vh_p(50)) { gn x; memset(&x, 0, sizeof x); x.id = 900 + k; x.n = (int)vh_n(4); x.seed = vh_rnd(); x.g = generator(gen, 3, &x, (void *)(intptr_t)x.id, &x); c_gens++; while (take(&x)) ; }
		else delay(0);
	}
	if (nAB > stuck) { for (i = 0; i < 60; i++) { yield(); vh_beat(); } abandoned(); }
	expect = 0;
	return 0;
}
static void *driver(param_t a) {
	long c;
	(void)a;
	ev_ids();
	for (c = 0; c < vh_cases; c++) {
		vh_case(c);
		expect = 1;
		if (vh_p(10)) one_case(0);
		else { uint32_t id = async_task(one_case, 0); await_for(id); }
		VH_MUST(!expect, "driver", "case did not finish");
		vh_eval(1); vh_sig(vh_mix(sig, (uint64_t)nG));
		if (vh_want_sample()) vh_sample("%d generators, first with %d values", nG, G[0].n);
	}
	vh_count("generators", c_gens); vh_count("values", c_val); vh_count("ends", c_end); vh_count("generators whose creator ended first", c_aband); vh_count("of these that ended by themselves", c_abended); vh_count("calls after the end", c_after); vh_count("cases with several consumers of a generator", c_multi); vh_count("slow consumer steps", c_slow); vh_count("yields of other tasks", c_noisy);
	vh_exit();
	return 0;
}
int main(int argc, char **argv) {
	vh_init(argc, argv);
	ev_run(driver);
	return 0;
}
