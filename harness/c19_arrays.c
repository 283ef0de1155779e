/* C19: random histories of array operations on several arrays, compared with plain lists. */
#include <events.h>
#include <except.h>
#include "vh.h"
#include "ev.h"
#define NA 6
#define ML 6000
typedef struct { uint64_t v; unsigned char kind; } el;	/* kind: how the value was stored */
enum { K_OBJ, K_DBL, K_UNS, K_SIG, K_STR, K_FUN, K_CHR, K_BOO, K_SHO };
typedef struct { array_t a; el *l; size_t n; int tuple; } pair;
static pair P[NA];
static uint64_t sig;
static int throws;
static void *fdummy(void *x) { return x; }
static int eq(values_t x, el e) {
	switch (e.kind) {
		case K_DBL: { double d; memcpy(&d, &e.v, 8); return !memcmp(&x.precision, &d, 8); }
		case K_UNS: return x.max_size == e.v;
		case K_SIG: return x.long_long == (long long)e.v;
		case K_STR: return x.char_ptr == (char *)(uintptr_t)e.v;
		case K_FUN: return x.func == (data_func_t)(uintptr_t)e.v;
		case K_CHR: return x.schar == (signed char)e.v;
		case K_BOO: return x.boolean == (bool)e.v;
		case K_SHO: return x.s_short == (short)e.v;
		default: return x.object == (void *)(uintptr_t)e.v;
	}
}
static void same(pair *p, const char *op) {
	size_t i;
	VH_MUST($size(p->a) == p->n, "array:size", "size is %zu, list has %zu after %s", $size(p->a), p->n, op);
	VH_MUST($capacity(p->a) >= p->n, "array:capacity", "capacity %zu below the size %zu after %s", $capacity(p->a), p->n, op);
	for (i = 0; i < p->n; i++)
		VH_MUST(eq(p->a[i], p->l[i]), "array:content", "element %zu of %zu is %llx, list has %llx (kind %d) after %s", i, p->n,
			(unsigned long long)p->a[i].max_size, (unsigned long long)p->l[i].v, p->l[i].kind, op);
	VH_MUST(is_data(p->a), "array:type", "is_data is false after %s", op);
}
static void add(pair *p) {
	uint64_t r = vh_p(40) ? vh_rnd() : vh_p(50) ? vh_n(3) : (uint64_t)-(int64_t)vh_n(300);
	int k = vh_p(50) ? K_OBJ : (int)vh_n(9);
	static const char *s[] = {"", "a", "bc"};
	switch (k) {
		case K_OBJ: $append(p->a, (uintptr_t)r); break;
		case K_DBL: { double d = vh_p(50) ? (double)(int64_t)r / 7 : vh_n(3); $append_double(p->a, d); memcpy(&r, &d, 8); break; }
		case K_UNS: $append_unsigned(p->a, r); break;
		case K_SIG: $append_signed(p->a, r); break;
		case K_STR: r = (uint64_t)(uintptr_t)s[r % 3]; $append_string(p->a, (uintptr_t)r); break;
		case K_FUN: r = (uint64_t)(uintptr_t)fdummy; $append_func(p->a, (uintptr_t)r); break;
		case K_CHR: $append_char(p->a, r); break;
		case K_BOO: r &= 1; $append_bool(p->a, r); break;
		default: $append_short(p->a, r); break;
	}
	p->l[p->n].v = r; p->l[p->n].kind = (unsigned char)k; p->n++;
}
/* an operation that a tuple refuses */
static int refused(pair *p, int op) {
	volatile int c = 0;
	array_t a = p->a;
	try {
		switch (op) {
			case 0: $append(a, 5); break;
			case 1: $append_double(a, 5.0); break;
			case 2: $remove(a, 0); break;
			case 3: $pop(a); break;
			case 4: $shift(a); break;
			default: $reset(a); break;
		}
		c = 2;
	} catch (logic_error) {
		c = 1;
	}
	return c;
}
static void fresh(pair *p) {
	uint32_t k = vh_n(6);
	p->n = 0; p->tuple = 0;
#define S(i, x) (p->l[i].v = (uint64_t)(x), p->l[i].kind = K_OBJ, p->n++)
	if (k < 3) p->a = array();
	else if (k == 3) { p->a = arrays(1, 77); S(0, 77); }
	else if (k == 4) { void *q = p; p->a = arrays(4, q, 2, 3, NULL); S(0, (uintptr_t)q); S(1, 2); S(2, 3); S(3, 0); }
	else { p->a = arrays(7, 1, 2, 3, 4, 5, 6, 7); { int i; for (i = 0; i < 7; i++) S(i, i + 1); } }
	same(p, "creation");
}
static void history(int len, int maxlen) {
	int o, i;
	for (i = 0; i < NA; i++) { fresh(&P[i]); }
	for (o = 0; o < len; o++) {
		pair *p = &P[vh_n(NA)];
		uint32_t op = vh_n(100);
		const char *name = "?";
		sig = vh_mix(sig, op * 8 + (uint64_t)(p - P));
		if (p->tuple && op >= 55 && op < 97) {
			int w = (int)vh_n(6), c = refused(p, w);
			VH_MUST(c == 1, "array:tuple", "operation %d on a tuple was %s", w, c == 2 ? "accepted" : "not refused with logic_error");
			throws++;
			name = "refused operation";
		} else if (op < 25) {
			if (p->tuple) continue;
			name = "append";
			if (p->n < (size_t)maxlen) add(p);
		} else if (op < 45) {
			int k = (int)vh_n(vh_p(10) ? 400 : 12);
			if (p->tuple) continue;
			name = "appends";
			while (k-- && p->n < (size_t)maxlen) add(p);
		} else if (op < 55) {
			/* copy: the target's old array is dropped, as the caller owns it */
			pair *q = &P[vh_n(NA)];
			if (q == p) continue;
			name = "copy";
			$delete(q->a);
			q->a = $copy(NULL, p->a);
			q->n = p->n; q->tuple = p->tuple;
			memcpy(q->l, p->l, p->n * sizeof(el));
			same(q, "copy (source)");
			VH_MUST(q->a != p->a, "array:copy", "the copy is the array itself");
		} else if (op < 68) {
			size_t at = p->n && vh_p(90) ? vh_n((uint32_t)p->n) : p->n + vh_n(3);
			name = "remove";
			$remove(p->a, at);
			if (at < p->n) { memmove(p->l + at, p->l + at + 1, (p->n - at - 1) * sizeof(el)); p->n--; }
		} else if (op < 76) {
			values_t v = $pop(p->a);
			name = "pop";
			if (p->n) { VH_MUST(eq(v, p->l[p->n - 1]), "array:pop", "pop of %zu elements returned %llx", p->n, (unsigned long long)v.max_size); p->n--; }
			else VH_MUST(v.object == NULL, "array:pop", "pop of an empty array returned %p", v.object);
		} else if (op < 84) {
			values_t v = $shift(p->a);
			name = "shift";
			if (p->n) { VH_MUST(eq(v, p->l[0]), "array:shift", "shift of %zu elements returned %llx", p->n, (unsigned long long)v.max_size); p->n--; memmove(p->l, p->l + 1, p->n * sizeof(el)); }
			else VH_MUST(v.object == NULL, "array:shift", "shift of an empty array returned %p", v.object);
		} else if (op < 87) { name = "reset"; $reset(p->a); p->n = 0; }
		else if (op < 92) {
			size_t want = vh_n((uint32_t)maxlen * 2);
			name = "reserve";
			$reserve(p->a, want);
			VH_MUST($capacity(p->a) >= want, "array:reserve", "capacity is %zu after reserving %zu", $capacity(p->a), want);
		} else if (op < 94) { name = "tuple"; $tuple(p->a); p->tuple = 1; }
		else if (op < 97) { name = "delete and create"; $delete(p->a); fresh(p); }
		else {
			size_t k = 0;
			name = "foreach";
			if (op == 97) { foreach (x in p->a) { VH_MUST(k < p->n && eq(x, p->l[k]), "array:foreach", "foreach gives %llx at %zu of %zu", (unsigned long long)x.max_size, k, p->n); k++; } }
			else { foreach_back (x in p->a) { VH_MUST(k < p->n && eq(x, p->l[p->n - 1 - k]), "array:foreach", "foreach_back gives %llx at %zu of %zu", (unsigned long long)x.max_size, k, p->n); k++; } }
			VH_MUST(k == p->n, "array:foreach", "foreach visits %zu of %zu elements", k, p->n);
		}
		same(p, name);
		vh_count("operations", 1);
		if (vh_p(3)) { int j; for (j = 0; j < NA; j++) same(&P[j], name); }
	}
	for (i = 0; i < NA; i++) { same(&P[i], "end"); if (P[i].n > 64) vh_count("arrays that outgrew their capacity", 1); $delete(P[i].a); }
}
static void ranges(void) {
	int i, start = (int)vh_n(400) - 200, stop = start + (int)vh_n(vh_p(20) ? 3000 : 60) - 20, step = 1 + (int)vh_n(9), n;
	char txt[300];
	volatile int done = 0;
	uint32_t len = vh_n(vh_p(20) ? 299 : 12);
	for (i = 0; i < (int)len; i++) txt[i] = (char)(1 + vh_n(255));
	txt[len] = 0;
	guard {
		range_t r = range(start, stop), s = rangeing(start, stop, step), c = range_char(txt);
		n = stop > start ? stop - start : 0;
		VH_MUST((int)$size(r) == n, "array:range", "range(%d, %d) has %zu elements", start, stop, $size(r));
		for (i = 0; i < n; i++) VH_MUST(r[i].integer == start + i && r[i].intptr == start + i, "array:range", "element %d of range(%d, %d) is %d", i, start, stop, r[i].integer);
		n = stop > start ? (stop - start + step - 1) / step : 0;
		VH_MUST((int)$size(s) == n, "array:range", "rangeing(%d, %d, %d) has %zu elements", start, stop, step, $size(s));
		for (i = 0; i < n; i++) VH_MUST(s[i].integer == start + i * step, "array:range", "element %d of rangeing(%d, %d, %d) is %d", i, start, stop, step, s[i].integer);
		VH_MUST($size(c) == len, "array:range", "range_char of %u characters has %zu elements", len, $size(c));
		for (i = 0; i < (int)len; i++) VH_MUST(c[i].schar == txt[i], "array:range", "element %d of range_char is %d, character %d", i, c[i].schar, txt[i]);
		VH_MUST(is_data(r) && is_data(s) && is_data(c), "array:type", "is_data of a range is false");
		i = 0;
		foreach (x in r) { VH_MUST(x.integer == start + i, "array:foreach", "foreach over range gives %d", x.integer); i++; }
		done = 1;
	} guarded;
	VH_MUST(done, "array:range", "ranges(%d, %d) raised an exception", start, stop);
	vh_count("ranges", 3);
}
int main(int argc, char **argv) {
	long c;
	int i;
	vh_init(argc, argv);
#ifndef __SANITIZE_ADDRESS__	/* the allocator of the library; a guard section looks in front of the pointers deferred in it */
	if (events_init(1024)) vh_fatal("failed", "events_init failed");
#endif
	for (i = 0; i < NA; i++) P[i].l = malloc(ML * sizeof(el));
	for (c = 0; c < vh_cases; c++) {
		int lens[] = {5, 40, 150, 400, 900}, caps[] = {3, 20, 130, 1000, 5000}, l, m;
		vh_case(c);
		sig = 11; throws = 0;
		l = lens[vh_n(5)]; m = caps[vh_n(5)];
		history(l, m);
#ifndef __SANITIZE_ADDRESS__
		ranges();
#endif
		vh_eval(1);
		if (l > 5) vh_sig(sig);
		vh_count("refused operations on tuples", throws);
		if (c < 2) vh_sample("case %ld: %d operations on %d arrays of at most %d elements, %d refused on tuples", c, l, NA, m, throws);
		vh_beat();
	}
	vh_exit();
}
