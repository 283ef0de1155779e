/* C20: the string and memory helpers against reference implementations; the inputs end at an
 * inaccessible page (or begin after one), results are checked for their bounds by the checking allocator. */
#include <events.h>
#include <except.h>
#include "vh.h"
#include "ev.h"
#include <ctype.h>
#define MAXL 4000
static uint64_t sig;
static const char *fn;
#define IS(c, ...) VH_MUST(c, fn, __VA_ARGS__)
static const char *alph;
static int genlen(void) { uint32_t r = vh_n(100); return r < 15 ? 0 : r < 60 ? (int)vh_n(12) : r < 95 ? (int)vh_n(90) : (int)vh_n(MAXL); }
static void pick(void) {
	static const char *A[] = {"ab", "a", "aB \t\nA", "abc,;:", "%#$!\x15\x1f\x20\x21\x22 ", "AaZz@[`{", 0};
	alph = A[vh_n(7)];
}
static char ch(void) { return alph ? alph[vh_n((uint32_t)strlen(alph))] : (char)(1 + vh_n(255)); }
static char *gens(char *b, int n) { int i; for (i = 0; i < n; i++) b[i] = ch(); b[n] = 0; return b; }
static char *G(const char *s) { return (char *)vh_guard(s, strlen(s) + 1); }	/* string next to a guard page */
#define GM(s, n) ((char *)vh_guard((s), (n)))
static char a[MAXL + 10], b[MAXL + 10], c[MAXL + 10], ref[MAXL * 60 + 100];
static char pre[8192] __attribute__((aligned(4096)));

static int ref_find(const char *s, size_t n, const char *m, size_t k, size_t from) {
	size_t i;
	for (i = from; k <= n && i <= n - k; i++) if (!memcmp(s + i, m, k)) return (int)i;
	return -1;
}
static int ref_count(const char *s, size_t n, const char *m, size_t k) {
	int i = 0, r = 0, at;
	if (!k) return 0;
	while ((at = ref_find(s, n, m, k, (size_t)i)) >= 0) { r++; i = at + (int)k; }
	return r;
}
static void t_search(void) {
	int n = genlen(), k = (int)vh_n(vh_p(80) ? 4 : 20), r;
	gens(a, n);
	if (k <= n && vh_p(60)) { int at = (int)vh_n((uint32_t)(n - k + 1)); memcpy(b, a + at, (size_t)k); b[k] = 0; } else gens(b, k);
	if (vh_p(15)) {	/* a long needle among copies that differ in one byte */
		int m = 1 + (int)vh_n(8), at = 0;
		k = 12 + (int)vh_n(60);
		gens(b, k);
		while (m-- && at + 3 * k < MAXL) {
			at += (int)vh_n(6);
			memcpy(a + at, b, (size_t)k);
			if (vh_p(80)) { int d = at + (vh_p(50) ? k - 1 - (int)vh_n(4) : (int)vh_n((uint32_t)k)); do a[d] = ch(); while (a[d] == b[d - at] && !(alph && !alph[1])); if (a[d] == b[d - at]) a[d] = 'Z'; }
			at += k;
		}
		n = at;
		if (vh_p(20)) n -= 1 + (int)vh_n(3);
		a[n] = 0;
		for (r = 0; r < n; r++) if (!a[r]) a[r] = '.';
	}
	r = ref_find(a, (size_t)n, b, (size_t)k, 0);
	fn = "str:str_pos"; { int g = str_pos(G(a), G(b)); IS(g == r, "str_pos(\"%.80s\", \"%.40s\") is %d, not %d", a, b, g, r); }
	fn = "str:str_has"; IS(str_has(G(a), G(b)) == (r >= 0), "str_has(\"%.80s\", \"%.40s\")", a, b);
	fn = "str:mempos"; { int g = mempos((uchar *)GM(a, (size_t)n), (size_t)n, (uchar *)GM(b, (size_t)k), (size_t)k); IS(g == r, "mempos of \"%.40s\" in \"%.80s\" is %d, not %d", b, a, g, r); }
	fn = "str:mempos_str"; { int g = mempos_str(GM(a, (size_t)n), (size_t)n, G(b)); IS(g == r, "mempos_str of \"%.40s\" in \"%.80s\" is %d, not %d", b, a, g, r); }
	r = ref_count(a, (size_t)n, b, (size_t)k);
	fn = "str:mem_subcount"; { int g = mem_subcount(GM(a, (size_t)n), (size_t)n, G(b)); IS(g == r, "mem_subcount of \"%.40s\" in \"%.80s\" is %d, not %d", b, a, g, r); }
	fn = "str:str_subcount"; { int g = str_subcount(G(a), G(b)); IS(g == r, "str_subcount of \"%.40s\" in \"%.80s\" is %d, not %d", b, a, g, r); }
	gens(c, k);
	{
		int i, j, hit = 0;
		for (i = 0; k <= n && i <= n - k && !hit; i++) { for (j = 0; j < k && (a[i + j] == b[j] || a[i + j] == c[j]); j++) ; hit = j == k; }
		fn = "str:str_has_either"; IS(str_has_either(G(a), G(b), G(c)) == hit, "str_has_either(\"%.80s\", \"%.40s\", \"%.40s\") is not %d", a, b, c, hit);
	}
	fn = "str:str_is_empty"; IS(str_is_empty(G(a)) == (n == 0), "str_is_empty(\"%.40s\")", a);
	sig = vh_mix(sig, (uint64_t)(n * 31 + k + r * 1001));
}
static void t_compare(void) {
	int n = genlen(), i;
	size_t len = vh_n(3) ? vh_n((uint32_t)n + 4) : (size_t)n, j;
	gens(a, n);
	memcpy(b, a, (size_t)n + 1);
	for (i = 0; i < n; i++) if (vh_p(50)) b[i] = (char)(isupper((uchar)b[i]) ? tolower((uchar)b[i]) : toupper((uchar)b[i]));
	if (n && vh_p(50)) b[vh_n((uint32_t)n)] = ch();
	if (n && vh_p(20)) b[n - 1] = 0;
	if (vh_p(15)) { size_t l = strlen(b); b[l] = ch(); b[l + 1] = 0; }
	fn = "str:str_is"; IS(str_is(G(a), G(b)) == !strcmp(a, b), "str_is(\"%.60s\", \"%.60s\")", a, b);
	{ int eq = 1; for (j = 0; ; j++) { if (tolower((uchar)a[j]) != tolower((uchar)b[j])) { eq = 0; break; } if (!a[j]) break; }
	fn = "str:str_is_case"; IS(str_is_case(G(a), G(b)) == eq, "str_is_case(\"%.60s\", \"%.60s\") is not %d", a, b, eq); }
	{ int eq = len > 0; for (j = 0; j < len; j++) { if (tolower((uchar)a[j]) != tolower((uchar)b[j])) { eq = 0; break; } if (!a[j]) break; }
	fn = "str:str_case_equal"; IS(str_case_equal(G(a), G(b), len) == eq, "str_case_equal(\"%.60s\", \"%.60s\", %zu) is not %d", a, b, len, eq); }
	{
		char *g = G(a), *h = G(a);
		fn = "str:str_toupper"; IS(str_toupper(g) == g, "another pointer"); for (i = 0; i <= n; i++) IS(g[i] == (char)toupper((uchar)a[i]), "str_toupper of \"%.60s\" is \"%.60s\"", a, g);
		fn = "str:str_tolower"; IS(str_tolower(h) == h, "another pointer"); for (i = 0; i <= n; i++) IS(h[i] == (char)tolower((uchar)a[i]), "str_tolower of \"%.60s\" is \"%.60s\"", a, h);
	}
	sig = vh_mix(sig, (uint64_t)n * 7 + len);
}
static void t_split(void) {
	int n = genlen(), k = 1 + (int)vh_n(3), cnt = -1, exp, i;
	const char *d;
	char **v;
	gens(a, n);
	if (n && vh_p(70)) { int at = (int)vh_n((uint32_t)n); k = k > n - at ? n - at : k; memcpy(b, a + at, (size_t)k); b[k] = 0; } else gens(b, k);
	d = vh_p(10) ? NULL : b;
	if (!d) { strcpy(b, " "); k = 1; }
	exp = ref_count(a, (size_t)n, b, (size_t)k) + 1;
	for (i = 0; i < 2; i++) {
		int at = 0, w, e;
		fn = i ? "str:mem_split_ex" : "str:str_split_ex";
		v = i ? (char **)mem_split_ex(GM(a, (size_t)n), (size_t)n, d ? G(b) : NULL, vh_p(90) ? &cnt : (cnt = exp, (int *)NULL)) : str_split_ex(G(a), d ? G(b) : NULL, vh_p(90) ? &cnt : (cnt = exp, (int *)NULL));
		if (!n) { IS(v == NULL, "split of an empty string gives %p", v); continue; }
		IS(v && cnt == exp, "\"%.80s\" split by \"%s\": %d parts, not %d", a, b, cnt, exp);
		for (w = 0; w < exp; w++) {
			e = w == exp - 1 ? n : ref_find(a, (size_t)n, b, (size_t)k, (size_t)at);
			IS(v[w] && strlen(v[w]) == (size_t)(e - at) && !memcmp(v[w], a + at, (size_t)(e - at)), "\"%.80s\" split by \"%s\": part %d is \"%.60s\"", a, b, w, v[w]);
			at = e + k;
		}
		IS(v[exp] == NULL, "parts do not end with NULL");
		str_free(v);
	}
	fn = "str:str_explode";
	{
		char *g = G(a);
		array_t x = str_explode(g, d ? G(b) : NULL);
		IS(!memcmp(g, a, (size_t)n + 1), "the argument was changed");
		if (!n) IS(x == NULL, "explode of an empty string gives %p", x);
		else if (exp > 1) {
			int at = 0, w, e;
			IS(is_data(x) && (int)$size(x) == exp, "\"%.80s\" exploded by \"%s\": %zu parts, not %d", a, b, $size(x), exp);
			for (w = 0; w < exp; w++) {
				e = w == exp - 1 ? n : ref_find(a, (size_t)n, b, (size_t)k, (size_t)at);
				IS(strlen(x[w].char_ptr) == (size_t)(e - at) && !memcmp(x[w].char_ptr, a + at, (size_t)(e - at)), "\"%.80s\" exploded by \"%s\": part %d is \"%.60s\"", a, b, w, x[w].char_ptr);
				at = e + k;
			}
		}
		if (x) $delete(x);
	}
	sig = vh_mix(sig, (uint64_t)exp * 100 + (uint64_t)n);
}
static void t_join(void) {
	char *v[12], *r;
	int n = (int)vh_n(9), i, start;
	static char parts[12][200];
	for (i = 0; i < n; i++) v[i] = G(gens(parts[i], (int)vh_n(vh_p(90) ? 12 : 190)));
	ref[0] = 0;
	for (i = 0; i < n && i < 5; i++) strcat(ref, v[i]);
	fn = "str:str_cat_ex";
	switch (n) {
		case 0: r = str_cat_ex(0); break;
		case 1: r = str_cat_ex(1, v[0]); break;
		case 2: r = str_cat_ex(2, v[0], v[1]); break;
		case 3: r = str_cat_ex(3, v[0], v[1], v[2]); break;
		case 4: r = str_cat_ex(4, v[0], v[1], v[2], v[3]); break;
		default: r = str_cat_ex(5, v[0], v[1], v[2], v[3], v[4]); break;
	}
	if (n) { IS(r && !strcmp(r, ref), "of %d parts is \"%.80s\", not \"%.80s\"", n, r, ref); str_free(r); } else IS(r == NULL, "of nothing is %p", r);
	fn = "str:str_cat_argv";
	gens(b, 1 + (int)vh_n(3));
	start = (int)vh_n(4);
	ref[0] = 0;
	for (i = start; i < n; i++) { if (i > start) strcat(ref, b); strcat(ref, v[i]); }
	r = str_cat_argv(n, v, start, G(b));
	IS(r && !strcmp(r, ref), "of %d arguments from %d with \"%s\" is \"%.80s\", not \"%.80s\"", n, start, b, r, ref);
	if (vh_p(4)) {	/* about as much as fits: cut off, never written behind */
		static char big[40000];
		char *bv[3];
		int l1 = vh_p(50) ? 32768 - (int)vh_n(6) : 20000 + (int)vh_n(19000), at = (int)vh_n(3), got;
		for (i = 0; i < l1; i++) big[i] = (char)('a' + i % 23);
		big[l1] = 0;
		for (i = 0; i < 3; i++) bv[i] = i == at ? big : (char *)"xyz";
		*ref = 0;
		for (i = start > 2 ? 2 : start; i < 3; i++) { if (i > (start > 2 ? 2 : start)) strcat(ref, b); strcat(ref, bv[i]); }
		r = str_cat_argv(3, bv, start > 2 ? 2 : start, G(b));
		got = (int)strlen(r); l1 = (int)strlen(ref);
		IS(got < 32768 && got == (l1 < 32767 ? l1 : 32767) && !memcmp(r, ref, (size_t)got), "of arguments of %d bytes in all is %d bytes", l1, got);
	}
	sig = vh_mix(sig, vh_hash(ref, strlen(ref)));
}
static void t_replace(void) {
	int n = genlen(), k = 1 + (int)vh_n(4), m = (int)vh_n(vh_p(80) ? 6 : 40), cnt, at = 0, e;
	char *r, *g, *o = ref;
	if (n > 300) n %= 300;
	gens(a, n);
	if (n && vh_p(70)) { int p = (int)vh_n((uint32_t)n); k = k > n - p ? n - p : k; memcpy(b, a + p, (size_t)k); b[k] = 0; } else gens(b, k);
	gens(c, m);
	cnt = ref_count(a, (size_t)n, b, (size_t)k);
	while ((e = ref_find(a, (size_t)n, b, (size_t)k, (size_t)at)) >= 0) { memcpy(o, a + at, (size_t)(e - at)); o += e - at; memcpy(o, c, (size_t)m); o += m; at = e + k; }
	strcpy(o, a + at);
	fn = "str:str_swap_ex";
	g = G(a);
	r = str_swap_ex(g, G(b), G(c));
	if (!cnt) IS(r == NULL, "nothing to replace: \"%.60s\"", r);
	else { IS(r && !strcmp(r, ref), "\"%.80s\" with \"%.20s\" for \"%.20s\" is \"%.80s\", not \"%.80s\"", a, c, b, r, ref); str_free(r); }
	IS(str_swap_ex(NULL, b, c) == NULL && str_swap_ex(a, NULL, c) == NULL && str_swap_ex(a, b, NULL) == NULL, "of a NULL argument");
	sig = vh_mix(sig, (uint64_t)cnt * 77 + (uint64_t)m);
}
static void t_pad(void) {
	int n = (int)vh_n(40), len = (int)vh_n(100) - 10, k = 1 + (int)vh_n(4), type = (int)vh_n(4), l, rt, i, mult;
	char *r, *g;
	gens(a, n); gens(b, k);
	fn = "str:str_pad";
	if (vh_p(15)) { strcpy(b, " "); k = 1; r = str_pad(g = G(a), len, NULL, type ? STR_PAD_LEFT + type - 1 : 0); }
	else r = str_pad(g = G(a), len, G(b), type ? STR_PAD_LEFT + type - 1 : 0);
	if (len <= n) IS(!strcmp(r, a), "str_pad(\"%s\", %d) is \"%s\"", a, len, r);
	else {
		l = type == 1 ? len - n : type == 3 ? (len - n) / 2 : 0; rt = len - n - l;
		for (i = 0; i < l; i++) ref[i] = b[i % k];
		memcpy(ref + l, a, (size_t)n);
		for (i = 0; i < rt; i++) ref[l + n + i] = b[i % k];
		ref[len] = 0;
		IS(!strcmp(r, ref), "str_pad(\"%s\", %d, \"%s\", %d) is \"%s\", not \"%s\"", a, len, b, type, r, ref);
	}
	fn = "str:str_repeat";
	mult = (int)vh_n(50);
	gens(a, n = (int)vh_n(vh_p(50) ? 3 : 30));
	for (i = 0, ref[0] = 0; i < mult; i++) memcpy(ref + i * n, a, (size_t)n + 1);
	r = str_repeat(G(a), mult);
	IS(!strcmp(r, ref), "str_repeat(\"%s\", %d) is \"%.100s\"", a, mult, r);
	sig = vh_mix(sig, (uint64_t)(n * 10000 + mult * 100 + len));
}
static void t_copy(void) {
	int n = genlen(), at, len, i;
	char *r, *g;
	gens(a, n);
	at = (int)vh_n((uint32_t)n + 1); len = (int)vh_n((uint32_t)(n - at) + 1);
	fn = "str:str_dup"; r = str_dup(g = G(a)); IS(r && r != g && !strcmp(r, a), "str_dup(\"%.60s\") is \"%.60s\"", a, r);
	fn = "str:str_dup_ex"; r = str_dup_ex(G(a)); IS(r && !strcmp(r, a), "str_dup_ex(\"%.60s\") is \"%.60s\"", a, r); str_free(r);
	fn = "str:str_trim"; r = str_trim(GM(a, (size_t)len), (size_t)len); IS(r && strlen(r) == (size_t)len && !memcmp(r, a, (size_t)len), "str_trim(\"%.60s\", %d) is \"%.60s\"", a, len, r);
	fn = "str:str_trim_at"; g = GM(a, (size_t)(at + len)); r = str_trim_at(g, at, (size_t)len); IS(r && strlen(r) == (size_t)len && !memcmp(r, a + at, (size_t)len), "str_trim_at(\"%.60s\", %d, %d) is \"%.60s\"", a, at, len, r);
	fn = "str:str_lcpy";
	{
		size_t room = 1 + vh_n((uint32_t)n + 3), k = (size_t)n < room - 1 ? (size_t)n : room - 1;
		memset(b, 'Q', room);
		g = GM(b, room);
		str_lcpy(g, G(a), room);
		IS(!memcmp(g, a, k) && g[k] == 0, "str_lcpy(\"%.60s\", %zu) is \"%.60s\"", a, room, g);
		for (i = (int)k + 1; i < (int)room; i++) IS(g[i] == 'Q', "str_lcpy wrote beyond the end of its text");
	}
	fn = "str:str_cpy";
	memset(b, 'Q', (size_t)n + 3);
	if (n) { r = str_cpy(b, GM(a, (size_t)n), (size_t)n); IS(r == b && !memcmp(b, a, (size_t)n) && b[n] == 'Q', "str_cpy of %d bytes", n); }
	memset(b, 'Q', (size_t)n + 3);
	if (n) { r = str_cpy(b, G(a), 0); IS(r == b && !memcmp(b, a, (size_t)n), "str_cpy of \"%.60s\"", a); IS(b[n + 1] == 'Q', "str_cpy wrote beyond the end"); }
	sig = vh_mix(sig, vh_hash(a, (size_t)n));
}
static void t_trim(void) {
	static const char sp[] = " \t\n\r\v\f";
	int l = (int)vh_n(vh_p(80) ? 5 : 60), n = vh_p(20) ? 0 : (int)vh_n(40), r = (int)vh_n(vh_p(80) ? 5 : 60), i;
	char *g, *o;
	for (i = 0; i < l; i++) a[i] = sp[vh_n(6)];
	gens(b, n);
	while (n && isspace((uchar)b[0])) memmove(b, b + 1, (size_t)n--);
	while (n && isspace((uchar)b[n - 1])) b[--n] = 0;
	memcpy(a + l, b, (size_t)n);
	for (i = 0; i < r; i++) a[l + n + i] = sp[vh_n(6)];
	a[l + n + r] = 0;
	fn = "str:trim";
	o = trim(G(a));
	IS(!strcmp(o, b), "trim(\"%s\") is \"%s\"", a, o);
	/* the byte in front of the string belongs to somebody else */
	memset(pre, ' ', 4096);
	g = pre + 4096;
	strcpy(g, a);
	o = trim(g);
	IS(!strcmp(o, b), "trim of \"%s\" is \"%s\"", a, o);
	for (i = 0; i < 4096; i++) IS(pre[i] == ' ', "trim of \"%s\" wrote %d bytes in front of it", a, 4096 - i);
	sig = vh_mix(sig, (uint64_t)(l * 10000 + n * 100 + r));
}
static void t_number(void) {
	int64_t x;
	int i;
	fn = "str:str_itoa";
	for (i = 0; i < 20; i++) {
		uint32_t k = vh_n(8);
		char want[32], *g;
		x = k == 0 ? (int64_t)vh_rnd() : k == 1 ? (int64_t)vh_n(200) - 100 : k == 2 ? INT64_MIN + (int64_t)vh_n(3) : k == 3 ? INT64_MAX - (int64_t)vh_n(3)
			: k == 4 ? (int64_t)INT32_MAX + (int64_t)vh_n(5) - 2 : k == 5 ? (int64_t)INT32_MIN + (int64_t)vh_n(5) - 2 : (int64_t)(vh_rnd() >> vh_n(63));
		if (k == 7) { int p = (int)vh_n(19); int64_t t = 1; while (p--) t *= 10; x = (vh_p(50) ? t : -t) + (int64_t)vh_n(3) - 1; }
		snprintf(want, sizeof want, "%lld", (long long)x);
		g = str_itoa(x);
		IS(!strcmp(g, want), "str_itoa(%s) is \"%.30s\"", want, g);
		sig = vh_mix(sig, (uint64_t)x);
	}
	fn = "str:mem_printf";
	{
		int cnt = -1, n = (int)vh_n(vh_p(90) ? 60 : 900);
		char *g;
		gens(a, n);
		snprintf(ref, sizeof ref, "%d-%s|%lx", n, a, (long)x);
		g = mem_printf(vh_p(90) ? &cnt : (cnt = (int)strlen(ref), (int *)NULL), "%d-%s|%lx", n, a, (long)x);
		IS(g && !strcmp(g, ref) && cnt == (int)strlen(ref), "is \"%.60s\" (%d), not \"%.60s\"", g, cnt, ref);
	}
}
static void *want_arg;
static size_t esz;
static int cmpcalls;
static int cmp(const void *x, const void *y, void *arg) { IS(arg == want_arg, "comparison got argument %p", arg); cmpcalls++; return memcmp(x, y, esz > 4 ? 4 : esz); }
static void t_sort(void) {
	size_t n = vh_n(vh_p(90) ? 60 : 4000), i, k, sum0 = 0, sum1 = 0;
	uchar *d, *m;
	esz = 1 + vh_n(vh_p(80) ? 9 : 70);
	m = malloc(n * esz + 1);
	for (i = 0; i < n * esz; i++) m[i] = (uchar)vh_n(vh_p(50) ? 4 : 256);
	for (i = 0; i < n; i++) sum0 += vh_hash(m + i * esz, esz) >> 8;
	fn = "str:memsort";
	want_arg = m;
	d = (uchar *)vh_guard(m, n * esz);
	memsort(d, n, esz, cmp, want_arg);
	for (i = 0; i < n; i++) sum1 += vh_hash(d + i * esz, esz) >> 8;
	k = esz > 4 ? 4 : esz;
	for (i = 1; i < n; i++) IS(memcmp(d + (i - 1) * esz, d + i * esz, k) <= 0, "elements %zu and %zu of %zu (size %zu) are not in order", i - 1, i, n, esz);
	IS(sum0 == sum1, "the elements after sorting are not those before (%zu of size %zu)", n, esz);
	free(m);
	sig = vh_mix(sig, n * 100 + esz);
}
static void (*const T[])(void) = {t_search, t_compare, t_split, t_join, t_replace, t_pad, t_copy, t_trim, t_number, t_sort};
static const char *const names[] = {"searches", "comparisons", "splits", "joins", "replacements", "paddings", "copies", "trims", "numbers", "sorts"};
int main(int argc, char **argv) {
	long k;
	vh_init(argc, argv);
	if (events_init(1024)) vh_fatal("failed", "events_init failed");
	for (k = 0; k < vh_cases; k++) {
		volatile int done = 0;
		volatile uint32_t t;
		vh_case(k);
		pick();
		sig = 5;
		t = vh_n(10);
		guard {
			T[t]();
			done = 1;
		} guarded;
		VH_MUST(done, fn, "raised an exception (arguments \"%.60s\", \"%.30s\")", a, b);
		vh_guard_reset();
#ifdef NO_RPMALLOC
		if (k % 16 == 0) vm_check("string functions");
#endif
		vh_eval(1);
		vh_count(names[t], 1);
		vh_sig(vh_mix(sig, t));
		if (vh_want_sample()) vh_sample("case %ld: %s on \"%.40s\" and \"%.20s\"", k, names[t], a, b);
		if (k % 256 == 0) vh_beat();
	}
	vh_exit();
}
