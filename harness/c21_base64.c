/* C21: base64 against a reference codec; sources and destinations end at an inaccessible page. */
#include <events.h>
#include <except.h>
#include "vh.h"
#include "ev.h"
#define MAXL 20000
static const char tab[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static char a[MAXL + 10], enc[MAXL * 2 + 10], fill[MAXL * 3];
static int ref_encode(const char *s, int n, char *o) {
	int i, k = 0;
	for (i = 0; i < n; i += 3) {
		uint32_t v = (uint32_t)(uint8_t)s[i] << 16 | (i + 1 < n ? (uint32_t)(uint8_t)s[i + 1] << 8 : 0) | (i + 2 < n ? (uint8_t)s[i + 2] : 0);
		o[k++] = tab[v >> 18]; o[k++] = tab[v >> 12 & 63];
		o[k++] = i + 1 < n ? tab[v >> 6 & 63] : '='; o[k++] = i + 2 < n ? tab[v & 63] : '=';
	}
	o[k] = 0;
	return k;
}
static void *dest(size_t n) { return vh_guard(fill, n); }
static void untouched(const char *d, size_t from, size_t n, const char *what) {
	for (; from < n; from++) VH_MUST((uint8_t)d[from] == 0xEE, what, "wrote at %zu of a destination of %zu", from, n);
}
int main(int argc, char **argv) {
	long c;
	vh_init(argc, argv);
	if (events_init(1024)) vh_fatal("failed", "events_init failed");
	memset(fill, 0xEE, sizeof fill);
	for (c = 0; c < vh_cases; c++) {
		int n, i, k, mode;
		char *s, *d, *r;
		vh_case(c);
		n = c < 300 ? (int)c : vh_p(60) ? (int)vh_n(300) : vh_p(80) ? (int)vh_n(3000) : (int)vh_n(MAXL);
		mode = (int)vh_n(4);
		for (i = 0; i < n; i++) a[i] = (char)(mode == 0 ? 1 + vh_n(255) : mode == 1 ? 255 - vh_n(3) : mode == 2 ? 1 + vh_n(3) : 32 + vh_n(95));
		a[n] = 0;
		s = vh_guard(a, (size_t)n + 1);
		k = ref_encode(a, n, enc);
		{	/* encoding */
			size_t room = (size_t)k + 1 + (vh_p(50) ? 0 : vh_n(50)), small;
			d = dest(room);
			r = str_encode64(s, d, room);
			if (!n) { VH_MUST(r == NULL, "b64:encode-empty", "gives %p", r); untouched(d, 0, room, "b64:encode-empty"); }
			else {
				VH_MUST(r == d && !strcmp(d, enc), "b64:encode", "%d bytes: \"%.60s\", not \"%.60s\"", n, r, enc);
				untouched(d, (size_t)k + 1, room, "b64:encode-beyond");
				small = vh_n((uint32_t)k + 1);
				if (vh_p(30)) small = (size_t)k;
				d = dest(small);
				r = str_encode64(s, d, small);
				VH_MUST(r == NULL, "b64:encode-small", "%d bytes into %zu: %p", n, small, r);
			}
			VH_MUST(!strcmp(s, a), "b64:source", "changed by encoding");
		}
		{	/* decoding */
			size_t need = ((size_t)(k + 2) / 3) * 4 + 1, room = need + (vh_p(50) ? 0 : vh_n(50));
			s = vh_guard(enc, (size_t)k + 1);
			VH_MUST(str_is_base64(s) == (n > 0), "b64:is", "\"%.60s\" is%s accepted", enc, n ? " not" : "");
			d = dest(room);
			r = str_decode64(s, d, room);
			if (!n) VH_MUST(r == NULL, "b64:decode-empty", "gives %p", r);
			else {
				VH_MUST(r == d && !memcmp(d, a, (size_t)n) && d[n] == 0, "b64:decode", "\"%.60s\" (%d bytes) decodes to something else", enc, n);
				untouched(d, need, room, "b64:decode-beyond");
				room = vh_n((uint32_t)n + 1);	/* too small for the text itself */
				d = dest(room);
				(void)str_decode64(s, d, room);	/* must stay inside */
			}
			VH_MUST(!strcmp(s, enc), "b64:source", "changed by decoding");
		}
		{	/* other texts: damaged, foreign letters, '=' anywhere, any length */
			int m = (int)vh_n(vh_p(80) ? 40 : 2000), bad = 0, kind = (int)vh_n(3);
			size_t room = vh_n((uint32_t)m * 2 + 12);
			for (i = 0; i < m; i++) enc[i] = kind == 0 ? tab[vh_n(64)] : kind == 1 ? "=A=b/+9"[vh_n(7)] : tab[vh_n(64)];
			if (kind == 2 && m) for (i = 0; i < 1 + (int)vh_n(3); i++) enc[vh_n((uint32_t)m)] = (char)(1 + vh_n(255));
			enc[m] = 0;
			for (i = 0; i < m; i++) if (!strchr(tab, enc[i]) && enc[i] != '=') bad = 1;
			s = vh_guard(enc, (size_t)m + 1);
			VH_MUST(str_is_base64(s) == (m && !bad), "b64:is", "\"%.60s\" is%s accepted", enc, bad ? "" : " not");
			d = dest(room);
			r = str_decode64(s, d, room);
			VH_MUST(r == NULL || r == d, "b64:decode-return", "%p", r);
			VH_MUST(!(bad || m % 4 || !m) || r == NULL, "b64:decode-bad", "accepts \"%.60s\" (%d letters)", enc, m);
			if (bad || !m) untouched(d, 0, room, "b64:decode-bad");
			vh_count(r ? "other texts decoded" : "other texts rejected", 1);
		}
		vh_guard_reset();
		vh_eval(1);
		vh_count("bytes encoded", n);
		vh_sig(vh_mix(vh_hash(a, (size_t)n), (uint64_t)n));
		if (vh_want_sample()) vh_sample("case %ld: %d bytes, alphabet %d", c, n, mode);
		if (c % 256 == 0) vh_beat();
	}
	vh_exit();
}
