/* C22: URLs and paths composed from known components must be split into them again; malformed ones
 * must be rejected alike by both parsers and touch nothing outside (guard page, checking allocator). */
#include <events.h>
#include <except.h>
#include "vh.h"
#include "ev.h"
#include <ctype.h>
static char url[4000];
static uint64_t sig;
typedef struct { char *v[7]; int port; } parts;	/* scheme user pass host path query fragment */
static const char *const pn[] = {"scheme", "user", "password", "host", "path", "query", "fragment"};
static char store[7][400];
static char *gen(char *o, const char *set, int min, int max, int ctrl) {
	int n = min + (int)vh_n((uint32_t)(max - min + 1)), i;
	for (i = 0; i < n; i++) o[i] = ctrl && vh_p(6) ? (char)(vh_p(90) ? 1 + vh_n(31) : 127) : ctrl && vh_p(10) ? (char)(128 + vh_n(128)) : set[vh_n((uint32_t)strlen(set))];
	o[n] = 0;
	return o;
}
#define LET "abcdefghijklmnopqrstuvwxyzABCXYZ"
#define DIG "0123456789"
#define REST "-_.~%!$&'()*+,;="
static void compare(uri_t *u, parts *p, const char *what) {
	char *got[7];
	int i, j;
	VH_MUST(u != NULL, "uri:rejected", "%s rejects \"%s\"", what, url);
	got[0] = u->scheme; got[1] = u->user; got[2] = u->pass; got[3] = u->host; got[4] = u->path; got[5] = u->query; got[6] = u->fragment;
	for (i = 0; i < 7; i++) {
		char want[400];
		if (p->v[i]) { strcpy(want, p->v[i]); for (j = 0; want[j]; j++) if (iscntrl((uchar)want[j])) want[j] = '_'; }
		if (!p->v[i]) VH_MUST(got[i] == NULL, "uri:component", "%s of \"%s\": %s is \"%s\", but there is none", what, url, pn[i], got[i]);
		else VH_MUST(got[i] && !strcmp(got[i], want), "uri:component", "%s of \"%s\": %s is \"%s\", not \"%s\"", what, url, pn[i], got[i] ? got[i] : "(none)", want);
	}
	VH_MUST(u->port == p->port, "uri:port", "%s of \"%s\": port %d, not %d", what, url, u->port, p->port);
}
static int same(const char *a, const char *b) { return a == b || (a && b && !strcmp(a, b)); }
static void both(parts *p, int reject) {
	size_t n = strlen(url), live;
	char *g = vh_guard(url, n + 1);
	volatile int done = 0;
	uri_t *volatile x = NULL;
#ifdef NO_RPMALLOC
	live = vm_live();
	uri_free(parse_uri_ex(g));	/* everything of this form is released */
	VH_MUST(vm_live() == live, "uri:leak", "parsing \"%s\" left %ld blocks", url, (long)(vm_live() - live));
#endif
	errno = 0;
	x = parse_uri_ex(g);
	VH_MUST(x || errno == EINVAL || !n, "uri:errno", "\"%s\" rejected with errno %d", url, errno);
	if (p) compare(x, p, "parse_uri_ex");
	if (reject) VH_MUST(x == NULL, "uri:accepted", "\"%s\" is accepted by parse_uri_ex", url);
	guard {
		uri_t *y = parse_uri(g);
		if (p) compare(y, p, "parse_uri");
		if (x && p && p->v[0]) {
			static const struct { const char *s; int t; } T[] = {{"http", DATA_TCP}, {"tcp", DATA_TCP}, {"ws", DATA_TCP}, {"ftp", DATA_TCP}, {"https", DATA_TLS}, {"tls", DATA_TLS}, {"wss", DATA_TLS}, {"ssl", DATA_TLS}, {"unix", DATA_PIPE}, {"udp", DATA_UDP}};
			int i;
			for (i = 0; i < 10; i++) if (!strcmp(p->v[0], T[i].s)) VH_MUST((int)x->type == T[i].t && (int)y->type == T[i].t, "uri:type", "\"%s\" has type %d", url, (int)x->type);
		}
		VH_MUST(!x == !y, "uri:differ", "\"%s\" is %s by parse_uri_ex only", url, x ? "accepted" : "rejected");
		if (x) {
			VH_MUST(same(x->scheme, y->scheme) && same(x->user, y->user) && same(x->pass, y->pass) && same(x->host, y->host) && same(x->path, y->path) && same(x->query, y->query)
				&& same(x->fragment, y->fragment) && x->port == y->port && x->type == y->type, "uri:differ", "\"%s\" is split differently by the two forms", url);
			sig = vh_mix(sig, vh_hash(url, n));
		}
		done = 1;
	} guarded;
	VH_MUST(done, "uri:exception", "parsing \"%s\" raised an exception", url);
	if (x) { uri_free(x); vh_count("urls accepted", 1); } else vh_count("urls rejected", 1);
	VH_MUST(!memcmp(g, url, n + 1), "uri:argument", "\"%s\" was changed", url);
}
static void compose(parts *p) {
	static const char *const S[] = {"http", "https", "tcp", "ws", "ftp", "tls", "ssl", "wss", "unix", "udp", "x-y.z+1", "HTTP", "git+ssh"};
	int i;
	char *o = url;
	memset(p, 0, sizeof *p);
	if (vh_p(85)) p->v[0] = strcpy(store[0], vh_p(80) ? S[vh_n(13)] : gen(store[0], LET DIG "+-.", 1, 12, 0));
	if (vh_p(40)) {
		p->v[1] = gen(store[1], LET DIG REST, 0, 12, 1);
		if (vh_p(70)) p->v[2] = gen(store[2], LET DIG REST ":@", 0, 12, 1);
	}
	switch (vh_n(6)) {
		case 0: sprintf(store[3], "%d.%d.%d.%d", vh_n(256), vh_n(256), vh_n(256), vh_n(256)); break;
		case 1: sprintf(store[3], "[::ffff:%d.%d.%d.%d]", vh_n(256), vh_n(256), vh_n(256), vh_n(256)); break;
		case 2: snprintf(store[3], 300, "%s", events_hostname()); if (strpbrk(store[3], "/?#@:")) strcpy(store[3], "a.b"); break;
		default: { int l = 1 + (int)vh_n(20); gen(store[3], LET DIG "-", l, l, vh_p(10)); strcat(store[3], "."); gen(store[3] + l + 1, LET DIG ".-", 0, 20, 0); }
	}
	p->v[3] = store[3];
	if (vh_p(40)) p->port = vh_p(20) ? 65535 : vh_p(20) ? 1 + (int)vh_n(9) : 1 + (int)vh_n(65535);
	if (vh_p(70)) { store[4][0] = '/'; gen(store[4] + 1, LET DIG REST "/:@", 0, vh_p(90) ? 20 : 200, 1); p->v[4] = store[4]; }
	if (vh_p(40)) p->v[5] = gen(store[5], LET DIG REST "/:@?", 1, 30, 1);
	if (vh_p(40)) p->v[6] = gen(store[6], LET DIG REST "/:@?#", 1, 30, 1);
	/* without a scheme a colon further on makes the reading ambiguous: keep those plain */
	if (!p->v[0]) for (i = 1; i < 7; i++) if (i != 3 && p->v[i]) { char *c; if (i == 2) p->v[2] = NULL; else while ((c = strpbrk(p->v[i], ":"))) *c = '-'; }
	if (!p->v[0] && store[3][0] == '[') strcpy(store[3], "host.example");
	if (p->v[0]) o += sprintf(o, "%s:", p->v[0]);
	o += sprintf(o, "//");
	if (p->v[1]) { o += sprintf(o, "%s", p->v[1]); if (p->v[2]) o += sprintf(o, ":%s", p->v[2]); o += sprintf(o, "@"); }
	o += sprintf(o, "%s", p->v[3]);
	if (p->port) o += sprintf(o, vh_p(10) && p->port < 1000 ? ":0%d" : ":%d", p->port);
	else if (vh_p(10) && p->v[0]) o += sprintf(o, ":");
	if (p->v[4]) o += sprintf(o, "%s", p->v[4]);
	if (p->v[5]) o += sprintf(o, "?%s", p->v[5]); else if (vh_p(10)) o += sprintf(o, "?");
	if (p->v[6]) o += sprintf(o, "#%s", p->v[6]); else if (vh_p(10)) o += sprintf(o, "#");
	/* an empty path is reported as the text between host and query: none */
	if (!p->v[4] && (p->v[5] || p->v[6] || url[strlen(url) - 1] == '?' || url[strlen(url) - 1] == '#')) p->v[4] = NULL;
}
static void t_compose(void) {
	parts p;
	compose(&p);
	both(&p, 0);
	if (vh_want_sample()) vh_sample("\"%s\"", url);
}
static void t_reject(void) {
	static const char *const bad[] = {"http://", "http:///path", "http://:80", "http://user@:80/", "http://a.b:65536/", "http://a.b:99999", "http://a.b:123456/", "http://a.b:x/", "//", ":", ":80", "http://nodots-here/x",
		"http://?q.r", "http://#f.g", "mailto:a@b.c", "just/a/path.x", "/abs/path.x", "x", "http", "http:", "http:/x.y", "file:///etc/pass.wd", "a.b:", "http://a.b:80a/", "?", "#", "://", "http://user:pass@/p.q", "http://a.b:-1/"};
	snprintf(url, sizeof url, "%s", bad[vh_n(sizeof bad / sizeof *bad)]);
	if (!strcmp(url, "http://a.b:80a/") || !strcmp(url, "http://a.b:-1/")) { both(NULL, 0); return; }
	both(NULL, 1);
	if (vh_p(30)) { sprintf(url, "http://a.b:%u/", 65536 + vh_n(34463)); both(NULL, 1); }
	if (vh_p(20)) { sprintf(url, "%sa.b:%0*u%s", vh_p(70) ? "http://" : "", 6 + (int)vh_n(vh_p(70) ? 4 : 300), vh_n(65536), vh_p(50) ? "/" : ""); both(NULL, 1); }
	sig = vh_mix(sig, vh_hash(url, strlen(url)));
}
static void t_mutate(void) {
	parts p;
	int k = 1 + (int)vh_n(6);
	size_t n;
	if (vh_p(80)) compose(&p); else gen(url, "a.:/@?#[]01", 0, 30, 0);
	while (k--) {
		n = strlen(url);
		switch (vh_n(5)) {
			case 0: if (n) url[vh_n((uint32_t)n)] = ":/?#@[].\\%"[vh_n(10)]; break;
			case 1: if (n) { size_t at = vh_n((uint32_t)n); memmove(url + at, url + at + 1, n - at); } break;
			case 2: url[vh_n((uint32_t)n + 1)] = 0; break;
			case 3: if (n < 3000) { size_t at = vh_n((uint32_t)n + 1); memmove(url + at + 1, url + at, n - at + 1); url[at] = ":/?#@[].0a"[vh_n(10)]; } break;
			default: if (n) url[vh_n((uint32_t)n)] = (char)(1 + vh_n(255)); break;
		}
	}
	both(NULL, 0);
	sig = vh_mix(sig, vh_hash(url, strlen(url)));
}
static void t_path(void) {
	int n = (int)vh_n(5), i, dirs;
	char dir[600], file[100], base[100], *g, *o = dir;
	volatile int done = 0;
	const char *dot;
	if (vh_p(60)) *o++ = '/';
	*o = 0;
	strcpy(base, vh_p(50) ? "" : "");
	for (i = 0; i < n; i++) {
		gen(base, LET DIG "-_ .", 1, 12, 0);
		o += sprintf(o, "%s", base);
		if (i + 1 < n) o += sprintf(o, "/");
	}
	dirs = n > 0 || dir[0];
	gen(file, LET DIG "-_ .", 1, 20, 0);
	if (!n && dir[0]) { sprintf(url, "/%s", file); strcpy(dir, "/"); base[0] = 0; }
	else if (!dirs) { strcpy(url, file); strcpy(dir, "."); strcpy(base, "."); }
	else sprintf(url, "%s/%s", dir, file);
	g = vh_guard(url, strlen(url) + 1);
	guard {
		fileinfo_t *f = pathinfo(g);
		VH_MUST(f && f->type == DATA_FILEINFO, "path:none", "of \"%s\"", url);
		VH_MUST(!strcmp(f->dirname, dir), "path:directory", "of \"%s\" is \"%s\", not \"%s\"", url, f->dirname, dir);
		VH_MUST(!strcmp(f->filename, file), "path:filename", "of \"%s\" is \"%s\"", url, f->filename);
		VH_MUST(!strcmp(f->base, base), "path:base", "of \"%s\" is \"%s\", not \"%s\"", url, f->base, base);
		dot = strrchr(file, '.');
		VH_MUST(dot ? f->extension && !strcmp(f->extension, dot + 1) : !f->extension, "path:extension", "of \"%s\" is \"%s\"", url, f->extension ? f->extension : "(none)");
		done = 1;
	} guarded;
	VH_MUST(done, "path:exception", "pathinfo(\"%s\") raised an exception", url);
	VH_MUST(!strcmp(g, url), "path:argument", "\"%s\" was changed to \"%s\"", url, g);
	{	/* any text */
		int m = (int)vh_n(30);
		gen(url, "/a.", 0, m, 0);
		g = vh_guard(url, strlen(url) + 1);
		done = 0;
		guard { fileinfo_t *f = pathinfo(g); VH_MUST(f && f->dirname && f->filename && f->base && strlen(f->dirname) <= strlen(url) + 1 && strlen(f->filename) <= strlen(url), "path:odd", "of \"%s\"", url); done = 1; } guarded;
		VH_MUST(done, "path:exception", "pathinfo(\"%s\") raised an exception", url);
	}
	vh_count("paths", 2);
	sig = vh_mix(sig, vh_hash(url, strlen(url)) + vh_hash(dir, strlen(dir)));
}
int main(int argc, char **argv) {
	long c;
	vh_init(argc, argv);
	if (events_init(1024)) vh_fatal("failed", "events_init failed");
	events_hostname();
	guard { defer_free(events_calloc(1, 8)); } guarded;
	for (c = 0; c < vh_cases; c++) {
		uint32_t r;
		vh_case(c);
		sig = 1;
		r = vh_n(100);
		if (r < 40) t_compose(); else if (r < 50) t_reject(); else if (r < 80) t_mutate(); else t_path();
		vh_guard_reset();
#ifdef NO_RPMALLOC
		if (c % 16 == 0) vm_check("parsing");
#endif
		vh_eval(1);
		vh_sig(sig);
		if (c % 256 == 0) vh_beat();
	}
	vh_exit();
}
