/* C24: watched directories. Random changes in one to four watched trees (done by the task, by tasks of the library's
 * file functions, or by a thread), compared with what the handlers are told; with events_watch, fs_events, or the inotify functions themselves. */
#include <events.h>
#include <except.h>
#include "vh.h"
#include "ev.h"
#include <dirent.h>
#include <sys/stat.h>
#include <sys/time.h>
#undef inotify_init
#undef inotify_init1
#undef inotify_add_watch
#undef inotify_rm_watch
#define MAXW 4
#define MAXD 40
#define MAXE 4000
#define NL 300
extern int vj_rate __attribute__((weak));
void *events_malloc(size_t);
void *events_calloc(size_t, size_t);
void events_free(void *);
enum { K_ADD = 1, K_MOD, K_REM, K_MOV };
typedef struct { int w, kind; char dir[NL], name[64]; } rep;
typedef struct { int used, w, root, parent, wd; char path[NL]; } dirn;	/* a watched directory */
typedef struct { int on, gone, rid, fd, removed; char path[NL]; } watch;
static watch W[MAXW];
static dirn D[MAXD];
static int nW, mode, pool, go_stop, nfiles, outside;
static rep *X, *G;	/* expected, got */
static volatile int nX, nG;
static char top[NL];
static volatile long ticks, ticking;
static int the_fd;
static long c_rep, c_case, c_watch, c_kind[5], c_dirs, c_maxd, c_nested, c_ren, c_rendir, c_out, c_in, c_rmroot, c_remove, c_delw, c_cancel, c_many, c_quiet, c_ext, c_merged, c_readd, c_burst, c_maxburst, c_big;
#define ADD(x, n) __atomic_fetch_add(&(x), (n), __ATOMIC_SEQ_CST)
#define GET(x) __atomic_load_n(&(x), __ATOMIC_SEQ_CST)
static const char *kn[] = {"none", "added", "modified", "removed", "moved"};
static volatile int glock;	/* the handlers run on several threads */
static void lk(void) { while (__atomic_exchange_n(&glock, 1, __ATOMIC_ACQUIRE)) ; }
static void ulk(void) { __atomic_store_n(&glock, 0, __ATOMIC_RELEASE); }
static rep carry[MAXW + 1];	/* the last one of a tree, and how often it may come again as it was expected several times */
static int ncarry[MAXW + 1];
static int remove_in_handler = -1;	/* the directory (in D) to remove with events_remove when it is reported */
static void handler(int slot, int wd, int ev, const char *name, void *filter) {
	rep *r;
	int i, k = 0, n = 0;
	const char *p, *base;
	if (slot >= nW || filter != (void *)&W[slot]) vh_fatal("watch:filter", "handler %d with the filter of another", slot);
	if (ev & WATCH_ADDED) k = K_ADD, n++;
	if (ev & WATCH_REMOVED) k = K_REM, n++;
	if (ev & WATCH_MODIFIED) k = K_MOD, n++;
	if (ev & WATCH_MOVED) k = K_MOV, n++;
	if (n != 1) vh_fatal("watch:kind", "a report with %d kinds (0x%x)", n, ev);
	if (!W[slot].on) vh_fatal("watch:after", "report (%s of %s) for a directory that is not watched any more", kn[k], name);
	p = fs_events_path(wd);
	if (!p) vh_fatal("watch:path", "fs_events_path is null (report: %s of %s)", kn[k], name);
	base = strrchr(name, '/');
	base = base ? base + 1 : name;
	if (strcmp(p, W[slot].path)) {
		char full[700];
		snprintf(full, sizeof full, "%s/%s", p, base);
		if (strcmp(full, name)) vh_fatal("watch:name", "report about %s with the directory %s", name, p);
	} else if (base != name && (strncmp(name, p, strlen(p)) || strlen(name) != strlen(p) + 1 + strlen(base))) vh_fatal("watch:name", "report about %s in the directory %s", name, p);
	lk();
	if (nG >= MAXE) vh_fatal("watch:many", "%d reports", nG);
	r = &G[nG];
	r->w = slot; r->kind = k;
	snprintf(r->dir, NL, "%s", p); snprintf(r->name, sizeof r->name, "%s", base);
	ADD(nG, 1);
	ulk();
	for (i = 0; i < MAXD; i++) if (D[i].used && D[i].w == slot && !strcmp(D[i].path, p)) { D[i].wd = wd; break; }
	if (remove_in_handler >= 0 && remove_in_handler == i && !strcmp(base, "last")) {
		remove_in_handler = -2;
		events_remove(wd);
	}
	ADD(c_rep, 1); vh_beat();
}
#define H(k) static void h##k(int wd, events_monitors m, const char *name, void *f) { handler(k, wd, (int)m, name, f); }
H(0) H(1) H(2) H(3)
static watch_cb hs[MAXW] = {h0, h1, h2, h3};
static void expect(int w, int kind, const char *dir, const char *name) {
	rep *r = &X[nX];
	if (nX >= MAXE) vh_broken("too many");
	if (w < 0 || !W[w].on) return;
	r->w = w; r->kind = kind;
	snprintf(r->dir, NL, "%s", dir); snprintf(r->name, sizeof r->name, "%s", name);
	c_kind[kind]++;
	nX++;
}
static int same(const rep *a, const rep *b) { return a->w == b->w && a->kind == b->kind && !strcmp(a->dir, b->dir) && !strcmp(a->name, b->name); }
/* both in order; equal ones that follow each other may have been joined. With fs_events every tree has its own order. */
static int compare(int w, int final, char *why, size_t nwhy) {
	int i = 0, j = 0, nc = ncarry[w + 1];
	const rep *lx = NULL;
	for (;;) {
		while (i < nX && w >= 0 && X[i].w != w) i++;
		while (j < nG && w >= 0 && G[j].w != w) j++;
		if (i < nX && j < nG && same(&X[i], &G[j])) { if (!same(&X[i], lx ? lx : &carry[w + 1])) nc = 0; lx = &X[i]; i++; j++; continue; }
		if (i < nX && lx && same(&X[i], lx)) { i++; nc++; ADD(c_merged, 1); continue; }
		if (j < nG && nc > 0 && same(&G[j], lx ? lx : &carry[w + 1])) { nc--; j++; continue; }
		break;
	}
	if (j < nG) { snprintf(why, nwhy, "report %d: %s of %s in %s, %s%s%s%s%s", j, kn[G[j].kind], G[j].name, G[j].dir, i < nX ? "expected " : "nothing expected", i < nX ? kn[X[i].kind] : "", i < nX ? " of " : "", i < nX ? X[i].name : "", i < nX ? X[i].dir : ""); return -1; }
	if (i < nX) { snprintf(why, nwhy, "after %d reports: not reported: %s of %s in %s", j, kn[X[i].kind], X[i].name, X[i].dir); return 1; }
	if (final) { ncarry[w + 1] = nc; if (lx) carry[w + 1] = *lx; }
	return 0;
}
/* what is expected has been reported, and nothing else */
static void settle(const char *when) {
	char why[900];
	uint64_t t0 = vh_calm();
	int w, r;
	for (;;) {
		lk();
		for (w = mode == 0 ? -1 : 0, r = 0; w < (mode == 0 ? 0 : nW); w++) {
			r = compare(w, 0, why, sizeof why);
			if (r < 0) vh_fatal("watch:order", "%s: %s", when, why);
			if (r) break;
		}
		if (!r) {
			for (w = mode == 0 ? -1 : 0; w < (mode == 0 ? 0 : nW); w++) compare(w, 1, why, sizeof why);
			nX = 0; nG = 0;
			ulk();
			break;
		}
		ulk();
		if (vh_calm() - t0 > 8000000000ull) vh_fatal("watch:lost", "%s: %s", when, why);
		if (vh_p(60)) yield(); else delay(1);
	}
}
static int dir_new(int w, int root, int parent, const char *path) {
	int i;
	for (i = 0; i < MAXD; i++) if (!D[i].used) {
		D[i].used = 1; D[i].w = w; D[i].root = root; D[i].parent = parent; D[i].wd = -1;
		snprintf(D[i].path, NL, "%s", path);
		return i;
	}
	return -1;
}
static int ndirs(int w) { int i, n = 0; for (i = 0; i < MAXD; i++) n += D[i].used && D[i].w >= 0 && (w < 0 || D[i].w == w) && W[D[i].w].on; return n; }
static int pick_dir(void) {
	int i, n = 0, k;
	for (i = 0; i < MAXD; i++) n += D[i].used && W[D[i].w].on;
	if (!n) return -1;
	k = (int)vh_n((uint32_t)n);
	for (i = 0; i < MAXD; i++) if (D[i].used && W[D[i].w].on && !k--) return i;
	return -1;
}
static void check_count(const char *when) {
	int w, n;
	if (mode != 0 || the_fd < 0) return;
	for (n = 0, w = 0; w < nW; w++) n += W[w].on ? ndirs(w) : 0;
	if (events_watch_count(the_fd) != n) vh_fatal("watch:count", "%s: events_watch_count gives %d, %d directories are watched", when, events_watch_count(the_fd), n);
	if (events_is_watching(the_fd) != (n > 0)) vh_fatal("watch:count", "%s: events_is_watching is %d with %d directories watched", when, events_is_watching(the_fd), n);
	if (n > c_maxd) c_maxd = n;
}
/* ----- changes ----- */
static void pathf(char *b, const char *d, const char *n) { snprintf(b, 2 * NL, "%s/%s", d, n); }
static const char *FN[6] = {"f0", ".f1", "f 2;x", "f3.txt", "f33", "f0123456789012345678901234567890123456789012345678901234567890"};
static void fname(char *b) { snprintf(b, 64, "%s", FN[vh_n(6)]); }
/* a new name of a directory, often one that another in the same directory is the beginning of */
static void dname(char *b, int d, int c) {
	static int serial;
	int i, n = 0, w = -1;
	for (i = 0; i < MAXD; i++) if (D[i].used && D[i].parent == d && vh_n((uint32_t)++n) == 0) w = i;
	if (w >= 0 && vh_p(60) && strlen(strrchr(D[w].path, '/') + 1) < 40) snprintf(b, 64, "%s%c%d", strrchr(D[w].path, '/') + 1, "-x. "[vh_n(4)], ++serial);
	else snprintf(b, 64, "%s%c%d", vh_p(15) ? "." : "", c, ++serial);
}
static int exists(const char *p) { struct stat st; return lstat(p, &st) == 0; }
static void touch(const char *p) { int fd = open(p, O_CREAT | O_WRONLY, 0600); if (fd < 0) vh_broken("%s: %s", p, strerror(errno)); close(fd); }
static void append(const char *p, int n) {
	static char z[70000];
	int fd = open(p, O_WRONLY | O_APPEND);
	if (fd < 0 || write(fd, z, (size_t)n) != n) vh_broken("%s: %s", p, strerror(errno));
	close(fd);
}
static void op(void) {
	char n[64], n2[64], p[2 * NL], q[2 * NL];
	int d = pick_dir(), e;
	if (d < 0) return;
	fname(n); pathf(p, D[d].path, n);
	switch (vh_n(10)) {
	case 0: case 1: case 2:
		if (!exists(p)) { touch(p); expect(D[d].w, K_ADD, D[d].path, n); }
		else if (vh_p(50)) { append(p, 1 + (int)vh_n(60000)); expect(D[d].w, K_MOD, D[d].path, n); }
		else { if (truncate(p, (off_t)vh_n(5000))) vh_broken("truncate"); expect(D[d].w, K_MOD, D[d].path, n); }
		break;
	case 3: if (exists(p)) { if (unlink(p)) vh_broken("unlink"); expect(D[d].w, K_REM, D[d].path, n); } break;
	case 4: if (exists(p)) { if (chmod(p, 0600 + vh_n(2) * 0100)) vh_broken("chmod"); expect(D[d].w, K_MOD, D[d].path, n); } break;
	case 5: if (exists(p)) { char b[20]; int fd = open(p, O_RDONLY); if (fd >= 0) { if (read(fd, b, 20) < 0) vh_broken("read"); close(fd); } } break;
	case 6: case 7:
		if (!exists(p)) break;
		e = vh_p(50) ? d : pick_dir();
		fname(n2); pathf(q, D[e].path, n2);
		if (!strcmp(p, q)) break;
		if (rename(p, q)) vh_broken("rename");
		expect(D[d].w, K_REM, D[d].path, n); expect(D[e].w, K_ADD, D[e].path, n2);
		c_ren++;
		break;
	case 8:	/* out of what is watched, and in */
		snprintf(q, sizeof q, "%s/out/o%d", top, (int)vh_n(3));
		if (exists(p)) { if (rename(p, q)) vh_broken("rename"); expect(D[d].w, K_REM, D[d].path, n); c_out++; }
		else if (exists(q)) { if (rename(q, p)) vh_broken("rename"); expect(D[d].w, K_ADD, D[d].path, n); c_in++; }
		break;
	default:	/* with the library */
		if (vh_p(50)) {
			int had = exists(p), len;
			char *t = "some text";
			len = fs_writefile(p, t);
			if (len != 9) vh_fatal("failed", "fs_writefile failed");
			if (!had) expect(D[d].w, K_ADD, D[d].path, n); else expect(D[d].w, K_MOD, D[d].path, n);	/* truncated */
			expect(D[d].w, K_MOD, D[d].path, n);
		} else if (exists(p)) { if (fs_unlink(p)) vh_fatal("failed", "fs_unlink failed"); expect(D[d].w, K_REM, D[d].path, n); }
	}
}
static void dir_op(void) {
	int d = pick_dir(), e, i;
	char n[64], p[2 * NL], q[2 * NL];
	static int serial;
	if (d < 0) return;
	settle("before a change of directories"); check_count("before a change of directories");
	switch (vh_n(7)) {
	case 0: case 1: case 2:
		if (strlen(D[d].path) > 150) break;
		dname(n, d, 'd'); pathf(p, D[d].path, n);
		if ((e = dir_new(D[d].w, D[d].root, d, p)) < 0) break;
		if (vh_p(50) ? mkdir(p, 0700) : fs_mkdir(p, 0700)) vh_broken("mkdir: %s", strerror(errno));
		expect(D[d].w, K_ADD, D[d].path, n);
		c_dirs++; if (D[d].parent >= 0) c_nested++;
		break;
	case 3: case 4:	/* an empty one, not a root */
		if (D[d].parent < 0) break;
		for (i = 0; i < MAXD && !(D[i].used && D[i].parent == d); i++);
		if (i < MAXD) break;
		for (i = 0; i < 6; i++) { snprintf(n, sizeof n, "%s", FN[i]); pathf(p, D[d].path, n); if (exists(p)) { if (unlink(p)) vh_broken("unlink"); expect(D[d].w, K_REM, D[d].path, n); } }
		if (rmdir(D[d].path)) vh_broken("rmdir %s: %s", D[d].path, strerror(errno));
		expect(D[d].w, K_REM, D[D[d].parent].path, strrchr(D[d].path, '/') + 1);
		D[d].used = 0;
		break;
	case 5: {	/* rename with all that is in it, perhaps to another tree */
		int to = pick_dir();
		size_t l = strlen(D[d].path);
		char was[NL];
		if (D[d].parent < 0 || strlen(D[to].path) > 120) break;
		for (i = to; i >= 0 && i != d; i = D[i].parent);
		if (i == d) break;
		snprintf(was, sizeof was, "%s", D[d].path);
		dname(n, to, 'r'); pathf(p, D[to].path, n);
		if (rename(was, p)) vh_broken("rename");
		expect(D[d].w, K_REM, D[D[d].parent].path, strrchr(was, '/') + 1);
		expect(D[to].w, K_ADD, D[to].path, n);
		D[d].parent = to;
		for (i = 0; i < MAXD; i++) if (D[i].used && !strncmp(D[i].path, was, l) && (D[i].path[l] == 0 || D[i].path[l] == '/')) {
			snprintf(q, sizeof q, "%s%s", p, D[i].path + l);
			snprintf(D[i].path, NL, "%s", q);
			D[i].w = D[to].w; D[i].root = D[to].root; D[i].wd = -1;
		}
		c_rendir++;
		break;
	}
	default:	/* moved away: changes in it are none of the watcher's any more */
		if (D[d].parent < 0) break;
		{
			size_t l = strlen(D[d].path);
			int w = D[d].w;
			snprintf(p, sizeof p, "%s/out/x%d", top, ++serial);
			if (rename(D[d].path, p)) vh_broken("rename");
			expect(w, K_REM, D[D[d].parent].path, strrchr(D[d].path, '/') + 1);
			snprintf(q, sizeof q, "%s", D[d].path);
			for (i = 0; i < MAXD; i++) if (D[i].used && !strncmp(D[i].path, q, l) && (D[i].path[l] == 0 || D[i].path[l] == '/')) D[i].used = 0;
			settle("after a directory was moved out");
			snprintf(q, sizeof q, "%s/f9", p); touch(q); append(q, 10); chmod(q, 0700); unlink(q);
			c_out++;
		}
	}
	settle("after a change of directories"); check_count("after a change of directories");
}
static void rm_tree(const char *path, int w) {	/* all of a tree, expecting reports */
	struct dirent *e;
	struct stat st;
	DIR *dd = opendir(path);
	char p[2 * NL], names[60][64];
	int n = 0, i, watched = 0;
	for (i = 0; i < MAXD; i++) if (D[i].used && !strcmp(D[i].path, path)) watched = 1;
	while (dd && (e = readdir(dd))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..") && n < 60) snprintf(names[n++], 64, "%s", e->d_name);
	if (dd) closedir(dd);
	for (i = 0; i < n; i++) {
		pathf(p, path, names[i]);
		if (lstat(p, &st)) vh_broken("lstat");
		if (S_ISDIR(st.st_mode)) { int j; rm_tree(p, w); for (j = 0; j < MAXD; j++) if (D[j].used && !strcmp(D[j].path, p)) D[j].used = 0; }
		else if (unlink(p)) vh_broken("unlink");
		if (w >= 0 && watched) expect(w, K_REM, path, names[i]);
	}
	if (rmdir(path)) vh_broken("rmdir %s: %s", path, strerror(errno));
}
static void make_tree(int w, int d, int depth) {
	int i, n = (int)vh_n(depth == 0 ? 4 : 3), e;
	char p[2 * NL], nm[64];
	for (i = 0; i < (int)vh_n(3); i++) { fname(nm); pathf(p, D[d].path, nm); touch(p); }
	if (depth > 3) return;
	for (i = 0; i < n; i++) {
		snprintf(nm, sizeof nm, "%ss%.*s%d", i == 2 ? "." : "", i, "000", 0); pathf(p, D[d].path, nm);
		if ((e = dir_new(w, D[d].root, d, p)) < 0) return;
		if (mkdir(p, 0700)) vh_broken("mkdir");
		make_tree(w, e, depth + 1);
	}
}
static int nfds(void) {
	int n = 0;
	DIR *d = opendir("/proc/self/fd");
	while (d && readdir(d)) n++;
	if (d) closedir(d);
	return n;
}
static void start(int w, int again) {
	watch *x = &W[w];
	char given[NL + 8];
	int r, d;
	for (d = 0; d < MAXD && !(D[d].used && D[d].w == w && D[d].parent < 0); d++);
	snprintf(given, sizeof given, "%s", x->path);
	x->on = 1;
	if (mode == 0) {
		r = events_watch(event_loop(), given, hs[w], x);
		if (r < 0) vh_fatal("watch:start", "events_watch fails: %s", strerror(errno));
		if (the_fd >= 0 && r != the_fd) vh_fatal("watch:start", "events_watch gives %d, and gave %d", r, the_fd);
		the_fd = r;
	} else {
		int probe = 0;
		uint64_t t0 = vh_calm();
		r = fs_events(given, hs[w], x);
		memset(given, 'x', sizeof given - 1);
		if (r <= 0) vh_fatal("watch:start", "fs_events gives %d", r);
		x->rid = r;
		/* it starts some time later, the last of its directories being watched then */
		for (probe = 0; GET(nG) == 0; probe++) {
			char p[2 * NL];
			int i, last = -1, k;
			for (i = 0; i < MAXD; i++) if (D[i].used && D[i].w == w) last = i;
			(void)last; (void)k;
			pathf(p, x->path, "probe");
			touch(p); unlink(p);
			delay(2);
			if (vh_calm() - t0 > 8000000000ull) vh_fatal("watch:start", "fs_events reports nothing");
		}
		for (;;) { int was; delay(15); was = GET(nG); delay(10); if (was == GET(nG)) break; }
		for (r = 0; r < nG; r++) if (strcmp(G[r].name, "probe")) vh_fatal("watch:order", "report about %s, which did not change", G[r].name);
		nG = 0; nX = 0;
	}
	(void)again;
	ADD(c_watch, 1);
}
static void *ticker(param_t args) { (void)args; while (ticking) { ticks++; if (ticks & 7) yield(); else delay(1); } return 0; }
static void stop_all(int base) {
	int w, i, j;
	if (mode == 0) {
		settle("before the end"); check_count("before the end");
		if (the_fd >= 0) {
			int fd = the_fd;
			for (w = 0; w < nW; w++) W[w].on = 0;
			if (events_del_watch(event_loop())) vh_fatal("watch:end", "events_del_watch fails");
			if (events_is_watching(fd) || events_watch_count(fd)) vh_fatal("watch:count", "watching after events_del_watch");
			the_fd = -1; c_delw++;
		}
	} else {
		settle("before the end");
		for (w = 0; w < nW; w++) if (W[w].rid > 0) { if (fs_events_cancel((uint32_t)W[w].rid)) vh_fatal("watch:cancel", "fs_events_cancel fails"); c_cancel++; }
	}
	for (i = 0; i < 3000 && (j = nfds()) != base; i++) delay(1);
	if (j != base) vh_fatal("watch:leak", "%d descriptors open instead of %d after the end of all watching", j, base);
	for (w = 0; w < nW; w++) W[w].on = 0;
	/* nothing is reported any more */
	for (w = 0; w < nW; w++) if (!W[w].gone) { char p[2 * NL]; pathf(p, W[w].path, "f8"); touch(p); append(p, 5); }
	for (i = 0; i < 5; i++) { delay(1); yield(); }
}
static void *run(param_t args) {
	long c;
	int i, j, base = 0, w;
	(void)args;
	try { errno = 0; } catch_any { errno = 1; }
	X = calloc(MAXE, sizeof *X); G = calloc(MAXE, sizeof *G);
	vh_case(0); vh_watchdog(60);
	ticking = 1; async_task(ticker, 0);
	for (i = 0; i < 20; i++) yield();
	for (c = 0; c < vh_cases; c++) {
		uint64_t sig = 1;
		int ops, burst, total = 0;
		vh_case(c); vh_beat();
		memset(W, 0, sizeof W); memset(D, 0, sizeof D);
		nX = nG = 0; memset(ncarry, 0, sizeof ncarry); the_fd = -1; remove_in_handler = -1;
		mode = pool ? 1 : 0;
		nW = 1 + (int)vh_n(vh_p(50) ? MAXW : 2);
		snprintf(top, sizeof top, "%s/c%ld", vh_dir(), c);
		if (mkdir(top, 0700)) vh_broken("mkdir");
		{ char p[2 * NL]; snprintf(p, sizeof p, "%s/out", top); mkdir(p, 0700); }
		for (w = 0; w < nW; w++) {
			snprintf(W[w].path, NL, "%s/w%d", top, w);
			if (mkdir(W[w].path, 0700)) vh_broken("mkdir");
			dir_new(w, w, -1, W[w].path);
		}
		for (w = 0; w < nW; w++) make_tree(w, w, 0);
		if (nW > 1) c_many++;
		if (c == 0 && pool) { /* the pool's own descriptors */ mode = 1; start(0, 0); fs_events_cancel((uint32_t)W[0].rid); W[0].rid = 0; W[0].on = 0; delay(100); nG = nX = 0; }
		if (c == 0) { if (!pool) { start(0, 0); events_del_watch(event_loop()); the_fd = -1; W[0].on = 0; for (i = 0; i < 5; i++) delay(1); nG = nX = 0; } base = nfds(); }
		for (w = 0; w < nW; w++) start(w, 0);
		settle("after the start"); check_count("after the start");
		ops = (int)vh_n(vh_p(30) ? 200 : 40);
		for (burst = 0; total < ops; total++) {
			if (mode == 0 && vh_p(2) && nW > 1) {	/* one more, or again */
				w = (int)vh_n((uint32_t)nW);
				if (W[w].on && !W[w].gone) { settle("before watching again"); start(w, 1); c_readd++; check_count("after watching again"); }
			}
			if (vh_p(12)) { dir_op(); burst = 0; }
			else {
				op(); burst++;
				if (burst > c_maxburst) c_maxburst = burst;
				if (mode == 1 || vh_p(15)) { int p = mode == 1 ? 15 : 50; if (vh_p(p)) { settle("after changes"); burst = 0; } else yield(); }
				if (nX > 1500) { settle("after changes"); burst = 0; }
			}
		}
		settle("after all changes"); check_count("after all changes");
		/* ends */
		for (w = 0; w < nW; w++) {
			int d = -1, k;
			if (vh_p(25)) {	/* the whole tree is removed */
				rm_tree(W[w].path, w);
				for (k = 0; k < MAXD; k++) if (D[k].used && D[k].w == w) D[k].used = 0;
				settle("after removing a tree");
				for (k = 0; k < 3000 && mode == 0 && events_watch_count(the_fd) != ndirs(-1); k++) delay(1);
				check_count("after removing a tree");
				W[w].gone = 1; W[w].on = 0; c_rmroot++;
			} else if (mode == 1 && vh_p(50)) {	/* one ends, the others go on */
				int was;
				settle("before the end of one");
				if (fs_events_cancel((uint32_t)W[w].rid)) vh_fatal("watch:cancel", "fs_events_cancel fails");
				W[w].rid = 0; W[w].on = 0; c_cancel++;
				was = (int)vh_n(12);
				for (k = 0; k < was; k++) { if (vh_p(60)) delay(1); op(); }
				delay(8); op(); op(); op();
				settle("after the end of another");
			} else if (mode == 0 && vh_p(40)) {	/* one directory is not to be watched any more */
				char p[2 * NL];
				for (k = 0; k < MAXD; k++) if (D[k].used && D[k].w == w && (d < 0 || vh_p(40))) d = k;
				if (d < 0) continue;
				remove_in_handler = d;
				pathf(p, D[d].path, "last");
				touch(p); append(p, 3); unlink(p);
				expect(w, K_ADD, D[d].path, "last");
				settle("while removing a watch"); c_remove++;
				if (remove_in_handler != -2) vh_fatal("watch:lost", "no report about \"last\"");
				remove_in_handler = -1;
				touch(p);
				D[d].used = 0;
				for (k = 0; k < 6; k++) yield();
				check_count("after events_remove");
				settle("after events_remove");
				op(); op();
				settle("after events_remove");
			}
		}
		stop_all(base);
		if (vh_want_sample()) vh_sample("%d trees, %d changes, with %s", nW, ops, mode ? "fs_events" : "events_watch");
		sig = vh_mix(sig, (uint64_t)nW | (uint64_t)ops << 4 | (uint64_t)mode << 20); sig = vh_mix(sig, (uint64_t)c_rep);
		c_case++; vh_eval(1); vh_sig(sig);
		{ memset(D, 0, sizeof D); rm_tree(top, -1); }
	}
	ticking = 0;
	vh_count("reports compared", c_rep); vh_count("trees watched", c_watch); vh_count("most directories watched at once", c_maxd);
	vh_count("reports of kind added", c_kind[K_ADD]); vh_count("reports of kind modified", c_kind[K_MOD]); vh_count("reports of kind removed", c_kind[K_REM]);
	vh_count("cases with several trees", c_many); vh_count("directories made while watched", c_dirs); vh_count("of these not directly in the tree", c_nested); vh_count("files renamed", c_ren); vh_count("directories renamed", c_rendir);
	vh_count("moved out", c_out); vh_count("moved in", c_in); vh_count("trees removed while watched", c_rmroot); vh_count("events_remove in a handler", c_remove); vh_count("events_del_watch", c_delw); vh_count("fs_events_cancel", c_cancel);
	vh_count("trees watched again", c_readd); vh_count("reports joined by the system", c_merged); vh_count("most changes without waiting for reports", c_maxburst); vh_count("turns of the other task", ticks);
	vh_exit();
	return 0;
}
int main(int argc, char **argv) {
	vh_init(argc, argv);
	pool = (int)vh_arg("pool", 0);
	if (pool) {
		events_t *loop;
		if (events_init(1024)) vh_fatal("failed", "events_init failed");
		events_set_main((main_cb)run);
		loop = events_init_pool(pool);
		async_task(run, 0); async_run(loop);
	} else ev_run(run);
	return 0;
}
