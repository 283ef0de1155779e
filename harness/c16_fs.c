/* C16: file operations: every one is done twice, by the library in one directory and by system calls in
 * another, and results, errno, data read and the directories must stay equal. */
#include <events.h>
#include <except.h>
#include <sys/stat.h>
#include <sys/sendfile.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <dirent.h>
#include <signal.h>
#include "vh.h"
#include "ev.h"
extern int vj_rate __attribute__((weak));
#define NFD 6
#define NNAME 14
#define MAXLEN (1 << 18)
typedef struct { vh_rng r; int id, ops, done; char a[300], b[300]; int fa[NFD], fb[NFD]; FILE *sa[3], *sb[3]; int dir[3]; uint64_t sig; } user;	/* dir: last access of a stream: 0 none, 1 read, 2 write */
static user U[16];
static long c_op[64], c_err, c_bytes, c_slow, c_ticks, c_enos[140];
static long c_huge;
static volatile long ticks;
static volatile int ticking;
static const char *opn[] = { "open", "close", "read", "write", "stat", "fstat", "access", "exists", "filesize", "mkdir", "rmdir", "unlink", "rename", "chmod", "touch", "readfile", "writefile", "copyfile", "sendfile", "fopen", "fclose", "fread", "fwrite", "fgetc", "fgets", "async_fwrite", "async_fprintf", "promise_read", "promise streams", "getentropy", "files of more than 2 GB", "promise_popen" };
enum { OPEN, CLOSE, READ, WRITE, STAT, FSTAT, ACCESS, EXISTS, FILESIZE, MKDIR, RMDIR, UNLINK, RENAME, CHMOD, TOUCH, READFILE, WRITEFILE, COPYFILE, SENDFILE, FOPEN, FCLOSE, FREAD, FWRITE, FGETC, FGETS, AFWRITE, AFPRINTF, PREAD, PSTREAM, ENTROPY, HUGE, POPEN, NOPS };
static const char *names[NNAME] = { "f0", "f1", "f2", "f3", "d0", "d1", "d0/f", "d0/g", "d1/f", "d0/d", "f0/x", "none/x", "link", "loop" };
static uint32_t rn(user *u, uint32_t n) { return vh_rn(&u->r, n); }
static const char *pa(user *u, int i, char *buf) { snprintf(buf, 600, "%s/%s", u->a, names[i]); return buf; }
static const char *pb(user *u, int i, char *buf) { snprintf(buf, 600, "%s/%s", u->b, names[i]); return buf; }
static uint32_t size(user *u) { switch (rn(u, 8)) { case 0: return 0; case 1: return 1 + rn(u, 4); case 2: return MAXLEN - rn(u, 100); case 3: return 4096; case 4: return 1 + rn(u, 70000); default: return 1 + rn(u, 300); } }
static void fill(user *u, char *p, size_t n) { size_t i; uint64_t x = vh_rr(&u->r); for (i = 0; i < n; i++) { if (!(i & 7)) x = vh_mix(x, i); p[i] = (char)(x >> (8 * (i & 7))); if (!(x & 0x700) && (i & 31) == 31) p[i] = '\n'; } }
static void fillt(user *u, char *p, size_t n) { size_t i; fill(u, p, n); for (i = 0; i < n; i++) if (!p[i]) p[i] = '%'; p[n] = 0; }
static void same(user *u, int op, long ra, int ea, long rb, int eb, int failed, const char *what) {
	c_op[op]++; u->ops++; u->sig = vh_mix(u->sig, (uint64_t)(op * 1000 + (failed ? eb : 0)));
	if (ra != rb) vh_fatal("fs:result", "%s(%s) gives %ld (errno %d) instead of %ld (errno %d)", opn[op], what, ra, ea, rb, eb);
	if (failed) { c_err++; if (eb < 140) c_enos[eb] = 1; if (ea != eb) vh_fatal("fs:errno", "%s(%s) fails with errno %d instead of %d", opn[op], what, ea, eb); }
}
static int whole_read(const char *p, char **out) {
	int fd = open(p, O_RDONLY), n = 0, r;
	*out = malloc(1 << 24);
	if (fd < 0) { free(*out); *out = 0; return -1; }
	while ((r = (int)read(fd, *out + n, (1 << 24) - (size_t)n)) > 0) n += r;
	close(fd);
	return n;
}
static void compare(user *u, const char *a, const char *b) {
	DIR *d = opendir(b), *e;
	struct dirent *x;
	int nb = 0, na = 0;
	if (!d) vh_broken("opendir");
	while ((x = readdir(d))) {
		char p[700], q[700];
		struct stat s, t;
		if (!strcmp(x->d_name, ".") || !strcmp(x->d_name, "..")) continue;
		nb++;
		snprintf(p, 700, "%s/%s", a, x->d_name); snprintf(q, 700, "%s/%s", b, x->d_name);
		if (lstat(q, &t)) vh_broken("lstat");
		if (lstat(p, &s)) vh_fatal("fs:tree", "%s is missing", p);
		if (s.st_mode != t.st_mode) vh_fatal("fs:tree", "the mode of %s is %o instead of %o", p, s.st_mode, t.st_mode);
		if (S_ISDIR(t.st_mode)) compare(u, p, q);
		else if (S_ISREG(t.st_mode)) {
			char *f, *g;
			int n = whole_read(p, &f), m = whole_read(q, &g);
			if (n != m) vh_fatal("fs:tree", "%s has %d bytes instead of %d", p, n, m);
			if (n > 0 && memcmp(f, g, (size_t)n)) vh_fatal("fs:tree", "the contents of %s differ from what was written", p);
			free(f); free(g); c_bytes += n;
		}
	}
	closedir(d);
	if (!(e = opendir(a))) vh_broken("opendir");
	while ((x = readdir(e))) if (strcmp(x->d_name, ".") && strcmp(x->d_name, "..")) na++;
	closedir(e);
	if (na != nb) vh_fatal("fs:tree", "%s has %d entries instead of %d", a, na, nb);
}
static void rmtree(const char *p) {
	DIR *d = opendir(p);
	struct dirent *x;
	if (d) {
		while ((x = readdir(d))) {
			char q[700];
			struct stat s;
			if (!strcmp(x->d_name, ".") || !strcmp(x->d_name, "..")) continue;
			snprintf(q, 700, "%s/%s", p, x->d_name);
			if (!lstat(q, &s) && S_ISDIR(s.st_mode)) rmtree(q); else unlink(q);
		}
		closedir(d);
	}
	rmdir(p);
}
/* a file: its contents as system calls give them */
static int put(const char *p, const char *mode, const char *data, size_t n) {
	FILE *f = fopen(p, mode);
	size_t r;
	if (!f) return -1;
	r = fwrite(data, 1, n, f);
	fclose(f);
	return (int)r;
}
#define LIB(e) (errno = 0, ra = (long)(e), ea = errno)
#define SYS(e) (errno = 0, rb = (long)(e), eb = errno)
static void step(user *u) {
	char A[600], B[600], A2[600], B2[600], what[1300];
	static __thread int nothing;
	long ra = 0, rb = 0;
	int ea = 0, eb = 0, op = (int)rn(u, NOPS), i = (int)rn(u, NNAME), j = (int)rn(u, NNAME), k = (int)rn(u, NFD), q = (int)rn(u, 3);
	uint32_t n = size(u);
	char *x = 0, *y = 0;
	(void)nothing;
	if (rn(u, 3)) i = (int)rn(u, 4);
	if (rn(u, 4) == 0) op = OPEN;
	if (rn(u, 8) == 0) op = FOPEN;
	if (op != OPEN && rn(u, 5)) for (j = 0; j < NFD && u->fb[k] < 0; j++) k = (k + 1) % NFD;
	if (op != FOPEN && rn(u, 5)) for (j = 0; j < 3 && !u->sb[q]; j++) q = (q + 1) % 3;
	j = (int)rn(u, NNAME);
	pa(u, i, A); pb(u, i, B); pa(u, j, A2); pb(u, j, B2);
	snprintf(what, sizeof what, "%s", names[i]);
	switch (op) {
	case OPEN: {
		static const int acc[] = { O_RDONLY, O_WRONLY, O_RDWR, O_RDWR };
		int flags = acc[rn(u, 4)], mode = (int)rn(u, 0777);
		if (rn(u, 4)) flags |= O_CREAT;
		if (rn(u, 5) == 0) flags |= O_EXCL;
		if (rn(u, 3) == 0) flags |= O_TRUNC;
		if (rn(u, 3) == 0) flags |= O_APPEND;
		if (rn(u, 12) == 0) flags |= O_DIRECTORY;
		if (rn(u, 12) == 0) flags |= O_NOFOLLOW;
		if (u->fb[k] >= 0) return;
		LIB(fs_open(A, flags, mode)); SYS(open(B, flags, mode));
		u->fa[k] = ra >= 0 ? (int)ra : -1; u->fb[k] = rb >= 0 ? (int)rb : -1;
		snprintf(what, sizeof what, "%s, 0%o, 0%o", names[i], flags, mode);
		same(u, op, ra < 0 ? ra : 1, ea, rb < 0 ? rb : 1, eb, rb < 0, what);
		break;
	}
	case CLOSE:
		if (u->fb[k] < 0) { if (rn(u, 4)) return; LIB(fs_close(99999)); SYS(close(99999)); same(u, op, ra, ea, rb, eb, 1, "99999"); return; }
		LIB(fs_close(u->fa[k])); SYS(close(u->fb[k]));
		if (!ra && fcntl(u->fa[k], F_GETFD) == 0 && 0) return;
		u->fa[k] = u->fb[k] = -1;
		same(u, op, ra, ea, rb, eb, rb < 0, "a descriptor");
		break;
	case READ: case PREAD:
		x = malloc(n + 1); y = malloc(n + 1); memset(x, 0x5a, n + 1); memset(y, 0x5a, n + 1);
		if (u->fb[k] >= 0 && rn(u, 3) == 0) { off_t o = (off_t)rn(u, 100000); lseek(u->fa[k], o, SEEK_SET); lseek(u->fb[k], o, SEEK_SET); }
		if (op == READ) LIB(fs_read(u->fb[k] < 0 ? 99999 : u->fa[k], x, n));
		else { promise *p = alloc_promise(); LIB(promise_read(p, u->fb[k] < 0 ? 99999 : u->fa[k], x, n)); promise_clean(p); }
		SYS(read(u->fb[k] < 0 ? 99999 : u->fb[k], y, n));
		snprintf(what, sizeof what, "%d, %u bytes", u->fb[k], n);
		same(u, op, ra, ea, rb, eb, rb < 0, what);
		if (memcmp(x, y, n + 1)) vh_fatal("fs:data", "%s of %u bytes gives other data", opn[op], n);
		c_bytes += rb > 0 ? rb : 0;
		break;
	case WRITE:
		x = malloc(n + 1); fill(u, x, n);
		if (u->fb[k] >= 0 && rn(u, 4) == 0) { off_t o = (off_t)rn(u, 100000); lseek(u->fa[k], o, SEEK_SET); lseek(u->fb[k], o, SEEK_SET); }
		LIB(fs_write(u->fb[k] < 0 ? -1 : u->fa[k], x, n)); SYS(write(u->fb[k] < 0 ? -1 : u->fb[k], x, n));
		snprintf(what, sizeof what, "%d, %u bytes", u->fb[k], n);
		same(u, op, ra, ea, rb, eb, rb < 0, what);
		break;
	case STAT: case FSTAT: {
		struct stat s = {0}, t = {0};
		if (op == STAT) { LIB(fs_stat(A, &s)); SYS(stat(B, &t)); }
		else { LIB(fs_fstat(u->fb[k] < 0 ? 99999 : u->fa[k], &s)); SYS(fstat(u->fb[k] < 0 ? 99999 : u->fb[k], &t)); }
		same(u, op, ra, ea, rb, eb, rb < 0, what);
		if (s.st_mode != t.st_mode || s.st_nlink != t.st_nlink || s.st_uid != t.st_uid || (!S_ISDIR(s.st_mode) && s.st_size != t.st_size)) vh_fatal("fs:stat", "%s(%s) gives mode %o, %ld bytes instead of %o, %ld", opn[op], names[i], s.st_mode, (long)s.st_size, t.st_mode, (long)t.st_size);
		break;
	}
	case ACCESS: { static const int m[] = { F_OK, R_OK, W_OK, X_OK, R_OK | X_OK, 99 }; int z = m[rn(u, 6)]; LIB(fs_access(A, z)); SYS(access(B, z)); same(u, op, ra, ea, rb, eb, rb < 0, what); break; }
	case EXISTS: ra = fs_exists(A); rb = !access(B, F_OK); same(u, op, ra, 0, rb, 0, 0, what); break;
	case FILESIZE: { struct stat t; rb = stat(B, &t) ? 0 : (long)t.st_size; if (rb && S_ISDIR(t.st_mode)) return; ra = (long)fs_filesize(A); same(u, op, ra, 0, rb, 0, 0, what); break; }
	case MKDIR: { mode_t m = rn(u, 2) ? 0755 : (mode_t)(0700 | rn(u, 0777)); LIB(fs_mkdir(A, m)); SYS(mkdir(B, m)); same(u, op, ra, ea, rb, eb, rb < 0, what); break; }
	case RMDIR: LIB(fs_rmdir(A)); SYS(rmdir(B)); same(u, op, ra, ea, rb, eb, rb < 0, what); break;
	case UNLINK: LIB(fs_unlink(A)); SYS(unlink(B)); same(u, op, ra, ea, rb, eb, rb < 0, what); break;
	case RENAME: LIB(fs_rename(A, A2)); SYS(rename(B, B2)); snprintf(what, sizeof what, "%s, %s", names[i], names[j]); same(u, op, ra, ea, rb, eb, rb < 0, what); break;
	case CHMOD: { mode_t m = (mode_t)rn(u, 0777); if (i == 13) return; LIB(fs_chmod(A, m)); SYS(chmod(B, m)); same(u, op, ra, ea, rb, eb, rb < 0, what); break; }
	case TOUCH: { int fd = open(B, O_WRONLY | O_CREAT, 0600); rb = fd >= 0; if (fd >= 0) close(fd); ra = fs_touch(A); same(u, op, ra, 0, rb, 0, 0, what); break; }
	case READFILE: {
		struct stat t;
		char *g = 0;
		int m;
		if (!stat(B, &t) && S_ISDIR(t.st_mode)) { if ((x = fs_readfile(A))) vh_fatal("fs:readfile", "fs_readfile of the directory %s gives a text", names[i]); return; }
		m = whole_read(B, &g);
		x = fs_readfile(A);
		if (m <= 0 && x) vh_fatal("fs:readfile", "fs_readfile(%s) gives a text, the file %s", names[i], m ? "cannot be read" : "is empty");
		if (m > 0 && !x) vh_fatal("fs:readfile", "fs_readfile(%s), of %d bytes, gives nothing", names[i], m);
		if (m > 0 && (memcmp(x, g, (size_t)m) || x[m])) vh_fatal("fs:readfile", "fs_readfile(%s) gives other data", names[i]);
		same(u, op, 0, 0, 0, 0, 0, what);
		free(g); x = 0;
		break;
	}
	case WRITEFILE: {
		int fd = open(B, O_WRONLY | O_CREAT | O_TRUNC, 0600);
		eb = errno;
		x = malloc(n + 1); fillt(u, x, n);
		rb = fd < 0 ? -1 : (long)write(fd, x, n);
		if (fd >= 0) close(fd);
		LIB(fs_writefile(A, x));
		same(u, op, ra, ea, rb, eb, rb < 0, what);
		break;
	}
	case COPYFILE: {
		struct stat s, t;
		char *g = 0;
		int m, fd = -1;
		if (!stat(B, &s) && !stat(B2, &t) && s.st_ino == t.st_ino) return;	/* onto itself */
		if (!stat(B, &s) && S_ISDIR(s.st_mode)) return;	/* depends on the file system */
		m = whole_read(B, &g); eb = errno;
		if (m >= 0) { fd = open(B2, O_WRONLY | O_CREAT | O_TRUNC, 0660); eb = errno; }
		rb = m < 0 || fd < 0 ? -1 : write(fd, g, (size_t)m) == m ? 0 : -1;
		if (fd >= 0) close(fd);
		free(g);
		LIB(fs_copyfile(A, A2));
		snprintf(what, sizeof what, "%s, %s", names[i], names[j]);
		same(u, op, ra, ea, rb, eb, rb < 0, what);
		break;
	}
	case HUGE: {	/* with holes: its size and its end only */
		static const long long sz[] = { 0x7fffffffLL, 0x80000000LL, 0xffffffffLL, 0x100000000LL, 5000000000LL, 70000000000LL };
		off_t z = (off_t)(sz[rn(u, 6)] + rn(u, 100)), oa, ob;
		char big[700], out[700], x[200], y[200];
		struct stat s;
		int fd, fo, fi, got;
		snprintf(big, sizeof big, "%s.big", u->a); snprintf(out, sizeof out, "%s.out", u->a);
		if ((fd = open(big, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600)) < 0) vh_broken("open");
		for (j = 0; j < 100; j++) x[j] = (char)rn(u, 256);
		if (ftruncate(fd, z) || pwrite(fd, x, 100, z - 100) != 100) { close(fd); unlink(big); break; }
		close(fd);
		if ((long)fs_filesize(big) != (long)z) vh_fatal("fs:result", "fs_filesize of a file of %lld bytes gives %ld", (long long)z, (long)fs_filesize(big));
		ra = fs_stat(big, &s);
		if (ra || s.st_size != z) vh_fatal("fs:stat", "fs_stat of a file of %lld bytes gives %ld, %lld bytes", (long long)z, ra, (long long)s.st_size);
		fi = fs_open(big, O_RDONLY, 0); fo = fs_open(out, O_RDWR | O_CREAT | O_TRUNC, 0600);
		if (fi < 0 || fo < 0) vh_fatal("fs:result", "fs_open of a file of %lld bytes fails", (long long)z);
		oa = ob = z - (off_t)rn(u, 101);
		n = (uint32_t)(z - oa);
		ra = n ? fs_sendfile(fo, fi, &oa, n) : 0;
		if (ra != (long)n || oa != ob + (off_t)n) vh_fatal("fs:result", "fs_sendfile of %u bytes at %lld gives %ld and the offset %lld", n, (long long)ob, ra, (long long)oa);
		got = (int)pread(fo, y, sizeof y, 0);
		if (got != (int)n || memcmp(y, x + 100 - n, n)) vh_fatal("fs:data", "fs_sendfile at %lld wrote %d other bytes", (long long)ob, got);
		if (fs_close(fi) || fs_close(fo) || fs_unlink(big) || unlink(out)) vh_fatal("fs:result", "fs_close or fs_unlink of a file of %lld bytes fails", (long long)z);
		c_huge++;
		break;
	}
	case SENDFILE: {
		int k2 = (int)rn(u, NFD), useoff = (int)rn(u, 2);
		off_t oa = (off_t)rn(u, 5000), ob = oa;
		for (j = 0; j < NFD && (k2 == k || u->fb[k2] < 0); j++) k2 = (k2 + 1) % NFD;
		if (u->fb[k] < 0 || u->fb[k2] < 0 || k == k2) return;
		{ struct stat s, t; if (fstat(u->fb[k], &s) || fstat(u->fb[k2], &t) || s.st_ino == t.st_ino) return; }
		LIB(fs_sendfile(u->fa[k], u->fa[k2], useoff ? &oa : NULL, n)); SYS(sendfile(u->fb[k], u->fb[k2], useoff ? &ob : NULL, n));
		same(u, op, ra, ea, rb, eb, rb < 0, "two descriptors");
		if (oa != ob) vh_fatal("fs:result", "fs_sendfile leaves the offset %ld instead of %ld", (long)oa, (long)ob);
		break;
	}
	case FOPEN: {
		static const char *m[] = { "r", "w", "a", "r+", "w+", "a+", "rb", "z" };
		const char *mode = m[rn(u, 8)];
		if (u->sb[q]) return;
		errno = 0; u->sa[q] = fs_fopen(A, mode); ea = errno;
		errno = 0; u->sb[q] = fopen(B, mode); eb = errno;
		u->dir[q] = 0;
		snprintf(what, sizeof what, "%s, %s", names[i], mode);
		if (!u->sb[q] != !u->sa[q]) { ra = !!u->sa[q]; rb = !!u->sb[q]; u->sa[q] = u->sb[q] = 0; }
		same(u, op, ra, ea, rb, eb, !u->sb[q], what);
		break;
	}
	case FCLOSE: if (!u->sb[q]) return; LIB(fs_fclose(u->sa[q])); SYS(fclose(u->sb[q])); u->sa[q] = u->sb[q] = 0; same(u, op, ra, ea, rb, eb, rb < 0, "a stream"); break;
	case FREAD: case FGETC: case FGETS: case FWRITE: {
		int d = op == FWRITE ? 2 : 1;
		if (!u->sb[q]) return;
		if (u->dir[q] && u->dir[q] != d) { fseek(u->sa[q], 0, SEEK_CUR); fseek(u->sb[q], 0, SEEK_CUR); }
		u->dir[q] = d;
		x = malloc(n + 2); y = malloc(n + 2); memset(x, 0x5a, n + 2); memset(y, 0x5a, n + 2);
		clearerr(u->sa[q]); clearerr(u->sb[q]);
		if (op == FREAD) { size_t s = 1 + rn(u, 9); LIB(fs_fread(x, s, n / s, u->sa[q])); SYS(fread(y, s, n / s, u->sb[q])); }
		else if (op == FGETC) { LIB(fs_fgetc(u->sa[q])); SYS(fgetc(u->sb[q])); }
		else if (op == FGETS) { char *s, *t; int m = (int)(n % 4000) + 1; errno = 0; s = fs_fgets(x, m, u->sa[q]); ea = errno; errno = 0; t = fgets(y, m, u->sb[q]); eb = errno; ra = s ? s - x : -1; rb = t ? t - y : -1; }
		else { size_t s = 1 + rn(u, 9); fill(u, x, n); memcpy(y, x, n); LIB(fs_fwrite(x, s, n / s, u->sa[q])); SYS(fwrite(y, s, n / s, u->sb[q])); if (rb > 0) fflush(u->sb[q]); }
		if (op == FREAD || op == FWRITE) { if (ferror(u->sb[q]) != ferror(u->sa[q])) vh_fatal("fs:result", "%s leaves the stream with other flags", opn[op]); }
		same(u, op, ra, ea, rb, eb, ferror(u->sb[q]) && (op == FGETC || op == FGETS), "a stream");
		if (memcmp(x, y, n + 2)) vh_fatal("fs:data", "%s gives other data", opn[op]);
		break;
	}
	case AFWRITE: case AFPRINTF: {
		const char *mode = rn(u, 2) ? "w" : "a";
		x = malloc(n + 1); fillt(u, x, n);
		rb = put(B, mode, x, n);
		if (op == AFWRITE) LIB(async_fwrite(A, mode, x, 1, n)); else LIB(async_fprintf(A, mode, x));
		if (rb < 0) rb = 0;	/* 0 tells of an error, too */
		same(u, op, ra, 0, rb, 0, 0, what);
		break;
	}
	case PSTREAM: {
		promise *p = 0;
		FILE *f, *g;
		int e, l;
		const char *mode = rn(u, 2) ? "r" : rn(u, 2) ? "w" : "a";
		g = fopen(B, mode); eb = errno;
		p = promise_fopen(A, mode);
		errno = 0; f = (FILE *)promise_wait(p).object; ea = errno;
		same(u, op, !!f, ea, !!g, eb, !g, what);
		if (!g) { promise_clean(p); return; }
		for (l = (int)rn(u, 6); l > 0; l--) {
			if (*mode == 'r') {
				if (rn(u, 2)) { LIB(promise_fgetc(p, f)); SYS(fgetc(g)); same(u, op, ra, ea, rb, eb, 0, "fgetc"); }
				else { char b1[200], b2[200], *s, *t; int m = 1 + (int)rn(u, 199); memset(b1, 1, 200); memset(b2, 1, 200); s = promise_fgets(p, b1, m, f); t = fgets(b2, m, g); same(u, op, !!s, 0, !!t, 0, 0, "fgets"); if (memcmp(b1, b2, 200)) vh_fatal("fs:data", "promise_fgets gives other data"); }
			} else {
				uint32_t m = n % 5000;
				char *t = malloc(m + 1);
				fillt(u, t, m);
				if (rn(u, 2)) { LIB(promise_fwrite(p, t, 1, m, f)); SYS(fwrite(t, 1, m, g)); same(u, op, ra, ea, rb, eb, 0, "fwrite"); }
				else { LIB(promise_fprintf(p, f, t)); SYS(fprintf(g, "%s", t)); same(u, op, ra, ea, rb, eb, 0, "fprintf"); }
				free(t);
			}
		}
		e = fclose(g);
		same(u, op, promise_fclose(p, f), 0, e, 0, 0, "fclose");
		break;
	}
	case POPEN: {
		promise *p = 0;
		FILE *f, *g;
		char ca[900], cb[900];
		int e, l, rd = (int)rn(u, 2), k = (int)rn(u, 4) ? (int)rn(u, 256) : 0;
		if (rn(u, 3)) return;	/* they are slow */
		if (rd) { snprintf(ca, 900, "%s cat '%s' 2>/dev/null; exit %d", rn(u, 2) ? "sleep 0.01;" : "", A, k); snprintf(cb, 900, "cat '%s' 2>/dev/null; exit %d", B, k); }
		else { const char *slow = rn(u, 2) ? "sleep 0.01;" : ""; snprintf(ca, 900, "%s { cat >'%s'; cat >/dev/null; } 2>/dev/null; exit %d", slow, A, k); snprintf(cb, 900, "{ cat >'%s'; cat >/dev/null; } 2>/dev/null; exit %d", B, k); }
		g = popen(cb, rd ? "r" : "w");
		p = promise_popen(ca, rd ? "r" : "w");
		f = (FILE *)promise_wait(p).object;
		if (!g) vh_broken("popen");
		same(u, op, !!f, 0, 1, 0, 0, ca);
		for (l = (int)rn(u, 6); l > 0; l--) {
			if (rd) {
				if (rn(u, 2)) { LIB(promise_fgetc(p, f)); SYS(fgetc(g)); same(u, op, ra, ea, rb, eb, 0, "fgetc"); }
				else { char b1[200], b2[200], *s, *t; int m = 1 + (int)rn(u, 199); memset(b1, 1, 200); memset(b2, 1, 200); s = promise_fgets(p, b1, m, f); t = fgets(b2, m, g); same(u, op, !!s, 0, !!t, 0, 0, "fgets"); if (memcmp(b1, b2, 200)) vh_fatal("fs:data", "promise_fgets gives other data"); }
			} else {
				uint32_t m = n % 5000;
				char *t = malloc(m + 1);
				fillt(u, t, m);
				if (rn(u, 2)) { LIB(promise_fwrite(p, t, 1, m, f)); SYS(fwrite(t, 1, m, g)); same(u, op, ra, ea, rb, eb, 0, "fwrite"); }
				else { LIB(promise_fprintf(p, f, t)); SYS(fprintf(g, "%s", t)); same(u, op, ra, ea, rb, eb, 0, "fprintf"); }
				free(t);
			}
		}
		/* cat may be ended by SIGPIPE when not everything was read, not the shell */
		e = pclose(g);
		same(u, op, promise_pclose(p, f), 0, e, 0, 0, "pclose");
		break;
	}
	case ENTROPY: {
		unsigned char z[64] = {0};
		size_t m = rn(u, 3) ? 1 + rn(u, 32) : 300, c, nz = 0;
		unsigned char *big = calloc(1, 400);
		LIB(async_getentropy(big, m)); SYS(m > 256 ? (errno = EIO, -1) : 0);
		same(u, op, ra, ea, rb, eb, rb < 0, "");
		for (c = 0; c < 400; c++) { if (c >= m && big[c]) vh_fatal("fs:data", "async_getentropy wrote too much"); nz += !!big[c]; }
		if (!rb && m > 16 && !nz) vh_fatal("fs:data", "async_getentropy gave only zeros");
		free(big); (void)z;
		break;
	}
	}
	free(x); free(y);
}
static int total_done;
static void *worker(param_t args) {
	user *u = &U[args[0].integer];
	int n = args[1].integer, i;
	for (i = 0; i < n; i++) { step(u); vh_beat(); if (rn(u, 8) == 0) yield(); }
	for (i = 0; i < NFD; i++) if (u->fb[i] >= 0) { int r = fs_close(u->fa[i]); if (r) vh_fatal("fs:result", "fs_close gives %d with errno %d", r, errno); close(u->fb[i]); }
	for (i = 0; i < 3; i++) if (u->sb[i]) { int r = fs_fclose(u->sa[i]), s = fclose(u->sb[i]); if (r != s) vh_fatal("fs:result", "fs_fclose gives %d instead of %d", r, s); }
	u->done = 1; total_done++;
	return 0;
}
static void *ticker(param_t args) { while (ticking) { ticks++; c_ticks++; yield(); } return 0; }
/* an operation that takes until other tasks made progress */
static char fifo[400];
static volatile int fifo_done;
static void *fifo_writer(void *p) {
	long t0 = ticks;
	uint64_t e = vh_calm() + 20000000000ull;
	int fd;
	while (ticks < t0 + 50) { if (vh_calm() > e) vh_fatal("fs:blocks", "no other task ran while fs_open waited"); vh_msleep(1); }
	if ((fd = open(fifo, O_WRONLY)) < 0) vh_broken("fifo");
	t0 = ticks;
	while (ticks < t0 + 50) { if (vh_calm() > e) vh_fatal("fs:blocks", "no other task ran while fs_read waited"); vh_msleep(1); }
	if (write(fd, "slow", 4) != 4) vh_broken("fifo");
	close(fd);
	return 0;
}
static void *slow(param_t args) {
	char b[10] = {0};
	int fd = fs_open(fifo, O_RDONLY, 0), n;
	if (fd < 0) vh_fatal("fs:result", "fs_open of a fifo fails");
	if ((n = fs_read(fd, b, 10)) != 4 || strcmp(b, "slow")) vh_fatal("fs:data", "fs_read of a fifo gives %d", n);
	if (fs_close(fd)) vh_fatal("fs:result", "fs_close of a fifo fails");
	fifo_done = 1; c_slow++;
	return 0;
}
static int fds_open(void) { DIR *d = opendir("/proc/self/fd"); int n = 0; while (readdir(d)) n++; closedir(d); return n; }
static void *run(param_t args) {
	long c;
	int i, j, n, base = -1;
	for (c = 0; c < vh_cases; c++) {
		uint64_t s = 1;
		long ops = 0;
		pthread_t th;
		int isslow;
		vh_case(c); vh_watchdog(60);
		umask(vh_p(50) ? 022 : 0);
		n = 1 + (int)vh_n(vh_p(20) ? 12 : 4);
		total_done = 0;
		for (i = 0; i < n; i++) {
			user *u = &U[i];
			char q[600];
			memset(u, 0, sizeof *u);
			u->id = i; u->r.s = vh_rnd();
			for (j = 0; j < NFD; j++) u->fa[j] = u->fb[j] = -1;
			snprintf(u->a, 300, "%s/a%d", vh_dir(), i); snprintf(u->b, 300, "%s/b%d", vh_dir(), i);
			if (mkdir(u->a, 0755) || mkdir(u->b, 0755)) vh_broken("mkdir");
			for (j = 0; j < 2; j++) { snprintf(q, 600, "%s/link", j ? u->a : u->b); if (symlink("f1", q)) vh_broken("symlink"); snprintf(q, 600, "%s/loop", j ? u->a : u->b); if (symlink("loop", q)) vh_broken("symlink"); }
		}
		isslow = vh_p(20);
		if (isslow) {
			snprintf(fifo, 400, "%s/fifo", vh_dir()); unlink(fifo);
			if (mkfifo(fifo, 0600)) vh_broken("mkfifo");
			fifo_done = 0;
		}
		if (isslow || vh_p(50)) { ticking = 1; (void)async_task(ticker, 0); }
		if (isslow) { (void)async_task(slow, 0); if (pthread_create(&th, 0, fifo_writer, 0)) vh_broken("thread"); }
		for (i = 0; i < n; i++) (void)async_task(worker, 2, (void *)(intptr_t)i, (void *)(intptr_t)(5 + vh_n(vh_p(20) ? 200 : 60)));
		while (total_done < n || (isslow && !fifo_done)) yield();
		if (isslow) { pthread_join(th, 0); unlink(fifo); }
		if (ticking) { ticking = 0; yield(); }
		yield();
		for (i = 0; i < n; i++) { compare(&U[i], U[i].a, U[i].b); s = vh_mix(s, U[i].sig); ops += U[i].ops; rmtree(U[i].a); rmtree(U[i].b); }
		j = fds_open();
		if (base < 0) base = j;
		if (j != base) vh_fatal("fs:descriptors", "%d descriptors are open instead of %d when all are closed", j, base);
		vh_eval(1);
		if (ops > 3) vh_sig(s);
		if (vh_want_sample()) vh_sample("%d tasks, %ld operations%s", n, ops, isslow ? ", a slow one" : "");
	}
	for (i = 0; i < NOPS; i++) vh_count(opn[i], c_op[i]);
	vh_count("files of more than 2 GB made", c_huge);
	for (i = j = 0; i < 140; i++) j += (int)c_enos[i];
	vh_count("errors", c_err); vh_count("different values of errno", j); vh_count("bytes compared", c_bytes); vh_count("slow operations", c_slow); vh_count("ticks", c_ticks);
	vh_exit();
	return 0;
}
/* copies and writes that meet the limit of the size of files, in a process of its own */
static void *run_limit(param_t args) {
	char a[400], b[400];
	struct rlimit l = { 65536, 65536 };
	long i, n = 0;
	char *t = malloc(200001);
	for (i = 0; i < 200; i++) {
		long sz = 1 + (long)vh_n(200000), m;
		int r;
		struct stat s;
		snprintf(a, 400, "%s/a", vh_dir()); snprintf(b, 400, "%s/b", vh_dir());
		unlink(a); unlink(b);
		memset(t, 'x', (size_t)sz); t[sz] = 0;
		l.rlim_cur = RLIM_INFINITY; l.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_FSIZE, &l);
		if (put(a, "w", t, (size_t)sz) != sz) _exit(3);
		l.rlim_cur = 65536; setrlimit(RLIMIT_FSIZE, &l);
		errno = 0;
		r = fs_copyfile(a, b);
		m = stat(b, &s) ? -1 : (long)s.st_size;
		if (r == 0 && m != sz) _exit(50);
		if (r != 0 && sz <= 65536) _exit(51);
		if (r != 0 && !errno) _exit(52);
		unlink(b);
		errno = 0;
		m = fs_writefile(b, t);
		stat(b, &s);
		if (m >= 0 && m != s.st_size) _exit(53);
		if (m == sz && s.st_size != sz) _exit(54);
		if (sz <= 65536 && m != sz) _exit(55);
		n++;
	}
	_exit(n == 200 ? 0 : 3);
	return 0;
}
static void limit(void) {
	int st;
	pid_t pid;
	const char *d = vh_dir();
	if ((pid = fork()) < 0) vh_broken("fork");
	if (!pid) {
		vh_forked(); alarm(60); (void)d;
		signal(SIGXFSZ, SIG_IGN);
		if (events_init(1024)) _exit(3);
		events_set_main((main_cb)run_limit);
		events_t *loop = events_init_pool(3);
		async_task(run_limit, 0);
		async_run(loop);
		_exit(3);
	}
	if (waitpid(pid, &st, 0) != pid) vh_broken("waitpid");
	if (!WIFEXITED(st) || WEXITSTATUS(st) == 3) vh_broken("the process with the limit ended with %x", st);
	vh_count("copies and writes with a limit", 400);
	if (WEXITSTATUS(st) == 50) vh_fail("fs:short-copy", "fs_copyfile gives 0 when the limit of the file size cut the copy short");
	else if (WEXITSTATUS(st)) vh_fail("fs:limit", "with a limit of the file size: failure %d", WEXITSTATUS(st));
}
int main(int argc, char **argv) {
	vh_init(argc, argv);
	vh_dir();
	vh_case(0);
	if (vh_arg("limit", 0)) limit();
	if (&vj_rate) vj_rate = (int)vh_arg("jitter", 30);
	if (events_init(1024)) vh_fatal("failed", "events_init failed");
	events_set_main((main_cb)run);
	events_t *loop = events_init_pool((uint32_t)vh_arg("pool", 3));
	async_task(run, 0);
	async_run(loop);
	vh_fatal("main-lost", "the scheduler returned before the main task ended");
	return 0;
}
