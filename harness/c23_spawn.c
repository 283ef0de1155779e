/* C23: processes. Up to five children at once (the driver itself, in the role of a child) with given arguments, environment,
 * amount and pace of output, input to copy, and end; watched through the callbacks, the descriptors and exec_wait. */
#include <events.h>
#include <except.h>
#include "vh.h"
#include "ev.h"
#include <dirent.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#define MAXC 5
#define NSPEC 10
extern int vj_rate __attribute__((weak));
extern char **environ;
void *events_malloc(size_t);
void *events_calloc(size_t, size_t);
void events_free(void *);
enum { S_SEED, S_TOTAL, S_CHUNK, S_DELAY, S_CAT, S_CODE, S_SIG, S_ERR, S_HANG, S_LATE };
/* ------------------------------------------------ the child */
static unsigned char pat(uint64_t seed, uint64_t i) { return (unsigned char)(vh_mix(seed, i >> 3) >> (8 * (i & 7))); }
static void put(int fd, const void *b, size_t n) {
	const char *p = b;
	while (n) { ssize_t m = write(fd, p, n); if (m < 0 && errno == EINTR) continue; if (m <= 0) _exit(250); p += m; n -= (size_t)m; }
}
static int is_pipe(int fd, int *cloexec) {
	struct stat st;
	int f = fcntl(fd, F_GETFD);
	if (f < 0) return 0;
	*cloexec = f & FD_CLOEXEC;
	return fstat(fd, &st) == 0 && S_ISFIFO(st.st_mode);
}
static int count_pipes(int mine) {
	int n = 0, fd, ce;
	for (fd = 3; fd < 2000; fd++) if (is_pipe(fd, &ce) && (!mine || !ce)) n++;
	return n;
}
static uint64_t env_hash(char **e, int *n) {
	uint64_t h = 7;
	*n = 0;
	for (; e && *e; e++) if (**e) { h = vh_mix(h, vh_hash(*e, strlen(*e))); ++*n; }
	return h;
}
static int child_main(int argc, char **argv, const char *spec) {
	long v[NSPEC];
	char b[70000];
	int i, n = 0, ne;
	uint64_t eh = env_hash(environ, &ne), ah = 3;
	for (i = 0; i < NSPEC; i++) { char *e; spec = strchr(spec, ':'); if (!spec) _exit(251); v[i] = strtol(spec + 1, &e, 10); spec = e; }
	for (i = 1; i < argc; i++) ah = vh_mix(ah, vh_hash(argv[i], strlen(argv[i])));
	n = snprintf(b, sizeof b, "HDR %d %d %d %d %d %lx %d %lx %d %d.", (int)getpid(), (int)getsid(0), (fcntl(0, F_GETFL) & O_NONBLOCK) != 0, (fcntl(1, F_GETFL) & O_NONBLOCK) != 0, argc, ah, ne, eh, count_pipes(0), (int)strlen(argv[0]));
	put(1, b, (size_t)n);
	if (v[S_ERR]) { for (i = 0; i < v[S_ERR]; i++) { unsigned char c = pat((uint64_t)v[S_SEED] + 1, (uint64_t)i); put(2, &c, 1); } }
	if (v[S_CAT]) {
		long got = 0;
		while (got < v[S_TOTAL]) {
			ssize_t m = read(0, b, (size_t)(v[S_CHUNK] < v[S_TOTAL] - got ? v[S_CHUNK] : v[S_TOTAL] - got));
			if (m < 0 && errno == EINTR) continue;
			if (m < 0) _exit(252);
			if (m == 0) _exit(253);
			for (i = 0; i < m; i++) b[i] ^= 0x5a;
			put(1, b, (size_t)m);
			got += m;
			if (v[S_DELAY]) usleep((useconds_t)v[S_DELAY]);
		}
	} else {
		long at = 0;
		while (at < v[S_TOTAL]) {
			long m = v[S_CHUNK] < v[S_TOTAL] - at ? v[S_CHUNK] : v[S_TOTAL] - at, k;
			if (m > (long)sizeof b) m = sizeof b;
			for (k = 0; k < m; k++) b[k] = (char)pat((uint64_t)v[S_SEED], (uint64_t)(at + k));
			put(1, b, (size_t)m);
			at += m;
			if (v[S_DELAY] && at < v[S_TOTAL]) usleep((useconds_t)v[S_DELAY]);
		}
	}
	if (v[S_HANG]) usleep((useconds_t)v[S_HANG]);
	if (v[S_SIG]) { sigset_t m; sigemptyset(&m); signal((int)v[S_SIG], SIG_DFL); sigprocmask(SIG_SETMASK, &m, NULL); kill(getpid(), (int)v[S_SIG]); usleep(5000000); _exit(254); }
	_exit((int)v[S_CODE]);
}
/* ------------------------------------------------ the parent */
typedef struct {
	long v[NSPEC];
	const char *path;
	int how, args, env, nargs, nenv, cgi, launched, exited, exit_code, exit_sig, ncb, late, feeder, fed, want_pid, pidfd, errn, noerr, wr;
	uint64_t ah, eh;
	char *out, *argstr;
	size_t nout, cap;
	execinfo_t *info;
} child;
enum { H_MAIN, H_TASK, H_GO };
static child C[MAXC];
static int nC, done, alone;
static char self[4000], comma[4200];
static int base_pipes, denv;
static volatile long ticks, ticking;
static long c_spawn, c_cgi, c_exec, c_bytes, c_big, c_cat, c_sig, c_err, c_conc, c_go, c_task, c_nullargs, c_longenv, c_tmo, c_det, c_cbs, c_chain, c_pid, c_maxcb, c_fail, c_code, c_inh, c_hold;
#define ADD(x, n) __atomic_fetch_add(&(x), (n), __ATOMIC_SEQ_CST)
#define GET(x) __atomic_load_n(&(x), __ATOMIC_SEQ_CST)
static void on_out(int k, fds_t w, size_t n, char *b) {
	child *c = &C[k];
	if (k >= nC) vh_fatal("spawn:callback", "output callback of child %d", k);
	if (GET(c->exited)) vh_fatal("spawn:late-output", "output of %zu bytes after the exit callback", n);
	if (n == 0 || n > 1000000) vh_fatal("spawn:count", "output callback with %zu bytes", n);
	if (b[n]) vh_fatal("spawn:end", "the %zu bytes of output are not followed by a zero", n);
	if (c->wr == -1) c->wr = (int)w;
	else if (c->wr != (int)w) vh_fatal("spawn:writeto", "descriptor to write to is %d, and was %d", (int)w, c->wr);
	if (fcntl((int)w, F_GETFD) < 0) vh_fatal("spawn:writeto", "descriptor to write to (%d) is not open", (int)w);
	if (c->nout + n > c->cap) vh_fatal("spawn:too-much", "more output (%zu bytes) than the child wrote", c->nout + n);
	memcpy(c->out + c->nout, b, n); c->nout += n; c->ncb++;
	ADD(c_cbs, 1); vh_beat();
}
static void read_err(child *c) {
	char b[4096];
	int fd, m, i;
	if (!c->cgi || !c->info || !c->v[S_ERR]) return;
	fd = exec_fderr(c->info);
	while ((m = (int)read(fd, b, sizeof b)) > 0) {
		for (i = 0; i < m; i++, c->errn++) if ((unsigned char)b[i] != pat((uint64_t)c->v[S_SEED] + 1, (uint64_t)c->errn)) vh_fatal("spawn:stderr", "byte %d of stderr differs", c->errn);
		if (c->errn > c->v[S_ERR]) vh_fatal("spawn:stderr", "%d bytes of stderr, %ld written", c->errn, c->v[S_ERR]);
	}
}
static void on_exit_(int k, int st, int sig) {
	child *c = &C[k];
	if (k >= nC) vh_fatal("spawn:callback", "exit callback of child %d", k);
	if (ADD(c->exited, 1)) vh_fatal("spawn:exit-twice", "second exit callback");
	c->exit_code = st; c->exit_sig = sig;
	if (c->cgi && !c->info) c->noerr = 1;	/* ended before spawn_cgi returned, there was nothing to read it from */
	if (c->cgi) read_err(c);
	vh_beat();
}
#define CB(k) static void out##k(fds_t w, size_t n, char *b) { on_out(k, w, n, b); } static void ex##k(int s, int g) { on_exit_(k, s, g); }
CB(0) CB(1) CB(2) CB(3) CB(4)
static spawn_cb outs[MAXC] = {out0, out1, out2, out3, out4};
static exit_cb exs[MAXC] = {ex0, ex1, ex2, ex3, ex4};
static void spec_str(char *b, size_t n, const long *v) {
	int i;
	size_t l = (size_t)snprintf(b, n, "@c23");
	for (i = 0; i < NSPEC; i++) l += (size_t)snprintf(b + l, n - l, ":%ld", v[i]);
}
/* arguments: the first one tells the child what to do */
static char *make_args(child *c, uint64_t *hash, int *nargs, vh_rng *r) {
	char spec[300], *s = malloc(70000);
	int i, n = (int)vh_rn(r, vh_rn(r, 4) ? 4 : 30), l;
	spec_str(spec, sizeof spec, c->v);
	strcpy(s, spec); l = (int)strlen(s);
	*hash = vh_mix(3, vh_hash(spec, strlen(spec))); *nargs = n + 2;
	for (i = 0; i < n; i++) {
		int k, m = 1 + (int)vh_rn(r, vh_rn(r, 6) ? 12 : 1500), at;
		s[l++] = ','; at = l;
		for (k = 0; k < m; k++) { char x = (char)(1 + vh_rn(r, 255)); s[l++] = x == ',' ? '=' : x; }
		*hash = vh_mix(*hash, vh_hash(s + at, (size_t)m));
	}
	s[l] = 0;
	return s;
}
static char *make_env(child *c, uint64_t *hash, int *nenv, vh_rng *r) {
	char *e = NULL, k[3][40], *v[3], *all = malloc(100000);
	size_t size = 0, was, l = 0;
	int i, j, groups = 1 + (int)vh_rn(r, 4), with_spec = c->args == 0;
	*hash = 7; *nenv = 0;
	for (i = 0; i < groups; i++) {
		int n = 1 + (int)vh_rn(r, 3);
		for (j = 0; j < 3; j++) {
			int m = (int)vh_rn(r, vh_rn(r, 5) ? 20 : 9000), q;
			char *ent;
			snprintf(k[j], sizeof k[j], "K%d_%d_%x", i, j, (unsigned)vh_rn(r, 1000));
			v[j] = malloc((size_t)m + 400);
			for (q = 0; q < m; q++) { char x = (char)(33 + vh_rn(r, 90)); v[j][q] = x == ';' ? '=' : x; }
			v[j][m] = 0;
			if (i == 0 && j == 0 && with_spec) { strcpy(k[j], "C23SPEC"); spec_str(v[j], 300, c->v); }
			if (m > 2000) ADD(c_longenv, j < n);
			if (j >= n) continue;
			ent = malloc(strlen(k[j]) + strlen(v[j]) + 2);
			sprintf(ent, "%s=%s", k[j], v[j]);
			*hash = vh_mix(*hash, vh_hash(ent, strlen(ent))); ++*nenv;
			l += (size_t)sprintf(all + l, "%s;", ent);
			free(ent);
		}
		was = size;
		if (n == 1) e = exec_addenv(e, &size, 1, kv(k[0], v[0]));
		else if (n == 2) e = exec_addenv(e, &size, 2, kv(k[0], v[0]), kv(k[1], v[1]));
		else e = exec_addenv(e, &size, 3, kv(k[0], v[0]), kv(k[1], v[1]), kv(k[2], v[2]));
		for (j = 0; j < 3; j++) free(v[j]);
		if (size <= was || size != l || memcmp(e, all, l) || e[l]) vh_fatal("spawn:addenv", "exec_addenv gives a string of %zu bytes instead of %zu, or another one", size, l);
	}
	free(all);
	return e;
}
static void check_hdr(child *c, const char *b, size_t n, size_t *used, int pid, int sid, int redirected) {
	int p, s, n0, n1, argc, ne, pipes, l0, k = 0;
	unsigned long ah, eh;
	char h[300];
	size_t i;
	for (i = 0; i < n && i < 290 && b[i] != '.'; i++) h[i] = b[i];
	h[i] = 0;
	if (i >= n || sscanf(h, "HDR %d %d %d %d %d %lx %d %lx %d %d%n", &p, &s, &n0, &n1, &argc, &ah, &ne, &eh, &pipes, &l0, &k) != 10) vh_fatal("spawn:output", "the output begins with \"%s\" (%zu bytes in all)", h, n);
	*used = i + 1;
	if (p != pid) vh_fatal("spawn:pid", "process %d has written, %d was started", p, pid);
	if (sid && (s == p) != (sid == 2)) vh_fatal("spawn:session", "session of process %d is %d", p, s);
	if (redirected && (n0 || n1)) vh_fatal("spawn:nonblock", "the child's stdin or stdout does not block (%d %d)", n0, n1);
	if (argc != c->nargs || ah != c->ah || l0 != (int)strlen(c->path)) vh_fatal("spawn:args", "the child has %d arguments instead of %d, or others", argc, c->nargs);
	if (ne != c->nenv || eh != c->eh) vh_fatal("spawn:env", "the child has %d strings as environment instead of %d, or others", ne, c->nenv);
	if (pipes != base_pipes) vh_fatal("spawn:inherited", "the child has %d pipes open (%d expected)", pipes, base_pipes);
}
static void check_stream(child *c, const char *b, size_t n) {
	long i;
	if ((long)n != c->v[S_TOTAL]) vh_fatal("spawn:lost", "%zu bytes of output instead of %ld (%s)", n, c->v[S_TOTAL], c->v[S_CAT] ? "copied" : "generated");
	for (i = 0; i < (long)n; i++) {
		unsigned char x = pat((uint64_t)c->v[S_SEED], (uint64_t)i);
		if (c->v[S_CAT]) x ^= 0x5a;
		if ((unsigned char)b[i] != x) vh_fatal("spawn:content", "byte %ld of %ld of the output differs", i, c->v[S_TOTAL]);
	}
	ADD(c_bytes, (long)n);
}
static void *feeder(param_t args) {
	child *c = &C[args[0].integer];
	int fd = (int)args[1].integer, m;
	long at = 0, i, n;
	vh_rng r = {(uint64_t)c->v[S_SEED]};
	unsigned char *b = malloc(70000);
	while (at < c->v[S_TOTAL]) {
		n = 1 + (long)vh_rn(&r, vh_rn(&r, 2) ? 60000 : 900);
		if (n > c->v[S_TOTAL] - at) n = c->v[S_TOTAL] - at;
		for (i = 0; i < n; i++) b[i] = pat((uint64_t)c->v[S_SEED], (uint64_t)(at + i));
		for (i = 0; i < n; i += m) {
			m = async_write(fd, b + i, (int)(n - i));
			if (m <= 0) vh_fatal("spawn:write", "writing to the child gives %d (%s) after %ld bytes", m, strerror(errno), at + i);
		}
		at += n;
		if (vh_rn(&r, 8) == 0) yield();
	}
	free(b);
	c->fed = 1;
	return 0;
}
static void limit_nproc(int on) {
	static rlim_t old;
	struct rlimit l;
	getrlimit(RLIMIT_NPROC, &l);
	if (on) { old = l.rlim_cur; l.rlim_cur = 1; } else l.rlim_cur = old;
	setrlimit(RLIMIT_NPROC, &l);
}
static void spawner(int k) {
	child *c = &C[k];
	vh_rng r = {(uint64_t)c->v[S_SEED] * 31 + 5};
	char *env = NULL;
	uint64_t h;
	int n, finished;
	c->eh = env_hash(environ, &c->nenv);
	if (c->args) { c->argstr = make_args(c, &c->ah, &c->nargs, &r); }
	else { c->argstr = NULL; c->ah = 3; c->nargs = 1; ADD(c_nullargs, 1); }
	if (c->cgi) { env = make_env(c, &h, &n, &r); c->eh = h; c->nenv = n; }
	c->info = c->cgi ? spawn_cgi(c->path, c->argstr, env, outs[k], exs[k]) : spawn(c->path, c->argstr, outs[k], exs[k]);
	if (!c->info) vh_fatal("spawn:null", "spawn gives null (child %d of %d, how %d, exited %d, task %d)", k, nC, c->how, c->exited, (int)task_id());
	ADD(c_spawn, 1); if (c->cgi) ADD(c_cgi, 1);
	c->want_pid = (int)spawn_pid(c->info);
	if (c->want_pid <= 0) vh_fatal("spawn:pid", "spawn_pid gives %d", c->want_pid);
	/* a descriptor that happens to have the number of the process */
	c->pidfd = -1;
	{ struct rlimit l; getrlimit(RLIMIT_NOFILE, &l); if ((rlim_t)c->want_pid < l.rlim_cur && fcntl(c->want_pid, F_GETFD) < 0) { c->pidfd = fcntl(2, F_DUPFD, c->want_pid); if (c->pidfd != c->want_pid) { if (c->pidfd >= 0) close(c->pidfd); c->pidfd = -1; } else ADD(c_pid, 1); } }
	if (c->v[S_CAT]) {
		int fd = (int)exec_fdin(c->info);
		if (vh_rn(&r, 2)) { param_t a = NULL; (void)a; c->feeder = 1; async_task(feeder, 2, casting(k), casting(fd)); }
		else { array_t a = arrays(2, casting(k), casting(fd)); feeder((param_t)a); }
	}
	while (!GET(c->exited)) {
		read_err(c);
		finished = alone && spawn_is_finish(c->info);
		if (GET(c->exited)) break;
		if (finished) {
			int i;
			for (i = 0; i < 3 && !GET(c->exited); i++) yield();
			if (!GET(c->exited)) vh_fatal("spawn:finish", "spawn_is_finish is true, and there was no exit callback");
			break;
		}
		if (vh_rn(&r, 2)) yield(); else delay(1);
	}
	if (alone && !spawn_is_finish(c->info)) vh_fatal("spawn:finish", "spawn_is_finish is false after the exit callback");
	if (kill(c->want_pid, 0) == 0) vh_fatal("spawn:zombie", "process %d still exists after its exit callback", c->want_pid);
	if (c->exit_code != (c->v[S_SIG] ? 0 : (int)c->v[S_CODE]) || c->exit_sig != (int)c->v[S_SIG]) vh_fatal("spawn:status", "exit callback with status %d, signal %d instead of %ld, %ld", c->exit_code, c->exit_sig, c->v[S_SIG] ? 0 : c->v[S_CODE], c->v[S_SIG]);
	{ size_t u; check_hdr(c, c->out, c->nout, &u, c->want_pid, 1, 1); check_stream(c, c->out + u, c->nout - u); }
	if (c->cgi && !c->noerr && c->errn != c->v[S_ERR]) vh_fatal("spawn:stderr", "%d bytes of stderr, %ld written", c->errn, c->v[S_ERR]);
	if (c->pidfd >= 0) {
		if (fcntl(c->pidfd, F_GETFD) < 0) vh_fatal("spawn:closed", "descriptor %d, the number of the process, was closed", c->pidfd);
		close(c->pidfd);
	}
	if (c->ncb > c_maxcb) c_maxcb = c->ncb;
	ADD(done, 1);
}
static void *spawn_task(param_t args) { spawner((int)args[0].integer); return 0; }
static int nfds(void) {
	int n = 0;
	DIR *d = opendir("/proc/self/fd");
	while (d && readdir(d)) n++;
	if (d) closedir(d);
	return n;
}
static const int sigs[] = {SIGKILL, SIGTERM, SIGABRT, SIGSEGV, SIGHUP, SIGPIPE, SIGUSR1, SIGINT};
static void rnd_spec(child *c, int big) {
	memset(c, 0, sizeof *c);
	c->wr = -1; c->path = vh_p(20) ? comma : self;
	c->v[S_SEED] = (long)(vh_rnd() >> 8);
	c->v[S_CHUNK] = 1 + (long)vh_n(vh_p(50) ? 64000 : 300);
	c->v[S_TOTAL] = vh_p(10) ? 0 : big ? 60000 + (long)vh_n(400000) : (long)vh_n(vh_p(40) ? 200 : 9000);
	if (c->v[S_TOTAL] / c->v[S_CHUNK] > 300) c->v[S_CHUNK] = 1 + c->v[S_TOTAL] / (10 + (long)vh_n(290));
	c->v[S_DELAY] = vh_p(50) ? 0 : (long)vh_n(3000);
	if (c->v[S_DELAY] * (c->v[S_TOTAL] / c->v[S_CHUNK]) > 60000) c->v[S_DELAY] = 200;
	c->v[S_CAT] = vh_p(30);
	c->v[S_CODE] = vh_p(40) ? 0 : (long)vh_n(249);
	if (vh_p(20)) c->v[S_SIG] = sigs[vh_n(8)];
	c->v[S_HANG] = vh_p(60) ? 0 : (long)vh_n(30000);
	c->args = 1;
}
/* signals for the waiting thread, whose handler does nothing */
static volatile int ham_stop;
static pthread_t ham_to;
static long c_ham;
static void ham_sig(int s) { (void)s; __atomic_add_fetch(&c_ham, 1, __ATOMIC_SEQ_CST); }
static void *hammer(void *a) {
	unsigned gap = (unsigned)(uintptr_t)a;
	int i;
	for (i = 0; i < 2000 && !ham_stop; i++) { usleep(gap); if (!ham_stop) pthread_kill(ham_to, SIGUSR2); }
	return 0;
}
/* exec() with a file or pipe as output, and exec_wait() */
static void exec_case(void) {
	child *c = &C[0];
	char file[4200], *b, *env = NULL;
	pthread_t ham;
	int hold[2] = {-1, -1}, ham_on = 0, fd, r, code = -7777, how, det, infd = inherit, pid, ndet = 0, errfd = inherit;
	process_t ps;
	execinfo_t *info = NULL;
	vh_rng rg = {vh_rnd()};
	uint64_t t0, t1, h;
	size_t u;
	struct stat st;
	rnd_spec(c, vh_p(30));
	c->args = 1; c->v[S_CAT] = 0; nC = 1;
	c->eh = env_hash(environ, &c->nenv);
	snprintf(file, sizeof file, "%s/out", vh_dir());
	fd = open(file, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
	if (fd < 0) vh_broken("open: %s", strerror(errno));
	det = vh_p(15);
	how = (int)vh_n(3);
	if (!det && how == 1 && vh_p(60)) {
		if (pipe2(hold, O_CLOEXEC)) vh_broken("pipe");
		infd = hold[0]; c->v[S_CAT] = 1; c->v[S_TOTAL] = 1 + (long)vh_n(3000);
	} else if (vh_p(30)) { char f2[4200]; int k; snprintf(f2, sizeof f2, "%s/in", vh_dir()); infd = open(f2, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600); for (k = 0; k < c->v[S_TOTAL]; k++) { char x = (char)pat((uint64_t)c->v[S_SEED], (uint64_t)k); if (write(infd, &x, 1) != 1) vh_broken("write"); if (k > 5000) { c->v[S_TOTAL] = k + 1; break; } } lseek(infd, 0, SEEK_SET); c->v[S_CAT] = 1; }
	c->argstr = make_args(c, &c->ah, &c->nargs, &rg);
	if (vh_p(40)) { env = make_env(c, &h, &c->nenv, &rg); c->eh = h; }
	if (vh_p(30)) errfd = fd;
	info = exec_info(env, det, infd, fd, errfd);
	if (!info) vh_fatal("exec:info", "exec_info gives null");
	if (env) events_free(env);
	ps = exec(c->path, c->argstr, info);
	if (ps <= 0) vh_fatal("exec:start", "exec gives %ld (%s)", (long)ps, strerror(errno));
	c_exec++;
	pid = (int)spawn_pid(info);
	t0 = vh_calm();
	if (!det && how && vh_p(30)) {
		struct sigaction sa;
		memset(&sa, 0, sizeof sa); sa.sa_handler = ham_sig;
		sigaction(SIGUSR2, &sa, NULL);
		ham_on = 1; ham_stop = 0; ham_to = pthread_self();
		if (pthread_create(&ham, NULL, hammer, (void *)(uintptr_t)(100 + vh_n(2000)))) vh_broken("pthread_create");
	}
	if (det) {
		siginfo_t si;
		r = exec_wait(ps, (unsigned)INFINITE, &code);
		if (r) vh_fatal("exec:detached", "exec_wait of a detached process gives %d", r);
		c_det++;
		do r = waitid(P_PID, (id_t)pid, &si, WEXITED); while (r && errno == EINTR);
		if (r) vh_fatal("exec:start", "there is no process %d", pid);
		code = si.si_code == CLD_EXITED ? si.si_status : -si.si_status;
		ndet = 1;
	} else if (how == 0) {
		while ((r = exec_wait(ps, 0, &code)) != 0) {
			if (r != -1 || errno != ETIMEDOUT) vh_fatal("exec:wait", "exec_wait gives %d (%s)", r, strerror(errno));
			if (vh_calm() - t0 > 20000000000ull) vh_fatal("exec:hang", "process %d does not end", pid);
			if (code != -7777) vh_fatal("exec:wait", "exec_wait without an ended process sets the status to %d", code);
			c_tmo++; vh_beat();
			if (vh_p(50)) yield(); else delay(1);
		}
	} else if (how == 1) {
		if (hold[1] >= 0) {
			unsigned w = 1 + vh_n(40);
			t1 = vh_ns();
			r = exec_wait(ps, w, &code);	/* it waits for its input, and cannot have ended */
			if (r != -1 || errno != ETIMEDOUT) vh_fatal("exec:wait", "exec_wait of a process that has not ended gives %d (%s)", r, strerror(errno));
			if (vh_ns() - t1 < (uint64_t)w * 1000000) vh_fatal("exec:timeout", "exec_wait of %u ms ended after %.3f ms", w, (double)(vh_ns() - t1) / 1e6);
			c_tmo++; c_hold++;
			{ int k; for (k = 0; k < c->v[S_TOTAL]; k++) { char x = (char)pat((uint64_t)c->v[S_SEED], (uint64_t)k); put(hold[1], &x, 1); } }
			close(hold[1]); hold[1] = -1;
		}
		for (;;) {
			unsigned w = 1 + vh_n(20);
			t1 = vh_ns();
			r = exec_wait(ps, w, &code);
			if (r == 0) break;
			if (r != -1 || errno != ETIMEDOUT) vh_fatal("exec:wait", "exec_wait gives %d (%s)", r, strerror(errno));
			if (vh_ns() - t1 < (uint64_t)w * 1000000) vh_fatal("exec:timeout", "exec_wait of %u ms ended after %.3f ms", w, (double)(vh_ns() - t1) / 1e6);
			if (vh_calm() - t0 > 20000000000ull) vh_fatal("exec:hang", "process %d does not end", pid);
			c_tmo++; vh_beat();
		}
	} else {
		r = exec_wait(ps, (unsigned)INFINITE, &code);
		if (r) vh_fatal("exec:wait", "exec_wait gives %d (%s)", r, strerror(errno));
	}
	if (ham_on) { ham_stop = 1; pthread_join(ham, NULL); signal(SIGUSR2, SIG_DFL); }
	if (code != (c->v[S_SIG] ? -c->v[S_SIG] : c->v[S_CODE])) vh_fatal("exec:status", "exec_wait gives status %d instead of %ld", code, c->v[S_SIG] ? -c->v[S_SIG] : c->v[S_CODE]);
	if (!ndet && kill(pid, 0) == 0) vh_fatal("exec:zombie", "process %d still exists after exec_wait", pid);
	if (fstat(fd, &st)) vh_fatal("exec:closed", "the descriptor for the output was closed");
	if (infd != inherit && fcntl(infd, F_GETFD) < 0) vh_fatal("exec:closed", "the descriptor for the input was closed");
	b = malloc((size_t)st.st_size + 1);
	if (pread(fd, b, (size_t)st.st_size, 0) != st.st_size) vh_broken("pread");
	check_hdr(c, b, (size_t)st.st_size, &u, pid, 1 + det, 0);
	check_stream(c, b + u, (size_t)st.st_size - u);
	free(b); free(c->argstr);
	close(fd); if (infd != inherit) close(infd);
	if (det) os_close((int)ps);
}
/* no program of that name, no more processes */
static void fail_case(void) {
	execinfo_t *info;
	child *c = &C[0];
	rnd_spec(c, 0); nC = 1; c->out = malloc(100); c->cap = 100;
	if (vh_p(80) && getuid()) {
		limit_nproc(1);
		errno = 0;
		info = spawn(self, "@c23", outs[0], exs[0]);
		limit_nproc(0);
		if (info) vh_fatal("spawn:not-made", "spawn without the process gives a pointer");
		if (c->exited || c->ncb) vh_fatal("spawn:not-made", "callbacks without a process");
		c_fail++;
	} else {
		char name[4200];
		snprintf(name, sizeof name, "%s/none", vh_dir());
		info = spawn(name, "a", outs[0], exs[0]);
		if (!info) { free(c->out); return; }
		while (!GET(c->exited)) yield();
		if (c->nout) vh_fatal("spawn:no-program", "%zu bytes of output without a program", c->nout);
		if (c->exit_code == 0 && c->exit_sig == 0) vh_fatal("spawn:no-program", "exit status 0 without a program");
		c_fail++;
	}
	free(c->out);
}
static void check_low(void);
static int nlow;
static long c_low;
static void *ticker(param_t args) { (void)args; while (ticking) { ticks++; if (ticks & 7) yield(); else delay(1); } return 0; }
static void *run(param_t args) {
	long c;
	int i, j, base, pool = vh_arg("pool", 0) > 0;
	(void)args;
	try { errno = 0; } catch_any { errno = 1; }
	vh_case(0); vh_watchdog(60);
	ticking = 1; async_task(ticker, 0);
	for (i = 0; i < 20; i++) yield();
	snprintf(comma, sizeof comma, "%s/a,b,c", vh_dir());
	if (symlink(self, comma)) vh_broken("symlink");
	base = nfds(); base_pipes = count_pipes(1);
	for (c = 0; c < vh_cases; c++) {
		uint64_t sig = 1, t0;
		long tk0;
		vh_case(c); vh_beat();
		memset(C, 0, sizeof C); done = 0; alone = 0;
		t0 = vh_calm(); tk0 = ticks;
		if (vh_p(vh_arg("user", 0) ? 50 : 6)) { fail_case(); sig = vh_mix(3, 1); }
		else if (vh_p(25)) {
			exec_case();
			sig = vh_mix(2, vh_mix((uint64_t)C[0].v[S_TOTAL], (uint64_t)C[0].v[S_CODE] + (uint64_t)C[0].v[S_SIG] * 1000));
		} else {
			nC = vh_p(40) ? 1 : 2 + (int)vh_n(MAXC - 1);
			alone = nC == 1;
			if (nC > 1) c_conc++;
			for (i = 0; i < nC; i++) {
				child *k = &C[i];
				rnd_spec(k, vh_p(25));
				k->cgi = vh_p(35); k->args = vh_p(85);
				if (k->cgi && vh_p(60)) k->v[S_ERR] = 1 + (long)vh_n(3000);
				k->how = alone ? (pool && vh_p(30) ? H_GO : H_MAIN) : pool && vh_p(40) ? H_GO : H_TASK;
				if (!k->args && !k->cgi) { if (i == 0 && nC == 1) { char s[300]; spec_str(s, sizeof s, k->v); setenv("C23SPEC", s, 1); c_inh++; } else k->args = 1; }
				k->cap = (size_t)k->v[S_TOTAL] + 300; k->out = malloc(k->cap);
				if (k->v[S_TOTAL] >= 60000) c_big++;
				c_cat += k->v[S_CAT]; c_sig += k->v[S_SIG] != 0; c_err += k->v[S_ERR] != 0; c_code += k->v[S_CODE] != 0;
				sig = vh_mix(sig, vh_mix((uint64_t)k->v[S_TOTAL] << 8 | (uint64_t)k->v[S_CODE], (uint64_t)k->v[S_SIG] | (uint64_t)k->v[S_CAT] << 8 | (uint64_t)k->cgi << 9 | (uint64_t)k->how << 10));
			}
			for (i = 0; i < nC; i++) {
				if (C[i].how == H_MAIN) spawner(i);
				else if (C[i].how == H_GO) { go(spawn_task, 1, casting(i)); c_go++; }
				else { async_task(spawn_task, 1, casting(i)); c_task++; }
			}
			while (GET(done) != nC) { if (nlow) check_low(); if (vh_p(50)) yield(); else delay(1); }
			for (i = 0; i < nC; i++) {
				for (j = 0; C[i].feeder && !GET(C[i].fed) && j < 3000; j++) delay(1);
				if (C[i].exited != 1) vh_fatal("spawn:exit", "%d exit callbacks", C[i].exited);
				free(C[i].out); free(C[i].argstr);
			}
			unsetenv("C23SPEC");
			if (vh_want_sample()) vh_sample("%d children; first: %ld bytes in pieces of %ld (%s), %d callbacks, status %d signal %d, %d arguments, %d strings of environment", nC, C[0].v[S_TOTAL], C[0].v[S_CHUNK], C[0].v[S_CAT] ? "copied" : "generated", C[0].ncb, C[0].exit_code, C[0].exit_sig, C[0].nargs, C[0].nenv);
		}
		if (vh_calm() - t0 > 2000000000ull && ticks - tk0 < 3) vh_fatal("spawn:stall", "other tasks did not run while the processes did");
		for (i = 0; i < 2000 && (j = nfds()) != base; i++) delay(1);
		if (j != base) vh_fatal("spawn:leak", "%d descriptors open instead of %d", j, base);
		vh_eval(nC); vh_sig(sig);
	}
	ticking = 0;
	vh_count("processes of spawn", c_spawn); vh_count("of these with spawn_cgi", c_cgi); vh_count("processes of exec", c_exec); vh_count("detached ones", c_det);
	vh_count("bytes of output compared", c_bytes); vh_count("output callbacks", c_cbs); vh_count("most output callbacks of one process", c_maxcb);
	vh_count("processes with more output than a pipe holds", c_big); vh_count("processes copying their input", c_cat); vh_count("ended by a signal", c_sig); vh_count("with exit status other than 0", c_code);
	vh_count("with separate stderr", c_err); vh_count("cases with several processes at once", c_conc); vh_count("spawned by tasks", c_task); vh_count("spawned on pool threads", c_go);
	vh_count("without arguments", c_nullargs); vh_count("environment strings of more than 2000 bytes", c_longenv); vh_count("exec_wait calls that timed out", c_tmo);
	vh_count("descriptors with the number of a process", c_pid); vh_count("programs or processes that could not be started", c_fail); vh_count("environment inherited with additions", c_inh);
	vh_count("reads of descriptors whose places a process could take", c_low);
	vh_count("signals while exec_wait waited", c_ham); vh_count("exec_wait calls for a process kept from ending", c_hold); vh_count("turns of the other task", ticks);
	vh_exit();
	return 0;
}
static int low[8], nlow, wlow = -1;
static long c_low;
/* so many that a process gets its place among the first descriptors, which must remain what they are */
static void many_fds(void) {
	int p[2], i;
	if (pipe2(p, O_CLOEXEC | O_NONBLOCK)) vh_broken("pipe");
	wlow = fcntl(p[1], F_DUPFD_CLOEXEC, 250); close(p[1]);
	low[nlow++] = p[0];
	while (nlow < 7) low[nlow++] = fcntl(p[0], F_DUPFD_CLOEXEC, 3);
	for (i = 0; i < 280; i++) if (open("/dev/null", O_RDONLY | O_CLOEXEC) < 0) vh_broken("open");
}
static void check_low(void) {
	char b[4];
	int i, r;
	for (i = 0; i < nlow; i++) {
		if (write(wlow, "x", 1) != 1) vh_broken("write");
		r = os_read(low[i], b, 4);
		if (r != 1 || *b != 'x') vh_fatal("spawn:place", "with processes running, reading descriptor %d gives %d (%s)", low[i], r, strerror(errno));
		c_low++;
	}
}
int main(int argc, char **argv) {
	struct rlimit l;
	ssize_t n;
	const char *sp = getenv("C23SPEC");
	if (argc > 1 && !strncmp(argv[1], "@c23:", 5)) return child_main(argc, argv, argv[1]);
	if (sp) return child_main(argc, argv, sp);
	if (argc < 2 || strncmp(argv[1], "--", 2)) { int i; for (i = 1; i < argc; i++) { put(1, argv[i], strlen(argv[i])); put(1, "|", 1); } return 249; }	/* not the arguments it should have */
	for (n = 1; n < argc; n++) if (!strcmp(argv[n], "fds=1")) many_fds();
	vh_init(argc, argv);
	n = readlink("/proc/self/exe", self, sizeof self - 1);
	if (n <= 0) vh_broken("readlink");
	self[n] = 0;
	l.rlim_cur = l.rlim_max = 0; setrlimit(RLIMIT_CORE, &l);
	l.rlim_cur = l.rlim_max = 40000;	/* more than there are process numbers */
	if (setrlimit(RLIMIT_NOFILE, &l)) { getrlimit(RLIMIT_NOFILE, &l); l.rlim_cur = l.rlim_max; setrlimit(RLIMIT_NOFILE, &l); }
	if (vh_arg("user", 0)) {	/* as root there is no limit to the number of processes */
		strcpy(self, "/proc/self/exe");
		if (getuid() == 0 && chown(vh_dir(), 65534, 65534)) vh_broken("chown: %s", strerror(errno));
		if (getuid() == 0 && (setgid(65534) || setuid(65534))) vh_broken("setuid: %s", strerror(errno));
		prctl(PR_SET_DUMPABLE, 1);
	}
	signal(SIGPIPE, SIG_IGN);
	if (vh_arg("pool", 0)) {
		events_t *loop;
		if (events_init(1024)) vh_fatal("failed", "events_init failed");
		events_set_main((main_cb)run);
		loop = events_init_pool((int)vh_arg("pool", 0));
		async_task(run, 0); async_run(loop);
	} else ev_run(run);
	return 0;
}
