#define _GNU_SOURCE
#include "vh.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include <signal.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <dirent.h>
#include <sys/syscall.h>

uint64_t vh_seed = 1;
long vh_cases = 10;
int vh_shard = 0, vh_shards = 1;
static int out_fd = -1, calm_fd = -1, verbose;
static char **g_argv;
static int g_argc;
static long cur_case, n_eval, n_fail, n_samples;
static uint64_t rng_s = 1;
static volatile int lk;
static pid_t owner;

static void lock(void) { while (__atomic_exchange_n(&lk, 1, __ATOMIC_ACQUIRE)) ; }
static void unlock(void) { __atomic_store_n(&lk, 0, __ATOMIC_RELEASE); }

static uint64_t sm(uint64_t *s) {
	uint64_t z = (*s += 0x9E3779B97F4A7C15ULL);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
	return z ^ (z >> 31);
}
uint64_t vh_rnd(void) { return sm(&rng_s); }
uint32_t vh_n(uint32_t n) { return n ? (uint32_t)(vh_rnd() % n) : 0; }
int vh_p(int percent) { return (int)vh_n(100) < percent; }
uint64_t vh_rr(vh_rng *r) { return sm(&r->s); }
uint32_t vh_rn(vh_rng *r, uint32_t n) { return n ? (uint32_t)(sm(&r->s) % n) : 0; }
uint64_t vh_mix(uint64_t h, uint64_t v) {
	h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
	return sm(&h);
}
uint64_t vh_hash(const void *p, size_t n) {
	const unsigned char *c = p;
	uint64_t h = 1469598103934665603ULL;
	while (n--) h = (h ^ *c++) * 1099511628211ULL;
	return h;
}
void vh_case(long i) {
	cur_case = i;
	rng_s = vh_seed * 0x9E3779B97F4A7C15ULL + (uint64_t)vh_shard * 0xD1B54A32D192ED03ULL + (uint64_t)i * 0x2545F4914F6CDD1DULL;
	vh_rnd();
	vh_beat();
}
long vh_casenr(void) { return cur_case; }

static void put(const char *b, size_t n) {
	while (n && out_fd >= 0) {
		ssize_t w = syscall(SYS_write, out_fd, b, n);
		if (w < 0 && errno == EINTR) continue;
		if (w <= 0) return;
		b += w; n -= (size_t)w;
	}
}
static void vline(const char *tag, const char *key, const char *fmt, va_list ap) {
	static char buf[8192];
	int n, i, k, e = errno;
	n = snprintf(buf, sizeof buf, "%s ", tag);
	if (key) n += snprintf(buf + n, sizeof buf - n, "%s\t", key);
	k = vsnprintf(buf + n, sizeof buf - n - 2, fmt, ap);
	if (k > (int)(sizeof buf) - n - 3) k = (int)(sizeof buf) - n - 3;
	for (i = n; i < n + k; i++) if (buf[i] == '\n' || buf[i] == '\r' || (unsigned char)buf[i] < 32 || (unsigned char)buf[i] > 126) buf[i] = ' ';
	n += k;
	buf[n++] = '\n';
	put(buf, (size_t)n);
	if (verbose) (void)!write(2, buf, (size_t)n);
	errno = e;
}
static void line(const char *tag, const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt); vline(tag, NULL, fmt, ap); va_end(ap);
}

extern int vj_rate __attribute__((weak));	/* vj.c */
extern long vj_delays __attribute__((weak));
void vh_init(int argc, char **argv) {
	int i;
	const char *out = NULL;
	g_argc = argc; g_argv = argv;
	owner = getpid();
	{	/* the caller may have had signals ignored or blocked (nohup, a shell's &) */
		sigset_t none;
		sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, NULL);
		for (i = 1; i <= 31; i++) {
			struct sigaction sa;
			if (!sigaction(i, NULL, &sa) && sa.sa_handler == SIG_IGN) { sa.sa_handler = SIG_DFL; sigaction(i, &sa, NULL); }
		}
	}
	for (i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--seed") && i + 1 < argc) vh_seed = strtoull(argv[++i], 0, 10);
		else if (!strcmp(argv[i], "--shard") && i + 1 < argc) vh_shard = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--shards") && i + 1 < argc) vh_shards = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--cases") && i + 1 < argc) vh_cases = atol(argv[++i]);
		else if (!strcmp(argv[i], "--out") && i + 1 < argc) out = argv[++i];
	}
	if (getenv("VH_VERBOSE")) verbose = 1;
	if (out) {
		int fd = open(out, O_CREAT | O_TRUNC | O_WRONLY | O_APPEND | O_CLOEXEC, 0644);
		if (fd < 0) { perror(out); _exit(2); }
		out_fd = fcntl(fd, F_DUPFD_CLOEXEC, 900);
		if (out_fd < 0) out_fd = fcntl(fd, F_DUPFD_CLOEXEC, 200);
		close(fd);
	}
	{
		int fd = open("/proc/self/schedstat", O_RDONLY | O_CLOEXEC);
		if (fd >= 0) { calm_fd = fcntl(fd, F_DUPFD_CLOEXEC, 901); if (calm_fd < 0) calm_fd = fcntl(fd, F_DUPFD_CLOEXEC, 201); close(fd); }
	}
	vh_watchdog((int)vh_arg("watchdog", 60));
	if (&vj_rate) vj_rate = (int)vh_arg("jitter", 60);
	vh_case(0);
}
const char *vh_args(const char *name, const char *dflt) {
	size_t l = strlen(name);
	int i;
	for (i = 1; i < g_argc; i++)
		if (!strncmp(g_argv[i], name, l) && g_argv[i][l] == '=') return g_argv[i] + l + 1;
	return dflt;
}
long vh_arg(const char *name, long dflt) {
	const char *v = vh_args(name, NULL);
	return v ? atol(v) : dflt;
}

void vh_eval(long n) { __atomic_add_fetch(&n_eval, n, __ATOMIC_RELAXED); }

#define SIGS (1 << 16)
static uint64_t sigs[SIGS];
static long n_sigs;
void vh_sig(uint64_t s) {
	uint32_t i;
	if (!s) s = 1;
	lock();
	i = (uint32_t)(s % SIGS);
	while (sigs[i] && sigs[i] != s) i = (i + 1) % SIGS;
	if (!sigs[i] && n_sigs < SIGS * 3 / 4) { sigs[i] = s; n_sigs++; }
	unlock();
}
static struct { const char *name; long n; } cnt[64];
void vh_count(const char *name, long n) {
	int i;
	lock();
	for (i = 0; i < 64 && cnt[i].name && strcmp(cnt[i].name, name); i++) ;
	if (i < 64) { cnt[i].name = name; cnt[i].n += n; }
	unlock();
}
int vh_want_sample(void) { return n_samples < 3; }
void vh_sample(const char *fmt, ...) {
	va_list ap;
	lock();
	if (n_samples < 3) {
		n_samples++;
		va_start(ap, fmt); vline("X", NULL, fmt, ap); va_end(ap);
	}
	unlock();
}
long vh_failures(void) { return n_fail; }
static void summary(void) {
	static int done;
	int i;
	uint32_t k;
	static char buf[32 * 1024];
	size_t n = 0;
	if (__atomic_exchange_n(&done, 1, __ATOMIC_ACQ_REL)) return;
	line("C", "%ld", n_eval);
	for (i = 0; i < 64 && cnt[i].name; i++) line("N", "%s %ld", cnt[i].name, cnt[i].n);
	for (k = 0; k < SIGS; k++) if (sigs[k]) {
		n += (size_t)snprintf(buf + n, sizeof buf - n, "S %llx\n", (unsigned long long)sigs[k]);
		if (n > sizeof buf - 64) { put(buf, n); n = 0; }
	}
	put(buf, n);
	line("D", "%ld", n_fail);
}
static void rmtree(const char *p) {
	DIR *d = opendir(p);
	struct dirent *e;
	char b[4096];
	struct stat st;
	if (!d) return;
	while ((e = readdir(d))) {
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
		snprintf(b, sizeof b, "%s/%s", p, e->d_name);
		if (!lstat(b, &st) && S_ISDIR(st.st_mode)) rmtree(b); else unlink(b);
	}
	closedir(d);
	rmdir(p);
}
static char dir[512];
const char *vh_dir(void) {
	if (!dir[0]) {
		const char *t = vh_args("dir", NULL);
		if (!t) t = getenv("VH_TMP");
		snprintf(dir, sizeof dir, "%s/vh.XXXXXX", t ? t : "/tmp");
		if (!mkdtemp(dir)) { perror(dir); dir[0] = 0; _exit(2); }
	}
	return dir;
}
void vh_done(void) {
	if (&vj_delays) vh_count("delays injected", vj_delays);
	lock();
	summary();
	unlock();
	if (dir[0] && owner == getpid()) { rmtree(dir); dir[0] = 0; }
}
void vh_exit(void) { vh_done(); _exit(0); }
void vh_forked(void) { out_fd = -1; if (calm_fd >= 0) close(calm_fd); calm_fd = -1; verbose = 0; owner = 0; }
void vh_fail(const char *key, const char *fmt, ...) {
	va_list ap;
	long n;
	lock();
	n = ++n_fail;
	if (n <= 40) {
		char b[400];
		snprintf(b, sizeof b, "%s\t(seed %llu shard %d case %ld) %s", key, (unsigned long long)vh_seed, vh_shard, cur_case, fmt);
		va_start(ap, fmt);
		{
			static char key2[200]; snprintf(key2, sizeof key2, "%s\t(seed %llu shard %d case %ld)", key, (unsigned long long)vh_seed, vh_shard, cur_case);
			vline("F", key2, fmt, ap);
		}
		va_end(ap);
	}
	unlock();
	if (n > 200) vh_exit();
}
void vh_fatal(const char *key, const char *fmt, ...) {
	va_list ap;
	lock();
	n_fail++;
	va_start(ap, fmt);
	{
		static char key2[200]; snprintf(key2, sizeof key2, "%s\t(seed %llu shard %d case %ld)", key, (unsigned long long)vh_seed, vh_shard, cur_case);
		vline("F", key2, fmt, ap);
	}
	va_end(ap);
	unlock();
	vh_exit();
}
void vh_broken(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt); vline("B", NULL, fmt, ap); va_end(ap);
	_exit(2);
}
void vh_note(const char *fmt, ...) {
	va_list ap;
	if (!verbose) return;
	va_start(ap, fmt); vline("-", NULL, fmt, ap); va_end(ap);
}
uint64_t vh_ns(void) {
	struct timespec t;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
	return (uint64_t)t.tv_sec * 1000000000ULL + (uint64_t)t.tv_nsec;
}
/* the same, without the time the main thread could run and had no processor (other programs on
 * a busy machine): deadlines are in this time. schedstat: time run, time waited, turns */
uint64_t vh_calm(void) {
	static uint64_t seen, less, most;
	uint64_t now = vh_ns(), old = __atomic_load_n(&seen, __ATOMIC_SEQ_CST);
	if (calm_fd >= 0 && now - old > 50000000ULL && __atomic_compare_exchange_n(&seen, &old, now, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
		char b[100];
		long n = syscall(SYS_pread64, calm_fd, b, sizeof b - 1, (off_t)0);
		unsigned long long run, wait;
		if (n > 0) { b[n] = 0; if (sscanf(b, "%llu %llu", &run, &wait) == 2) __atomic_store_n(&less, (uint64_t)wait, __ATOMIC_SEQ_CST); }
	}
	now -= __atomic_load_n(&less, __ATOMIC_SEQ_CST);
	for (old = __atomic_load_n(&most, __ATOMIC_SEQ_CST); old < now; )
		if (__atomic_compare_exchange_n(&most, &old, now, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return now;
	return old;
}
int vh_late(int pid, uint64_t t0, int seconds) {
	uint64_t wall = vh_ns() - t0, s = (uint64_t)seconds * 1000000000ULL;
	char b[100];
	FILE *f;
	unsigned long long run, wait = 0;
	if (wall <= s) return 0;
	sprintf(b, "/proc/%d/schedstat", pid);
	if (wall < 4 * s && (f = fopen(b, "r")) != NULL) { if (fscanf(f, "%llu %llu", &run, &wait) != 2) wait = 0; fclose(f); }
	return wall > s + wait;
}
void vh_msleep(int ms) {
	struct timespec t, r;
	t.tv_sec = ms / 1000; t.tv_nsec = (ms % 1000) * 1000000L;
	while (syscall(SYS_nanosleep, &t, &r) == -1 && errno == EINTR) t = r;
}
static volatile uint64_t beat;
static volatile int wd_s;
void vh_beat(void) { beat++; }
static void *wd(void *a) {
	uint64_t last = beat, t = vh_calm();
	(void)a;
	for (;;) {
		vh_msleep(1000);
		if (beat != last) { last = beat; t = vh_calm(); continue; }
		if (vh_calm() - t >= (uint64_t)wd_s * 1000000000ULL) {
			line("H", "no progress for %d s (seed %llu shard %d case %ld)", wd_s, (unsigned long long)vh_seed, vh_shard, cur_case);
			_exit(4);
		}
	}
	return NULL;
}
void vh_watchdog(int seconds) {
	pthread_t t;
	pthread_attr_t at;
	sigset_t all, old;
	static int on;
	wd_s = seconds;
	if (on || !seconds) return;
	on = 1;
	pthread_attr_init(&at);
	pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
	pthread_attr_setstacksize(&at, 64 * 1024);
	sigfillset(&all);
	pthread_sigmask(SIG_SETMASK, &all, &old);
	pthread_create(&t, &at, wd, NULL);
	pthread_sigmask(SIG_SETMASK, &old, NULL);
}

#define GP 64
#define GSZ (1 << 18)
static char *gp[GP];
static int gi;
void *vh_guard(const void *src, size_t n) {
	char *p;
	if (n > GSZ) vh_broken("vh_guard %zu", n);
	if (!gp[gi]) {
		p = mmap(NULL, GSZ + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (p == MAP_FAILED) vh_broken("mmap");
		mprotect(p + GSZ, 4096, PROT_NONE);
		gp[gi] = p;
	}
	p = gp[gi] + GSZ - n;
	gi = (gi + 1) % GP;
	if (n && src) memcpy(p, src, n);
	return p;
}
void vh_guard_reset(void) { gi = 0; }
