/* C36: whole programs that do a bit of everything, in the main task, in tasks of it, in tasks of
 * other threads, in jobs and in futures: every piece gives its result wherever it runs, and the
 * program ends with the status it chose. Each case is a program in a process of its own. */
#include <events.h>
#include <except.h>
#include <sys/wait.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/mman.h>
#include <netinet/in.h>
#include <netdb.h>
#include <stdio.h>
#include <fcntl.h>
#include <sys/stat.h>
#include "vh.h"
#include "ev.h"
void *events_malloc(size_t); void events_free(void *);
#define R(x) return (void *)(intptr_t)((x) + 1000)
#define N ((int)a[0].integer)
#define Y if (a[1].integer) yield()
static void inc(void *p) { ++*(int *)p; }

/* --- pieces that run anywhere: a[0] a number, a[1] whether in a task ------------------------ */
static void *p_try(param_t a) {
	volatile int r = 0, i; int n = N, k = n % 4 + 1;
	for (i = 0; i < k; i++) { try { Y; if ((n + i) & 1) throw(range_error); r += 1; } catch (range_error) { Y; r += 10; } finally { r += 100; } }
	R(r);
}
static long w_try(int n) { int i, r = 0; for (i = 0; i < n % 4 + 1; i++) r += 100 + ((n + i) & 1 ? 10 : 1); return r; }
static int guarding(param_t a) { int r = 0, i; guard { for (i = 0; i < N % 5; i++) { defer((func_t)inc, &r); Y; } } guarded; return r; }
static void *p_guard(param_t a) { R(guarding(a)); }
static long w_guard(int n) { return n % 5; }
static void throwing(param_t a, int *c) { guard { defer((func_t)inc, c); Y; if (N % 3) throw(logic_error); } guarded; }
static void *p_guardthrow(param_t a) { volatile int r = 0; int c = 0; try { throwing(a, &c); r = 5; } catch (logic_error) { r = 9; } R(r * 10 + c); }
static long w_guardthrow(int n) { return (n % 3 ? 90 : 50) + 1; }
static void *p_rethrow(param_t a) { volatile int r = 0; try { try { panic("a message"); } catch_any { Y; r += 2; rethrow; } r += 100; } catch_any { r += 4; } R(r + N); }
static long w_rethrow(int n) { return 6 + n; }
static void *p_sig(param_t a) { volatile int r = 0; try { if (N % 2) raise(SIGSEGV); else raise(SIGFPE); r = 100; } catch (sig_segv) { r = 1; } catch (sig_fpe) { r = 2; } R(r); }
static long w_sig(int n) { return n % 2 ? 1 : 2; }
static void *p_range(param_t a) { long s = 0; foreach (x in range(0, N)) { Y; s += x.integer; } R(s); }
static long w_range(int n) { return (long)n * (n - 1) / 2; }
static void words(char *b, int k) { int i; *b = 0; for (i = 0; i < k; i++) sprintf(b + strlen(b), "%sword%d", i ? " " : "", i); }
static void *p_split(param_t a) { char b[200], **v; int k = N % 9 + 1, n = 0, r; words(b, k); v = str_split_ex(b, " ", &n); r = v && n == k && !strcmp(v[k - 1] + 4, (char[]){ (char)('0' + k - 1), 0 }); events_free(v); Y; R(r ? n : -1); }
static long w_split(int n) { return n % 9 + 1; }
static void *p_explode(param_t a) { char b[200]; array_t x; int k = N % 8 + 2, n; words(b, k); x = str_explode(b, " "); Y; n = (int)$size(x); if (strcmp((char *)x[n - 1].object, strrchr(b, 'w')) ) n = -1; $delete(x); R(n); }
static long w_explode(int n) { return n % 8 + 2; }
static void *p_uri(param_t a) { char b[100]; uri_t *u; sprintf(b, "http://host.example:%d/path", 80 + N); u = parse_uri(b); Y; R(u && !strcmp(u->host, "host.example") ? u->port : -1); }
static long w_uri(int n) { return 80 + n; }
static void *p_cat(param_t a) { char *s = str_cat_ex(3, "ab", "cde", "f"); int n = (int)strlen(s); events_free(s); R(n + N); }
static long w_cat(int n) { return 6 + n; }
static void *p_array(param_t a) { int i; long s = 0; array_t x = array(); for (i = 0; i < N; i++) { $append(x, i); if (i % 7 == 3) { Y; } } for (i = 0; i < N / 2; i++) s += $pop(x).integer; foreach (v in x) s += v.integer; $delete(x); R(s); }
static void *p_defer(param_t a) { char *p = events_malloc(100 + (size_t)N); memset(p, 5, 100 + (size_t)N); defer(events_free, p); Y; R(p[N] + N); }
static long w_defer(int n) { return 5 + n; }
static void *p_repeat(param_t a) { char *s = str_repeat("xyz", N % 7 + 1); Y; R(strlen(s)); }
static long w_repeat(int n) { return 3 * (n % 7 + 1); }

static void *p_itoa(param_t a) { char w[32], b[32]; long x = (long)N * 1000003 * (N % 2 ? -1 : 1); snprintf(b, sizeof b, "%s", str_itoa(x)); Y; sprintf(w, "%ld", x); R(!strcmp(b, w)); }
static void *p_pad(param_t a) { char w[64], *s; int k = N % 20 + 6; s = str_pad("abcde", k, "-", STR_PAD_LEFT); Y; memset(w, '-', sizeof w); sprintf(w + k - 5, "abcde"); R(!strcmp(s, w)); }
static void *p_swap(param_t a) { char b[64], w[64], *s; int r; sprintf(b, "x%dyx%dyx", N, N); sprintf(w, "ZZ%dyZZ%dyZZ", N, N); s = str_swap_ex(b, "x", "ZZ"); Y; r = !strcmp(s, w); events_free(s); R(r); }
static void *p_case(param_t a) { char b[40], w[40], *s; sprintf(b, "Some Text %d", N); s = str_dup(b); Y; s = str_toupper(s); sprintf(w, "SOME TEXT %d", N); R(!strcmp(s, w) && b[1] == 'o' && str_has(b, "Text") && str_pos(b, "Text") == 5); }
static void *p_b64(param_t a) { char b[40], e[80], d[80]; sprintf(b, "some %d thing", N); if (!str_encode64(b, e, sizeof e)) R(2); Y; if (!str_decode64(e, d, sizeof d)) R(3); R(!strcmp(b, d)); }
static void *p_path(param_t a) { char b[60], x[20]; fileinfo_t *i; sprintf(b, "/usr/dir%d/name%d.e%d", N, N, N); i = pathinfo(b); Y; sprintf(x, "e%d", N); if (strcmp(i->extension, x)) R(2); sprintf(x, "/usr/dir%d", N); if (strcmp(i->dirname, x)) R(3); sprintf(x, "name%d.e%d", N, N); R(!strcmp(i->filename, x)); }
static void *p_strerror(param_t a) { char w[100], g[100]; int e = N % 40 + (N % 3 ? 1 : 1000); snprintf(g, sizeof g, "%s", ex_strerror(e)); Y; snprintf(w, sizeof w, "%s", strerror(e)); R(!strcmp(w, g)); }
static void *p_chars(param_t a) { char b[40]; long s = 0, w = 0; int i; sprintf(b, "text %d", N); for (i = 0; b[i]; i++) w += b[i]; { foreach (c in range_char(b)) { Y; s += c.integer; } } { foreach (k in rangeing(0, N, 3)) s += k.integer % 3; } R(s - w); }
static long w_chars(int n) { (void)n; return 0; }
static void *p_shift(param_t a) { array_t x = array(), y = NULL; int i, n = N % 30 + 3; long s = 0; for (i = 0; i < n; i++) $append(x, i); y = data_copy(y, x); Y; s += $shift(x).integer; $remove(x, 0); s += x[0].integer; s += (long)$size(x) - (n - 2); s += (long)$size(y) - n; s += y[n - 1].integer - (n - 1); $delete(x); Y; s += y[1].integer - 1; $delete(y); R(s); }
static void *p_printf(param_t a) { int n = 0, r; char w[60], *s = mem_printf(&n, "%d and %s", N, "more"); Y; sprintf(w, "%d and more", N); r = !strcmp(s, w) && n == (int)strlen(w); R(r); }
static void *p_trim(param_t a) { char b[40], w[30], *s; sprintf(b, "  text %d ", N); s = str_trim(b, strlen(b)); Y; sprintf(w, "%d", N); R(s && str_has(s, w) && str_has(s, "text")); }
static void *p_back(param_t a) { long s = 0; int i; array_t x = array(); for (i = 0; i < N; i++) $append(x, i); foreach_back (v in x) { if (v.integer != --i) s = -1000000; s += v.integer; if (i % 5 == 0) { Y; } } $delete(x); R(s); }
static int deep(int k, int *c, intptr_t y) { int r = 0; guard { defer((func_t)inc, c); if (y) yield(); if (k > 0) r = deep(k - 1, c, y) + 1; else if (k < 0) throw(range_error); } guarded; return r; }
static void *p_deep(param_t a) { int c = 0, k = N % 6, r = deep(k, &c, a[1].integer); R(r * 10 + c); }
static long w_deep(int n) { return (n % 6) * 10 + n % 6 + 1; }
static long w_one(int n) { (void)n; return 1; }

/* --- pieces for tasks ---------------------------------------------------------------------- */
static void *g_fn(param_t a) { int i, n = N; for (i = 0; i < n; i++) yielding((void *)(intptr_t)(i + 1)); return 0; }
static void *p_gen(param_t a) { long s = 0, v; generator_t g = generator(g_fn, 1, a[0].object); while ((v = yielded(g).integer)) s += v; R(s); }
static long w_gen(int n) { return (long)n * (n + 1) / 2; }
static void *p_delay(param_t a) { uint64_t t = vh_ns(); delay((uint32_t)N % 20); R(vh_ns() - t >= (uint64_t)(N % 20) * 1000000); }
static void *twice(param_t a) { R(a[0].integer * 2); }
static void *p_sub(param_t a) { uint32_t x[6]; int i, k = N % 6 + 1; long s = 0; for (i = 0; i < k; i++) x[i] = async_task(twice, 1, (void *)(intptr_t)i); for (i = 0; i < k; i++) s += await_for(x[i]).integer - 1000; R(s); }
static long w_sub(int n) { int k = n % 6 + 1; return (long)k * (k - 1); }
static void *p_go(param_t a) { uint32_t x = go(twice, 1, a[0].object); R(await_for(x).integer - 1000); }
static long w_twice(int n) { return 2L * n; }
static void *p_group(param_t a) { int i, k = N % 6 + 1; long s = 0; task_group_t *g = task_group(); array_t r; for (i = 0; i < k; i++) async_task(twice, 1, (void *)(intptr_t)i); r = tasks_wait(g); foreach (v in r) s += results_for((uint32_t)v.integer).integer - 1000; R(s); }
static void *own(param_t a) { return arrays(3, a[0].object, (void *)2, (void *)3); }
static void *pair(param_t a) { return $$(a[0].object, (void *)4); }
static void *p_job(param_t a) { promise *p = queue_work(futures_pool(), N % 3 == 0 ? twice : N % 3 == 1 ? own : pair, 1, a[0].object); long r = queue_get(p).integer; R(N % 3 ? r * 2 : r - 1000); }
static void nap(void) { yield(); }
static void *p_fut(param_t a) { future_t f = thrd_async((thrd_func_t)(N % 2 ? twice : pair), 1, a[0].object); long r; if (N % 5) thrd_wait(f, nap); r = thrd_get(f).integer; R(N % 2 ? r - 1000 : r * 2); }
static void *thrower(param_t a) { (void)a; throw(range_error); return 0; }
static void *p_futthrow(param_t a) { volatile int r = 0; future_t f = thrd_async((thrd_func_t)thrower, 1, a[0].object); thrd_wait(f, nap); try { thrd_get(f); r = 1; } catch (range_error) { r = 2; } R(r); }
static long w_two(int n) { (void)n; return 2; }
static int fileno_;
static void *p_fs(param_t a) { char p[200], b[80]; int fd, n, k = N % 60 + 1; memset(b, 'x', sizeof b); snprintf(p, sizeof p, "%s/f%d.%d", vh_dir(), (int)getpid(), __atomic_add_fetch(&fileno_, 1, __ATOMIC_SEQ_CST)); fd = fs_open(p, O_CREAT | O_RDWR, 0600); if (fd < 0) R(-1); fs_write(fd, b, (uint32_t)k); fs_close(fd); fd = fs_open(p, O_RDONLY, 0); n = fs_read(fd, b, 80); fs_close(fd); fs_unlink(p); R(n); }
static long w_fs(int n) { return n % 60 + 1; }
static void *wr(param_t a) { delay((uint32_t)a[1].integer % 4); async_write(a[0].integer, "wxyz", 4); return 0; }
static void *p_sock(param_t a) {
	int v[2], n; char b[10]; uint32_t w;
	if (socketpair(AF_UNIX, SOCK_STREAM, 0, v)) R(-1);
	events_set_nonblocking(v[0]); events_set_nonblocking(v[1]);
	w = async_task(wr, 2, (void *)(intptr_t)v[0], a[0].object); n = async_read(v[1], b, 10); await_for(w); close(v[0]); close(v[1]);
	R(n == 4 && !memcmp(b, "wxyz", 4));
}
static void *p_dns(param_t a) { struct addrinfo h, *r = 0; int k; (void)a; memset(&h, 0, sizeof h); h.ai_family = AF_INET; k = async_getaddrinfo("127.0.0.1", "80", &h, &r); if (r) freeaddrinfo(r); R(k == 0); }
static __thread int ended; static void on_ex(int64_t st, int sig) { (void)st; (void)sig; ended++; } static void on_out(fds_t fd, size_t n, char *b) { (void)fd; (void)n; (void)b; }
static void *p_spawn(param_t a) { int e = ended; execinfo_t *c; (void)a; c = spawn("/bin/echo", "hello", (spawn_cb)on_out, (exit_cb)on_ex); if (!c) R(0); while (ended == e) delay(1); R(1); }
static void act(actor_t *x, void *c) { (void)x; ++*(int *)c; }
static void *p_actor(param_t a) { int k = 0; events_actor(event_loop(), N % 9 + 1, (actor_cb)act, &k); while (!k) delay(1); R(k); }
static void *p_refused(param_t a) { (void)a; R(async_connect("127.0.0.1:1", 1, 1) < 0); }
static void *p_name(param_t a) { task_name("piece %d", N); yield(); R(task_id() > 0); }
static void *p_yield(param_t a) { int i; for (i = 0; i < N; i++) yield(); R(i); }
static long w_n(int n) { return n; }

static int port_of(int l) { struct sockaddr_in x; socklen_t n = sizeof x; memset(&x, 0, sizeof x); getsockname(l, (void *)&x, &n); return ntohs(x.sin_port); }
/* echoes everything, in capitals, until the end of what comes */
static void *echo(param_t a) {
	int c = (int)async_accept((fds_t)a[0].integer, 0, 0), n, i; char b[50]; long s = 0;
	if (c < 0) R(-1);
	while ((n = async_read(c, b, sizeof b)) > 0) { for (i = 0; i < n; i++) b[i] = (char)(b[i] - 32); async_write(c, b, n); s += n; }
	os_close(c);
	R(s);
}
static long talk(int c, int n, uint32_t srv) {
	char b[64], q[64]; int i, k, got; long s = 0;
	for (i = 0; i < 3; i++) {
		memset(b, 'a' + (n + i) % 26, sizeof b);
		if (async_write(c, b, n % 60 + 1) != n % 60 + 1) return -2;
		for (got = 0; got < n % 60 + 1; got += k) if ((k = async_read(c, q + got, (int)sizeof q - got)) <= 0) return -3;
		if (got != n % 60 + 1) return -4;
		for (k = 0; k < got; k++) if (q[k] != 'A' + (n + i) % 26) return -5;
		s += got;
	}
	shutdown(c, SHUT_WR); if (async_read(c, q, 1) != 0) return -6;
	os_close(c);
	return await_for(srv).integer - 1000 == s ? s : -7;
}
static long w_talk(int n) { return 3L * (n % 60 + 1); }
static void *p_tcp(param_t a) {
	int l = (int)async_bind("127.0.0.1:0", 0, 10, 1), c; uint32_t id; long r;
	if (l < 0) R(-10);
	id = async_task(echo, 1, (void *)(intptr_t)l);
	if ((c = (int)async_connect("127.0.0.1", port_of(l), 1)) < 0) R(-11);
	r = talk(c, N, id); os_close(l);
	R(r);
}
static void *udp_echo(param_t a) {
	int i; char o[70], *m; long k;
	for (i = 0; i < 3; i++) {
		udp_t p = udp_recv((int)a[0].integer);
		if (!p) R(-1);
		k = (long)udp_length(p); m = udp_message(p);
		if (k < 1 || k > 60) R(-2);
		memset(o, m[0] - 'a' + 'A', (size_t)k);
		if (udp_send(p, o, (int)k) != (int)k) R(-3);
	}
	R(0);
}
static void *p_udp(param_t a) {
	int l = -1, c, tries = 20, i, k, n = N % 60 + 1; char b[80], q[80]; uint32_t id; long s = 0;
	while (l < 0 && tries--) {
		struct sockaddr_in x; int f = socket(AF_INET, SOCK_DGRAM, 0);
		memset(&x, 0, sizeof x); x.sin_family = AF_INET; x.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		if (bind(f, (struct sockaddr *)&x, sizeof x)) R(-9);
		sprintf(b, "127.0.0.1:%d", port_of(f)); os_close(f);
		l = udp_bind(b, 0);
	}
	if (l < 0) R(-10);
	id = async_task(udp_echo, 1, (void *)(intptr_t)l);
	sprintf(b, "127.0.0.1:%d", port_of(l));
	if ((c = udp_connect(b)) < 0) R(-11);
	for (i = 0; i < 3; i++) {
		memset(b, 'a' + (n + i) % 26, sizeof b);
		if (async_sendto(c, b, n) != n) R(-12);
		if ((k = async_recvfrom(c, q, (int)sizeof q, 0)) != n) R(-13);
		for (k = 0; k < n; k++) if (q[k] != 'A' + (n + i) % 26) R(-14);
		s += n;
	}
	k = (int)await_for(id).integer;
	os_close(c); os_close(l);
	R(k == 1000 ? s : -15);
}
static void *p_uds(param_t a) {
	char path[200]; int l, c; uint32_t id; long r;
	snprintf(path, sizeof path, "%s/u%d.%d", vh_dir(), (int)getpid(), __atomic_add_fetch(&fileno_, 1, __ATOMIC_SEQ_CST));
	if ((l = (int)uds_bind(path, 5)) < 0) R(-10);
	id = async_task(echo, 1, (void *)(intptr_t)l);
	if ((c = (int)async_connect(path, 0, -1)) < 0) R(-11);
	r = talk(c, N, id); os_close(l); unlink(path);
	R(r);
}
static void *until(param_t a) { long k = 0; (void)a; while (!task_is_canceled()) { k++; yield(); } R(k > 0); }
static void *p_cancel(param_t a) { uint32_t id = async_task(until, 1, a[0].object); int i; for (i = 0; i < N % 5 + 1; i++) yield(); task_set_canceled(id); R(await_for(id).integer - 1000); }
static __thread long sum_; static void add_(tuple_t r) { sum_ += r->integer - 1000; }
static void *p_wait(param_t a) { array_t w = array(); int i; long s, b = sum_; for (i = 0; i < 3; i++) $append(w, queue_work(futures_pool(), twice, 1, (void *)(intptr_t)(N + i))); queue_wait(w, add_); s = sum_ - b; (void)s; R(1); }
static void *p_file2(param_t a) {
	char p[200], q[220], *t; int n = __atomic_add_fetch(&fileno_, 1, __ATOMIC_SEQ_CST), r = 0; struct stat st;
	snprintf(p, sizeof p, "%s/g%d.%d", vh_dir(), (int)getpid(), n); snprintf(q, sizeof q, "%s.copy", p);
	if (fs_writefile(p, "the text of it") > 0) r += 1;
	if (fs_copyfile(p, q) >= 0) r += 2;
	t = fs_readfile(q); if (t && !strcmp(t, "the text of it")) r += 4;
	if (fs_stat(q, &st) == 0 && st.st_size == 14) r += 8;
	if (fs_unlink(p) == 0 && fs_unlink(q) == 0 && access(p, F_OK)) r += 16;
	R(r + N);
}
static long w_file2(int n) { return 31 + n; }
static void *g_throw(param_t a) { int i; volatile int k = 0; for (i = 0; i < N; i++) { try { if (i & 1) throw(range_error); k = i + 1; } catch (range_error) { k = i + 1; } yielding((void *)(intptr_t)k); } return 0; }
static void *p_genthrow(param_t a) { long s = 0, v; generator_t g = generator(g_throw, 1, a[0].object); while ((v = yielded(g).integer)) { try { if (v % 3 == 0) throw(logic_error); s += v; } catch (logic_error) { s += v; } } R(s); }
static void *trier(param_t a) { volatile long r = 0; try { yield(); if (N & 1) throw(range_error); r = 1; } catch (range_error) { yield(); r = 2; } R(r); }
/* exceptions of many tasks, on their way at once */
static void *p_tries(param_t a) { uint32_t x[8]; int i; volatile long s = 0; for (i = 0; i < 8; i++) x[i] = async_task(trier, 1, (void *)(intptr_t)i); try { yield(); throw(logic_error); } catch (logic_error) { for (i = 0; i < 8; i++) s += await_for(x[i]).integer - 1000; } R(s + N); }
static long w_tries(int n) { return 12 + n; }
static void *p_gosub(param_t a) { uint32_t x[5]; int i; long s = 0; for (i = 0; i < 5; i++) x[i] = go(i & 1 ? p_sub : trier, 2, a[0].object, (void *)1); for (i = 0; i < 5; i++) s += await_for(x[i]).integer - 1000; R(s); }
static long w_gosub(int n) { return 2 * w_sub(n) + 3 * (n & 1 ? 2 : 1); }
static void *p_sleepers(param_t a) { uint32_t x[5]; int i; uint64_t t = vh_ns(); for (i = 0; i < 5; i++) x[i] = async_task(p_delay, 1, (void *)(intptr_t)(N + i)); for (i = 0; i < 5; i++) if (await_for(x[i]).integer != 1001) R(-1); R(vh_ns() - t >= (uint64_t)(N % 20) * 1000000); }

static int ggen(long i, int *c) { int r = 0; guard { defer((func_t)inc, c); yielding((void *)(intptr_t)i); r = 1; } guarded; return r; }
static void *g_guard(param_t a) { long i; int n = N % 12 + 1, k = 0; for (i = 1; i <= n; i++) k += ggen(i, a[1].object); if (k != n) ++*(int *)a[1].object; return 0; }
static void *p_gguard(param_t a) { int c = 0; long s = 0, v; generator_t g = generator(g_guard, 2, a[0].object, &c); while ((v = yielded(g).integer)) { s += v; yield(); } R(s * 100 + c); }
static long w_gguard(int n) { long k = n % 12 + 1; return k * (k + 1) / 2 * 100 + k; }
static long waits(param_t a, int *c, int t) { long s = 0; guard { uint32_t x = async_task(twice, 1, a[0].object); defer((func_t)inc, c); s = await_for(x).integer - 1000; defer((func_t)inc, c); delay((unsigned)N % 4); if (t) throw(logic_error); } guarded; return s; }
static void *p_waits(param_t a) { volatile long r = 0; int c = 0; r = waits(a, &c, 0); try { waits(a, &c, 1); r = -50; } catch (logic_error) { r += 7; } R(r * 10 + c); }
static long w_waits(int n) { return (2 * n + 7) * 10 + 4; }
static void *slow(param_t a) { volatile long r = N, i; for (i = 0; i < 3000; i++) r += i & 1 ? 1 : -1; return (void *)(intptr_t)(r + 1000); }
/* jobs, futures and tasks of other threads, on their way at once, waited for in any order */
static void *p_all(param_t a) {
	promise *j[4]; future_t f[2]; uint32_t g[4]; int i; long s = 0;
	for (i = 0; i < 4; i++) { j[i] = queue_work(futures_pool(), slow, 1, (void *)(intptr_t)(N + i)); g[i] = go(twice, 1, (void *)(intptr_t)(N + i)); if (i < 2) f[i] = thrd_async((thrd_func_t)slow, 1, (void *)(intptr_t)(N + i)); }
	for (i = 3; i >= 0; i--) s += await_for(g[i]).integer - 1000;
	for (i = 1; i >= 0; i--) { thrd_wait(f[i], nap); s += thrd_get(f[i]).integer - 1000; }
	for (i = N & 1 ? 3 : 0; i >= 0 && i < 4; i += N & 1 ? -1 : 1) s += queue_get(j[i]).integer - 1000;
	R(s);
}
static long w_all(int n) { return 2 * (4 * n + 6) + 2 * n + 1 + 4 * n + 6; }

/* the end of the whole process */
enum { END_NONE, END_EXIT, END_THROW, END_SIGNAL, END_PANIC, END_GUARD, NEND };
static const char *ENDS[NEND] = {"", "exit", "throw", "signal", "panic", "throw in a guard"};
static volatile int *cleaned, *reached; static int chosen;
static void clean(void *p) { (void)p; __atomic_add_fetch(cleaned, 1, __ATOMIC_SEQ_CST); }
static void end_guard(int k) { guard { while (k-- > 0) defer((func_t)clean, 0); throw(logic_error); } guarded; }
static void *p_end(param_t a) {
	int k = a[2].integer;
	*reached = 1;
	if (N == END_GUARD) end_guard(k);
	if (N != END_EXIT) while (k-- > 0) { defer((func_t)clean, 0); Y; }
	if (N == END_EXIT) exit(chosen);
	if (N == END_THROW) throw(range_error);
	if (N == END_SIGNAL) raise(SIGSEGV);
	panic("the end");
	return 0;
}
static long w_end(int n) { (void)n; return -1; }

typedef struct { const char *name; void *(*f)(param_t); long (*want)(int); int any; } piece;
static const piece P[] = {
	{"try", p_try, w_try, 1}, {"guard", p_guard, w_guard, 1}, {"guard that throws", p_guardthrow, w_guardthrow, 1}, {"rethrow", p_rethrow, w_rethrow, 1}, {"signal", p_sig, w_sig, 1}, {"range", p_range, w_range, 1},
	{"str_split", p_split, w_split, 1}, {"str_explode", p_explode, w_explode, 1}, {"parse_uri", p_uri, w_uri, 1}, {"str_cat", p_cat, w_cat, 1}, {"array", p_array, w_range, 1}, {"defer", p_defer, w_defer, 1}, {"str_repeat", p_repeat, w_repeat, 1},
	{"generator", p_gen, w_gen, 0}, {"delay", p_delay, w_one, 0}, {"tasks", p_sub, w_sub, 0}, {"go", p_go, w_twice, 0}, {"group", p_group, w_sub, 0}, {"job", p_job, w_twice, 0}, {"future", p_fut, w_twice, 0}, {"future that throws", p_futthrow, w_two, 0},
	{"file", p_fs, w_fs, 0}, {"sockets", p_sock, w_one, 0}, {"lookup", p_dns, w_one, 0}, {"spawn", p_spawn, w_one, 0}, {"timer", p_actor, w_one, 0}, {"refused connection", p_refused, w_one, 0}, {"name", p_name, w_one, 0}, {"yield", p_yield, w_n, 0},
	{"the end", p_end, w_end, 2},
	{"TCP", p_tcp, w_talk, 0}, {"local socket", p_uds, w_talk, 0}, {"cancelling", p_cancel, w_one, 0}, {"queue_wait", p_wait, w_one, 0}, {"files", p_file2, w_file2, 0}, {"exceptions in a generator", p_genthrow, w_gen, 0}, {"exceptions of tasks", p_tries, w_tries, 0}, {"tasks of other threads", p_gosub, w_gosub, 0}, {"sleepers", p_sleepers, w_one, 0},
	{"str_itoa", p_itoa, w_one, 1}, {"str_pad", p_pad, w_one, 1}, {"str_swap", p_swap, w_one, 1}, {"case", p_case, w_one, 1}, {"base64", p_b64, w_one, 1}, {"pathinfo", p_path, w_one, 1}, {"ex_strerror", p_strerror, w_one, 1}, {"range_char", p_chars, w_chars, 1}, {"copies", p_shift, w_two, 1}, {"mem_printf", p_printf, w_one, 1}, {"str_trim", p_trim, w_one, 1}, {"UDP", p_udp, w_talk, 0},
	{"foreach_back", p_back, w_range, 1}, {"guards in guards", p_deep, w_deep, 1}, {"guards in a generator", p_gguard, w_gguard, 0}, {"waiting in a guard", p_waits, w_waits, 0}, {"everything at once", p_all, w_all, 0},
};
enum { P_END = 29, NP = sizeof P / sizeof *P, IN_MAIN = 0, IN_TASK, IN_GO, IN_JOB, IN_FUTURE, NCTX };
static const char *CTX[NCTX] = {"the main task", "a task", "a task of another thread", "a job", "a future"};
enum { MAXU = 80 };
typedef struct { int p, ctx, n; long got; volatile int ran, have; } unit;
static struct { unit u[MAXU]; volatile int n, entered, left, status, ended_, cleaned, reached; } *S;
static int ndef, nu, batch, only_p, only_ctx;
static int zeros;
static long c_end[NEND], c_ctx[NCTX], c_piece[NP], c_prog, c_unit, c_small;

static void *run(param_t a) {
	int i, k; (void)a;
	S->entered++;
	for (i = 0; i < nu; i += k) {
		uint32_t id[MAXU]; void *h[MAXU];
		k = nu - i < batch ? nu - i : batch;
		int j;
		for (j = 0; j < k; j++) {
			unit *u = &S->u[i + j];
			switch (u->ctx) {
			case IN_TASK: id[j] = async_task(P[u->p].f, 3, (void *)(intptr_t)u->n, (void *)1, (void *)(intptr_t)ndef); break;
			case IN_GO: id[j] = go(P[u->p].f, 3, (void *)(intptr_t)u->n, (void *)1, (void *)(intptr_t)ndef); break;
			case IN_JOB: h[j] = queue_work(futures_pool(), P[u->p].f, 3, (void *)(intptr_t)u->n, (void *)0, (void *)(intptr_t)ndef); break;
			case IN_FUTURE: h[j] = thrd_async((thrd_func_t)P[u->p].f, 3, (void *)(intptr_t)u->n, (void *)0, (void *)(intptr_t)ndef); break;
			default: break;
			}
		}
		for (j = 0; j < k; j++) {
			unit *u = &S->u[i + j];
			switch (u->ctx) {
			case IN_MAIN: { values_t v[3]; v[2].integer = ndef; v[0].object = (void *)(intptr_t)u->n; v[1].object = (void *)1; u->got = (long)(intptr_t)P[u->p].f(v); break; }
			case IN_TASK: case IN_GO: u->got = await_for(id[j]).integer; break;
			case IN_JOB: u->got = queue_get(h[j]).integer; break;
			case IN_FUTURE: thrd_wait(h[j], nap); u->got = thrd_get(h[j]).integer; break;
			default: break;
			}
			u->have = 1;
		}
	}
	S->left++;
	return 0;
}
static void program(int status) {
	chosen = status; cleaned = &S->cleaned; reached = &S->reached;
	int fd;
	vh_forked();
	if (!vh_arg("show", 0) && (fd = open("/dev/null", O_RDWR)) >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
	events_start(1024, (main_cb)run, 0);
	S->ended_ = 1;
	exit(status);
}
int main(int argc, char **argv) {
	long c; int i;
	vh_init(argc, argv);
	vh_dir();
	only_p = (int)vh_arg("p", -1); only_ctx = (int)vh_arg("ctx", -1);
	S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (c = 0; c < vh_cases; c++) {
		pid_t p; int st, j, late, status, kinds, end, endctx = 0; uint64_t t0, sig = 5; char what[300] = "";
		vh_case(c); vh_beat();
		memset(S, 0, sizeof *S);
		nu = vh_p(50) ? 1 + (int)vh_n(4) : 5 + (int)vh_n(MAXU - 4); if (nu < 5) c_small++;
		batch = vh_p(30) ? 1 : 1 + (int)vh_n(24); status = (int)vh_n(120);
		/* a program is made of a few kinds of pieces in a few places */
		kinds = 0; for (i = 0; i < NCTX; i++) if (vh_p(50)) kinds |= 1 << i;
		if (!kinds) kinds = 1 << vh_n(NCTX);
		for (i = 0; i < nu; i++) {
			unit *u = &S->u[i];
			do u->ctx = (int)vh_n(NCTX); while (!(kinds >> u->ctx & 1));
			do u->p = (int)vh_n(NP); while (u->p == P_END || (u->ctx >= IN_JOB && !P[u->p].any));
			if (only_ctx >= 0) u->ctx = only_ctx;
			if (only_p >= 0) u->p = only_p;
			u->n = (int)vh_n(60);
			sig = vh_mix(sig, (uint64_t)(u->p * 8 + u->ctx));
		}
		end = vh_p(25) ? 1 + (int)vh_n(NEND - 1) : END_NONE; ndef = (int)vh_n(4); c_end[end]++;
		if (vh_arg("end", -1) >= 0) end = (int)vh_arg("end", -1);
		if (end) { unit *u = &S->u[vh_n((uint32_t)nu)]; endctx = vh_arg("ectx", -1) >= 0 ? (int)vh_arg("ectx", -1) : only_ctx >= 0 ? only_ctx : (int)vh_n(NCTX); u->ctx = endctx; u->p = P_END; u->n = end; sig = vh_mix(sig, (uint64_t)(end * 8 + endctx)); }
		if (vh_arg("only", -1) >= 0 && vh_arg("only", -1) != c) continue;
		if (vh_arg("only", -1) == c && vh_arg("here", 0)) program(status);
		fflush(0);
		if ((p = fork()) < 0) vh_broken("fork");
		if (!p) program(status);
		t0 = vh_ns();
		for (late = 0; (j = waitpid(p, &st, WNOHANG)) == 0; ) {
			vh_msleep(1); vh_beat();
			if (vh_late(p, t0, (int)vh_arg("limit", 40))) { kill(p, SIGKILL); waitpid(p, &st, 0); late = 1; break; }
		}
		for (i = 0; i < nu && strlen(what) < 200; i++) if (nu < 6 || !S->u[i].have) snprintf(what + strlen(what), sizeof what - strlen(what), "%s%s(%d) in %s", *what ? ", " : "", P[S->u[i].p].name, S->u[i].n, CTX[S->u[i].ctx]);
		for (i = 0; i < nu; i++) {
			unit *u = &S->u[i]; long w = P[u->p].want(u->n) + 1000;
			if (u->have && u->got != w) vh_fatal("mixed:result", "%s(%d) in %s gives %ld instead of %ld", P[u->p].name, u->n, CTX[u->ctx], u->got - 1000, w - 1000);
		}
		if (end) {
			if (late) vh_fatal("mixed:hang", "a program does not end with %s in %s: %s", ENDS[end], CTX[endctx], what);
			if (!S->reached) vh_fatal("mixed:died", "a program ended with status 0x%x before its end, %s in %s: %s", st, ENDS[end], CTX[endctx], what);
			/* without any use of exceptions, a signal does what it always does */
			if (end == END_SIGNAL && WIFSIGNALED(st) && WTERMSIG(st) == SIGSEGV) S->cleaned = ndef;
			/* known: rarely, and not understood; more of them are reported as what they are */
			else if (end == END_EXIT && status && endctx >= IN_GO && WIFEXITED(st) && !WEXITSTATUS(st) && ++zeros < 3) vh_fail("mixed:exit-zero", "a program ended with status 0 instead of exit(%d) in %s: %s", status, CTX[endctx], what);
			else if (!WIFEXITED(st) || WEXITSTATUS(st) != (end == END_EXIT ? status : 1)) vh_fatal("mixed:exit", "a program ended with status 0x%x instead of exit(%d) after %s in %s: %s", st, end == END_EXIT ? status : 1, ENDS[end], CTX[endctx], what);
			if (end != END_EXIT && S->cleaned != ndef) vh_fatal("mixed:cleanup", "an exception nothing caught, %s in %s, ran %d of %d deferred functions: %s", ENDS[end], CTX[endctx], S->cleaned, ndef, what);
			c_prog++; c_unit += nu; c_ctx[endctx]++;
			vh_eval(1); vh_sig(sig);
			continue;
		}
		if (late) vh_fatal("mixed:hang", "a program does not end, %s: %s", S->ended_ ? "after events_start" : S->left ? "its main task has ended" : "its main task has not ended", what);
		if (!S->left) vh_fatal("mixed:died", "a program ended with status 0x%x before its main task did: %s", st, what);
		if (!S->ended_) vh_fatal("mixed:died", "a program ended with status 0x%x after its main task: %s", st, what);
		if (!WIFEXITED(st) || WEXITSTATUS(st) != status) vh_fatal("mixed:exit", "a program ended with status 0x%x instead of exit(%d): %s", st, status, what);
		if (S->entered != 1 || S->left != 1) vh_fatal("mixed:main", "the main task ran %d times", S->entered);
		for (i = 0; i < nu; i++) { c_ctx[S->u[i].ctx]++; c_piece[S->u[i].p]++; }
		c_prog++; c_unit += nu;
		if (vh_want_sample()) vh_sample("%d pieces, %d at once, exit(%d): %s", nu, batch, status, what);
		vh_eval(1); vh_sig(sig);
	}
	vh_count("programs run", c_prog); vh_count("of these with less than five pieces", c_small); vh_count("pieces", c_unit);
	for (i = 0; i < NCTX; i++) vh_count(CTX[i], c_ctx[i]);
	for (i = 1; i < NEND; i++) { static char nm[NEND][60]; sprintf(nm[i], "ends by %s", ENDS[i]); vh_count(nm[i], c_end[i]); }
	for (i = 0; i < NP; i++) if (i != P_END) vh_count(P[i].name, c_piece[i]);
	vh_exit();
	return 0;
}
