/* C14: streams. Random conversations over TCP, Unix sockets, socket pairs and pipes between tasks of
 * one thread, tasks of pool threads and threads of this driver which use the system calls. */
#include <events.h>
#include <except.h>
#include "vh.h"
#include "ev.h"
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <dirent.h>
#define MAXC 12
#define MAXS 24
void *events_malloc(size_t);
void events_free(void *);
extern int vj_rate __attribute__((weak));
enum { K_TCP4, K_TCP6, K_NAME, K_UDS, K_PAIR, K_PIPE, K_NK };
enum { W_TASK, W_GO, W_EXT, W_NW };
typedef struct { uint64_t seed; int offered, got, ended; long total; } stream;
typedef struct { int dir, early, k; long n; } step;
typedef struct {
	int kind, fd[2], where[2], nsteps, closer, slow[2], buf, port, early, duplex, viah, halves[2]; volatile int hdone; step s[MAXS]; stream d[2];
	pthread_t th[4]; int hasth[4];
} conn;
static conn C[MAXC];
static events_t *main_loop;
static int nC, lfd4 = -1, lfd6 = -1, lfdu = -1, have6;
static int port4, port6;
static char upath[200];
static int accepted[MAXC], expect_acc;
static volatile long ticks;
static volatile int ticking, ends_done;
static long c_bytes, c_conn[K_NK], c_writes, c_reads, c_eof, c_early, c_epipe, c_ext, c_go, c_ref, c_waited, c_blockw, c_tickwait, c_read2, c_duplex, c_sig, sigs[4];
static const int SIGS[] = {SIGUSR1, SIGUSR2, SIGURG, SIGWINCH};
static uint64_t csig;
#define ADD(x, n) __atomic_fetch_add(&(x), (n), __ATOMIC_SEQ_CST)
#define GET(x) __atomic_load_n(&(x), __ATOMIC_SEQ_CST)
static const char *kname[] = {"TCP", "TCP over IPv6", "TCP by name", "Unix socket", "socket pair", "pipe"};

static unsigned char pat(stream *d, long p) { uint64_t w = vh_mix(d->seed, (uint64_t)p >> 3); return (unsigned char)(w >> (8 * (p & 7))); }
static void fill(stream *d, long p, unsigned char *b, long n) {
	long i;
	for (i = 0; i < n; ) {
		if (((p + i) & 7) == 0 && i + 8 <= n) { uint64_t w = vh_mix(d->seed, (uint64_t)(p + i) >> 3); memcpy(b + i, &w, 8); i += 8; }
		else { b[i] = pat(d, p + i); i++; }
	}
}
static void check(conn *c, int dir, long p, unsigned char *b, long n) {
	stream *d = &c->d[dir];
	long i;
	for (i = 0; i < n; ) {
		if (((p + i) & 7) == 0 && i + 8 <= n) { uint64_t w = vh_mix(d->seed, (uint64_t)(p + i) >> 3); if (!memcmp(b + i, &w, 8)) { i += 8; continue; } }
		if (b[i] != pat(d, p + i)) vh_fatal("stream:content", "%s: byte %ld of the stream is 0x%02x instead of 0x%02x (%ld bytes read at %ld)", kname[c->kind], p + i, b[i], pat(d, p + i), n, p);
		i++;
	}
	ADD(c_bytes, n);
}
/* the end of one side: lib: with the library, otherwise with the system calls */
static long rd(conn *c, int side, int lib, vh_rng *r, unsigned char *b, long n) {
	long m;
	ADD(c_reads, 1);
	errno = 0;
	memset(b + n, 0xa5, 16);
	if (lib && vh_rn(r, 4) == 0 && c->where[side] != W_EXT) { m = async_read2(c->fd[side], b, (int)n); ADD(c_read2, 1); }
	else if (lib) m = async_read(c->fd[side], b, (int)n);
	else while ((m = read(c->fd[side], b, (size_t)n)) < 0 && errno == EINTR);
	{ int i; for (i = 0; i < 16; i++) if (b[n + i] != 0xa5) vh_fatal("stream:overrun", "async_read of %ld bytes wrote more than that", n); }
	if (lib && m > n) vh_fatal("stream:read-count", "async_read of %ld bytes gives %ld", n, m);
	if (lib && m < 0 && errno == EAGAIN) vh_fatal("stream:again", "%s: async_read fails with EAGAIN", kname[c->kind]);
	return m;
}
static long wr(conn *c, int side, int lib, unsigned char *b, long n) {
	long m, t = 0;
	ADD(c_writes, 1);
	errno = 0;
	if (lib) {
		m = async_write(c->fd[side], b, (int)n);
		if (m > n) vh_fatal("stream:write-count", "async_write of %ld bytes gives %ld", n, m);
		if (m < 0 && errno == EAGAIN) vh_fatal("stream:again", "%s: async_write fails with EAGAIN", kname[c->kind]);
		return m;
	}
	while (t < n) {
		m = write(c->fd[side], b + t, (size_t)(n - t));
		if (m < 0 && errno == EINTR) continue;
		if (m < 0) return -1;
		t += m;
	}
	return t;
}
static void pausing(int lib, vh_rng *r, int slow) {
	int k;
	if ((int)vh_rn(r, 100) >= slow) return;
	k = (int)vh_rn(r, 4);
	if (!lib && k && ticking) {	/* until the tasks of the main thread have run a few times */
		long t0 = ticks;
		uint64_t e = vh_calm() + 15000000000ull;
		while (ticks < t0 + 2 && ticking) { if (vh_calm() > e) vh_fatal("stream:blocks", "the other tasks did not run for 15 s while one waited for a peer"); vh_msleep(1); }
		ADD(c_tickwait, 1);
		return;
	}
	if (!lib) { vh_msleep((int)vh_rn(r, 4)); return; }
	if (k < 2) yield(); else delay(vh_rn(r, 4));
}
static void side_close(conn *c, int side, int lib) {
	if (side == 1 && c->viah) { c->fd[side] = -1; c->hdone = 1; return; }	/* the library closes it when the handler returns */
	if (lib ? os_close(c->fd[side]) : close(c->fd[side])) vh_broken("close: %s", strerror(errno));
	c->fd[side] = -1;
}
/* half: -1 all steps, otherwise only those of this direction, another task does the others */
static void end_run(conn *c, int side, uint64_t seed, int half) {
	int i, lib = c->where[side] != W_EXT, gone = 0;
	vh_rng r = {seed | 1};
	long cap = 1 + (long)(vh_rn(&r, 3) ? vh_rn(&r, 5000) : vh_rn(&r, 200000)), wcap = 1 + (long)(vh_rn(&r, 3) ? vh_rn(&r, 300000) : vh_rn(&r, 3000));
	unsigned char *b = events_malloc((size_t)(cap > wcap ? cap : wcap) + 32);
	long cum[2] = {0, 0}, pos[2] = {0, 0};
	long m, n;
	for (i = 0; i < c->nsteps && !gone; i++) {
		step *s = &c->s[i];
		stream *d = &c->d[s->dir];
		long end = cum[s->dir] + s->n;
		cum[s->dir] = end;
		if (half >= 0 && s->dir != half) continue;
		if (s->dir == side) {	/* write */
			while (pos[side] < end) {
				n = end - pos[side];
				if (n > wcap) n = 1 + (long)vh_rn(&r, (uint32_t)wcap);
				fill(d, pos[side], b, n);
				pausing(lib, &r, c->slow[side]);
				__atomic_store_n(&d->offered, (int)(pos[side] + n), __ATOMIC_SEQ_CST);
				m = wr(c, side, lib, b, n);
				if (m != n) {
					if (!s->early || m >= 0 || (errno != EPIPE && errno != ECONNRESET)) vh_fatal(m < 0 ? "stream:write-error" : "stream:write-count", "%s: async_write of %ld bytes gives %ld (%s)%s", kname[c->kind], n, m, m < 0 ? strerror(errno) : "", s->early ? ", the other side reads only a part" : "");
					ADD(c_epipe, 1); gone = 1;
					break;
				}
				pos[side] += n;
				vh_beat();
			}
		} else {
			if (s->early) end = cum[s->dir] - s->n + s->k;
			while (pos[s->dir] < end) {
				n = vh_rn(&r, 3) ? cap : 1 + (long)vh_rn(&r, (uint32_t)cap);
				if (s->early && n > end - pos[s->dir]) n = end - pos[s->dir];
				pausing(lib, &r, c->slow[side]);
				m = rd(c, side, lib, &r, b, n);
				if (m <= 0) vh_fatal(m ? "stream:read-error" : "stream:end", "%s: async_read gives %ld (%s) after %ld bytes, %d are on their way", kname[c->kind], m, m ? strerror(errno) : "end of the stream", pos[s->dir], GET(d->offered));
				if (pos[s->dir] + m > GET(d->offered)) vh_fatal("stream:more", "%s: %ld bytes were read, %d were written", kname[c->kind], pos[s->dir] + m, GET(d->offered));
				check(c, s->dir, pos[s->dir], b, m);
				pos[s->dir] += m;
				vh_beat();
			}
			if (s->early) { gone = 1; ADD(c_early, 1); }
		}
	}
	if (half >= 0) {
		events_free(b);
		if (ADD(c->halves[side], 1) == 1) { side_close(c, side, lib); ADD(ends_done, 1); }
		return;
	}
	if (c->closer == side || gone || (c->kind == K_PIPE && side == 1)) {
		pausing(lib, &r, c->slow[side]);
		side_close(c, side, lib);
	} else {
		int dir = !side;
		for (;;) {
			m = rd(c, side, lib, &r, b, cap);
			if (m > 0) {
				if (pos[dir] + m > GET(c->d[dir].offered)) vh_fatal("stream:more", "%s: %ld bytes were read, %d were written", kname[c->kind], pos[dir] + m, GET(c->d[dir].offered));
				check(c, dir, pos[dir], b, m); pos[dir] += m;
				continue;
			}
			if (m == 0 && !c->early && pos[dir] != c->d[dir].total) vh_fatal("stream:end", "%s: end of the stream after %ld of %ld bytes", kname[c->kind], pos[dir], c->d[dir].total);
			if (m < 0 && !(c->early && errno == ECONNRESET)) vh_fatal("stream:read-error", "%s: reading at the end of the stream: %s", kname[c->kind], strerror(errno));
			break;
		}
		ADD(c_eof, 1);
		side_close(c, side, lib);
	}
	events_free(b);
	ADD(ends_done, 1);
}
static uint64_t eseed[MAXC][2];
static void *half_task(param_t args) {
	int n = (int)args[0].integer, side = (int)args[1].integer, half = (int)args[2].integer;
	end_run(&C[n], side, eseed[n][side] ^ 5, half);
	return 0;
}
static void *half_ext(void *arg) {
	int n = (int)(intptr_t)arg >> 2;
	end_run(&C[n], (int)(intptr_t)arg >> 1 & 1, eseed[n][0] ^ 5, (int)(intptr_t)arg & 1);
	return 0;
}
static void end_all(int n, int side) {
	conn *c = &C[n];
	int h = (int)(eseed[n][side] >> 9 & 1);
	if (!c->duplex) { end_run(c, side, eseed[n][side], -1); return; }
	ADD(c_duplex, 1);
	if (c->where[side] == W_EXT) {
		if (pthread_create(&c->th[2 + side], NULL, half_ext, (void *)(intptr_t)(n << 2 | side << 1 | h))) vh_broken("pthread_create");
		c->hasth[2 + side] = 1;
	} else async_task(half_task, 3, casting(n), casting(side), casting(h));
	end_run(c, side, eseed[n][side], !h);
}
static void *end_task(param_t args) {
	end_all((int)args[0].integer, (int)args[1].integer);
	return 0;
}
static int listener(int kind) { return kind == K_TCP6 ? lfd6 : kind == K_UDS ? lfdu : lfd4; }
/* raw connection of a thread of the driver */
static int raw_connect(int kind) {
	int fd, i;
	union { struct sockaddr s; struct sockaddr_in i; struct sockaddr_in6 i6; struct sockaddr_un u; } a;
	socklen_t l;
	memset(&a, 0, sizeof a);
	if (kind == K_UDS) { a.u.sun_family = AF_UNIX; snprintf(a.u.sun_path, sizeof a.u.sun_path, "%s", upath); l = sizeof a.u; }
	else if (kind == K_TCP6) { a.i6.sin6_family = AF_INET6; a.i6.sin6_addr = in6addr_loopback; a.i6.sin6_port = htons((uint16_t)port6); l = sizeof a.i6; }
	else { a.i.sin_family = AF_INET; a.i.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.i.sin_port = htons((uint16_t)port4); l = sizeof a.i; }
	if ((fd = socket(a.s.sa_family, SOCK_STREAM, 0)) < 0) vh_broken("socket: %s", strerror(errno));
	for (i = 0; connect(fd, &a.s, l); i++) { if (errno != EAGAIN || i > 5000) vh_broken("connect: %s", strerror(errno)); vh_msleep(1); }
	return fd;
}
static int local_port(int fd) {
	union { struct sockaddr s; struct sockaddr_in i; struct sockaddr_in6 i6; struct sockaddr_storage st; } a;
	socklen_t l = sizeof a;
	if (getsockname(fd, &a.s, &l)) return -1;
	return ntohs(a.s.sa_family == AF_INET6 ? a.i6.sin6_port : a.i.sin_port);
}
static void sizes(conn *c, int fd) { if (c->buf) { int v = c->buf; setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &v, sizeof v); setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &v, sizeof v); } }
/* side 0 connects and says who it is */
static void *ext_end(void *arg) {
	int n = (int)(intptr_t)arg >> 1, side = (int)(intptr_t)arg & 1;
	conn *c = &C[n];
	if (side == 0 && c->kind <= K_UDS) {
		int id = n;
		c->fd[0] = raw_connect(c->kind);
		c->port = local_port(c->fd[0]);
		sizes(c, c->fd[0]);
		if (write(c->fd[0], &id, 4) != 4) vh_broken("write: %s", strerror(errno));
	}
	end_all(n, side);
	return 0;
}
static void start_end(int n, int side) {
	conn *c = &C[n];
	if (c->where[side] == W_EXT) {
		ADD(c_ext, 1);
		if (pthread_create(&c->th[side], NULL, ext_end, (void *)(intptr_t)(n << 1 | side))) vh_broken("pthread_create");
		c->hasth[side] = 1;
	} else if (c->where[side] == W_GO) { ADD(c_go, 1); go(end_task, 2, casting(n), casting(side)); }
	else async_task(end_task, 2, casting(n), casting(side));
}
static void *connect_task(param_t args) {
	int n = (int)args[0].integer, fd, id = n;
	conn *c = &C[n];
	char u[240];
	if (c->kind == K_UDS) {
		snprintf(u, sizeof u, "unix://%s", upath);
		fd = vh_rn(&(vh_rng){eseed[n][0] ^ 7}, 2) ? uds_connect(u) : async_connect(upath, 0, -1);
		VH_MUST(fd > 0, "stream:connect", "connecting to a Unix socket fails: %s", strerror(errno));
		VH_MUST(socket_is_uds(fd), "stream:uds", "socket_is_uds is false for a connected Unix socket");
	} else {
		fd = async_connect(c->kind == K_TCP6 ? "[::1]" : c->kind == K_NAME ? "localhost" : "127.0.0.1", c->kind == K_TCP6 ? port6 : port4, 1);
		VH_MUST(fd > 0, "stream:connect", "async_connect (%s) fails: %s", kname[c->kind], strerror(errno));
		VH_MUST(!socket_is_uds(fd), "stream:uds", "socket_is_uds is true for a TCP socket");
	}
	VH_MUST(fcntl(fd, F_GETFL) & O_NONBLOCK, "stream:nonblocking", "async_connect gives a blocking socket");
	{
		union { struct sockaddr s; struct sockaddr_storage st; } a; socklen_t l = sizeof a;
		VH_MUST(getpeername(fd, &a.s, &l) == 0, "stream:connect", "async_connect gives a socket which is not connected: %s", strerror(errno));
	}
	c->fd[0] = fd; if (c->kind != K_UDS) c->port = local_port(fd);
	sizes(c, fd);
	VH_MUST(async_write(fd, &id, 4) == 4, "stream:write-count", "async_write of 4 bytes fails: %s", strerror(errno));
	if (c->where[0] == W_GO) start_end(n, 0); else end_all(n, 0);
	return 0;
}
/* serves one accepted connection */
static void *accepted_task(param_t args) {
	int fd = (int)args[0].integer, port = (int)args[1].integer, kind = (int)args[2].integer, id = -1, m, t = 0;
	conn *c;
	while (t < 4) {
		m = async_read(fd, (char *)&id + t, 4 - t);
		if (m <= 0) vh_fatal("stream:end", "%s: %d of 4 bytes of a new connection, then %s", kname[kind], t, m ? strerror(errno) : "its end");
		t += m;
	}
	if (id < 0 || id >= nC || listener(C[id].kind) != listener(kind)) vh_fatal("stream:content", "%s: the first bytes of a connection are %d", kname[kind], id);
	c = &C[id];
	if (ADD(accepted[id], 1)) vh_fatal("stream:accept-twice", "a connection was accepted twice");
	if (kind != K_UDS && port != c->port) vh_fatal("stream:accept-port", "%s: async_accept gives port %d, the other side has %d", kname[kind], port, c->port);
	c->fd[1] = fd;
	sizes(c, fd);
	if (c->where[1] == W_TASK) end_all(id, 1);
	else {
		if (c->where[1] == W_EXT) fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) & ~O_NONBLOCK);
		start_end(id, 1);
	}
	return 0;
}
/* the same as a handler given to uds_handler() or accept_handler() */
static long c_hand, c_acc;
static void served(int fd, int kind) {
	int id = -1, m, t = 0, port;
	conn *c;
	union { struct sockaddr s; struct sockaddr_in i; struct sockaddr_in6 i6; struct sockaddr_storage st; } p; socklen_t pl = sizeof p;
	if (fcntl(fd, F_GETFD) < 0) vh_fatal("stream:handler", "%s: the handler of a connection gets %d, which is not open", kname[kind], fd);
	while (t < 4) {
		m = async_read(fd, (char *)&id + t, 4 - t);
		if (m <= 0) vh_fatal("stream:end", "%s: %d of 4 bytes of a new connection, then %s", kname[kind], t, m ? strerror(errno) : "its end");
		t += m;
	}
	if (id < 0 || id >= nC || (C[id].kind == K_UDS) != (kind == K_UDS)) vh_fatal("stream:content", "%s: the first bytes of a connection are %d", kname[kind], id);
	c = &C[id];
	if (ADD(accepted[id], 1)) vh_fatal("stream:accept-twice", "a connection was accepted twice");
	if (kind != K_UDS && getpeername(fd, &p.s, &pl) == 0 && (port = ntohs(p.s.sa_family == AF_INET6 ? p.i6.sin6_port : p.i.sin_port)) != c->port) vh_fatal("stream:accept-port", "%s: the peer of the handler's connection has port %d instead of %d", kname[kind], port, c->port);
	ADD(c_hand, 1);
	c->fd[1] = fd; c->where[1] = W_TASK; c->viah = 1;
	sizes(c, fd);
	end_all(id, 1);
	while (!c->hdone) yield();
}
static int served_uds(int fd) { served(fd, K_UDS); return 0; }
static void served_tcp(int fd) { served(fd, K_TCP4); }
static void *acceptor(param_t args) {
	int kind = (int)args[0].integer, k = (int)args[1].integer, i;
	for (i = 0; i < k; i++) {
		struct { char pre[8], s[128], post[8]; } a;
		int port = -1, fd, l = kind == K_UDS ? 108 : 16;
		memset(&a, 0x5a, sizeof a);
		if (vh_p(20)) delay(1 + vh_n(5));	/* meanwhile more of them wait to be accepted */
		if (kind == K_UDS && vh_p(50)) fd = uds_accept(lfdu, i & 1 ? NULL : a.s);
		else fd = async_accept(listener(kind), i & 1 ? NULL : a.s, i & 2 ? NULL : &port);
		VH_MUST(fd > 0, "stream:accept", "async_accept (%s) fails: %s", kname[kind], strerror(errno));
		VH_MUST(fcntl(fd, F_GETFL) & O_NONBLOCK, "stream:nonblocking", "async_accept gives a blocking socket");
		if (!(i & 1)) {
			{ int x; for (x = 0; x < 8; x++) if (a.pre[x] != 0x5a || a.s[l + x] != 0x5a) vh_fatal("stream:accept-buffer", "async_accept writes beyond the %d bytes of the address", l); }
			if (kind != K_UDS && strcmp(a.s, kind == K_TCP6 ? "::1" : "127.0.0.1")) vh_fatal("stream:accept-address", "%s: async_accept gives address \"%.20s\"", kname[kind], a.s);
		}
		if (i & 2 && kind != K_UDS) {
			union { struct sockaddr s; struct sockaddr_in i; struct sockaddr_in6 i6; struct sockaddr_storage st; } p; socklen_t pl = sizeof p;
			if (getpeername(fd, &p.s, &pl) == 0) port = ntohs(p.s.sa_family == AF_INET6 ? p.i6.sin6_port : p.i.sin_port);
		}
		if (vh_p(30)) { if (kind == K_UDS) uds_handler((uds_unix_cb)served_uds, fd); else accept_handler((client_cb)served_tcp, fd); continue; }
		async_task(accepted_task, 3, casting(fd), casting(port), casting(kind));
	}
	return 0;
}
static void on_sig(int sig, int ev, void *arg) { int i; (void)ev; (void)arg; for (i = 0; i < 4; i++) if (SIGS[i] == sig) sigs[i]++; }
static void *ticker(param_t args) { (void)args; while (ticking) { ticks++; if (ticks & 7) yield(); else delay(1); } return 0; }
static int nfds(void) {
	int n = 0;
	DIR *d = opendir("/proc/self/fd");
	while (d && readdir(d)) n++;
	if (d) closedir(d);
	return n;
}
/* connections that have to fail */
static void refused(void) {
	int fd, e, s;
	struct sockaddr_in a;
	socklen_t l = sizeof a;
	char p[240];
	s = socket(AF_INET, SOCK_STREAM, 0);
	memset(&a, 0, sizeof a);
	a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (bind(s, (struct sockaddr *)&a, sizeof a) || getsockname(s, (struct sockaddr *)&a, &l)) vh_broken("bind: %s", strerror(errno));
	errno = 0;
	fd = async_connect("127.0.0.1", ntohs(a.sin_port), 1); e = errno;
	VH_MUST(fd == -1, "stream:refused", "async_connect to a port nobody listens on gives %d", fd);
	VH_MUST(e == ECONNREFUSED, "stream:refused-errno", "async_connect to a port nobody listens on: errno is %d (%s) instead of ECONNREFUSED", e, strerror(e));
	close(s);
	snprintf(p, sizeof p, "%s/none", vh_dir());
	errno = 0;
	fd = async_connect(p, 0, -1); e = errno;
	VH_MUST(fd == -1 && e == ENOENT, "stream:refused-errno", "async_connect to a Unix socket which is not there gives %d, errno %d (%s)", fd, e, strerror(e));
	errno = 0;
	fd = async_bind(have6 && vh_p(40) ? "[::1]" : "127.0.0.1", have6 ? port6 : port4, 5, 1); e = errno;
	if (fd > 0) os_close(fd);	/* the other family is free */
	fd = async_bind("127.0.0.1", port4, 5, 1); e = errno;
	VH_MUST(fd == -1 && e == EADDRINUSE, "stream:bind-used", "async_bind to an address in use gives %d, errno %d (%s)", fd, e, strerror(e));
	ADD(c_ref, 3);
}
static void set_up(void) {
	int s;
	if ((s = socket(AF_INET6, SOCK_STREAM, 0)) >= 0) {
		struct sockaddr_in6 a;
		memset(&a, 0, sizeof a); a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback;
		have6 = bind(s, (struct sockaddr *)&a, sizeof a) == 0;
		close(s);
	}
	VH_MUST((lfd4 = async_bind(vh_p(50) ? NULL : vh_p(50) ? "127.0.0.1:0" : "0.0.0.0:0", 0, 128, 1)) > 0, "stream:bind", "async_bind fails: %s", strerror(errno));
	port4 = local_port(lfd4);
	if (have6) {
		VH_MUST((lfd6 = async_bind("[::1]:0", 0, 128, 1)) > 0, "stream:bind", "async_bind to an IPv6 address fails: %s", strerror(errno));
		port6 = local_port(lfd6);
	}
	snprintf(upath, sizeof upath, "%s/sock", vh_dir());
	VH_MUST((lfdu = uds_bind(upath, vh_p(60) ? (int)vh_n(3) : 128)) > 0, "stream:bind", "uds_bind fails: %s", strerror(errno));
	VH_MUST(socket_is_uds(lfdu) && !socket_is_uds(lfd4), "stream:uds", "socket_is_uds is wrong for listening sockets");
}
static void *run(param_t args) {
	long c;
	int i, j, n, base;
	try { errno = 0; } catch_any { errno = 1; }	/* the library sets its signal handlers */
	signal(SIGPIPE, SIG_IGN);
	vh_case(0);
	vh_watchdog(60);
	set_up();
	for (i = 0; i < 4; i++) if (events_add(main_loop, SIGS[i], EVENTS_SIGNAL, 0, (events_cb)on_sig, NULL)) vh_fatal("failed", "events_add failed");
	ticking = 1; async_task(ticker, 0);
	for (i = 0; i < 20; i++) yield();
	base = nfds();
	for (c = 0; c < vh_cases; c++) {
		int by[K_NK] = {0};
		uint64_t t0 = vh_ns();
		vh_case(c); vh_beat();
		memset(C, 0, sizeof C); memset(accepted, 0, sizeof accepted);
		ends_done = 0;
		n = nC = 1 + (int)vh_n(vh_p(25) ? MAXC : 3);
		long budget = vh_p(10) ? 3000000 : 400000;
		csig = 1;
		for (i = 0; i < n; i++) {
			conn *k = &C[i];
			do k->kind = (int)vh_n(K_NK); while (k->kind == K_TCP6 && !have6);
			if (k->kind == K_NAME && vh_p(70)) k->kind = K_TCP4;
			for (j = 0; j < 2; j++) {
				k->where[j] = vh_p(60) ? W_TASK : vh_p(50) ? W_GO : W_EXT;
				k->slow[j] = vh_p(50) ? 0 : vh_p(60) ? 20 : 60;
				eseed[i][j] = vh_rnd();
				k->d[j].seed = vh_rnd();
				k->fd[j] = -1;
			}
			if (k->where[0] == W_EXT && k->where[1] == W_EXT) k->where[1] = W_TASK;
			k->buf = vh_p(40) ? 2048 << vh_n(5) : 0;
			k->nsteps = 1 + (int)vh_n(vh_p(30) ? MAXS : 4);
			k->closer = (int)vh_n(2);
			if (k->kind == K_PIPE) { k->closer = vh_p(100); }
			for (j = 0; j < k->nsteps; j++) {
				step *s = &k->s[j];
				s->dir = k->kind == K_PIPE ? 1 : (int)vh_n(2);
				s->n = vh_p(30) ? 1 + (long)vh_n(16) : vh_p(60) ? 1 + (long)vh_n(k->buf ? 2000 : 9000) : 1 + (long)vh_n((uint32_t)((k->buf ? 60000 : budget) / n / (1 + k->nsteps / 3)));
				if (k->where[0] != W_TASK || k->where[1] != W_TASK) { if (vh_p(30)) s->n = s->n / 4 + 1; }
				k->d[s->dir].total += s->n;
			}
			if (k->kind != K_PIPE && vh_p(25)) {	/* a reader and a writer at each end */
				k->duplex = 1;
				for (j = 0; j < 2; j++) if (k->where[j] == W_GO) k->where[j] = W_TASK;
			} else if (vh_p(12)) {	/* the reader of the last step closes early */
				step *s = &k->s[k->nsteps - 1];
				if (vh_p(60)) { k->d[s->dir].total -= s->n; s->n = 300000 + (long)vh_n(400000); k->d[s->dir].total += s->n; k->buf = 0; }
				s->early = 1; s->k = (int)vh_n((uint32_t)s->n); k->early = 1;
				if (k->kind == K_PIPE) k->closer = 0;
				k->closer = !s->dir;
			}
			if (k->kind == K_PIPE && !k->early) k->closer = 1;
			ADD(c_conn[k->kind], 1);
			csig = vh_mix(csig, (uint64_t)k->kind | (uint64_t)k->where[0] << 4 | (uint64_t)k->where[1] << 8 | (uint64_t)k->nsteps << 12 | (uint64_t)k->early << 20);
			csig = vh_mix(csig, (uint64_t)(k->d[0].total / 4096) << 20 | (uint64_t)(k->d[1].total / 4096));
			if (k->kind <= K_UDS) by[k->kind == K_NAME ? K_TCP4 : k->kind]++;
		}
		for (j = 0; j < K_NK; j++) while (by[j]) {	/* several may wait at one listener */
			int k = vh_p(50) ? by[j] : 1 + (int)vh_n((uint32_t)by[j]);
			async_task(acceptor, 2, casting(j), casting(k)); c_acc++; by[j] -= k;
		}
		for (i = 0; i < n; i++) {
			conn *k = &C[i];
			if (k->kind <= K_UDS) {
				if (k->where[0] == W_EXT) start_end(i, 0); else async_task(connect_task, 1, casting(i));
			} else {
				int f[2];
				if (k->kind == K_PAIR ? socketpair(AF_UNIX, SOCK_STREAM, 0, f) : pipe(f)) vh_broken("pipe: %s", strerror(errno));
				for (j = 0; j < 2; j++) { k->fd[j] = f[j]; if (k->where[j] != W_EXT) events_set_nonblocking(f[j]); if (k->kind == K_PAIR) sizes(k, f[j]); }
				j = (int)vh_n(2);
				start_end(i, j); start_end(i, !j);
			}
		}
		while (GET(ends_done) < 2 * n) { if (vh_p(50)) yield(); else delay(1); }
		for (i = 0; i < n; i++) {
			for (j = 0; j < 4; j++) if (C[i].hasth[j]) pthread_join(C[i].th[j], NULL);
			if (C[i].kind <= K_UDS) VH_MUST(accepted[i] == 1, "stream:accept", "connection %d was accepted %d times", i, accepted[i]);
		}
		if (vh_p(20)) refused();
		/* signals, their numbers are those of descriptors, too */
		i = (int)vh_n(4);
		{
			long s0 = sigs[i];
			uint64_t e = vh_calm() + 10000000000ull;
			raise(SIGS[i]);
			while (sigs[i] != s0 + 1) { if (sigs[i] > s0 + 1 || vh_calm() > e) vh_fatal("stream:signal", "the handler of signal %d was called %ld times for one signal", SIGS[i], sigs[i] - s0); delay(1); }
			ADD(c_sig, 1);
		}
		for (i = 0; i < 2000 && (j = nfds()) != base; i++) delay(1);
		VH_MUST(j == base, "stream:descriptors", "%d descriptors are open after all connections were closed, %d were before", j, base);
		vh_note("case %ld: %d ms", c, (int)((vh_ns() - t0) / 1000000)); for (i = 0; i < n; i++) vh_note("   %s w %d %d slow %d %d buf %d steps %d bytes %ld %ld early %d", kname[C[i].kind], C[i].where[0], C[i].where[1], C[i].slow[0], C[i].slow[1], C[i].buf, C[i].nsteps, C[i].d[0].total, C[i].d[1].total, C[i].early);
		vh_eval(1); vh_sig(csig);
		if (vh_want_sample()) vh_sample("%d connections, the first: %s, %d steps, %ld and %ld bytes, ends %d %d%s", n, kname[C[0].kind], C[0].nsteps, C[0].d[0].total, C[0].d[1].total, C[0].where[0], C[0].where[1], C[0].early ? ", closed early" : "");
	}
	ticking = 0;
	for (i = 0; i < K_NK; i++) { char b[40]; snprintf(b, sizeof b, "connections: %s", kname[i]); vh_count(strdup(b), c_conn[i]); }
	vh_count("tasks that accepted", c_acc); vh_count("connections given to a handler", c_hand); vh_count("bytes received", c_bytes); vh_count("reads", c_reads); vh_count("async_read2", c_read2); vh_count("writes", c_writes); vh_count("ends of streams seen", c_eof); vh_count("closed early", c_early); vh_count("ends with a task for each direction", c_duplex); vh_count("signals", c_sig); vh_count("writes that failed", c_epipe);
	vh_count("ends in threads of the driver", c_ext); vh_count("ends in tasks of the pool", c_go); vh_count("failed connections and binds", c_ref); vh_count("waits for other tasks", c_tickwait); vh_count("ticks", ticks);
	vh_exit();
	return 0;
}
int main(int argc, char **argv) {
	vh_init(argc, argv);
	vh_dir();
	if (&vj_rate) vj_rate = (int)vh_arg("jitter", 30);
	if (events_init(1024)) vh_fatal("failed", "events_init failed");
	events_set_main((main_cb)run);
	events_t *loop = main_loop = events_init_pool((uint32_t)vh_arg("pool", 2));
	async_task(run, 0);
	async_run(loop);
	vh_fatal("main-lost", "the scheduler returned before the main task ended");
	return 0;
}
