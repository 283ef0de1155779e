/* C15: datagrams. Several peers (tasks, tasks of pool threads, threads with system calls) send requests
 * of all sizes to a server of one to three receiving tasks, which replies at once, later or from a handler task. */
#include <events.h>
#include <except.h>
#include "vh.h"
#include "ev.h"
#include <poll.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <dirent.h>
#define MAXP 10
#define MAXR 40
extern int vj_rate __attribute__((weak));
void *events_malloc(size_t);
void events_free(void *);
enum { P_BIND, P_CONNECT, P_GO, P_EXT, P_NK };
typedef struct { uint32_t peer, seq, len, sum; } hdr;
typedef struct { int kind, n, window, big, port, fam, done, started, got; int len[MAXR], state[MAXR], rlen[MAXR]; uint64_t seed; pthread_t th; int hasth; } peer;	/* state: 1 sent, 2 received, 3 replied, 4 reply received */
static peer P[MAXP];
static int nP, sfd, sport, fam, todo, nrecv, srv_go, srv_done, peers_done, empties, empties_got, have6, naccepted, served;
static uint64_t cseed;
static volatile long ticks;
static volatile int ticking;
static char saddr[64];
static long c_req, c_rep, c_kind[P_NK], c_big, c_empty, c_handler, c_later, c_short, c_v6, c_multi, c_max, c_bytes, c_srvgo;
#define ADD(x, n) __atomic_fetch_add(&(x), (n), __ATOMIC_SEQ_CST)
#define GET(x) __atomic_load_n(&(x), __ATOMIC_SEQ_CST)
static void fill(unsigned char *b, int len, uint32_t p, uint32_t q, uint64_t seed, int reply) {
	hdr h = {p, q, (uint32_t)len, reply ? 0x5eed : 0xcafe};
	int i;
	if (len < (int)sizeof h) vh_broken("fill");
	memcpy(b, &h, sizeof h);
	seed = vh_mix(vh_mix(seed, q), (uint64_t)reply);
	for (i = sizeof h; i < len; i += 8) { uint64_t w = vh_mix(seed, (uint64_t)i); memcpy(b + i, &w, (size_t)(len - i < 8 ? len - i : 8)); }
}
static void same(const unsigned char *b, int len, uint32_t p, uint32_t q, uint64_t seed, int reply, int upto, const char *what) {
	static __thread unsigned char *x;
	int i;
	if (!x) x = malloc(70000);
	fill(x, len, p, q, seed, reply);
	if (memcmp(x, b, (size_t)upto)) { for (i = 0; i < upto && x[i] == b[i]; i++); vh_fatal("udp:content", "%s: byte %d of a datagram of %d bytes is 0x%02x instead of 0x%02x", what, i, len, b[i], x[i]); }
	ADD(c_bytes, upto);
}
static int free_port(int f) {
	union { struct sockaddr s; struct sockaddr_in i; struct sockaddr_in6 i6; } a;
	socklen_t l;
	int s = socket(f, SOCK_DGRAM, 0), p;
	memset(&a, 0, sizeof a);
	a.s.sa_family = (sa_family_t)f;
	if (f == AF_INET) { a.i.sin_addr.s_addr = htonl(INADDR_LOOPBACK); l = sizeof a.i; } else { a.i6.sin6_addr = in6addr_loopback; l = sizeof a.i6; }
	if (s < 0 || bind(s, &a.s, l) || getsockname(s, &a.s, &l)) { if (s >= 0) close(s); return -1; }
	p = ntohs(f == AF_INET ? a.i.sin_port : a.i6.sin6_port);
	close(s);
	return p;
}
static void rcvbuf(int fd) { int v = 400000; setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &v, sizeof v); }
static char *address(char *b, size_t n, int f, int port, uint64_t r) {
	const char *pre = r & 1 ? "udp://" : "";
	if (f == AF_INET6) snprintf(b, n, "%s[::1]:%d", pre, port);
	else snprintf(b, n, "%s%s:%d", pre, (r >> 1) % 6 == 0 ? "localhost" : "127.0.0.1", port);
	return b;
}
/* a socket of the library on a free port */
static int lib_bind(int f, int *port, uint64_t r) {
	int i, fd;
	char a[64];
	for (i = 0; i < 50; i++) {
		*port = free_port(f);
		errno = 0;
		fd = udp_bind(address(a, sizeof a, f, *port, r), 0);
		if (fd > 0) {
			VH_MUST(socket_is_udp(fd), "udp:is-udp", "socket_is_udp is false for a socket of udp_bind");
			rcvbuf(fd);
			return fd;
		}
		if (errno != EADDRINUSE) vh_fatal("udp:bind", "udp_bind(\"%s\") fails: %s", a, strerror(errno));
	}
	vh_broken("no free port");
}
/* what the server does with a packet */
static void serve(udp_t p, vh_rng *r) {
	unsigned char *m;
	hdr h;
	peer *q;
	int len = (int)udp_length(p), rl, n;
	static __thread unsigned char *out;
	if (!out) out = malloc(70000);
	m = (unsigned char *)udp_message(p);
	if (!m) vh_fatal("udp:message", "udp_message of a packet of %d bytes is null", len);
	if (len == 0) {
		if (ADD(empties_got, 1) >= GET(empties)) vh_fatal("udp:invented", "an empty datagram was received that was not sent");
		ADD(c_empty, 1);
		return;
	}
	if (len < (int)sizeof h) vh_fatal("udp:length", "a datagram of %d bytes was received, none was sent", len);
	memcpy(&h, m, sizeof h);
	if (h.peer >= (uint32_t)nP || h.seq >= (uint32_t)P[h.peer].n || h.sum != 0xcafe) vh_fatal("udp:content", "a datagram of %d bytes says it is number %u of peer %u", len, h.seq, h.peer);
	q = &P[h.peer];
	if (len != q->len[h.seq]) vh_fatal("udp:length", "datagram %u of peer %u has %d bytes, %d were sent", h.seq, h.peer, len, q->len[h.seq]);
	same(m, len, h.peer, h.seq, q->seed, 0, len, "server");
	if (m[len]) vh_fatal("udp:message-end", "no zero follows the message of %d bytes", len);
	if (!__atomic_compare_exchange_n(&q->state[h.seq], &(int){1}, 2, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) vh_fatal("udp:twice", "datagram %u of peer %u is received in state %d", h.seq, h.peer, q->state[h.seq]);
	if (udp_flags(p) != 0) vh_fatal("udp:flags", "the flags of a packet are %u", udp_flags(p));
	if (vh_rn(r, 3) == 0) {
		const char *ip = udp_ip(p);
		if (!ip || strcmp(ip, fam == AF_INET6 ? "::1" : "127.0.0.1")) vh_fatal("udp:ip", "udp_ip gives \"%s\"", ip ? ip : "(null)");
	}
	rl = q->rlen[h.seq];
	fill(out, rl, h.peer, h.seq, q->seed, 1);
	if (!__atomic_compare_exchange_n(&q->state[h.seq], &(int){2}, 3, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) vh_fatal("udp:twice", "datagram %u of peer %u is replied to twice", h.seq, h.peer);
	n = udp_send(p, out, rl);
	if (n != rl) vh_fatal("udp:send", "udp_send of %d bytes gives %d (%s)", rl, n, strerror(errno));
	ADD(c_req, 1); vh_beat();
}
static void handler(udp_t p) {
	vh_rng r = {(uint64_t)udp_length(p) | 1};
	if (vh_rn(&r, 2)) yield();
	if (vh_rn(&r, 3) == 0) delay(vh_rn(&r, 3));
	serve(p, &r);
}
static int ticket(void) {
	int n = GET(naccepted);
	while (n < GET(todo)) if (__atomic_compare_exchange_n(&naccepted, &n, n + 1, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return 1;
	return 0;
}
static void *receiver(param_t args) {
	int k = (int)args[0].integer, nk = 0, i;
	vh_rng r = {vh_mix(cseed, (uint64_t)k) | 1};
	udp_t keep[6];
	for (;;) {
		udp_t p;
		if (nk && (vh_rn(&r, 3) == 0 || nk == 6 || GET(naccepted) >= GET(todo))) {
			i = (int)vh_rn(&r, (uint32_t)nk);
			p = keep[i]; keep[i] = keep[--nk];
			serve(p, &r); ADD(c_later, 1);
			events_free(p);
			continue;
		}
		/* take a ticket: as many calls of udp_recv as there are datagrams */
		if (!ticket()) break;
		/* what is kept here may be what a peer waits for */
		while (nk) { p = keep[--nk]; serve(p, &r); events_free(p); }
		errno = 0;
		p = udp_recv(sfd);
		if (!p) vh_fatal("udp:recv", "udp_recv gives null: %s", strerror(errno));
		/* more may be there already: keep this one, reply after the others */
		while (vh_rn(&r, 2) && nk < 5) {
			struct pollfd f = {sfd, POLLIN, 0};
			udp_t o;
			if (nrecv > 1 || poll(&f, 1, 0) != 1 || !ticket()) break;
			if (!(o = udp_recv(sfd))) vh_fatal("udp:recv", "udp_recv gives null: %s", strerror(errno));
			keep[nk++] = p; p = o;
		}
		switch (vh_rn(&r, 3)) {
			case 0: udp_handler((udp_packet_cb)handler, p); ADD(c_handler, 1); break;
			case 1: keep[nk++] = p; break;
			default: serve(p, &r); events_free(p); break;
		}
		while (nk > 5) { p = keep[--nk]; serve(p, &r); events_free(p); }
		if (vh_rn(&r, 8) == 0) delay(vh_rn(&r, 3));
		ADD(served, 1);
	}
	while (nk) { udp_t p = keep[--nk]; serve(p, &r); events_free(p); }
	ADD(srv_done, 1);
	return 0;
}
static void *server(param_t args) {
	int i;
	(void)args;
	sfd = lib_bind(fam, &sport, cseed);
	address(saddr, sizeof saddr, fam, sport, cseed >> 7);
	for (i = 1; i < nrecv; i++) async_task(receiver, 1, casting(i));
	__atomic_store_n(&srv_done, 0, __ATOMIC_SEQ_CST);
	receiver(args);
	while (GET(srv_done) < nrecv || GET(peers_done) < nP) delay(1);
	{	/* nothing else came */
		struct pollfd f = {sfd, POLLIN, 0};
		if (poll(&f, 1, 0) > 0 && f.revents & POLLIN) vh_fatal("udp:left", "a datagram is left in the socket of the server after as many calls of udp_recv as were sent");
	}
	os_close(sfd);
	__atomic_store_n(&srv_done, 100, __ATOMIC_SEQ_CST);
	return 0;
}
static int peer_send(peer *p, int fd, unsigned char *b, int n) {
	if (p->kind == P_EXT) { int m; do m = (int)send(fd, b, (size_t)n, 0); while (m < 0 && errno == EINTR); return m; }
	return async_sendto(fd, b, n);
}
static void peer_body(int k, int fd) {
	peer *p = &P[k];
	vh_rng r = {p->seed | 1};
	unsigned char *b = malloc(70000);
	int sent = 0, got = 0, n, m, cap;
	while (got < p->n) {
		while (sent < p->n && sent - got < p->window && (sent == got || vh_rn(&r, 4))) {
			if (vh_rn(&r, 12) == 0 && !p->big) {
				ADD(todo, 1); ADD(empties, 1);
				if ((n = peer_send(p, fd, b, 0)) != 0) vh_fatal("udp:send", "sending an empty datagram gives %d (%s)", n, strerror(errno));
			}
			fill(b, p->len[sent], (uint32_t)k, (uint32_t)sent, p->seed, 0);
			__atomic_store_n(&p->state[sent], 1, __ATOMIC_SEQ_CST);
			n = peer_send(p, fd, b, p->len[sent]);
			if (n != p->len[sent]) vh_fatal("udp:send", "async_sendto of %d bytes gives %d (%s)", p->len[sent], n, strerror(errno));
			sent++;
		}
		cap = vh_rn(&r, 6) ? 66000 : 16 + (int)vh_rn(&r, 3000);
		memset(b + cap, 0x77, 8);
		errno = 0;
		if (p->kind == P_EXT) do m = (int)recv(fd, b, (size_t)cap, 0); while (m < 0 && errno == EINTR);
		else if (cap == 66000 && vh_rn(&r, 4) == 0) {
			udp_t u = udp_recv(fd);
			if (!u) vh_fatal("udp:recv", "udp_recv gives null: %s", strerror(errno));
			m = (int)udp_length(u);
			if (m > cap) vh_fatal("udp:length", "udp_length is %d", m);
			memcpy(b, udp_message(u), (size_t)m);
			if (strcmp(udp_ip(u), fam == AF_INET6 ? "::1" : "127.0.0.1")) vh_fatal("udp:ip", "udp_ip gives \"%s\"", udp_ip(u));
			events_free(u);
		} else m = async_recvfrom(fd, b, cap, 0);
		if (m < (int)sizeof(hdr)) vh_fatal("udp:recv", "async_recvfrom gives %d (%s)", m, m < 0 ? strerror(errno) : "");
		if (m > cap || b[cap] != 0x77 || b[cap + 7] != 0x77) vh_fatal("udp:overrun", "async_recvfrom of %d bytes gives %d or writes beyond them", cap, m);
		{
			hdr h;
			int e;
			memcpy(&h, b, sizeof h);
			if (h.sum != 0x5eed || h.peer >= (uint32_t)nP) vh_fatal("udp:content", "a reply says it is for number %u of peer %u", h.seq, h.peer);
			if (h.peer != (uint32_t)k) vh_fatal("udp:wrong-peer", "peer %d received the reply to a datagram of peer %u", k, h.peer);
			if (h.seq >= (uint32_t)p->n) vh_fatal("udp:content", "a reply says it is for number %u", h.seq);
			e = p->rlen[h.seq];
			if (m != (e < cap ? e : cap)) vh_fatal("udp:length", "a reply of %d bytes was received as %d (room for %d)", e, m, cap);
			if (e > cap) ADD(c_short, 1);
			same(b, e, (uint32_t)k, h.seq, p->seed, 1, m, "peer");
			if (!__atomic_compare_exchange_n(&p->state[h.seq], &(int){3}, 4, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) vh_fatal("udp:twice", "the reply to datagram %u is received in state %d", h.seq, p->state[h.seq]);
		}
		got++; ADD(c_rep, 1); vh_beat();
		if (p->kind != P_EXT && vh_rn(&r, 4) == 0) yield();
	}
	free(b);
}
static void *peer_task(param_t args) {
	int k = (int)args[0].integer, fd;
	peer *p = &P[k];
	char a[64];
	if (p->kind == P_CONNECT) {
		fd = udp_connect(saddr);
		VH_MUST(fd > 0, "udp:connect", "udp_connect fails: %s", strerror(errno));
		rcvbuf(fd);
		if (p->seed & 4) udp_to(fd, saddr, 0);
	} else {
		fd = lib_bind(fam, &p->port, p->seed);
		udp_to(fd, address(a, sizeof a, fam, sport, p->seed >> 9), 0);
		if (p->seed & 8 && udp_broadcast_set(fd)) vh_fatal("udp:broadcast", "udp_broadcast_set fails: %s", strerror(errno));
	}
	VH_MUST(socket_is_udp(fd), "udp:is-udp", "socket_is_udp is false for a UDP socket");
	peer_body(k, fd);
	os_close(fd);
	ADD(peers_done, 1);
	return 0;
}
static void *peer_ext(void *arg) {
	int k = (int)(intptr_t)arg, fd = socket(fam, SOCK_DGRAM, 0);
	union { struct sockaddr s; struct sockaddr_in i; struct sockaddr_in6 i6; } a;
	socklen_t l;
	memset(&a, 0, sizeof a);
	a.s.sa_family = (sa_family_t)fam;
	if (fam == AF_INET) { a.i.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.i.sin_port = htons((uint16_t)sport); l = sizeof a.i; }
	else { a.i6.sin6_addr = in6addr_loopback; a.i6.sin6_port = htons((uint16_t)sport); l = sizeof a.i6; }
	if (fd < 0 || connect(fd, &a.s, l)) vh_broken("connect: %s", strerror(errno));
	rcvbuf(fd);
	peer_body(k, fd);
	close(fd);
	ADD(peers_done, 1);
	return 0;
}
static void *ticker(param_t args) { (void)args; while (ticking) { ticks++; if (ticks & 7) yield(); else delay(1); } return 0; }
static int nfds(void) {
	int n = 0;
	DIR *d = opendir("/proc/self/fd");
	while (d && readdir(d)) n++;
	if (d) closedir(d);
	return n;
}
static void *run(param_t args) {
	long c;
	int i, j, base;
	(void)args;
	try { errno = 0; } catch_any { errno = 1; }
	vh_case(0); vh_watchdog(60);
	have6 = free_port(AF_INET6) > 0;
	ticking = 1; async_task(ticker, 0);
	for (i = 0; i < 20; i++) yield();
	base = nfds();
	for (c = 0; c < vh_cases; c++) {
		uint64_t sig = 1;
		int big = 0;
		vh_case(c); vh_beat();
		memset(P, 0, sizeof P);
		cseed = vh_rnd(); fam = have6 && vh_p(35) ? AF_INET6 : AF_INET;
		if (fam == AF_INET6) c_v6++;
		nP = 1 + (int)vh_n(vh_p(40) ? MAXP : 4); nrecv = vh_p(70) ? 1 : 2 + (int)vh_n(2);
		if (nrecv > 1) c_multi++;
		srv_go = nrecv == 1 && vh_p(30); c_srvgo += srv_go;
		todo = 0; peers_done = 0; empties = empties_got = 0; naccepted = 0; served = 0; srv_done = -1; sport = 0;
		for (i = 0; i < nP; i++) {
			peer *p = &P[i];
			p->kind = (int)vh_n(P_NK); p->seed = vh_rnd(); c_kind[p->kind]++;
			p->n = 1 + (int)vh_n(vh_p(30) ? MAXR : 6);
			p->big = big < 2 && vh_p(25); big += p->big;
			p->window = p->big ? 1 : 1 + (int)vh_n(7);
			for (j = 0; j < p->n; j++) {
				p->len[j] = 16 + (int)vh_n(vh_p(20) ? 1 : 900); p->rlen[j] = 16 + (int)vh_n(900);
				if (p->big) { p->len[j] = vh_p(15) ? 65507 : vh_p(50) ? 16 + (int)vh_n(65492) : 40000 + (int)vh_n(25508); p->rlen[j] = vh_p(40) ? 65507 : 16 + (int)vh_n(65492); c_big++; }
			}
			todo += p->n;
			sig = vh_mix(sig, (uint64_t)p->kind | (uint64_t)p->n << 3 | (uint64_t)p->window << 10 | (uint64_t)(p->big ? p->len[0] : 0) << 20);
		}
		for (i = 0; i < nP; i++) if (P[i].n > c_max) c_max = P[i].n;
		if (srv_go) go(server, 1, casting(0)); else async_task(server, 1, casting(0));
		while (GET(srv_done) < 0) delay(1);
		for (i = 0; i < nP; i++) {
			peer *p = &P[i];
			if (p->kind == P_EXT) { if (pthread_create(&p->th, NULL, peer_ext, (void *)(intptr_t)i)) vh_broken("pthread_create"); p->hasth = 1; }
			else if (p->kind == P_GO) go(peer_task, 1, casting(i));
			else async_task(peer_task, 1, casting(i));
		}
		while (GET(srv_done) != 100) { if (vh_p(50)) yield(); else delay(1); }
		for (i = 0; i < nP; i++) {
			if (P[i].hasth) pthread_join(P[i].th, NULL);
			for (j = 0; j < P[i].n; j++) if (P[i].state[j] != 4) vh_fatal("udp:lost", "datagram %d of peer %d ended in state %d", j, i, P[i].state[j]);
		}
		for (i = 0; i < 2000 && (j = nfds()) != base; i++) delay(1);
		VH_MUST(j == base, "udp:descriptors", "%d descriptors are open at the end, %d were before", j, base);
		if (vh_p(10)) {	/* the number of a UDP socket is used again */
			int a = async_bind("127.0.0.1:0", 0, 5, 1);
			VH_MUST(a > 0 && !socket_is_udp(a) && !socket_is_uds(a), "udp:is-udp", "socket_is_udp or socket_is_uds is true for a TCP socket");
			os_close(a);
		}
		vh_eval(1); vh_sig(sig);
		if (vh_want_sample()) vh_sample("%d peers, %d receivers, %d datagrams, the first of %d bytes%s", nP, nrecv, todo, P[0].len[0], fam == AF_INET6 ? ", IPv6" : "");
	}
	ticking = 0;
	vh_count("requests", c_req); vh_count("replies", c_rep); vh_count("large datagrams", c_big); vh_count("empty datagrams", c_empty); vh_count("handled in tasks of their own", c_handler); vh_count("answered after others", c_later);
	vh_count("replies cut to the buffer", c_short); vh_count("cases with IPv6", c_v6); vh_count("cases with several receivers", c_multi); vh_count("servers in the pool", c_srvgo); vh_count("peers: bound", c_kind[P_BIND]); vh_count("peers: connected", c_kind[P_CONNECT]); vh_count("peers: in the pool", c_kind[P_GO]); vh_count("peers: threads of the driver", c_kind[P_EXT]); vh_count("bytes", c_bytes); vh_count("ticks", ticks);
	vh_exit();
	return 0;
}
int main(int argc, char **argv) {
	vh_init(argc, argv);
	if (&vj_rate) vj_rate = (int)vh_arg("jitter", 30);
	if (events_init(1024)) vh_fatal("failed", "events_init failed");
	events_set_main((main_cb)run);
	events_t *loop = events_init_pool((uint32_t)vh_arg("pool", 2));
	async_task(run, 0);
	async_run(loop);
	vh_fatal("main-lost", "the scheduler returned before the main task ended");
	return 0;
}
