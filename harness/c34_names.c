/* C34: names and addresses looked up by many tasks at once, against getaddrinfo, getnameinfo and /etc/hosts. */
#include <events.h>
#include <except.h>
#include <netdb.h>
#include <arpa/inet.h>
#include "vh.h"
#include "ev.h"
typedef struct { vh_rng r; int ops; uint64_t sig; } user;
static user U[40];
static int done_;
static long c_ai, c_aifail, c_ni, c_nifail, c_hn, c_hnfail, c_held, c_pton, c_ticks, c_list;
static volatile long ticks;
static int ticking;
#define MAXH 64
static char *hosts[MAXH];
static int nhosts;
static const char *numeric[] = { "127.0.0.1", "0.0.0.0", "255.255.255.255", "10.1.2.3", "192.168.77.254", "1.2.3", "0x7f.1", "::1", "::", "fe80::1", "2001:db8::ff00:42:8329", "::ffff:1.2.3.4" };
static const char *bad[] = { "256.1.1.1", "1.2.3.4.5", ":::", "12345::", "", "x y", "1.2.3.4 ", "[::1]" };
static const char *services[] = { "80", "0", "65535", "http", "domain", "ssh", "ntp", "nosuchservice", "65536", "-1", "" };
#define N(a) (sizeof(a) / sizeof *(a))
static uint32_t rn(user *u, uint32_t n) { return vh_rn(&u->r, n); }
static int numeric_text(const char *s) { return !s[strspn(s, "0123456789abcdefABCDEFx.:")]; }
/* no name that would be asked for on the network */
static const char *name(user *u, int *num) {
	uint32_t k = rn(u, 10);
	*num = 1;
	if (k < 5 && nhosts) { *num = 0; return hosts[rn(u, (uint32_t)nhosts)]; }
	if (k < 9) return numeric[rn(u, N(numeric))];
	return bad[rn(u, N(bad))];
}
static void op_addrinfo(user *u) {
	struct addrinfo h, *hp, *a = 0, *b = 0, *x, *y;
	const char *n, *s;
	int num, ra, rb, null_n, null_s;
	memset(&h, 0, sizeof h);
	n = name(u, &num);
	s = services[rn(u, N(services))];
	null_n = rn(u, 8) == 0; null_s = !null_n && rn(u, 3) == 0;
	if (null_n) { n = 0; if (!*s) s = "80"; }
	if (null_s) s = 0;
	h.ai_family = rn(u, 2) ? AF_UNSPEC : rn(u, 2) ? AF_INET : AF_INET6;
	h.ai_socktype = rn(u, 3) ? 0 : rn(u, 2) ? SOCK_STREAM : SOCK_DGRAM;
	h.ai_flags = (rn(u, 2) ? AI_PASSIVE : 0) | (rn(u, 4) ? 0 : AI_CANONNAME) | (rn(u, 4) ? 0 : AI_NUMERICSERV);
	/* only what is in /etc/hosts for IPv4 stays off the network */
	if (n && num) h.ai_flags |= AI_NUMERICHOST;
	else if (n) h.ai_family = AF_INET;
	if (!n) h.ai_flags &= ~AI_CANONNAME;
	hp = rn(u, 8) || h.ai_flags || h.ai_family || h.ai_socktype ? &h : NULL;
	rb = getaddrinfo(n, s, hp, &b);
	ra = async_getaddrinfo(n, s, hp, &a);
	c_ai++; c_aifail += !!rb;
	if (ra != rb) vh_fatal("names:addrinfo", "async_getaddrinfo(%s, %s) gives %d instead of %d", n ? n : "NULL", s ? s : "NULL", ra, rb);
	u->sig = vh_mix(u->sig, (uint64_t)rb + 100);
	if (rb) return;
	for (x = a, y = b; x && y; x = x->ai_next, y = y->ai_next) {
		c_list++;
		if (x->ai_family != y->ai_family || x->ai_socktype != y->ai_socktype || x->ai_protocol != y->ai_protocol || x->ai_flags != y->ai_flags || x->ai_addrlen != y->ai_addrlen
			|| memcmp(x->ai_addr, y->ai_addr, y->ai_addrlen) || !x->ai_canonname != !y->ai_canonname || (y->ai_canonname && strcmp(x->ai_canonname, y->ai_canonname)))
			vh_fatal("names:addrinfo", "async_getaddrinfo(%s, %s) gives another address", n ? n : "NULL", s ? s : "NULL");
		u->sig = vh_mix(u->sig, (uint64_t)y->ai_family * 8 + (uint64_t)y->ai_socktype);
	}
	if (x || y) vh_fatal("names:addrinfo", "async_getaddrinfo(%s, %s) gives %s addresses", n ? n : "NULL", s ? s : "NULL", x ? "more" : "fewer");
	freeaddrinfo(a); freeaddrinfo(b);
}
static void op_nameinfo(user *u) {
	union { struct sockaddr sa; struct sockaddr_in i4; struct sockaddr_in6 in6; } sa;
	char h1[300], h2[300], s1[60], s2[60];
	socklen_t len, hl = rn(u, 4) ? 200 : rn(u, 20), sl = rn(u, 4) ? 32 : rn(u, 6);
	int ra, rb, fl = NI_NUMERICHOST | (rn(u, 2) ? NI_NUMERICSERV : 0) | (rn(u, 2) ? NI_DGRAM : 0), i;
	memset(&sa, 0, sizeof sa); memset(h1, 7, 300); memset(h2, 7, 300); memset(s1, 7, 60); memset(s2, 7, 60);
	if (rn(u, 2)) {
		sa.i4.sin_family = AF_INET; len = sizeof sa.i4;
		sa.i4.sin_addr.s_addr = (uint32_t)vh_rr(&u->r); sa.i4.sin_port = htons(rn(u, 2) ? (uint16_t)vh_rr(&u->r) : rn(u, 2) ? 53 : 80);
		if (nhosts && rn(u, 3) == 0) { sa.i4.sin_addr.s_addr = htonl(INADDR_LOOPBACK); fl &= ~NI_NUMERICHOST; }
	} else {
		sa.in6.sin6_family = AF_INET6; len = sizeof sa.in6;
		for (i = 0; i < 16; i++) sa.in6.sin6_addr.s6_addr[i] = rn(u, 2) ? 0 : (uint8_t)vh_rr(&u->r);
		sa.in6.sin6_port = htons((uint16_t)rn(u, 1000));
	}
	if (rn(u, 20) == 0) sa.sa.sa_family = 99;
	if (rn(u, 20) == 0) len = rn(u, 16);
	if (rn(u, 10) == 0) hl = 0;
	if (hl && rn(u, 10) == 0) sl = 0;
	rb = getnameinfo(&sa.sa, len, h2, hl, s2, sl, fl);
	ra = async_getnameinfo(&sa.sa, len, h1, hl, s1, sl, fl);
	c_ni++; c_nifail += !!rb;
	if (ra != rb) vh_fatal("names:nameinfo", "async_getnameinfo gives %d instead of %d (family %d, %u and %u bytes, flags %x)", ra, rb, sa.sa.sa_family, (unsigned)hl, (unsigned)sl, fl);
	if (memcmp(h1, h2, 300) || memcmp(s1, s2, 60)) vh_fatal("names:nameinfo", "async_getnameinfo gives %.200s %.32s instead of %.200s %.32s", h1, s1, h2, s2);
	u->sig = vh_mix(u->sig, (uint64_t)rb + 7);
}
typedef struct { struct hostent *h; in_addr_t a[8]; int n; char name[120]; } held;
static void look(held *k, const char *when) {
	int i;
	if (strcasecmp(k->h->h_name, k->name) || k->h->h_addrtype != AF_INET || k->h->h_length != 4) vh_fatal("names:host", "the lookup gives name %s instead of %s %s", k->h->h_name, k->name, when);
	for (i = 0; i < k->n; i++) if (!k->h->h_addr_list[i] || memcmp(k->h->h_addr_list[i], &k->a[i], 4)) vh_fatal("names:host", "address %d of %s is not what the system gives %s", i, k->name, when);
	if (k->h->h_addr_list[k->n]) vh_fatal("names:host", "%s has more addresses than the system gives %s", k->name, when);
}
static void op_host(user *u) {
	held K[4];
	int i, n = 1 + (int)rn(u, 4), m = 0;
	for (i = 0; i < n; i++) {
		char nm[120], ip[40], *t;
		struct hostent e, *p;
		char buf[4000];
		int err;
		/* an address text is a name of its own */
		if (nhosts && rn(u, 3) == 0) snprintf(nm, 120, "%s", hosts[rn(u, (uint32_t)nhosts)]);
		else { in_addr_t a = (in_addr_t)vh_rr(&u->r); inet_ntop(AF_INET, &a, nm, 120); }
		if (gethostbyname_r(nm, &e, buf, sizeof buf, &p, &err) || !p) vh_broken("gethostbyname_r(%s)", nm);
		snprintf(K[m].name, 120, "%s", p->h_name);
		for (K[m].n = 0; K[m].n < 8 && p->h_addr_list[K[m].n]; K[m].n++) memcpy(&K[m].a[K[m].n], p->h_addr_list[K[m].n], 4);
		K[m].h = async_gethostbyname(nm);
		c_hn++;
		if (!K[m].h) vh_fatal("names:host", "async_gethostbyname(%s) fails", nm);
		look(&K[m], "at once");
		t = gethostbyname_ip(K[m].h);
		inet_ntop(AF_INET, &K[m].a[0], ip, 40);
		if (!t || strcmp(t, ip)) vh_fatal("names:ip", "gethostbyname_ip gives %s instead of %s", t ? t : "nothing", ip);
		m++;
		if (rn(u, 2)) yield();
	}
	/* the earlier ones are as they were */
	for (i = 0; i < m; i++) { look(&K[i], "later"); c_held++; u->sig = vh_mix(u->sig, K[i].a[0]); }
}
static void op_pton(user *u) {
	struct sockaddr_in a;
	struct sockaddr_in6 b;
	const char *s = numeric[rn(u, N(numeric))];
	unsigned char want[16];
	int v6 = (int)rn(u, 2), ok = inet_pton(v6 ? AF_INET6 : AF_INET, s, want), r;
	if (!ok) return;
	memset(&a, 0, sizeof a); memset(&b, 0, sizeof b);
	r = v6 ? async_inet_pton(AF_INET6, s, &b, sizeof b, 1) : async_inet_pton(AF_INET, s, &a, sizeof a, 1);
	c_pton++;
	if (r != 1 || memcmp(v6 ? (void *)&b.sin6_addr : (void *)&a.sin_addr, want, v6 ? 16 : 4)) vh_fatal("names:pton", "async_inet_pton(%s) gives another address", s);
}
static void *worker(param_t args) {
	user *u = args[0].object;
	while (u->ops-- > 0) {
		vh_beat();
		switch (rn(u, 5)) {
			case 0: case 1: op_addrinfo(u); break;
			case 2: op_nameinfo(u); break;
			case 3: op_host(u); break;
			default: if (rn(u, 2)) op_pton(u); else yield();
		}
	}
	done_++;
	return 0;
}
static void *ticker(param_t a) { (void)a; while (ticking) { ticks++; yield(); } return 0; }
static void *run(param_t args) {
	long c;
	int i, n;
	(void)args;
	for (c = 0; c < vh_cases; c++) {
		uint64_t s = 1;
		long t0 = ticks;
		vh_case(c); vh_watchdog(60);
		n = 1 + (int)vh_n(vh_p(20) ? 40 : 6);
		done_ = 0; ticking = vh_p(40);
		if (ticking) (void)async_task(ticker, 0);
		for (i = 0; i < n; i++) { memset(&U[i], 0, sizeof U[i]); U[i].r.s = vh_rnd(); U[i].ops = 2 + (int)vh_n(25); U[i].sig = 3; (void)async_task(worker, 1, &U[i]); }
		while (done_ < n) yield();
		ticking = 0; yield();
		c_ticks += ticks - t0;
		for (i = 0; i < n; i++) s = vh_mix(s, U[i].sig);
		vh_eval(1); vh_sig(s);
		if (vh_want_sample()) vh_sample("%d tasks", n);
	}
	vh_count("async_getaddrinfo", c_ai); vh_count("of those that failed", c_aifail); vh_count("addresses compared", c_list);
	vh_count("async_getnameinfo", c_ni); vh_count("of those which failed", c_nifail);
	vh_count("async_gethostbyname", c_hn); vh_count("results looked at again later", c_held); vh_count("async_inet_pton", c_pton); vh_count("turns of another task", c_ticks); vh_count("names of /etc/hosts", nhosts);
	vh_exit();
	return 0;
}
int main(int argc, char **argv) {
	FILE *f = fopen("/etc/hosts", "r");
	char l[500], *p;
	events_t *loop;
	vh_init(argc, argv);
	while (f && fgets(l, 500, f)) {
		struct in_addr a;
		if ((p = strchr(l, '#'))) *p = 0;
		p = strtok(l, " \t\n");
		if (!p || inet_pton(AF_INET, p, &a) != 1) continue;
		while ((p = strtok(0, " \t\n"))) if (nhosts < MAXH && !numeric_text(p)) hosts[nhosts++] = strdup(p);
	}
	if (f) fclose(f);
	if (events_init(1024)) vh_fatal("failed", "events_init failed");
	events_set_main((main_cb)run);
	loop = events_init_pool((uint32_t)vh_arg("pool", 3));
	async_task(run, 0);
	async_run(loop);
	vh_fatal("main-lost", "the scheduler returned before the main task ended");
	return 0;
}
