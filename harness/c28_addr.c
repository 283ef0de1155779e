/* C28: addresses to text and back, against inet_pton/inet_ntop. */
#include <events.h>
#include <except.h>
#include "vh.h"
#include "ev.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/un.h>
extern char *str_parseip(char *name, uint32_t *ip, int *port, bool autofree);
static char txt[400];
static uint64_t sig;
static void gen6(struct in6_addr *a) {
	int i, k = (int)vh_n(5);
	for (i = 0; i < 16; i++) a->s6_addr[i] = (uint8_t)(k == 0 ? vh_n(256) : k == 1 ? 0 : k == 2 ? (vh_p(70) ? 0 : vh_n(256)) : k == 3 ? vh_n(2) : 255);
	if (k == 1) a->s6_addr[15] = (uint8_t)vh_n(3);
	if (k == 4 && vh_p(60)) { memset(a, 0, 10); for (i = 12; i < 16; i++) a->s6_addr[i] = (uint8_t)vh_n(256); }	/* v4 mapped */
}
static int big(void) { return 256 + (int)(vh_p(30) ? 0 : vh_p(30) ? vh_n(3) : vh_n(744)); }
static int port(void) { return vh_p(10) ? 65535 : vh_p(10) ? 1 : 1 + (int)vh_n(65535); }
static int parse(const char *s, u_saddr_t *u, int *ver) {
	char *g = vh_guard(s, strlen(s) + 1);
	int r;
	memset(u, 0xEE, sizeof *u);
	*ver = 77;
	r = async_parse_addr(g, u, ver);
	VH_MUST(!strcmp(g, s), "addr:argument", "\"%s\" was changed to \"%s\"", s, g);
	VH_MUST(r == 0 || r == 1, "addr:return", "%d for \"%s\"", r, s);
	VH_MUST(r || *ver == 0, "addr:version", "of rejected \"%s\" is %d", s, *ver);
	return r;
}
static void format(u_saddr_t *u, const char *want) {
	size_t room = strlen(want) + 1 + vh_n(40);
	char *b = vh_guard(NULL, room);
	memset(b, 'Q', room);
	async_sockaddr_str(b, room, u);
	VH_MUST(!strcmp(b, want), "addr:format", "\"%s\" is written \"%.60s\"", want, b);
	async_sockaddr_str(b, room, NULL);
	VH_MUST(b[0] == 0, "addr:format-null", "is \"%.60s\"", b);
}
static void t_v4(void) {
	u_saddr_t u;
	int ver, p = port(), q, i;
	uint8_t o[4];
	char host[40], *r;
	uint32_t ip;
	for (i = 0; i < 4; i++) o[i] = (uint8_t)(vh_p(20) ? 255 : vh_p(20) ? 0 : vh_n(256));
	sprintf(host, "%d.%d.%d.%d", o[0], o[1], o[2], o[3]);
	sprintf(txt, "%s:%d", host, p);
	VH_MUST(parse(txt, &u, &ver) == 1 && ver == 4 && u.sin.sin_family == AF_INET && !memcmp(&u.sin.sin_addr, o, 4) && ntohs(u.sin.sin_port) == p, "addr:v4",
		"\"%s\" gives version %d, %s, port %d", txt, ver, inet_ntoa(u.sin.sin_addr), ntohs(u.sin.sin_port));
	format(&u, host);
	{
		struct sockaddr_in s4;
		memset(&s4, 0, sizeof s4);
		VH_MUST(async_inet_pton(AF_INET, vh_guard(host, strlen(host) + 1), &s4, sizeof s4, (int)vh_n(2)) == 1 && !memcmp(&s4.sin_addr, o, 4), "addr:pton", "of \"%s\" is %s", host, inet_ntoa(s4.sin_addr));
		VH_MUST(async_inet_pton(AF_INET6, host, &s4, sizeof s4, 0) == 0, "addr:pton-small", "wrote an IPv6 address into %zu bytes", sizeof s4);
	}
	/* with scheme */
	static const char *const S[] = {"", "", "tcp://", "udp://", "http://", "ws://", "https://"};
	sprintf(txt, "%s%s:%d", S[vh_n(7)], host, p);
	{ char *g = vh_guard(txt, strlen(txt) + 1);
	ip = 0xEEEEEEEE; q = -5;
	r = str_parseip(g, &ip, &q, false);
	VH_MUST(r && !strcmp(r, host) && q == p && !memcmp(&ip, o, 4), "addr:parseip", "\"%s\" gives host \"%s\" (%08x), port %d", txt, r, ip, q);
	VH_MUST(!strcmp(g, txt), "addr:argument", "\"%s\" was changed to \"%s\"", txt, g);
	events_free(r); }
	q = -5;
	r = str_parseip(vh_guard(host, strlen(host) + 1), &ip, &q, false);
	VH_MUST(r && !strcmp(r, host) && q == -5 && !memcmp(&ip, o, 4), "addr:parseip", "\"%s\" gives host \"%s\" (%08x), port %d", host, r, ip, q);
	events_free(r);
	/* fewer parts: the last one fills the rest (as inet_aton does it) */
	{ struct in_addr ia; uint32_t k = vh_n(2);
	int f = k ? 128 + (int)vh_n(64) : (int)vh_n(128);
	if (k) sprintf(host, "%d.%d.%d", f, o[1], o[2]); else sprintf(host, "%d.%d", f, o[1]);
	sprintf(txt, "%s%s:%d", S[vh_n(7)], host, p);
	ip = 0xEEEEEEEE; q = -5;
	r = str_parseip(vh_guard(txt, strlen(txt) + 1), &ip, &q, false);
	VH_MUST(inet_aton(host, &ia) && r && !strcmp(r, host) && q == p && ip == ia.s_addr, "addr:parseip-parts", "\"%s\" gives host \"%s\" (%08x, not %08x), port %d", txt, r, ip, ia.s_addr, q);
	events_free(r);
	sprintf(host, "%d.%d.%d.%d", o[0], o[1], o[2], o[3]); }
	/* a part out of range is no address: the address stays as it was */
	{ int k = (int)vh_n(4), v[4];
	for (i = 0; i < 4; i++) v[i] = i == k ? big() : o[i];
	sprintf(txt, "%s%d.%d.%d.%d:%d", S[vh_n(7)], v[0], v[1], v[2], v[3], p);
	ip = 0xEEEEEEEE; q = -5;
	r = str_parseip(vh_guard(txt, strlen(txt) + 1), &ip, &q, false);
	VH_MUST(ip == 0xEEEEEEEE, "addr:parseip-accepts", "\"%s\" gives %08x", txt, ip);
	events_free(r); }
	/* damaged */
	switch (vh_n(6)) {
		case 0: sprintf(txt, "%s:%u", host, 65536 + vh_n(34464)); break;
		case 1: sprintf(txt, "%d.%d.%d.%d:%d", o[0], big(), o[2], o[3], p); break;
		case 2: sprintf(txt, "%d.%d.%d.%d:%d", o[0], o[1], o[2], big(), p); break;
		case 3: sprintf(txt, "%s:%d%c", host, p, "x:/. -"[vh_n(6)]); break;
		case 4: sprintf(txt, "%s:%d0%d", host, 60000 + (int)vh_n(5000), (int)vh_n(10)); break;
		default: sprintf(txt, "%d.%d.%d.%d:%d", big(), o[1], o[2], o[3], p); break;
	}
	VH_MUST(parse(txt, &u, &ver) == 0, "addr:v4-accepts", "\"%s\" as %s port %d", txt, inet_ntoa(u.sin.sin_addr), ntohs(u.sin.sin_port));
	sig = vh_mix(sig, (uint64_t)o[0] << 40 | (uint64_t)o[1] << 32 | (uint64_t)o[2] << 24 | (uint64_t)o[3] << 16 | (uint64_t)p);
}
static void t_v6(void) {
	struct in6_addr a;
	u_saddr_t u;
	int ver, p = port(), q = -5;
	char host[INET6_ADDRSTRLEN], bh[80], *r;
	uint32_t ip = 0;
	gen6(&a);
	inet_ntop(AF_INET6, &a, host, sizeof host);
	sprintf(txt, "[%s]:%d", host, p);
	VH_MUST(parse(txt, &u, &ver) == 1 && ver == 6 && u.sin6.sin6_family == AF_INET6 && !memcmp(&u.sin6.sin6_addr, &a, 16) && ntohs(u.sin6.sin6_port) == p, "addr:v6", "\"%s\" gives version %d, family %d, port %d", txt, ver, u.sa.sa_family, ntohs(u.sin6.sin6_port));
	format(&u, host);
	sprintf(bh, "[%s]", host);
	static const char *const S[] = {"", "tcp://", "ws://"};
	sprintf(txt, "%s%s:%d", S[vh_n(3)], bh, p);
	r = str_parseip(vh_guard(txt, strlen(txt) + 1), &ip, &q, false);
	VH_MUST(r && !strcmp(r, bh) && q == p, "addr:parseip", "\"%s\" gives host \"%s\", port %d", txt, r, q);
	events_free(r);
	sprintf(txt, "[%s]:%u", host, 65536 + vh_n(34464));
	if (vh_p(5)) VH_MUST(parse(txt, &u, &ver) == 0, "addr:v6-accepts", "\"%s\"", txt);
	sig = vh_mix(sig, vh_hash(&a, 16) + (uint64_t)p);
}
static void t_other(void) {
	u_saddr_t u;
	int ver, p = port(), i, n;
	sprintf(txt, "%d", p);
	VH_MUST(parse(txt, &u, &ver) == 1 && ver == 4 && u.sin.sin_family == AF_INET && u.sin.sin_addr.s_addr == INADDR_ANY && ntohs(u.sin.sin_port) == p, "addr:port", "\"%s\" gives version %d port %d", txt, ver, ntohs(u.sin.sin_port));
	sprintf(txt, "%u", 65536 + vh_n(4000000000u));
	VH_MUST(parse(txt, &u, &ver) == 0, "addr:port-accepts", "\"%s\" as port %d", txt, ntohs(u.sin.sin_port));
	n = 1 + (int)vh_n(vh_p(80) ? 30 : 150);
	txt[0] = 'x';
	for (i = 1; i <= n; i++) txt[i] = "/abc.-_1"[vh_n(8)];
	txt[n + 1] = 0;
	{ int fits = n + 1 < (int)sizeof u.sun.sun_path, r = parse(txt, &u, &ver);
	VH_MUST(r == fits, "addr:unix", "\"%s\" (%d letters) is%s accepted", txt, n, r ? "" : " not");
	if (r) VH_MUST(ver == 99 && u.sun.sun_family == AF_UNIX && !strcmp(u.sun.sun_path, txt + 1), "addr:unix", "\"%s\" gives \"%s\"", txt, u.sun.sun_path); }
	if (vh_p(30)) {
		sprintf(txt, "localhost:%d", p);
		VH_MUST(parse(txt, &u, &ver) == 1 && ver == 4 && u.sin.sin_addr.s_addr == htonl(INADDR_LOOPBACK) && ntohs(u.sin.sin_port) == p, "addr:name", "\"%s\" gives version %d %s port %d", txt, ver, inet_ntoa(u.sin.sin_addr), ntohs(u.sin.sin_port));
	}
	{	/* a name of any length, with and without port */
		static const char *const S[] = {"", "tcp://", "udp://", "ws://"};
		char h[64], *r;
		uint32_t ip = 0xEEEEEEEE;
		int q = -5, with = vh_p(70);
		n = 1 + (int)vh_n(vh_p(60) ? 8 : 60);
		for (i = 0; i < n; i++) h[i] = i && i + 1 < n && vh_p(20) ? ".-"[vh_n(2)] : "ghijkxyz"[vh_n(8)];
		h[n] = 0;
		if (with) sprintf(txt, "%s%s:%d", S[vh_n(4)], h, p); else sprintf(txt, "%s%s", S[vh_n(4)], h);
		r = str_parseip(vh_guard(txt, strlen(txt) + 1), &ip, &q, false);
		VH_MUST(r && !strcmp(r, h) && q == (with ? p : -5) && ip == 0xEEEEEEEE, "addr:parseip-name", "\"%s\" gives host \"%s\" (%08x), port %d", txt, r, ip, q);
		events_free(r);
	}
	/* any text without ':' (names are not looked up): stays inside */
	n = (int)vh_n(40);
	for (i = 0; i < n; i++) txt[i] = "0123456789.[]x/ab- "[vh_n(19)];
	txt[n] = 0;
	(void)parse(txt, &u, &ver);
	n = (int)vh_n(120);
	for (i = 0; i < n; i++) txt[i] = ":/.[]0123456789abc"[vh_n(18)];
	txt[n] = 0;
	{ uint32_t ip = 0; int q = 0; char *g = vh_guard(txt, (size_t)n + 1), *r = str_parseip(g, &ip, &q, false); VH_MUST(r && strlen(r) <= (size_t)n && !strcmp(g, txt), "addr:parseip-any", "of \"%s\" is \"%s\"", txt, r); events_free(r); }
	sig = vh_mix(sig, vh_hash(txt, (size_t)n));
}
int main(int argc, char **argv) {
	long c;
	vh_init(argc, argv);
	if (events_init(1024)) vh_fatal("failed", "events_init failed");
	for (c = 0; c < vh_cases; c++) {
		uint32_t r;
#ifdef NO_RPMALLOC
		size_t live;
#endif
		vh_case(c);
		sig = 1;
		r = vh_n(3);
#ifdef NO_RPMALLOC
		live = vm_live();
#endif
		if (r == 0) t_v4(); else if (r == 1) t_v6(); else t_other();
#ifdef NO_RPMALLOC
		VH_MUST(c < 50 || vm_live() <= live, "addr:leak", "%ld blocks left after \"%s\"", (long)(vm_live() - live), txt);
#endif
		vh_guard_reset();
		vh_eval(1);
		vh_count(r == 0 ? "IPv4" : r == 1 ? "IPv6" : "other", 1);
		vh_sig(sig);
		if (vh_want_sample()) vh_sample("\"%s\"", txt);
		if (c % 256 == 0) vh_beat();
	}
	vh_exit();
}
