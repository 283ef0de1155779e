/* C35: named pipes (mkfifo, open, read and close as the headers define them), and what asks about and sets up descriptors. */
#include <events.h>
#include <async_io.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include "vh.h"
#include "ev.h"
#define MAXF 40
#define MAXD 120
enum { K_FIFO, K_PIPE_R, K_PIPE_W, K_SOCK, K_TCP, K_REG, K_DIR, K_CHR };
typedef struct { int used; char name[80]; uint32_t seed; long wr, rd; } chan;	/* bytes written and read */
typedef struct { int used, fd, kind, ch, rch, can_r, can_w, reg; } desc;
static chan Ch[MAXD];
static desc D[MAXD];
static int serial;
static events_t *loop;
static void *data[1024];
static char text[64];
static long c_fifo, c_open, c_read, c_write, c_close, c_type, c_flags, c_tmo, c_data, c_cb, c_aread, c_refused, c_exec, c_maxf, c_noread;
static unsigned char pat(chan *c, long i) { return (unsigned char)(vh_mix(c->seed, (uint64_t)i) >> 17); }
static int newch(void) { int i; for (i = 0; i < MAXD && Ch[i].used; i++); if (i == MAXD) vh_broken("channels"); memset(&Ch[i], 0, sizeof Ch[i]); Ch[i].used = 1; Ch[i].seed = (uint32_t)vh_rnd(); return i; }
static desc *newd(int fd, int kind, int rch, int ch) {
	int i;
	for (i = 0; i < MAXD; i++) if (D[i].used && D[i].fd == fd) vh_fatal("fd:number", "descriptor %d was given while the program has it", fd);
	for (i = 0; i < MAXD && D[i].used; i++);
	if (i == MAXD) vh_broken("descriptors");
	D[i].used = 1; D[i].fd = fd; D[i].kind = kind; D[i].rch = rch; D[i].ch = ch; D[i].reg = 0; D[i].can_r = rch >= 0; D[i].can_w = ch >= 0;
	return &D[i];
}
static int nd(void) { int i, n = 0; for (i = 0; i < MAXD; i++) n += D[i].used; return n; }
static int nfifo(void) { int i, n = 0; for (i = 0; i < MAXD; i++) n += Ch[i].used && Ch[i].name[0]; return n; }
static int others(int ch, int rd) { int i, n = 0; for (i = 0; i < MAXD; i++) n += D[i].used && (rd ? D[i].can_r && D[i].rch == ch : D[i].can_w && D[i].ch == ch); return n; }
static desc *any(void) { int i, n = 0, k = -1; for (i = 0; i < MAXD; i++) if (D[i].used && vh_n((uint32_t)++n) == 0) k = i; return k < 0 ? NULL : &D[k]; }
static const char *dir_of(char *b, const char *name) { sprintf(b, "/tmp/%s", name); return b; }
static void mk(void) {
	char p[200], name[80];
	struct stat st;
	int again = -1, i, m = (int)vh_n(512) | 0600, r;
	for (i = 0; i < MAXD; i++) if (Ch[i].used && Ch[i].name[0] && vh_p(3)) again = i;
	if (again >= 0) strcpy(name, Ch[again].name);
	else if (nfifo() >= MAXF) return;
	else sprintf(name, "c35.%d.%d%s", (int)getpid(), serial++ % 60, vh_p(30) ? ".fifo" : "");
	for (i = 0; again < 0 && i < MAXD; i++) if (Ch[i].used && !strcmp(Ch[i].name, name)) again = i;
	errno = 0;
	r = os_mkfifo(name, (mode_t)m);
	dir_of(p, name);
	VH_MUST(!strcmp(mkfifo_name(), p), "fifo:name", "mkfifo of %s, mkfifo_name gives %s", name, mkfifo_name());
	if (again >= 0) { c_refused++; VH_MUST(r == -1 && errno == EEXIST, "fifo:exists", "mkfifo of one that exists gives %d, errno %d", r, errno); return; }
	VH_MUST(r == 0, "fifo:make", "mkfifo gives %d, errno %d", r, errno);
	VH_MUST(!lstat(p, &st) && S_ISFIFO(st.st_mode) && (int)(st.st_mode & 07777) == m, "fifo:make", "mkfifo made no pipe of mode %o", m);
	i = newch(); strcpy(Ch[i].name, name);
	c_fifo++;
	if (nfifo() > c_maxf) c_maxf = nfifo();
}
static void openf(void) {
	int i, n = 0, k = -1, fd, how = (int)vh_n(3);
	char p[200];
	for (i = 0; i < MAXD; i++) if (Ch[i].used && Ch[i].name[0] && vh_n((uint32_t)++n) == 0) k = i;
	if (k < 0 || nd() > MAXD - 10) return;
	if (Ch[k].wr != Ch[k].rd && !others(k, 1)) how = 0;
	errno = 0;
	fd = os_open(vh_p(60) ? Ch[k].name : dir_of(p, Ch[k].name), (how == 0 ? O_RDWR : how == 1 ? O_RDONLY : O_WRONLY) | O_NONBLOCK | O_CLOEXEC, 0);
	if (how == 2 && !others(k, 1)) { c_noread++; VH_MUST(fd == -1 && errno == ENXIO, "fifo:open", "open of a pipe nobody reads for writing gives %d, errno %d", fd, errno); return; }
	VH_MUST(fd >= 0, "fifo:open", "open gives errno %d", errno);
	VH_MUST(mkfifo_fd() == fd, "fifo:open", "open gives %d, mkfifo_fd %d", fd, (int)mkfifo_fd());
	if (!others(k, 1) && !others(k, 0)) Ch[k].wr = Ch[k].rd = 0;	/* what was in it went with its last descriptor */
	newd(fd, K_FIFO, how == 2 ? -1 : k, how == 1 ? -1 : k);
	c_open++;
}
static void plain(void) {
	int p[2], k = (int)vh_n(6), a, b;
	char n[300];
	if (nd() > MAXD - 10) return;
	switch (k) {
		case 0: if (pipe2(p, O_NONBLOCK | O_CLOEXEC)) vh_broken("pipe"); a = newch(); newd(p[0], K_PIPE_R, a, -1); newd(p[1], K_PIPE_W, -1, a); break;
		case 1: if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, p)) vh_broken("socketpair"); a = newch(); b = newch(); newd(p[0], K_SOCK, a, b); newd(p[1], K_SOCK, b, a); break;
		case 2: if ((p[0] = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0)) < 0) vh_broken("socket"); newd(p[0], K_TCP, -1, -1); break;
		case 3: sprintf(n, "%s/reg%d", vh_dir(), serial++ % 20); if ((p[0] = os_open(n, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC | (vh_p(40) ? O_APPEND : 0), 0600)) < 0) vh_fatal("fd:open", "open of a file gives errno %d", errno); newd(p[0], K_REG, -1, -1); break;
		case 4: if ((p[0] = os_open(vh_dir(), O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0)) < 0) vh_fatal("fd:open", "open of a directory gives errno %d", errno); newd(p[0], K_DIR, -1, -1); break;
		default: if ((p[0] = os_open("/dev/null", O_RDWR | O_CLOEXEC, 0)) < 0) vh_fatal("fd:open", "open of a device gives errno %d", errno); newd(p[0], K_CHR, -1, -1);
	}
}
static void check(chan *c, const unsigned char *b, long n, const char *how, int fd) {
	long i;
	for (i = 0; i < n; i++) if (b[i] != pat(c, c->rd + i)) vh_fatal("fifo:data", "%s of descriptor %d: byte %ld of %ld after %ld is another", how, fd, i, n, c->rd);
	c->rd += n;
}
static void rd(desc *d, const char *how) {
	unsigned char b[5000];
	long n = 1 + (long)vh_n(vh_p(50) ? 20 : 5000), av, r;
	chan *c = &Ch[d->rch];
	av = c->wr - c->rd;
	errno = 0;
	r = os_read(d->fd, b, (unsigned)n);
	if (av == 0) {
		int w = others(d->rch, 0);
		/* the other end was closed with something unread */
		VH_MUST(w ? r == -1 && errno == EAGAIN : r == 0 || (d->kind == K_SOCK && r == -1 && errno == ECONNRESET), "fifo:read", "%s of descriptor %d, with nothing to read and %d writers, gives %ld, errno %d", how, d->fd, w, r, errno);
	} else { VH_MUST(r == (n < av ? n : av), "fifo:read", "%s of %ld bytes from descriptor %d, with %ld to read, gives %ld, errno %d", how, n, d->fd, av, r, errno); check(c, b, r, how, d->fd); }
	c_read++;
}
static void wr(desc *d) {
	unsigned char b[3000];
	chan *c = &Ch[d->ch];
	long n = 1 + (long)vh_n(vh_p(60) ? 20 : 3000), i, r;
	if (c->wr - c->rd > 40000 || !others(d->ch, 1)) return;
	for (i = 0; i < n; i++) b[i] = pat(c, c->wr + i);
	r = write(d->fd, b, (size_t)n);
	VH_MUST(r == n, "fifo:write", "write of %ld bytes to descriptor %d gives %ld, errno %d", n, d->fd, r, errno);
	c->wr += n; c_write++;
}
static void on_read(fds_t fd, int ev, void *arg) {
	desc *d = arg;
	VH_MUST((int)fd == d->fd && d->reg, "fifo:event", "event for descriptor %d", (int)fd);
	c_cb++;
	rd(d, "read in a callback");
}
static void shut(desc *d) {
	int fd = d->fd, r, ch = d->ch, rch = d->rch;
	if (d->reg) { VH_MUST(!events_del(fd), "fifo:event", "events_del of %d fails", fd); d->reg = 0; }
	r = os_close(fd);
	VH_MUST(r == 0, "fd:close", "close of descriptor %d gives %d, errno %d", fd, r, errno);
	VH_MUST(fcntl(fd, F_GETFD) == -1 && errno == EBADF, "fd:close", "descriptor %d is open after close", fd);
	d->used = 0;
	if (ch >= 0 && !Ch[ch].name[0] && !others(ch, 1) && !others(ch, 0)) Ch[ch].used = 0;
	if (rch >= 0 && rch != ch && !Ch[rch].name[0] && !others(rch, 1) && !others(rch, 0)) Ch[rch].used = 0;
	if (ch >= 0 && !others(ch, 1) && !others(ch, 0)) Ch[ch].rd = Ch[ch].wr = 0;
	if (rch >= 0 && !others(rch, 1) && !others(rch, 0)) Ch[rch].rd = Ch[rch].wr = 0;
	c_close++;
}
static void about(desc *d) {
	static const int want[] = { FD_FIFO, FD_FIFO, FD_FIFO, FD_SOCK, FD_SOCK, FD_REG, FD_DIR, FD_CHR };
	int t = (int)events_fd_type(d->fd);
	VH_MUST(t == want[d->kind], "fd:type", "the type of descriptor %d is %d instead of %d", d->fd, t, want[d->kind]);
	c_type++;
}
static void flags(desc *d) {
	int f0 = fcntl(d->fd, F_GETFL), f1, on = (int)vh_n(2), r = on ? events_set_nonblocking(d->fd) : events_set_blocking(d->fd);
	f1 = fcntl(d->fd, F_GETFL);
	VH_MUST(r == 0 && f1 == (on ? f0 | O_NONBLOCK : f0 & ~O_NONBLOCK), "fd:flags", "%s gives %d, flags were %x and are %x", on ? "events_set_nonblocking" : "events_set_blocking", r, f0, f1);
	fcntl(d->fd, F_SETFL, f0);
	c_flags++;
}
static void tmo(desc *d) {
	static const int big[] = { 0, 1, 999, 1000, 1001, 59999, 2147483, 2147484, 3000000, 86400000 };
	int ms = vh_p(40) ? big[vh_n(10)] : vh_p(50) ? (int)vh_n(5000) : (int)vh_n(100000000), r, i;
	struct timeval tv;
	r = events_tcp_timeout(d->fd, ms);
	if (d->kind != K_SOCK && d->kind != K_TCP) { VH_MUST(r != 0, "fd:timeout", "events_tcp_timeout succeeds for something else"); return; }
	VH_MUST(r == 0, "fd:timeout", "events_tcp_timeout of %d ms fails, errno %d", ms, errno);
	for (i = 0; i < 2; i++) {
		socklen_t l = sizeof tv;
		double got;
		if (getsockopt(d->fd, SOL_SOCKET, i ? SO_SNDTIMEO : SO_RCVTIMEO, &tv, &l)) vh_broken("getsockopt");
		got = (double)tv.tv_sec * 1e3 + (double)tv.tv_usec / 1e3;
		VH_MUST(got >= ms && got <= ms + 11, "fd:timeout", "the timeout for %s is %.3f ms instead of %d", i ? "sending" : "receiving", got, ms);
	}
	c_tmo++;
}
static void user(void) {
	int i;
	if (vh_p(50)) { i = (int)vh_n(1024); data[i] = vh_p(20) ? NULL : (void *)&text[vh_n(64)]; events_set_target_data(i, data[i]); }
	for (i = 0; i < 20; i++) { int k = (int)vh_n(1024); VH_MUST(events_get_target_data(k) == data[k], "fd:data", "descriptor %d has another's data", k); }
	c_data++;
}
static void aread(desc *d) {
	char b[3000];
	chan *c = &Ch[d->rch];
	long av = c->wr - c->rd, n = 1 + (long)vh_n(3000);
	ssize_t r;
	if (av == 0 || d->reg) return;
	r = async_read(d->fd, b, (int)n);
	VH_MUST(r > 0 && r <= (n < av ? n : av), "fifo:read", "async_read of %ld bytes, with %ld there, gives %ld, errno %d", n, av, (long)r, errno);
	check(c, (unsigned char *)b, r, "async_read", d->fd);
	c_aread++;
}
static int nopen(void) { int i, n = 0; for (i = 0; i < 600; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static void *run(param_t args) {
	long c;
	int i, base;
	umask(0);
	for (c = 0; c < vh_cases; c++) {
		int ops = 10 + (int)vh_n(vh_p(20) ? 400 : 80), o, many = vh_p(30);
		uint64_t s = 7;
		vh_case(c);
		base = nopen();
		for (o = 0; o < ops; o++) {
			int k = (int)vh_n(100);
			desc *d = any();
			vh_beat();
			s = vh_mix(s, (uint64_t)k / 5);
			if (k < (many ? 14 : 7)) mk();
			else if (k < 22) openf();
			else if (k < 30) plain();
			else if (!d) continue;
			else if (k < 48) { if (d->can_w) wr(d); }
			else if (k < 66) { if (d->can_r) rd(d, "read"); else if (d->kind == K_CHR) { char x; VH_MUST(os_read(d->fd, &x, 1) == 0, "fd:read", "read of /dev/null gives something"); } }
			else if (k < 72) about(d);
			else if (k < 76) flags(d);
			else if (k < 80) tmo(d);
			else if (k < 84) user();
			else if (k < 87) { if (d->can_r) aread(d); }
			else if (k < 91) {	/* read by a callback for a while */
				if (!d->can_r || d->reg) continue;
				d->reg = 1;
				if (events_add(loop, d->fd, EVENTS_READ, 0, on_read, d)) vh_fatal("fifo:event", "events_add of %d fails", d->fd);
				for (i = 0; i < 3000 && Ch[d->rch].wr != Ch[d->rch].rd; i++) yield();
				VH_MUST(Ch[d->rch].wr == Ch[d->rch].rd, "fifo:event", "no event for %ld bytes", Ch[d->rch].wr - Ch[d->rch].rd);
				VH_MUST(!events_del(d->fd), "fifo:event", "events_del fails"); d->reg = 0;
			} else if (k < 97) shut(d);
			else if (k < 98 && vh_p(30)) {
				process_t p = exec("/bin/true", "", exec_info(NULL, 0, inherit, inherit, inherit));
				int st = -1;
				if (exec_wait(p, 20000, &st) || st) vh_fatal("fd:exec", "a process started in between gives %d", st);
				c_exec++;
			} else {	/* the pipe goes */
				char p[200];
				int n = 0, x = -1;
				for (i = 0; i < MAXD; i++) if (Ch[i].used && Ch[i].name[0] && vh_n((uint32_t)++n) == 0) x = i;
				if (x < 0) continue;
				for (i = 0; i < MAXD; i++) if (D[i].used && (D[i].ch == x || D[i].rch == x)) shut(&D[i]);
				if (unlink(dir_of(p, Ch[x].name))) vh_broken("unlink");
				Ch[x].used = 0;
			}
		}
		for (i = 0; i < MAXD; i++) if (D[i].used) shut(&D[i]);
		for (i = 0; i < MAXD; i++) if (Ch[i].used) { char p[200]; if (Ch[i].name[0]) unlink(dir_of(p, Ch[i].name)); Ch[i].used = 0; }
		i = nopen();
		VH_MUST(i == base, "fd:leak", "%d descriptors are open instead of %d", i, base);
		vh_eval(1); vh_sig(s);
		if (vh_want_sample()) vh_sample("%d operations", ops);
	}
	vh_count("named pipes", c_fifo); vh_count("most at once", c_maxf); vh_count("refused: exists", c_refused); vh_count("opened", c_open); vh_count("refused: nobody reads", c_noread); vh_count("reads", c_read); vh_count("reads in callbacks", c_cb); vh_count("reads by async_read", c_aread); vh_count("writes", c_write); vh_count("closed", c_close);
	vh_count("types", c_type); vh_count("flags", c_flags); vh_count("timeouts", c_tmo); vh_count("data of descriptors", c_data); vh_count("processes in between", c_exec);
	vh_exit();
	return 0;
}
int main(int argc, char **argv) {
	vh_init(argc, argv);
	vh_watchdog(60);
	if (events_init(1024)) vh_fatal("failed", "events_init failed");
	loop = events_create(60);
	events_set_main((main_cb)run);
	async_task(run, 0);
	async_run(loop);
	return 0;
}
