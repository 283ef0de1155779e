/* C10: descriptor events. Random programs of registrations on up to two loops; every callback is
 * compared with poll(2) at the moment the loop polled and with what was last requested. */
#include <events.h>
#include "vh.h"
#include "ev.h"
#include <poll.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/eventfd.h>
#define MAXFD 4096
#define NCB 6
#define NDUP 12
typedef struct { int open, kind, peer, nosig; int loop, mask, cb; long arg, gen; int late; } fdm;	/* loop: 0 not registered, 1, 2 */
static fdm F[MAXFD];
static events_t *L[3];
static int turn_loop;	/* the loop being run, 0: none */
static struct { int loop, mask, ready; long gen, called, changed; } S[MAXFD];	/* when the loop polled */
static int dups[NDUP], polled, nfds, depth, acts;
static long gens, c_cb, c_hup, c_err, c_dup, c_turn, c_reuse, c_in, c_two, c_missed, c_add, c_del, c_set;
static uint64_t sig;
static void ops(int n, int self);
static int top, full, cap_ = 60;	/* highest number in use; the poll gave as many as it can */
static long c_full, c_crowd, c_put;

int epoll_wait(int epfd, struct epoll_event *ev, int max, int timeout) {
	if (turn_loop && !polled) {
		static struct pollfd p[MAXFD];
		int i, n = 0;
		polled = 1;
		for (i = 0; i <= top; i++) {
			S[i].loop = 0; S[i].called = S[i].changed = 0;
			if (F[i].open) { p[n].fd = i; p[n].events = POLLIN | POLLOUT; p[n++].revents = 0; }
		}
		if (n && poll(p, (nfds_t)n, 0) < 0) vh_broken("poll: %s", strerror(errno));
		for (i = 0; i < n; i++) {
			int fd = p[i].fd;
			S[fd].loop = F[fd].loop; S[fd].mask = F[fd].mask; S[fd].gen = F[fd].gen; S[fd].ready = p[i].revents;
		}
		timeout = 0;
	}
	{ int n = (int)syscall(SYS_epoll_wait, epfd, ev, max, timeout); if (turn_loop) full = n == max; return n; }
}
/* at: asked for when the loop polled, mask: asked for now */
static int want(int fd, int at, int mask) {
	int r = S[fd].ready, w = (((r & POLLIN) ? EVENTS_READ : 0) | ((r & POLLOUT) ? EVENTS_WRITE : 0)) & at;
	if (r & POLLERR) w |= EVENTS_READ | EVENTS_WRITE;
	w &= mask;
	if (mask && (r & POLLHUP)) w |= EVENTS_CLOSED;
	return w;
}
static void called(int cb, fds_t fd, int ev, void *arg) {
	fdm *f;
	c_cb++; vh_beat();
	VH_MUST(turn_loop, "loop:outside", "a callback outside of events_once");
	VH_MUST(fd >= 0 && fd < MAXFD && F[fd].open, "loop:unknown", "callback for descriptor %d, which is not open", fd);
	f = &F[fd];
	VH_MUST(f->loop, "loop:deleted", "callback %d for descriptor %d (events %d), which is not registered", cb, fd, ev);
	VH_MUST(f->loop == turn_loop, "loop:other-loop", "callback for descriptor %d of loop %d while loop %d ran", fd, f->loop, turn_loop);
	VH_MUST(f->cb == cb, "loop:callback", "descriptor %d: callback %d was called instead of %d", fd, cb, f->cb);
	VH_MUST((long)(intptr_t)arg == f->arg, "loop:argument", "descriptor %d: argument %ld instead of %ld", fd, (long)(intptr_t)arg, f->arg);
	VH_MUST(f->mask, "loop:not-asked", "descriptor %d asks for nothing, event %d", fd, ev);
	VH_MUST(ev != 0, "loop:no-event", "descriptor %d: callback without an event", fd);
	if (S[fd].gen == f->gen && S[fd].loop == f->loop) {
		int w = want(fd, S[fd].mask, f->mask);
		VH_MUST(!S[fd].called, "loop:twice", "descriptor %d was reported twice in a turn", fd);
		S[fd].called++; f->late = 0;
		VH_MUST(ev == w, "loop:events", "descriptor %d (kind %d): events %d instead of %d (asked for %d, %d at the poll, ready %d)", fd, f->kind, ev, w, f->mask, S[fd].mask, S[fd].ready);
		if (S[fd].ready & POLLHUP) c_hup++;
		if (S[fd].ready & POLLERR) c_err++;
	} else vh_fatal("loop:too-new", "descriptor %d (kind %d): event %d for a registration made after the loop polled", fd, f->kind, ev);
	sig = vh_mix(sig, (uint64_t)fd << 8 | (uint64_t)ev);
	/* do something inside the callback */
	if (depth < 1 && vh_p(60)) { depth++; c_in++; ops(1 + (int)vh_n(6), fd); depth--; }
}
#define CB(n) static void cb##n(fds_t fd, int ev, void *arg) { called(n, fd, ev, arg); }
CB(0) CB(1) CB(2) CB(3) CB(4) CB(5)
static events_cb CBS[NCB] = {cb0, cb1, cb2, cb3, cb4, cb5};
static int pick(int how) {	/* 0 any open, 1 registered, 2 not registered */
	int i, n = 0, r;
	for (i = 0; i <= top; i++) if (F[i].open && (how == 0 || (how == 1) == (F[i].loop != 0))) n++;
	if (!n) return -1;
	r = (int)vh_n((uint32_t)n);
	for (i = 0; i <= top; i++) if (F[i].open && (how == 0 || (how == 1) == (F[i].loop != 0)) && r-- == 0) return i;
	return -1;
}
static void query(int fd) {
	void *a = (void *)1;
	fdm *f = &F[fd];
	int i;
	VH_MUST(events_is_registered(NULL, fd) == (f->loop != 0), "loop:is-registered", "descriptor %d is%s registered", fd, f->loop ? "" : " not");
	for (i = 1; i <= 2; i++) VH_MUST(events_is_registered(L[i], fd) == (f->loop == i), "loop:is-registered", "descriptor %d, loop %d (registered in %d)", fd, i, f->loop);
	if (!f->loop) return;
	VH_MUST(events_get_event(L[f->loop], fd) == f->mask, "loop:get-event", "descriptor %d: %d instead of %d", fd, events_get_event(L[f->loop], fd), f->mask);
	VH_MUST(events_get_callback(L[f->loop], fd, &a) == CBS[f->cb] && (long)(intptr_t)a == f->arg, "loop:get-callback", "descriptor %d", fd);
	VH_MUST(events_loop(fd) == L[f->loop], "loop:loop-of", "descriptor %d", fd);
}
static void add(int fd) {
	fdm *f = &F[fd];
	f->loop = 1 + (int)(vh_p(75) ? 0 : 1); f->mask = 1 + (int)vh_n(3); f->cb = (int)vh_n(NCB); f->arg = (long)vh_n(1000000); f->gen = ++gens;
	c_add++; if (f->loop == 2) c_two++;
	VH_MUST(events_add(L[f->loop], fd, f->mask, 0, CBS[f->cb], (void *)(intptr_t)f->arg) == 0, "loop:add", "events_add of descriptor %d failed, errno %d", fd, errno);
	query(fd);
}
static void del(int fd) {
	c_del++;
	VH_MUST(events_del(fd) == 0, "loop:del", "events_del of descriptor %d failed", fd);
	F[fd].loop = 0; F[fd].gen = ++gens;
	query(fd);
}
static void opened(int fd, int kind, int peer) {
	if (fd >= MAXFD) vh_broken("descriptor %d", fd);
	if (F[fd].gen) c_reuse++;
	if (fd > top) top = fd;
	F[fd].late = 0; F[fd].open = 1; F[fd].kind = kind; F[fd].peer = peer; F[fd].loop = 0; F[fd].gen = ++gens; nfds++;
	fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK);
}
static void mk(void) {
	int p[2];
	switch (vh_n(3)) {
		case 0: if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) vh_broken("socketpair"); opened(p[0], 0, p[1]); opened(p[1], 0, p[0]); break;
		case 1: if (pipe(p)) vh_broken("pipe"); opened(p[0], 1, p[1]); opened(p[1], 2, p[0]); break;
		default: if ((p[0] = eventfd(0, EFD_NONBLOCK)) < 0) vh_broken("eventfd"); opened(p[0], 3, -1);
	}
}
static void shut(int fd) {
	if (F[fd].loop) del(fd);
	F[fd].open = 0; F[fd].gen = ++gens; nfds--;
	/* what it stands for lives on, as in a child process */
	if (vh_p(40)) { int i = (int)vh_n(NDUP); if (dups[i]) { close(dups[i]); dups[i] = 0; } else if ((dups[i] = fcntl(fd, F_DUPFD, MAXFD)) < MAXFD) vh_broken("dup"); else c_dup++; }
	if (F[fd].peer >= 0) F[F[fd].peer].peer = -1;
	close(fd);
}
static void ops(int n, int self) {
	static char buf[300000];
	int fd, k;
	for (; n > 0; n--) {
		acts++;
		switch (vh_n(13)) {
			case 0: if (nfds < cap_) mk(); break;
			case 1: if ((fd = pick(0)) >= 0 && (vh_p(50) || depth)) shut(fd); break;
			case 2: case 3: if ((fd = pick(2)) >= 0) add(fd); break;
			case 4: fd = vh_p(50) && self >= 0 && F[self].loop ? self : pick(1); if (fd >= 0) del(fd); break;
			case 5: case 6: fd = vh_p(40) && self >= 0 && F[self].loop ? self : pick(1);
				if (fd >= 0) {
					k = (int)vh_n(4); c_set++;
					VH_MUST(events_set_event(fd, k) == 0, "loop:set-event", "descriptor %d: events_set_event(%d) failed", fd, k);
					F[fd].mask = k; if (S[fd].gen == F[fd].gen) S[fd].changed = 1;
					query(fd);
				} break;
			case 7: if ((fd = pick(1)) >= 0) {
					void *a = (void *)(intptr_t)(F[fd].arg + 1);
					F[fd].cb = (int)vh_n(NCB);
					if (vh_p(50)) { F[fd].arg++; events_set_callback(L[F[fd].loop], fd, CBS[F[fd].cb], &a); }
					else events_set_callback(L[F[fd].loop], fd, CBS[F[fd].cb], NULL);
					query(fd);
				} break;
			case 8: if ((fd = pick(1)) >= 0) { del(fd); if (vh_p(60)) add(fd); } break;
			case 9: if ((fd = pick(0)) >= 0 && F[fd].kind != 2) (void)!syscall(SYS_read, fd, buf, vh_p(50) ? sizeof buf : 8 + vh_n(20)); break;
			case 10: if ((fd = pick(0)) >= 0 && F[fd].kind != 1) { if (F[fd].kind == 3) { uint64_t one = vh_p(20) ? 0xfffffffffffffffeull : 1; (void)!write(fd, &one, 8); } else (void)!write(fd, buf, vh_p(30) ? sizeof buf : 1 + vh_n(20)); } break;
			case 11: if ((fd = pick(0)) >= 0 && F[fd].kind == 0 && vh_p(15)) shutdown(fd, (int)vh_n(3)); break;
			default: if ((fd = pick(0)) >= 0) query(fd);
		}
	}
}
static void turn(int l) {
	int i, n = 0, r;
	c_turn++; turn_loop = l; polled = full = 0;
	r = events_once(L[l], 0);
	VH_MUST(polled, "loop:no-poll", "events_once did not poll");
	turn_loop = 0; c_full += full;
	for (i = 0; i <= top; i++) {
		if (F[i].loop == l) n++;
		if (S[i].loop == l && S[i].gen == F[i].gen && !S[i].changed && !S[i].called) {
			int w = want(i, S[i].mask, S[i].mask);
			/* the rest comes in the next turns */
			if (w && full && ++F[i].late <= 4 + top / 200) { c_put++; continue; }
			if (w) vh_fatal("loop:missed", "descriptor %d (kind %d) was ready for %d (poll says %d, asked for %d) and was not reported", i, F[i].kind, w, S[i].ready, S[i].mask);
		}
	}
	VH_MUST(r == n, "loop:count", "events_once returned %d with %d descriptors registered", r, n);
}
int main(int argc, char **argv) {
	long c;
	int i, st;
	vh_init(argc, argv);
	if (events_init(MAXFD)) vh_fatal("failed", "events_init failed");
	if (!(L[1] = events_create(60)) || !(L[2] = events_create(10))) vh_fatal("failed", "events_create failed");
	signal(SIGPIPE, SIG_IGN);
	for (c = 0; c < vh_cases; c++) {
		vh_case(c); vh_watchdog(30); sig = 3; acts = 0;
		long before = c_cb;
		st = 20 + (int)vh_n(200);
		for (i = 0; i < (int)vh_n(8); i++) mk();
		cap_ = 60;
		if (c % 40 == 7) {	/* a crowd, more than a poll gives at once */
			int k = 200 + (int)vh_n(1900);
			cap_ = k + 60; c_crowd++; st = 6 + (int)vh_n(10);
			for (; k > 0; k--) {
				int e = eventfd(1, EFD_NONBLOCK);
				if (e < 0) vh_broken("eventfd: %s", strerror(errno));
				opened(e, 3, -1);
				if (vh_n(8)) add(e);
			}
		}
		for (i = 0; i < st; i++) {
			ops((int)vh_n(5), -1);
			turn(1 + (int)(vh_p(70) ? 0 : 1));
		}
		/* all of it away, twice in every third case without a turn in between */
		for (i = 0; i <= top; i++) if (F[i].open) { if (cap_ > 60 || vh_p(70)) shut(i); }
		if (c % 3) { turn(1); turn(2); }
		vh_eval(1);
		if (c_cb - before > 2) vh_sig(sig);
		if (vh_want_sample()) vh_sample("%d turns, %d operations, %ld callbacks", st, acts, c_cb - before);
	}
	vh_count("turns of a loop", c_turn); vh_count("callbacks", c_cb); vh_count("hang-ups reported", c_hup); vh_count("errors reported", c_err);
	vh_count("descriptors added", c_add); vh_count("of them to the second loop", c_two); vh_count("unregistered", c_del); vh_count("masks set", c_set);
	vh_count("numbers used again", c_reuse); vh_count("callbacks that changed registrations", c_in); vh_count("descriptors closed while a duplicate of them was open", c_dup);
	vh_count("crowds of 200 to 2100 descriptors", c_crowd); vh_count("turns with as many events as a poll can give", c_full); vh_count("descriptors that waited for another turn", c_put);
	vh_exit();
}
