/* C13: signals registered on loops. One thread with everything, and several threads with signals sent to the process. */
#include <events.h>
#include "vh.h"
#include "ev.h"
#include <signal.h>
#include <sys/eventfd.h>
#include <sys/wait.h>
#undef kill
typedef struct { int reg, h, loop, got, exp, un; void *arg; } sg;
static sg S[65];
static events_t *L[3];
static int S_use[] = { SIGHUP, SIGINT, SIGQUIT, SIGUSR1, SIGUSR2, SIGPIPE, SIGALRM, SIGTERM, SIGCHLD, SIGCONT, SIGURG, SIGWINCH, SIGVTALRM, SIGPROF, SIGIO, SIGPWR,
	34, 35, 40, 41, 50, 63, 64 };
#define NS ((int)(sizeof S_use / sizeof *S_use))
static int in_handler, nsig_l[3], nfd_l[3], threads;
static long c_deliv, c_reg, c_rereg, c_moved, c_un, c_dfl, c_child, c_batch, c_ign, c_fd, c_fdcb, c_in, c_thr, c_run, c_again, c_errno;
static uint64_t sig;
static int order[4096], norder;
static char args_[64];
static events_cb H[4];
static void reg(int s);
static void handler(int h, int fd, int ev, void *arg) {
	sg *g;
	if (threads) {
		/* handlers never run at the same time */
		static int busy;
		if (__atomic_exchange_n(&busy, 1, __ATOMIC_SEQ_CST)) vh_fatal("signal:concurrent", "two handlers at once");
		if (fd < 1 || fd > 64 || ev != EVENTS_SIGNAL || S[fd].h != h || S[fd].arg != arg) vh_fatal("signal:wrong-handler", "signal %d: handler %d, event %d", fd, h, ev);
		{ volatile int i; for (i = 0; i < (fd & 3) * 3000; i++); }
		__atomic_fetch_add(&S[fd].got, 1, __ATOMIC_SEQ_CST);
		__atomic_store_n(&busy, 0, __ATOMIC_SEQ_CST);
		return;
	}
	vh_beat(); c_deliv++;
	VH_MUST(fd >= 1 && fd <= 64 && S[fd].reg, "signal:not-registered", "handler %d called for signal %d, which is not registered", h, fd);
	g = &S[fd];
	VH_MUST(g->h == h, "signal:wrong-handler", "signal %d calls handler %d instead of %d", fd, h, g->h);
	VH_MUST(g->arg == arg && ev == EVENTS_SIGNAL, "signal:argument", "signal %d: argument %p instead of %p, event %d", fd, arg, g->arg, ev);
	VH_MUST(!in_handler, "signal:nested", "handler of signal %d inside the handler of signal %d", fd, in_handler);
	VH_MUST(events_loop(fd) == L[g->loop], "signal:loop", "events_loop(%d) in its handler is not the loop it was registered on", fd);
	in_handler = fd;
	sig = vh_mix(sig, (uint64_t)fd * 4 + (uint64_t)h);
	if (norder < 4096) order[norder++] = fd;
	if (vh_p(20)) { int k = (int)vh_n(3); c_in++; for (; k > 0; k--) reg(S_use[vh_n(NS)]); }
	if (g->un) {
		struct sigaction sa;
		c_un++;
		if (events_del(fd)) vh_fatal("signal:unregister", "events_del of signal %d in its handler failed", fd);
		nsig_l[g->loop]--; g->reg = 0; g->un = 0;
		sigaction(fd, NULL, &sa);
		VH_MUST(sa.sa_handler == SIG_DFL, "signal:default", "the action of signal %d after its handler unregistered it is not the default", fd);
		c_dfl++;
		/* others may get its place then */
		if (vh_p(40)) { int k = (int)vh_n(3); for (; k > 0; k--) reg(S_use[vh_n(NS)]); }
		if (!g->reg && vh_p(40)) { reg(fd); c_again++; }
	}
	in_handler = 0;
	errno = EDOM;
	__atomic_fetch_add(&g->got, 1, __ATOMIC_SEQ_CST);
}
static void h0(fds_t fd, int ev, void *a) { handler(0, (int)fd, ev, a); }
static void h1(fds_t fd, int ev, void *a) { handler(1, (int)fd, ev, a); }
static void h2(fds_t fd, int ev, void *a) { handler(2, (int)fd, ev, a); }
static void h3(fds_t fd, int ev, void *a) { handler(3, (int)fd, ev, a); }
static void reg(int s) {
	int h = (int)vh_n(4), l = vh_p(60) ? 1 : 2;
	void *a = vh_n(8) ? args_ + vh_n(64) : NULL;
	sigset_t all, old;
	/* only so that the model and the library change together */
	sigfillset(&all); sigprocmask(SIG_SETMASK, &all, &old);
	if (events_add(L[l], s, EVENTS_SIGNAL, 0, H[h], a)) vh_fatal("signal:register", "events_add of signal %d failed", s);
	if (S[s].reg) { c_rereg++; nsig_l[S[s].loop]--; if (S[s].loop != l) c_moved++; }
	S[s].reg = 1; S[s].h = h; S[s].arg = a; S[s].loop = l; nsig_l[l]++; c_reg++;
	sigprocmask(SIG_SETMASK, &old, NULL);
}
static int mine;
static void send_(int s) {
	int k = vh_n(4);
	mine = k == 0 || k > 2;
	errno = EXDEV;
	switch (k) {
		case 0: raise(s); break;
		case 1: kill(getpid(), s); break;
		case 2: { union sigval v; v.sival_int = 1; if (sigqueue(getpid(), s, v)) vh_broken("sigqueue"); } break;
		default: pthread_kill(pthread_self(), s); break;
	}
	VH_MUST(errno == EXDEV, "signal:errno", "the errno of the code interrupted by signal %d went from EXDEV to %d", s, errno);
	c_errno++;
}
static void running(void) {
	int l;
	c_run++;
	for (l = 1; l <= 2; l++) VH_MUST(events_is_running(L[l]) == (nsig_l[l] + nfd_l[l] > 0), "signal:is-running", "loop %d with %d signals and %d descriptors is%s running", l, nsig_l[l], nfd_l[l], events_is_running(L[l]) ? "" : " not");
}
/* descriptors with the numbers of signals */
static int fl[65], fcb;
static void ready(fds_t fd, int ev, void *arg) { uint64_t v; VH_MUST(fl[fd] && arg == &fl[fd] && ev == EVENTS_READ, "signal:descriptor", "descriptor %d: event %d", (int)fd, ev); if (read((int)fd, &v, 8) != 8) vh_broken("read"); fcb++; c_fdcb++; }
static void fdop(int s) {
	if (s < 34) return;
	if (!fl[s]) {
		int e = eventfd(0, EFD_NONBLOCK);
		if (e < 0 || dup2(e, s) != s) vh_broken("dup2");
		if (e != s) close(e);
		fl[s] = 1 + (int)vh_n(2); nfd_l[fl[s]]++;
		if (events_add(L[fl[s]], s, EVENTS_READ, 0, ready, &fl[s])) vh_fatal("signal:descriptor", "events_add of descriptor %d, the number of a signal, failed", s);
		c_fd++;
	} else if (vh_p(60)) {
		uint64_t v = 1;
		VH_MUST(events_loop(s) == L[fl[s]], "signal:descriptor-loop", "events_loop of descriptor %d gives another loop", s);
		if (write(s, &v, 8) != 8) vh_broken("write");
		fcb = 0;
		events_once(L[fl[s]], 0);
		VH_MUST(fcb == 1, "signal:descriptor", "descriptor %d, the number of a signal, is ready and its callback was called %d times", s, fcb);
	} else {
		if (events_del(s)) vh_fatal("signal:descriptor", "events_del of descriptor %d, the number of a signal, failed", s);
		nfd_l[fl[s]]--; fl[s] = 0; close(s);
	}
}
static int rt(int s) { return s >= 34; }
static void one(void) {
	int s = S_use[vh_n(NS)], st, i;
	switch (vh_n(10)) {
		case 0: case 1: reg(s); break;
		case 2: if (S[s].reg) S[s].un = 1;	/* fall through */
		case 3: case 4:
			if (S[s].reg) {
				int b = S[s].got;
				send_(s);
				/* another thread of the process may take what is not sent to this one */
				if (!mine) { uint64_t t0 = vh_calm(); while (__atomic_load_n(&S[s].got, __ATOMIC_SEQ_CST) == b && vh_calm() - t0 < 20000000000ull) sched_yield(); }
				VH_MUST(S[s].got == b + 1, "signal:delivery", "signal %d was sent once and its handler called %d times", s, S[s].got - b);
			} else if (s == SIGCHLD || s == SIGCONT || s == SIGURG || s == SIGWINCH) { int b = S[s].got; raise(s); c_ign++; VH_MUST(S[s].got == b, "signal:not-registered", "%d", s); }
			break;
		case 5: case 6: {	/* several at once */
			sigset_t all, old;
			int n = 1 + (int)vh_n(12), tot[65] = {0}, base[65], k, last = 0;
			for (i = 1; i <= 64; i++) base[i] = S[i].got;
			sigfillset(&all); sigprocmask(SIG_SETMASK, &all, &old);
			for (i = 0; i < n; i++) {
				k = S_use[vh_n(NS)];
				if (S[k].reg && !S[k].un) { pthread_kill(pthread_self(), k);	/* not to the process: its other threads would take it */
				 tot[k] = rt(k) ? tot[k] + 1 : 1; if (vh_p(10) && tot[k] == 1 && !rt(k)) S[k].un = 1; }
			}
			norder = 0; c_batch++;
			sigprocmask(SIG_SETMASK, &old, NULL);
			for (i = 1; i <= 64; i++) VH_MUST(S[i].got - base[i] == tot[i], "signal:delivery", "signal %d was sent %d times at once with others and its handler called %d times", i, tot[i], S[i].got - base[i]);
			(void)last;
			} break;
		case 7: fdop(s); break;
		case 8:
			if (!S[s].reg && s != SIGCHLD && s != SIGCONT && s != SIGURG && s != SIGWINCH && vh_p(25)) {
				int b = __atomic_load_n(&S[SIGCHLD].got, __ATOMIC_SEQ_CST), w = S[SIGCHLD].reg;
				uint64_t t0;
				pid_t p = fork();
				if (p < 0) vh_broken("fork");
				if (p == 0) { vh_forked(); raise(s); _exit(7); }
				while (waitpid(p, &st, 0) < 0 && errno == EINTR);
				c_child++;
				/* its end was a signal, too, which another thread may take */
				t0 = vh_calm();
				while (w && __atomic_load_n(&S[SIGCHLD].got, __ATOMIC_SEQ_CST) == b && vh_calm() - t0 < 20000000000ull) sched_yield();
				VH_MUST(!w || __atomic_load_n(&S[SIGCHLD].got, __ATOMIC_SEQ_CST) == b + 1, "signal:delivery", "a child process ended and the handler of SIGCHLD was called %d times", S[SIGCHLD].got - b);
				VH_MUST(WIFSIGNALED(st) && WTERMSIG(st) == s, "signal:default", "signal %d, which is not registered, does not have its default action (status %x)", s, st);
			}
			break;
		default: running();
	}
}
static volatile int go_;
typedef struct { pthread_t t; int n; vh_rng r; } th;
static int ts[4], nts;
static void *sender(void *p) {
	th *t = p;
	int i;
	union sigval v; v.sival_int = 0;
	while (!go_) sched_yield();
	for (i = 0; i < t->n; i++) {
		int s = ts[vh_rn(&t->r, (uint32_t)nts)];
		__atomic_fetch_add(&S[s].exp, 1, __ATOMIC_SEQ_CST);
		while (sigqueue(getpid(), s, v)) { if (errno != EAGAIN) vh_broken("sigqueue"); sched_yield(); }
		if (vh_rn(&t->r, 3) == 0) sched_yield();
	}
	return NULL;
}
static void many(void) {
	th t[4];
	int i, j, n = 1 + (int)vh_n(4);
	uint64_t t0;
	nts = 1 + (int)vh_n(4);
	for (i = 0; i < nts; i++) { ts[i] = 34 + (int)vh_n(31); if (!S[ts[i]].reg) reg(ts[i]); S[ts[i]].un = 0; }
	for (i = 0; i < nts; i++) S[ts[i]].got = S[ts[i]].exp = 0;
	threads = 1; go_ = 0;
	for (i = 0; i < n; i++) { t[i].n = 10 + (int)vh_n(200); t[i].r.s = vh_rnd(); if (pthread_create(&t[i].t, NULL, sender, &t[i])) vh_broken("pthread_create"); }
	go_ = 1;
	/* the main thread registers again meanwhile, the same handlers */
	for (j = 0; j < 50; j++) {
		int s = ts[vh_n((uint32_t)nts)];
		if (vh_p(50)) { if (events_add(L[S[s].loop], s, EVENTS_SIGNAL, 0, H[S[s].h], S[s].arg)) vh_fatal("signal:register", "again"); }
		else sched_yield();
	}
	for (i = 0; i < n; i++) { pthread_join(t[i].t, NULL); c_thr += t[i].n; }
	t0 = vh_calm();
	for (i = 0; i < nts; i++) while (__atomic_load_n(&S[ts[i]].got, __ATOMIC_SEQ_CST) != S[ts[i]].exp) {
		if (vh_calm() - t0 > 10000000000ull) vh_fatal("signal:lost", "signal %d was sent %d times and handled %d times", ts[i], S[ts[i]].exp, S[ts[i]].got);
		vh_beat(); sched_yield();
	}
	for (i = 0; i < nts; i++) sig = vh_mix(sig, (uint64_t)S[ts[i]].got);
	threads = 0;
}
int main(int argc, char **argv) {
	long c;
	int i, n;
	sigset_t none;
	H[0] = h0; H[1] = h1; H[2] = h2; H[3] = h3;
	vh_init(argc, argv);
	sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, NULL);
	/* free the numbers of the real-time signals */
	{ int o = vh_n(1); for (i = 34; i < 66; i++) if (fcntl(i, F_GETFD) >= 0) vh_broken("descriptor %d in use", i); (void)o; }
	if (events_init(256)) vh_fatal("failed", "events_init failed");
	if (!(L[1] = events_create(60)) || !(L[2] = events_create(600))) vh_fatal("failed", "events_create failed");
	events_once(L[1], 0);
	for (c = 0; c < vh_cases; c++) {
		long b = c_deliv;
		vh_case(c); vh_watchdog(60); sig = 7;
		if (vh_p(8)) many();
		else { n = 20 + (int)vh_n(200); for (i = 0; i < n; i++) one(); running(); }
		/* some cases start with nothing registered */
		if (vh_p(40)) {
			for (i = 1; i <= 64; i++) while (S[i].reg) { S[i].un = 1; raise(i); }
			running();
		}
		vh_eval(1);
		if (c_deliv - b > 1 || c_thr) vh_sig(sig);
		if (vh_want_sample()) vh_sample("%ld deliveries", c_deliv - b);
	}
	vh_count("deliveries", c_deliv); vh_count("registrations", c_reg); vh_count("registrations replaced", c_rereg); vh_count("moved to another loop", c_moved); vh_count("unregistered by the handler", c_un);
	vh_count("default actions looked up", c_dfl); vh_count("default actions of a child process", c_child); vh_count("batches", c_batch); vh_count("descriptors with the number of a signal", c_fd); vh_count("callbacks of those", c_fdcb);
	vh_count("registered again by the handler that unregistered it", c_again);
	vh_count("errno compared after a signal", c_errno);
	vh_count("handlers that registered something", c_in); vh_count("signals sent by threads", c_thr); vh_count("questions whether a loop is running", c_run);
	vh_exit();
}
