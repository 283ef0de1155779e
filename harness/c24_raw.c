/* C24: the inotify functions themselves, without a loop, compared with the system's on the same directories: everything
 * that is read, entry by entry (inotify_next), with what the functions say about each entry. */
#include <events.h>
#include <except.h>
#include "vh.h"
#include <sys/stat.h>
#include <sys/syscall.h>
#include <poll.h>
#define lib_read os_read
#undef read
#undef write
#undef open
#undef close
#define MAXI 3
#define MAXD 5
#define BUF 8192
static int fd[MAXI], ref[MAXI], wd[MAXI][MAXD], rwd[MAXI][MAXD], on[MAXI][MAXD], n_in;
static char dir[MAXD][300], buf[MAXI][BUF], rbuf[BUF];
static long c_read, c_ev, c_next, c_max, c_rm, c_ign, c_many, c_foreign, c_ops;
static int exists(const char *p) { struct stat st; return lstat(p, &st) == 0; }
static void op(void) {
	char p[400], q[400];
	int d = (int)vh_n(MAXD), f;
	static char z[3000];
	snprintf(p, sizeof p, "%s/%.*sf%d", dir[d], (int)vh_n(60), "a_long_name_that_makes_the_entry_larger_than_the_short_ones", (int)vh_n(4));
	c_ops++;
	switch (vh_n(7)) {
	case 0: case 1: if ((f = open(p, O_CREAT | O_WRONLY | O_APPEND, 0600)) < 0) vh_broken("open"); if (write(f, z, 1 + vh_n(2999)) < 0) vh_broken("write"); close(f); break;
	case 2: if ((f = open(p, O_CREAT | O_RDONLY, 0600)) < 0) vh_broken("open"); close(f); break;
	case 3: unlink(p); break;
	case 4: if (exists(p)) chmod(p, 0600 + 0100 * vh_n(2)); break;
	case 5: snprintf(q, sizeof q, "%s/g%d", dir[vh_n(MAXD)], (int)vh_n(3)); rename(p, q); break;
	default: snprintf(q, sizeof q, "%s/sub%d", dir[d], (int)vh_n(2)); if (exists(q)) rmdir(q); else mkdir(q, 0700);
	}
}
/* all there is, from both */
static void drain(int i) {
	for (;;) {
		struct pollfd pf[2];
		int room, n, m;
		struct inotify_event *e, *r;
		inotify_t *ev;
		pf[0].fd = fd[i]; pf[0].events = POLLIN; pf[1].fd = ref[i]; pf[1].events = POLLIN;
		poll(pf, 2, 0);
		if ((pf[0].revents != 0) != (pf[1].revents != 0)) vh_fatal("raw:ready", "the library's descriptor %s to read, the system's %s", pf[0].revents ? "has something" : "has nothing", pf[1].revents ? "has" : "has not");
		if (!pf[0].revents) return;
		room = vh_p(30) ? 280 + (int)vh_n(300) : BUF;
		memset(buf[i], 0x5a, BUF);
		n = lib_read(fd[i], buf[i], room);
		m = (int)read(ref[i], rbuf, room);
		if (n != m) vh_fatal("raw:read", "read gives %d, the system %d", n, m);
		if (n <= 0) vh_fatal("raw:read", "read gives %d", n);
		c_read++; vh_beat();
		for (ev = (inotify_t *)buf[i], m = 0; ; m++) {
			int k;
			const char *nm;
			e = (struct inotify_event *)ev; r = (struct inotify_event *)(rbuf + ((char *)ev - buf[i]));
			c_ev++;
			if (e->mask != r->mask || e->len != r->len || e->cookie != r->cookie) {	/* cookies differ between descriptors */
				if (e->mask != r->mask || e->len != r->len) vh_fatal("raw:entry", "entry %d: mask 0x%x and length %u, the system says 0x%x and %u", m, e->mask, e->len, r->mask, r->len);
			}
			for (k = 0; k < MAXD && rwd[i][k] != r->wd; k++);
			if (k < MAXD && e->wd != wd[i][k]) vh_fatal("raw:wd", "entry %d is of watch %d, inotify_add_watch gave %d", m, e->wd, wd[i][k]);
			if (inotify_mask(ev) != r->mask) vh_fatal("raw:mask", "inotify_mask gives 0x%x for 0x%x", inotify_mask(ev), r->mask);
			if (inotify_length(ev) != r->len) vh_fatal("raw:length", "inotify_length gives %u for %u", inotify_length(ev), r->len);
			nm = inotify_name(ev);
			if (r->len && strcmp(nm, r->name)) vh_fatal("raw:name", "inotify_name gives %s for %s", nm, r->name);
			if (inotify_added(ev) != !!(r->mask & (IN_CREATE | IN_MOVED_TO))) vh_fatal("raw:added", "inotify_added is %d for 0x%x", inotify_added(ev), r->mask);
			if (inotify_removed(ev) != !!(r->mask & (IN_DELETE | IN_MOVED_FROM))) vh_fatal("raw:removed", "inotify_removed is %d for 0x%x", inotify_removed(ev), r->mask);
			if (inotify_modified(ev) != !!(r->mask & IN_MODIFY)) vh_fatal("raw:modified", "inotify_modified is %d for 0x%x", inotify_modified(ev), r->mask);
			if (r->mask & IN_IGNORED) c_ign++;
			ev = inotify_next(ev);
			k = (int)((char *)(r + 1) + r->len - rbuf);	/* where the next one is */
			if (k >= n) { if (ev) vh_fatal("raw:next", "inotify_next gives one more after all %d", m + 1); break; }
			if ((char *)ev != buf[i] + k) vh_fatal("raw:next", "after entry %d at %d of %d bytes inotify_next gives %ld", m, k, n, ev ? (long)((char *)ev - buf[i]) : -1L);
			c_next++;
		}
		if (m + 1 > c_max) c_max = m + 1;
	}
}
int main(int argc, char **argv) {
	long c;
	int i, d;
	vh_init(argc, argv);
	vh_case(0); vh_watchdog(60);
	if (vh_p(50)) events_init(1024);
	for (c = 0; c < vh_cases; c++) {
		int ops = 1 + (int)vh_n(120), o;
		uint64_t sig = 7;
		long was = c_ev;
		vh_case(c);
		n_in = 1 + (int)vh_n(MAXI);
		if (n_in > 1) c_many++;
		for (d = 0; d < MAXD; d++) { snprintf(dir[d], sizeof dir[d], "%s/r%ld_%d", vh_dir(), c, d); if (mkdir(dir[d], 0700)) vh_broken("mkdir"); }
		memset(on, 0, sizeof on);
		for (i = 0; i < n_in; i++) {
			fd[i] = vh_p(50) ? inotify_init() : inotify_init1(vh_p(50) ? IN_NONBLOCK : 0);
			ref[i] = (int)syscall(SYS_inotify_init1, 0);
			if (fd[i] < 0 || ref[i] < 0) vh_fatal("raw:init", "inotify_init fails: %s", strerror(errno));
			for (d = 0; d < MAXD; d++) if (vh_p(75)) {
				static const uint32_t ms[] = {IN_MODIFY | IN_CREATE | IN_DELETE, IN_ALL_EVENTS, IN_MOVE | IN_ATTRIB | IN_CLOSE, IN_CREATE | IN_DELETE | IN_DELETE_SELF};
				uint32_t mask = ms[vh_n(4)];
				wd[i][d] = inotify_add_watch(fd[i], dir[d], mask);
				rwd[i][d] = (int)syscall(SYS_inotify_add_watch, ref[i], dir[d], mask);
				if (wd[i][d] < 0 || rwd[i][d] < 0) vh_fatal("raw:add", "inotify_add_watch gives %d, the system %d: %s", wd[i][d], rwd[i][d], strerror(errno));
				on[i][d] = 1;
			} else wd[i][d] = rwd[i][d] = -9;
			if (inotify_add_watch(fd[i], "/nonexistent/x", IN_MODIFY) != -1) vh_fatal("raw:add", "inotify_add_watch of no directory succeeds");
		}
		for (o = 0; o < ops; o++) {
			op();
			if (vh_p(8)) drain((int)vh_n((uint32_t)n_in));
			if (vh_p(3)) {
				i = (int)vh_n((uint32_t)n_in); d = (int)vh_n(MAXD);
				if (on[i][d]) {
					drain(i);
					if (inotify_rm_watch(fd[i], wd[i][d])) vh_fatal("raw:rm", "inotify_rm_watch fails: %s", strerror(errno));
					if (syscall(SYS_inotify_rm_watch, ref[i], rwd[i][d])) vh_broken("rm_watch");
					on[i][d] = 0; c_rm++;
				}
			}
		}
		for (i = 0; i < n_in; i++) drain(i);
		/* one that is not the library's */
		{ inotify_t *ev = (inotify_t *)rbuf; if (inotify_next(ev)) vh_fatal("raw:next", "inotify_next of what was not read with the library gives %p", (void *)inotify_next(ev)); c_foreign++; }
		for (i = 0; i < n_in; i++) {
			int was = fd[i];
			if (vh_p(50) ? inotify_close(fd[i]) : inotify_rm_watch(fd[i], -1)) vh_fatal("raw:close", "closing fails");
			if (fcntl(was, F_GETFD) != -1) vh_fatal("raw:close", "the descriptor is open after inotify_close");
			close(ref[i]);
		}
		sig = vh_mix(sig, (uint64_t)(c_ev - was)); sig = vh_mix(sig, (uint64_t)n_in | (uint64_t)ops << 8);
		if (vh_want_sample()) vh_sample("%d descriptors, %d changes, %ld entries", n_in, ops, c_ev - was);
		vh_eval(1); vh_sig(sig);
	}
	vh_count("entries compared with the system's", c_ev); vh_count("reads", c_read); vh_count("steps of inotify_next", c_next); vh_count("most entries in a read", c_max);
	vh_count("inotify_rm_watch", c_rm); vh_count("entries of ended watches", c_ign); vh_count("cases with several descriptors", c_many); vh_count("changes made", c_ops);
	vh_exit();
	return 0;
}
