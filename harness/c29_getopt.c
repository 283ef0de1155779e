/* C29: command line recognition against a model; the ordered mode is process-wide, so each of its cases has a child. */
#include <events.h>
#include <except.h>
#include "vh.h"
#include "ev.h"
#include <sys/wait.h>
static char *av[40];
static int ac, minimum = 1, idx = 1, ordered;
static char words[40][64];
static uint64_t sig;
static int errfd = -1;
#define BAD(key, ...) do { if (errfd >= 0) { dprintf(errfd, "%s\t", key); dprintf(errfd, __VA_ARGS__); _exit(9); } vh_fatal(key, __VA_ARGS__); } while (0)
static char *line(void) { static char b[2000]; int i; char *o = b; for (*b = 0, i = 1; i < ac; i++) o += sprintf(o, "%s ", av[i]); return b; }
static const char *const F[] = {"-v", "-x", "--file", "--out", "name", "-", "--", "-vv", "--fil", "a"};
static void gen(void) {
	int i, n = vh_p(10) ? 0 : (int)vh_n(vh_p(80) ? 6 : 30);
	ac = n + 1;
	av[0] = "prog";
	for (i = 1; i <= n; i++) {
		uint32_t r = vh_n(100);
		if (r < 45) strcpy(words[i], F[vh_n(10)]);
		else if (r < 75) { int k; char *o = words[i] + sprintf(words[i], "%s=", F[vh_n(10)]); for (k = (int)vh_n(8); k > 0; k--) *o++ = "ab=-v x"[vh_n(7)]; *o = 0; }
		else if (r < 80) strcpy(words[i], ((const char *const[]){"-h", "--h", "?", "help"})[vh_n(4)]);
		else if (r < 88) strcpy(words[i], ((const char *const[]){"h", "-", ", ", "el", "--help", "help,"})[vh_n(6)]);
		else { int k; char *o = words[i]; for (k = (int)vh_n(8); k > 0; k--) *o++ = "ab-=."[vh_n(5)]; *o = 0; }
		av[i] = vh_guard(words[i], strlen(words[i]) + 1);
	}
	av[ac] = NULL;
	getopt_arguments_set(ac, av);
}
static int is_help(const char *s) { return !strcmp(s, "-h") || !strcmp(s, "--h") || !strcmp(s, "?") || !strcmp(s, "help"); }
static void query(const char *flag, int single) {
	int i, found = 0, got;
	const char *val = NULL;
	if (ac > minimum) for (i = idx; i < ac && !found; i++) {
		size_t l = flag ? strlen(flag) : 0;
		if (!flag) { found = 1; val = av[i]; }
		else if (!strcmp(av[i], flag)) { found = 1; val = single ? av[i] : av[++i]; }
		else if (single && !strncmp(av[i], flag, l) && av[i][l] == '=') { found = 1; val = av[i] + l + 1; }
		else if (is_help(av[i])) break;
		if (found && ordered) { idx = i + 1; break; }
	}
	got = getopt_has(flag ? vh_guard(flag, strlen(flag) + 1) : NULL, single);
	if (got != found) BAD(found ? "opt:missed" : "opt:invented", "\"%s\" (%s) is%s found in: %s", flag ? flag : "(any)", single ? "single" : "with value", got ? "" : " not", line());
	if (found) {
		const char *v = getopts();
		if (!v != !val || (v && strcmp(v, val))) BAD("opt:value", "of \"%s\" (%s) is \"%s\", not \"%s\" in: %s", flag ? flag : "(any)", single ? "single" : "with value", v ? v : "(none)", val ? val : "(none)", line());
	}
	for (i = 1; i < ac; i++) if (strcmp(av[i], words[i])) BAD("opt:argument", "\"%s\" was changed to \"%s\"", words[i], av[i]);
	sig = vh_mix(sig, (uint64_t)(found * 2 + single) + (val ? vh_hash(val, strlen(val)) : 0));
}
static void queries(int n) {
	while (n--) {
		int single = vh_p(70);
		if (vh_p(ordered ? 40 : 12)) query(NULL, single); else query(F[vh_n(10)], single);
	}
}
int main(int argc, char **argv) {
	long c;
	int nul;
	vh_init(argc, argv);
	if (events_init(1024)) vh_fatal("failed", "events_init failed");
	fflush(stdout);
	nul = open("/dev/null", O_WRONLY);
	dup2(nul, 2);
	for (c = 0; c < vh_cases; c++) {
		vh_case(c);
		sig = 1;
		vh_guard_reset();
		gen();
		if (c % 4) { queries(12); vh_count("queries, any order", 12); }
		else {
			int p[2], st, n = 0;
			pid_t pid;
			char b[1000];
			if (pipe(p)) vh_broken("pipe");
			pid = fork();
			if (pid < 0) vh_broken("fork");
			if (!pid) {
				vh_forked();
				errfd = p[1];
				ordered = vh_p(80); minimum = 1 + (int)vh_n(vh_p(50) ? 1 : 4);
				getopt_message_set("usage", minimum, ordered);
				getopt_message_set("other", 30, !ordered);	/* only the first setting counts */
				if (ordered && vh_p(40)) { int k; for (k = 0; k < ac + 2; k++) query(NULL, 1); }	/* positional, each once */
				else queries(20);
				_exit(0);
			}
			close(p[1]);
			{ ssize_t k; while ((k = read(p[0], b + n, sizeof b - 1 - (size_t)n)) > 0) n += (int)k; b[n] = 0; }
			close(p[0]);
			while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
			if (n) { char *t = strchr(b, '\t'); *t = 0; vh_fatal(b, "%s", t + 1); }
			if (st) vh_fatal("opt:crash", "the child ended with status %x in: %s", st, line());
			vh_count("queries in children, mostly ordered", 20);
			sig = vh_mix(sig, vh_hash(line(), strlen(line())));
		}
		vh_eval(1);
		if (ac > 1) vh_sig(sig);
		if (vh_want_sample()) vh_sample("arguments: %s", line());
		if (c % 256 == 0) vh_beat();
	}
	vh_exit();
}
