/* C02: locals, whole stack contents and callee-saved registers over suspensions; stack overflow diagnostic. */
#include <events.h>
#include "vh.h"
#include "ev.h"
#include <sys/wait.h>
#include <sys/socket.h>
#include <sys/mman.h>

#define MAXT 64
typedef struct { size_t stack, use; int frame, yields, thr; uint64_t seed; int done; char *lo, *hi; void *data; uint32_t id; tasks_t *self; } task_p;
static task_p T[MAXT];
static int nT, left, deepest;
static long n_susp, only = -1;

/* calls fn with the callee-saved registers loaded from v and stores what they are afterwards in out */
void regs_call(void (*fn)(void), const uint64_t *v, uint64_t *out);
__asm__(".text\n.globl regs_call\nregs_call:\n"
	"push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\npush %rdx\n"
	"mov %rdi,%rax\nmov (%rsi),%rbx\nmov 8(%rsi),%rbp\nmov 16(%rsi),%r12\nmov 24(%rsi),%r13\nmov 32(%rsi),%r14\nmov 40(%rsi),%r15\n"
	"call *%rax\npop %rdx\nmov %rbx,(%rdx)\nmov %rbp,8(%rdx)\nmov %r12,16(%rdx)\nmov %r13,24(%rdx)\nmov %r14,32(%rdx)\nmov %r15,40(%rdx)\n"
	"pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n");

static void *nothing(param_t a) { (void)a; VH_MUST(task_data() == NULL, "stack:own-data", "a new task has data %p", task_data()); return (void *)0x5a5a5a5aUL; }
static void s_yield(void) { yield(); }
static void s_delay(void) { delay(1); }
static void s_launch(void) { launch((launch_func_t)nothing, 0); }
static void s_await(void) { await_for(async_task(nothing, 0)); }
static void suspend_somehow(int t, vh_rng *r, int where) {
	uint64_t v[6], out[6];
	int i;
	uint32_t k = only >= 0 ? (uint32_t)only : vh_rn(r, 100);
	double d0 = (double)vh_rr(r) / 3.0;
	volatile double d = d0;
	for (i = 0; i < 6; i++) v[i] = vh_rr(r);
	regs_call(k < 70 ? s_yield : k < 80 ? s_launch : k < 90 ? s_await : s_delay, v, out);
	for (i = 0; i < 6; i++)
		VH_MUST(v[i] == out[i], "stack:register", "callee-saved register %d of task %d is %llx after a suspension, was %llx", i, t, (unsigned long long)out[i], (unsigned long long)v[i]);
	VH_MUST(d == d0, "stack:locals", "a local double of task %d changed (%d)", t, where);
	VH_MUST(task_data() == T[t].data && task_data_get(T[t].self) == T[t].data && active_task() == T[t].self && task_id() == T[t].id, "stack:own-data",
		"after a suspension task %d has data %p and id %u, had %p and %u", t, task_data(), task_id(), T[t].data, T[t].id);
	if (vh_rn(r, 4) == 0) task_data_set(T[t].self, T[t].data = (void *)(uintptr_t)(vh_rr(r) | 1));
	n_susp++;
	vh_beat();
}
static void __attribute__((noinline)) rec(int t, size_t used, vh_rng *r) {
	task_p *p = &T[t];
	size_t n = 16 + vh_rn(r, (uint32_t)p->frame), i;
	uint64_t pat = vh_rr(r);
	unsigned char *b = __builtin_alloca(n);
	int me = t, k;
	if ((char *)b < p->lo) p->lo = (char *)b;
	for (i = 0; i < n; i++) b[i] = (unsigned char)(pat >> (i % 8 * 8)) ^ (unsigned char)i;
	if (vh_rn(r, 3) == 0) suspend_somehow(t, r, 1);
	if (used + n + 400 < p->use && used / 64 < 4000) rec(t, used + n + 176, r);
	else {
		for (k = 0; k < p->yields; k++) suspend_somehow(t, r, 2);
		if ((int)(p->hi - p->lo) > deepest) deepest = (int)(p->hi - p->lo);
	}
	if (vh_rn(r, 3) == 0) suspend_somehow(t, r, 3);
	VH_MUST(me == t, "stack:locals", "a local of task %d changed", t);
	for (i = 0; i < n; i++)
		VH_MUST(b[i] == ((unsigned char)(pat >> (i % 8 * 8)) ^ (unsigned char)i), "stack:contents", "byte %zu of %zu on the stack of task %d changed while it was suspended (stack use %zu of %zu)", i, n, t, used, p->stack);
}
static void *body(param_t args) {
	int t = args[0].integer, i, j;
	char here;
	vh_rng r;
	r.s = T[t].seed;
	T[t].hi = T[t].lo = &here;
	VH_MUST(task_data() == NULL, "stack:own-data", "a new task has data %p", task_data());
	T[t].self = active_task(); T[t].id = task_id();
	for (i = 0; i < nT; i++) VH_MUST(i == t || T[i].done || !T[i].self || (T[i].self != T[t].self && T[i].id != T[t].id), "stack:own-data", "tasks %d and %d are the same or have the same number %u", i, t, T[t].id);
	task_data_set(T[t].self, T[t].data = &T[t]);
	rec(t, 300, &r);
	T[t].done = 1;
	if (vh_rn(&r, 2)) task_data_set(T[t].self, NULL);
	for (i = t, j = 0; j < nT; j++) if (j != i && T[j].hi && !T[j].done)
		VH_MUST(T[j].hi < T[i].lo || T[j].lo > T[i].hi, "stack:overlap", "stacks of tasks %d and %d overlap", i, j);
	left--;
	return NULL;
}
/* --- overflow: in a child process, a task that eats its stack in small steps ----------------- */
static size_t of_stack, of_step, of_used;
static char *of_top;
static int of_how, of_fd, of_pre;
static size_t of_at;	/* not 0: suspend only at this depth */
static volatile size_t *of_sh;	/* depth at the last suspension */
static void of_suspend(void) {
	if (of_how == 1) delay(0);
	else if (of_how == 2) async_wait(of_fd, 'w');
	else if (of_how == 3) await_for(async_task(nothing, 0));
	else yield();
}
static void __attribute__((noinline)) eat(void) {
	volatile char *b = __builtin_alloca(of_step);
	b[0] = b[of_step - 1] = 1;
	of_used = (size_t)(of_top - (char *)b);
	if (of_used > of_stack * 3) return;
	if (!of_at || of_used + 8 >= of_at) {
		*of_sh = of_used;
		of_suspend();
		if (of_at) _exit(76);
	}
	eat();
	b[1] = 2;
}
static void *eater(param_t a) { char here; int i; (void)a; of_top = &here; for (i = 0; i < of_pre; i++) of_suspend(); eat(); return NULL; }
static void *of_main(param_t a) {
	int i;
	(void)a;
	{ int sp[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp)) _exit(79); of_fd = sp[0]; }
	async_ex(of_stack, (launch_func_t)eater, 0);
	for (i = 0; i < 5000; i++) yield();
	_exit(77);
}
static int overflow_run(int *out) {
	int st, pfd[2];
	char msg[20000];
	size_t n = 0;
	ssize_t k;
	pid_t pid;
	if (pipe(pfd)) vh_broken("pipe");
	pid = fork();
	if (pid < 0) vh_broken("fork");
	if (!pid) {
		vh_forked();
		alarm(30);
		dup2(pfd[1], 1); dup2(pfd[1], 2); close(pfd[0]); close(pfd[1]);
		ev_run(of_main);
		_exit(78);
	}
	close(pfd[1]);
	while ((k = read(pfd[0], msg + (n > 15000 ? (n = 5000) : n), 4000)) > 0) n += (size_t)k;
	close(pfd[0]);
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
	msg[n] = 0;
	*out = st;
	if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { vh_count("overflow_timeouts", 1); return -1; }
	return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && memmem(msg, n, "stack overflow", 14);
}
static const char *of_hows[] = {"yield", "delay", "async_wait", "await_for"};
static const char *of_names[] = {"overflows diagnosed by yield", "overflows diagnosed by delay", "overflows diagnosed by async_wait", "overflows diagnosed by await_for"};
static void overflow_case(void) {
	int st, r, i;
	if (!of_sh) of_sh = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	of_stack = (size_t)(8 + vh_n(40)) * 1024;
	of_step = 64 + vh_n(100);
	of_how = (int)vh_n(4);
	/* first: in small steps, suspending after each; it must be noticed at one of them */
	of_at = 0; of_pre = 0; *of_sh = 0;
	r = overflow_run(&st);
	if (r < 0) return;
	VH_CHECK(r, "stack:overflow-unseen",
		"a task given %zu bytes of stack that used more in steps of %zu with a %s after each was not stopped with a diagnostic (%s %d)", of_stack, of_step, of_hows[of_how],
		WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
	if (!r) return;
	vh_count(of_names[of_how], 1);
	/* then: that depth reached without a suspension on the way; the only suspension there, the of_pre+1st of the task, must notice */
	of_at = *of_sh;
	for (i = 0; i < 3; i++) {
		of_pre = (int)vh_n(i ? 40 : 8);
		r = overflow_run(&st);
		if (r < 0) return;
		VH_CHECK(r, "stack:overflow-unseen",
			"a task given %zu bytes of stack that has used %zu of them was stopped by one %s and is not stopped by another, after %d suspensions (%s %d)", of_stack, of_at, of_hows[of_how], of_pre,
			WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
		vh_count("overflows diagnosed at a single suspension", 1);
	}
}
static void *mainfn(param_t args) {
	long c;
	int i;
	(void)args;
	for (c = 0; c < vh_cases; c++) {
		uint64_t sig = 3;
		vh_case(c);
		memset(T, 0, sizeof T);
		nT = left = 1 + (int)vh_n(vh_p(20) ? MAXT : 8);
		for (i = 0; i < nT; i++) {
			task_p *p = &T[i];
			p->stack = 8192 + vh_n(vh_p(30) ? 100000 : 16000);
			p->use = vh_p(40) ? p->stack - 2600 : 400 + vh_n((uint32_t)(p->stack - 3000));
			p->frame = 8 + (int)vh_n(vh_p(30) ? 1500 : 200);
			p->yields = (int)vh_n(5);
			p->seed = vh_rnd();
			sig = vh_mix(sig, p->stack ^ p->use << 20);
		}
		n_susp = 0;
		for (i = 0; i < nT; i++) {
			async_ex(T[i].stack, (launch_func_t)body, 1, (void *)(intptr_t)i);
			if (vh_p(50)) yield();
		}
		while (left) yield();
		vh_eval(1);
		vh_count("suspensions", n_susp);
		if (n_susp > 2) vh_sig(vh_mix(sig, (uint64_t)n_susp));
		vh_sample("case %ld: %d tasks, %ld suspensions, deepest stack use %d bytes of %zu", c, nT, n_susp, deepest, T[0].stack);
	}
	vh_exit();
	return NULL;
}
int main(int argc, char **argv) {
	long i;
	vh_init(argc, argv);
	only = vh_arg("only", -1);
	for (i = 0; i < vh_arg("overflows", 0); i++) {
		vh_case(1000000 + i);
		overflow_case();
		vh_eval(1);
		vh_sig(vh_mix(of_stack, of_step));
	}
	ev_run(mainfn);
	vh_fatal("sched:main-lost", "the scheduler returned before the main task ended (case %ld)", vh_casenr());
}
