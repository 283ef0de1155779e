/* C17, C18: random programs of try/catch/finally and guard sections with cleanups, against an interpreter. */
#include <events.h>
#include <except.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include "vh.h"
void *events_calloc(size_t, size_t);
void events_free(void *);
#include "ev.h"
enum { MARK, THROW, PANIC, RAISE, TRY, GUARD, DEFER, FENCE, YIELD, CALL, RETHROW, MSG, DOBJ, PROTECT, TRYING, NKIND };
enum { E_DIV, E_OOM, E_LOGIC, E_TYPE, E_DBZ, E_IDBZ, E_FDBZ, E_USER, E_USER2, NTHROW, E_SEGV = NTHROW, E_FPE, E_ILL, E_INT, E_ABRT, NEX, E_PANIC = NEX, NALL = E_PANIC + 4 };
static const char *const names[] = { "division_by_zero", "out_of_memory", "logic_error", "invalid_type", "divide_by_zero", "int_divide_by_zero", "flt_divide_by_zero", "by_zero", "out_of", "sig_segv", "sig_fpe", "sig_ill", "sig_int", "sig_abrt" };
EX_EXCEPTION(by_zero);
EX_EXCEPTION(out_of);
static const char *const messages[] = { "boom", "no such thing", "4", "boom, again" };
typedef struct node { struct node *next, *body, *handler, *fin, *owner; int recovered; int k, e, clause, id, has_fin, recover, depth; } node;
/* clause: 0..NEX-1 catch(E); NEX catch_any; NEX+1 none; NEX+2 catch_if with caught(e) */
#define MAXN 600
#define MAXT 6000
typedef struct { node n[MAXN]; int nn, budget; int got[MAXT], want[MAXT], ng, nw; vh_rng r; node *tst[MAXN]; int nts; int in_task, guards, lines[2]; const char *bad; pthread_t th; int nstart, nyield, ncatch, nfin, nthrow, ndefer, nrec, nguard, ntrying, done, tdef, nprot, uncaught; node *root; int defs; void *result; } prog;
static __thread prog *cp_;	/* program of this thread when there are no tasks */
static int use_guard, use_try = 1, maxd = 12, use_tdefer, no_obj, use_child, main_scope;
/* no header has it */
values_t *trying(void *with, data_func_t tryFunc, data_func_t catchFunc, launch_func_t finalFunc) __attribute__((weak));
static void enter(prog *p) { if (p->in_task) task_data_set(active_task(), p); else cp_ = p; }
static prog *cur(void) { return cp_ ? cp_ : task_data(); }
static void put(prog *p, int v) { if (p->ng < MAXT) p->got[p->ng] = v; p->ng++; }
static void want(prog *p, int v) { if (p->nw < MAXT) p->want[p->nw] = v; p->nw++; }
static int exid(const char *s) {
	int i;
	if (!s) return -1;
	for (i = 0; i < NEX; i++) if (!strcmp(s, names[i])) return i;
	if (!strcmp(s, "_panic")) return NEX;
	return 99;
}
static int msgid(const char *s) { int i; if (!s || !*s) return -1; for (i = 0; i < 4; i++) if (!strcmp(s, messages[i])) return E_PANIC + i; return exid(s); }
/* ---- generation ---- */
static node *mk(prog *p, int k) { node *n; if (p->nn >= MAXN) return 0; n = &p->n[p->nn]; memset(n, 0, sizeof *n); n->k = k; n->id = p->nn++; return n; }
static node *seq(prog *p, int depth, int inh, int ing);
static node *gen(prog *p, int depth, int inh, int ing) {
	vh_rng *r = &p->r;
	node *n;
	int x = (int)vh_rn(r, 100);
	if (depth < 2 && vh_rn(r, 3)) x = 52 + (int)vh_rn(r, 33);
	if (p->budget-- <= 0 || depth > maxd) return (int)vh_rn(r, 3) ? mk(p, MARK) : 0;
	if (x < 14) { if ((n = mk(p, THROW))) n->e = (int)vh_rn(r, NTHROW); return n; }
	if (x < 18) { if ((n = mk(p, PANIC))) n->e = E_PANIC + (int)vh_rn(r, 4); return n; }
	if (x < 21) { if ((n = mk(p, RAISE))) n->e = NTHROW + (int)vh_rn(r, NEX - NTHROW); return n; }
	if (x < 24 && inh) return mk(p, RETHROW);
	if (x < 30) return mk(p, YIELD);
	if (x < 38) { if ((n = mk(p, CALL))) n->body = seq(p, depth + 1, 0, ing); return n; }
	if (x < 40 && inh) return mk(p, MSG);
	if (x < 43 && use_guard) { if ((n = mk(p, PROTECT))) { n->e = (int)vh_rn(r, 4) == 0; n->recover = (int)vh_rn(r, 2); n->body = seq(p, depth + 1, 0, ing); } return n; }
	if (x < 52 && (ing > 0 || (use_tdefer && !ing))) { if ((n = mk(p, vh_rn(r, 6) == 0 && !no_obj ? DOBJ : vh_rn(r, 5) ? DEFER : FENCE))) { n->e = (int)vh_rn(r, 2); n->recover = ing > 0 && n->k != DOBJ && vh_rn(r, 4) == 0; if (vh_rn(r, 4) == 0) n->body = seq(p, depth + 1, 0, -1); } return n; }
	if (x < 66 && use_guard) { if ((n = mk(p, GUARD))) n->body = seq(p, depth + 1, 0, 1); return n; }
	if (x >= 82 && x < 85 && use_try && ing >= 0 && trying != 0) {
		if (!(n = mk(p, TRYING))) return 0;
		n->e = (int)vh_rn(r, 4) != 0;
		n->has_fin = (int)vh_rn(r, 2);
		n->body = seq(p, depth + 1, 0, ing);
		if (n->e) n->handler = seq(p, depth + 1, 0, ing);
		if (n->has_fin) n->fin = seq(p, depth + 1, 0, ing);
		return n;
	}
	if (x < 85 && use_try) {
		if (!(n = mk(p, TRY))) return 0;
		n->clause = (int)vh_rn(r, 10) < 3 ? (int)vh_rn(r, NEX) : (int)vh_rn(r, 2) ? NEX : NEX + (int)vh_rn(r, 3);
		n->e = (int)vh_rn(r, NALL);
		n->has_fin = (int)vh_rn(r, 2);
		n->body = seq(p, depth + 1, 0, ing);
		n->handler = seq(p, depth + 1, 1, ing);
		if (n->has_fin) n->fin = seq(p, depth + 1, 0, ing);
		return n;
	}
	return mk(p, MARK);
}
static node *seq(prog *p, int depth, int inh, int ing) {
	node *first = 0, **at = &first;
	int k = (int)vh_rn(&p->r, 5);
	while (k--) { node *n = gen(p, depth, inh, ing); if (!n) break; *at = n; at = &n->next; }
	return first;
}
/* ---- the reference: returns the exception that leaves the statements, -1 if none ---- */
typedef struct scope { struct scope *up; node *d[MAXN]; int nd; node *owner; } scope;
static scope *top_;	/* of the task, none in a plain thread */
static int ref(prog *p, node *n, int pending, scope *sc);
static int matches(int clause, int e, int sel) {
	if (clause < NEX) return clause == e;
	if (clause == NEX) return 1;
	if (clause == NEX + 1) return 0;
	return sel == e;	/* caught() compares the message of a panic */
}
static int nm(int e) { return e >= E_PANIC ? NEX : e; }
static int ref1(prog *p, node *n, int pending, scope *sc) {
	int e, caught;
	switch (n->k) {
		case MARK: case YIELD: want(p, n->id); return -1;
		case THROW: case PANIC: case RAISE: want(p, n->id); return n->e;
		case RETHROW: want(p, n->id); return pending;
		case CALL: want(p, n->id); e = ref(p, n->body, -1, sc); if (e < 0) want(p, n->id + 1000); return e;
		case MSG: want(p, n->id); want(p, 5000 + pending); return -1;
		case PROTECT: want(p, n->id); e = ref(p, n->body, -1, sc); if (e < 0) want(p, n->id + 1000); else if (!n->e) want(p, n->id + 2000); return e;
		case DOBJ: case DEFER: case FENCE: want(p, n->id); if (n->k == DOBJ && top_) sc = top_; sc->d[sc->nd++] = n; n->owner = sc->owner; return -1;
		case TRYING: {
			int v = n->id + 7, e2;
			want(p, n->id);
			e = ref(p, n->body, -1, sc);
			if (e < 0) want(p, n->id + 1000);
			else {
				v = 0;
				if (n->e) { want(p, n->id + 2000); e = ref(p, n->handler, -1, sc); if (e < 0) v = n->id + 9; } else e = -1;
			}
			if (n->has_fin) { want(p, n->id + 3000); want(p, v); e2 = ref(p, n->fin, -1, sc); if (e2 >= 0) return e2; want(p, n->id + 4000); }
			if (e < 0) want(p, v);
			return e;
		}
		case TRY:
			want(p, n->id);
			e = ref(p, n->body, -1, sc); caught = 0;
			if (e < 0) want(p, n->id + 1000);
			if (e >= 0 && (n->clause == NEX + 2 || matches(n->clause, e, n->e))) {
				int e2;
				want(p, n->id + 2000); want(p, nm(e));
				caught = matches(n->clause, e, n->e);
				if (n->clause == NEX + 2) want(p, caught);
				e2 = ref(p, n->handler, e, sc);
				if (e2 >= 0) { e = e2; caught = 0; }
			}
			if (n->has_fin) {
				int e2;
				want(p, n->id + 3000); want(p, e >= 0 ? nm(e) : -1); want(p, caught);
				e2 = ref(p, n->fin, -1, sc);
				if (e2 >= 0) return e2;
				want(p, n->id + 4000);
			}
			return caught ? -1 : e;
		case GUARD: {
			scope *s = calloc(1, sizeof *s);
			int i, rec = 0;
			want(p, n->id); s->up = sc; s->owner = n;
			e = ref(p, n->body, -1, s);
			if (e < 0) want(p, n->id + 1000);
			for (i = s->nd - 1; i >= 0; i--) {
				node *d = s->d[i];
				want(p, d->id + 2000);
				if (d->body) { int e2 = ref(p, d->body, -1, 0); if (e2 < 0) want(p, 9200); else { want(p, 9201); want(p, nm(e2)); } }
				if (d->recover && !rec) { want(p, e < 0 ? -1 : e); rec = e >= 0; e = -1; }
			}
			free(s);
			if (e < 0) want(p, n->id + 3000);
			return e;
		}
	}
	return -1;
}
static int ref(prog *p, node *n, int pending, scope *sc) {
	for (; n; n = n->next) { int e = ref1(p, n, pending, sc); if (e >= 0) return e; }
	return -1;
}
/* ---- execution ---- */
#define NI __attribute__((noinline))
static NI void run_nodes(prog *p, node *n, ex_context_t *ctx);
static NI void do_throw(prog *p, int e) {
	p->nthrow++;
	switch (e) {
		case E_DIV: throw(division_by_zero); break;
		case E_OOM: throw(out_of_memory); break;
		case E_LOGIC: throw(logic_error); break;
		case E_TYPE: throw(invalid_type); break;
		case E_DBZ: throw(divide_by_zero); break;
		case E_IDBZ: throw(int_divide_by_zero); break;
		case E_FDBZ: throw(flt_divide_by_zero); break;
		case E_USER: throw(by_zero); break;
		case E_USER2: throw(out_of); break;
	}
}
static NI void do_raise(prog *p, int e) {
	p->nthrow++;
	switch (e) {
		case E_SEGV: if (vh_rn(&p->r, 2)) *(volatile int *)0 = 1; else raise(SIGSEGV); break;
		case E_FPE: raise(SIGFPE); break;
		case E_ILL: raise(SIGILL); break;
		case E_INT: raise(SIGINT); break;
		case E_ABRT: raise(SIGABRT); break;
	}
}
static int is_caught(int sel) {
	switch (sel) {
		case E_DIV: return caught(division_by_zero);
		case E_OOM: return caught(out_of_memory);
		case E_LOGIC: return caught(logic_error);
		case E_TYPE: return caught(invalid_type);
		case E_DBZ: return caught(divide_by_zero);
		case E_IDBZ: return caught(int_divide_by_zero);
		case E_FDBZ: return caught(flt_divide_by_zero);
		case E_USER: return caught(by_zero);
		case E_USER2: return caught(out_of);
		case E_SEGV: return caught(sig_segv);
		case E_FPE: return caught(sig_fpe);
		case E_ILL: return caught(sig_ill);
		case E_INT: return caught(sig_int);
		case E_ABRT: return caught(sig_abrt);
		default: return try_caught(messages[sel - E_PANIC]);
	}
}
#define BODY put(p, n->id); run_nodes(p, n->body, 0); put(p, n->id + 1000);
#define HAND put(p, n->id + 2000); put(p, exid(err.name)); p->ncatch++; run_nodes(p, n->handler, &ex_err);
#define FINA put(p, n->id + 3000); put(p, exid(err.name)); put(p, err.is_caught); p->nfin++; run_nodes(p, n->fin, 0); put(p, n->id + 4000);
#define TRYC(NAME, ...) static NI void try_##NAME(prog *p, node *n) { try { BODY } __VA_ARGS__ { HAND } } \
	static NI void tryf_##NAME(prog *p, node *n) { try { BODY } __VA_ARGS__ { HAND } finally { FINA } }
TRYC(0, catch(division_by_zero)) TRYC(1, catch(out_of_memory)) TRYC(2, catch(logic_error)) TRYC(3, catch(invalid_type))
TRYC(4, catch(divide_by_zero)) TRYC(5, catch(int_divide_by_zero)) TRYC(6, catch(flt_divide_by_zero)) TRYC(7, catch(by_zero)) TRYC(8, catch(out_of))
TRYC(9, catch(sig_segv)) TRYC(10, catch(sig_fpe)) TRYC(11, catch(sig_ill)) TRYC(12, catch(sig_int)) TRYC(13, catch(sig_abrt))
TRYC(any, catch_any)
static NI void try_none(prog *p, node *n) { try { BODY } }
static NI void tryf_none(prog *p, node *n) { try { BODY } finally { FINA } }
#define HANDIF { int c_; put(p, n->id + 2000); put(p, exid(err.name)); c_ = is_caught(n->e); put(p, c_); p->ncatch++; run_nodes(p, n->handler, &ex_err); }
static NI void try_if(prog *p, node *n) { try { BODY } catch_if HANDIF }
static NI void tryf_if(prog *p, node *n) { try { BODY } catch_if HANDIF finally { FINA } }
static void (*const tries[2][NEX + 3])(prog *, node *) = {
	{ try_0, try_1, try_2, try_3, try_4, try_5, try_6, try_7, try_8, try_9, try_10, try_11, try_12, try_13, try_any, try_none, try_if },
	{ tryf_0, tryf_1, tryf_2, tryf_3, tryf_4, tryf_5, tryf_6, tryf_7, tryf_8, tryf_9, tryf_10, tryf_11, tryf_12, tryf_13, tryf_any, tryf_none, tryf_if } };
typedef struct { data_types type; void *value; void (*dtor)(void *); prog *p; node *n; long magic; } dref;
static int taskcount;
static NI void contained(prog *p, node *n) { try { run_nodes(p, n, 0); put(p, 9200); } catch_any { put(p, 9201); put(p, exid(err.name)); } }
static void on_defer(void *a) {
	dref *d = a;
	if (d->magic != 0x1234567L) vh_fatal("except:cleanup-argument", "a cleanup was called with an argument that was not registered or was already used");
	d->magic = 0x7654321L; d->type = DATA_INVALID;
	d->p->ndefer++;
	put(d->p, d->n->id + 2000);
	if (d->n->body) contained(d->p, d->n->body);
	if (d->n->recover && !d->n->owner->recovered) { const char *m = guard_message(); int e = msgid(m); put(d->p, e); if (e >= 0) { if (!guard_caught(m)) put(d->p, 7777); d->n->owner->recovered = 1; d->p->nrec++; } }
	events_free(d);
}
static NI void guarded_(prog *p, node *n) {
	p->nguard++;
	put(p, n->id);
	guard {
		run_nodes(p, n->body, 0);
		put(p, n->id + 1000);
	} guarded;
	put(p, n->id + 3000);
}
static void on_int(intptr_t v) { on_defer((void *)v); }
static NI void do_defer(prog *p, node *n) {
	dref *d = events_calloc(1, sizeof *d);
	d->type = DATA_OBJ; d->dtor = on_defer;
	d->p = p; d->n = n; d->magic = 0x1234567L;
	put(p, n->id);
	if (n->k == DOBJ) { if (!defer_free(d)) vh_fatal("guard:defer_free", "defer_free refused a valid block"); }
	else if (n->k == DEFER && n->e) (void)deferring(on_int, (intptr_t)d);
	else if (n->k == DEFER) (void)defer(on_defer, d);
	else (void)fence(d, on_defer);
}
static void on_prot(void *a) {
	dref *d = a;
	if (d->magic != 0x1234568L) vh_fatal("guard:protected-argument", "a protected pointer was cleaned up with something else, or twice");
	d->magic = 0x7654321L;
	d->p->nprot++;
	put(d->p, d->n->id + 2000);
	events_free(d);
}
static NI void do_prot(prog *p, node *n) {
	dref *a = events_calloc(1, sizeof *a), *b = events_calloc(1, sizeof *b), *volatile obj = a;
	a->p = b->p = p; a->n = b->n = n; a->magic = b->magic = 0x1234568L;
	put(p, n->id);
	{
		protected(obj, on_prot);
		if (n->recover) obj = b;
		if (n->e) obj = 0;
		events_free(n->recover && !n->e ? a : b);
		if (n->e) { events_free(a); }
		run_nodes(p, n->body, 0);
		unprotected(obj);
	}
	put(p, n->id + 1000);
	if (obj) events_free(obj);
}
static void *trying_body(void *a) { node *n = a; prog *p = cur(); run_nodes(p, n->body, 0); put(p, n->id + 1000); return (void *)(intptr_t)(n->id + 7); }
static void *trying_catch(void *a) { node *n = a; prog *p = cur(); put(p, n->id + 2000); p->ncatch++; run_nodes(p, n->handler, 0); return (void *)(intptr_t)(n->id + 9); }
static void trying_final(param_t v) { prog *p = cur(); node *n = p->tst[--p->nts]; put(p, n->id + 3000); put(p, v->integer); p->nfin++; run_nodes(p, n->fin, 0); put(p, n->id + 4000); }
static NI void do_trying(prog *p, node *n) {
	values_t *v;
	put(p, n->id);
	if (n->has_fin) p->tst[p->nts++] = n;
	v = trying(n, trying_body, n->e ? trying_catch : 0, n->has_fin ? trying_final : 0);
	put(p, v->integer);
	p->ntrying++;
}
static NI void exec1(prog *p, node *n, ex_context_t *ctx) {
	switch (n->k) {
		case MARK: put(p, n->id); break;
		case THROW: put(p, n->id); do_throw(p, n->e); break;
		case PANIC: put(p, n->id); p->nthrow++; panic(messages[n->e - E_PANIC]); break;
		case RAISE: put(p, n->id); do_raise(p, n->e); break;
		case TRY: tries[n->has_fin][n->clause](p, n); break;
		case GUARD: guarded_(p, n); break;
		case DOBJ: case DEFER: case FENCE: do_defer(p, n); break;
		case YIELD: put(p, n->id); if (p->in_task) { p->nyield++; yield(); } break;
		case CALL: put(p, n->id); run_nodes(p, n->body, 0); put(p, n->id + 1000); break;
		case RETHROW: put(p, n->id); p->nthrow++; try_rethrow(ctx); break;
		case PROTECT: do_prot(p, n); break;
		case TRYING: do_trying(p, n); break;
		case MSG: put(p, n->id); put(p, 5000 + msgid(try_message())); break;
	}
}
static NI void run_nodes(prog *p, node *n, ex_context_t *ctx) { for (; n; n = n->next) exec1(p, n, ctx); }
static NI void outer1(prog *p, node *n) {
	try { exec1(p, n, 0); put(p, 9000); } catch_any { put(p, 9001); put(p, exid(err.name)); } finally { put(p, 9002); }
	put(p, 9003);
}
static NI void outer(prog *p) { node *n; enter(p); for (n = p->root; n; n = n->next) outer1(p, n); }
static void expect(prog *p) {
	node *n;
	scope *sc = calloc(1, sizeof *sc);
	int i;
	top_ = use_tdefer && !main_scope ? sc : 0;
	if (use_child) { int e = ref(p, p->root, -1, sc); p->uncaught = e >= 0; if (e < 0) want(p, 9300); }
	else for (n = p->root; n; n = n->next) {
		int e = ref1(p, n, -1, sc);
		if (e < 0) want(p, 9000); else { want(p, 9001); want(p, nm(e)); }
		want(p, 9002); want(p, 9003);
	}
	for (i = sc->nd - 1; i >= 0; i--) {
		node *d = sc->d[i];
		want(p, d->id + 2000);
		if (d->body) { int e2 = ref(p, d->body, -1, 0); if (e2 < 0) want(p, 9200); else { want(p, 9201); want(p, nm(e2)); } }
	}
	p->tdef = sc->nd;
	free(sc);
}
static const char *kn[] = { "mark", "throw", "panic", "raise", "try", "guard", "defer", "fence", "yield", "call", "rethrow", "message", "defer_free", "protected", "trying" };
static void dump(node *n, int d) {
	for (; n; n = n->next) {
		fprintf(stderr, "%*s%d %s e=%d clause=%d fin=%d rec=%d\n", d * 2, "", n->id, kn[n->k], n->e, n->clause, n->has_fin, n->recover);
		if (n->body) dump(n->body, d + 1);
		if (n->handler) { fprintf(stderr, "%*shandler\n", d * 2, ""); dump(n->handler, d + 1); }
		if (n->fin) { fprintf(stderr, "%*sfinally\n", d * 2, ""); dump(n->fin, d + 1); }
	}
}
static void compare(prog *p, const char *where) {
	if (p->bad) vh_fatal("guard:early", "%s", p->bad);
	int i, m = p->ng < p->nw ? p->ng : p->nw;
	if (m > MAXT) m = MAXT;
	for (i = 0; i < m; i++) if (p->got[i] != p->want[i]) break;
	if (i == m && p->ng == p->nw) return;
	if (getenv("VH_VERBOSE")) {
		int j;
		dump(p->root, 0);
		fprintf(stderr, "got: "); for (j = 0; j < p->ng && j < MAXT; j++) fprintf(stderr, "%d ", p->got[j]);
		fprintf(stderr, "\nwant: "); for (j = 0; j < p->nw && j < MAXT; j++) fprintf(stderr, "%d ", p->want[j]);
		fprintf(stderr, "\n");
	}
	vh_fatal(use_guard ? "guard:trace" : "except:trace", "%s: step %d of %d is %d, it should be %d (of %d)", where, i, p->ng, i < p->ng && i < MAXT ? p->got[i] : -9, i < p->nw && i < MAXT ? p->want[i] : -9, p->nw);
}
static void setup(prog *p, uint64_t seed, int size) {
	memset(p, 0, offsetof(prog, got)); p->ng = p->nw = 0; p->bad = 0; p->done = 0;
	p->r.s = seed | 1; vh_rr(&p->r);
	p->nyield = p->ncatch = p->nfin = p->nthrow = p->ndefer = p->nrec = p->nguard = p->nprot = p->ntrying = p->nts = 0;
	p->budget = size; p->in_task = 0;
	{	/* at the top: a few statements, at least one section */
		node **at = &p->root; int k = 1 + (int)vh_rn(&p->r, 10);
		p->root = 0;
		while (k--) { node *n = gen(p, 0, 0, 0); if (!n) break; *at = n; at = &n->next; }
	}
	expect(p);
}
static long c_prog, c_steps, c_throw, c_catch, c_fin, c_yield, c_defer, c_rec, c_guard, c_thr, c_pool, c_prot, c_trying;
static void add(prog *p) { c_prog++; c_steps += p->ng; c_throw += p->nthrow; c_catch += p->ncatch; c_fin += p->nfin; c_yield += p->nyield; c_defer += p->ndefer; c_rec += p->nrec; c_guard += p->nguard; c_prot += p->nprot; c_trying += p->ntrying; }
#define NP 12
static prog *P[NP];
static uint64_t sigof(prog *p) { uint64_t s = 9; int i; for (i = 0; i < p->nn; i++) s = vh_mix(s, (uint64_t)(p->n[i].k * 64 + p->n[i].clause)); return s; }
static int sz(void) { return vh_p(50) ? 5 + (int)vh_n(15) : 10 + (int)vh_n(120); }
/* plain: threads without tasks */
static void *thr(void *a) { prog *p = a; outer(p); p->done = 1; return 0; }
static void on_end(void *a) { prog *p = a; if (!p->done) p->bad = "the cleanups of a task ran before its end"; __atomic_fetch_sub(&taskcount, 1, __ATOMIC_SEQ_CST); }
static void *task(param_t args) { prog *p = args[0].object; p->in_task = 1; if (use_tdefer) (void)defer(on_end, p); outer(p); __atomic_store_n(&p->done, 1, __ATOMIC_SEQ_CST); if (!use_tdefer) __atomic_fetch_sub(&taskcount, 1, __ATOMIC_SEQ_CST); return 0; }
static void report(void) {
	vh_count("programs", c_prog); vh_count("steps", c_steps); vh_count("exceptions thrown", c_throw); vh_count("handlers run", c_catch); vh_count("finally blocks run", c_fin); vh_count("calls of trying", c_trying); vh_count("suspensions", c_yield);
	vh_count("cleanups run", c_defer); vh_count("recoveries", c_rec); vh_count("guard sections", c_guard); vh_count("protected pointers cleaned up", c_prot); vh_count("programs in threads", c_thr); vh_count("programs in the pool", c_pool);
	vh_exit();
}
static void cases(int in_events, int pool) {
	long c;
	int i, n;
	for (i = 0; i < NP; i++) P[i] = calloc(1, sizeof **P);
	for (c = 0; c < vh_cases; c++) {
		uint64_t s = 1;
		int kind;
		vh_case(c); vh_watchdog(60); vh_beat();
		kind = in_events ? (int)vh_n(pool ? 3 : 2) : (int)vh_n(4) == 0;
		n = in_events && !kind ? 1 : in_events || kind ? 1 + (int)vh_n(in_events ? NP : 5) : 1;
		maxd = in_events && kind == 2 ? 3 : 12;
		use_tdefer = use_guard && in_events && kind;
		no_obj = in_events && !kind;
		for (i = 0; i < n; i++) setup(P[i], vh_rnd(), sz());
		if (!in_events) {
			if (!kind) outer(P[0]);
			else {
				pthread_t t[NP];
				for (i = 0; i < n; i++) if (pthread_create(&t[i], 0, thr, P[i])) vh_broken("pthread_create");
				for (i = 0; i < n; i++) pthread_join(t[i], 0);
				c_thr += n;
			}
		} else if (!kind) { P[0]->in_task = 1; outer(P[0]); }
		else {
			taskcount = n;
			for (i = 0; i < n; i++) {
				if (kind == 2 && vh_p(80)) { c_pool++; (void)go(task, 1, P[i]); }
				else (void)async_ex(Kb(256), task, 1, P[i]);
			}
			{
				uint64_t late = 0;
				while (__atomic_load_n(&taskcount, __ATOMIC_SEQ_CST)) {
					int nd = 0;
					yield();
					for (i = 0; i < n; i++) nd += __atomic_load_n(&P[i]->done, __ATOMIC_SEQ_CST);
					if (nd < n) late = 0;
					else if (late == 0) late = vh_calm();
					else if (vh_calm() - late > 20000000000ull) vh_fatal("guard:cleanup-lost", "a cleanup registered first in a task did not run though the task has ended");
				}
			}
		}
		for (i = 0; i < n; i++) { s = vh_mix(s, sigof(P[i])); compare(P[i], !in_events ? kind ? "thread" : "main thread" : kind == 2 ? "pool" : kind ? "tasks" : "main task"); add(P[i]); }
		vh_eval(1);
		if (P[0]->nthrow || n > 1) vh_sig(s);
		if (vh_want_sample()) vh_sample("%d programs, the first of %d statements: %d steps, %d exceptions, %d handlers, %d cleanups", n, P[0]->nn, P[0]->ng, P[0]->nthrow, P[0]->ncatch, P[0]->ndefer);
	}
	report();
}
/* A program whose exceptions end its process; it runs in a child and leaves its trace in shared memory. */
static long c_uncaught, c_normal;
static void child_body(prog *p) { enter(p); run_nodes(p, p->root, 0); put(p, 9300); }
static void on_cend(void *a) { prog *p = a; __atomic_store_n(&p->done, 1, __ATOMIC_SEQ_CST); }
static void *ctask(param_t args) { prog *p = args[0].object; p->in_task = 1; (void)defer(on_cend, p); child_body(p); return 0; }
static void *cother(param_t args) { int k = args[0].integer; while (k--) yield(); return 0; }
static int ckind, cothers;
static prog *cprog;
static int cmain(param_t args) {
	int i;
	for (i = 0; i < cothers; i++) (void)async_task(cother, 1, (int)(i * 2));
	if (ckind == 2) (void)go(ctask, 1, cprog); else (void)async_ex(Kb(256), ctask, 1, cprog);
	while (cprog->uncaught || !__atomic_load_n(&cprog->done, __ATOMIC_SEQ_CST)) yield();
	for (i = 0; i < 4; i++) yield();
	return 0;
}
static void children(void) {
	long c;
	prog *p = mmap(0, sizeof *p, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) vh_broken("mmap");
	use_child = 1;
	for (c = 0; c < vh_cases; c++) {
		int status;
		uint64_t s;
		pid_t pid;
		vh_case(c); vh_watchdog(60); vh_beat();
		ckind = (int)vh_n(5); if (ckind > 2) ckind = 1;
		cothers = (int)vh_n(4);
		use_tdefer = 1; no_obj = 0; main_scope = ckind == 0; maxd = ckind == 2 ? 3 : 12;
		setup(p, vh_rnd(), sz());
		cprog = p;
		pid = fork();
		if (pid < 0) vh_broken("fork");
		if (!pid) {
			int fd = open("/dev/null", O_WRONLY);
			vh_forked();
			dup2(fd, 1); dup2(fd, 2);
			alarm(20);
			if (ckind == 0) { ex_signal_setup(); child_body(p); exit(0); }
			if (events_init(1024)) _exit(77);
			events_set_main((main_cb)cmain);
			events_t *loop = events_init_pool(1);
			async_task((data_func_t)cmain, 0);
			async_run(loop);
			_exit(0);
		}
		if (waitpid(pid, &status, 0) != pid) vh_broken("waitpid");
		if (WIFEXITED(status) && WEXITSTATUS(status) == 77) vh_broken("events_init in a child");
		s = vh_mix(sigof(p), (uint64_t)ckind);
		compare(p, ckind == 0 ? "main thread of a process" : ckind == 1 ? "task of a process" : "pool task of a process");
		if (p->uncaught && !(WIFEXITED(status) && WEXITSTATUS(status) == EXIT_FAILURE)) vh_fatal("guard:uncaught-status", "an uncaught exception should end the process with status 1, it ended with status %x (kind %d)", status, ckind);
		if (!p->uncaught && ckind != 2 && !(WIFEXITED(status) && WEXITSTATUS(status) == 0)) vh_fatal("guard:status", "the process should have ended with status 0, it ended with status %x (kind %d)", status, ckind);
		if (p->uncaught) c_uncaught++; else c_normal++;
		add(p); vh_eval(1); vh_sig(s);
		if (vh_want_sample()) vh_sample("process: program of %d statements, %d steps, %d exceptions, %d cleanups, %s", p->nn, p->ng, p->nthrow, p->ndefer, p->uncaught ? "ended by an exception" : "ended normally");
	}
	vh_count("processes ended by an exception", c_uncaught); vh_count("processes that ended normally", c_normal);
	report();
}
static void *run(param_t args) { cases(1, (int)vh_arg("pool", 0)); return 0; }
int main(int argc, char **argv) {
	vh_init(argc, argv);
	use_guard = (int)vh_arg("guard", 0);
	if (vh_arg("child", 0)) { children(); return 0; }
	if (!vh_arg("events", 0)) { cases(0, 0); return 0; }
	if (events_init(1024)) vh_fatal("failed", "events_init failed");
	events_set_main((main_cb)run);
	events_t *loop = events_init_pool((uint32_t)vh_arg("nfut", 1));
	async_task(run, 0);
	async_run(loop);
	vh_fatal("main-lost", "the scheduler returned before the main task ended");
	return 0;
}
