/* Support for the drivers: random numbers, recording of what was observed, verdicts, watchdog,
 * checking allocator. Includes nothing of the library, so that it can come first or last. */
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <stddef.h>

/* --- run parameters ------------------------------------------------------------------ */
void vh_init(int argc, char **argv);	/* --seed N --shard N --shards N --cases N --out FILE [name=value]... */
extern uint64_t vh_seed;
extern long vh_cases;			/* number of cases this process has to run */
extern int vh_shard, vh_shards;
long vh_arg(const char *name, long dflt);
const char *vh_args(const char *name, const char *dflt);

/* --- pseudo random numbers: deterministic in (seed, shard, case) ------------------------- */
void vh_case(long i);			/* start of case i: reseeds the generator, notes the case number */
long vh_casenr(void);
uint64_t vh_rnd(void);
uint32_t vh_n(uint32_t n);		/* 0 .. n-1 */
int vh_p(int percent);			/* true in percent% of calls */
uint64_t vh_mix(uint64_t h, uint64_t v);	/* hash combination */
typedef struct { uint64_t s; } vh_rng;	/* own generator, for threads */
uint64_t vh_rr(vh_rng *r);
uint32_t vh_rn(vh_rng *r, uint32_t n);
uint64_t vh_hash(const void *p, size_t n);

/* --- what was observed ------------------------------------------------------------------- */
void vh_eval(long n);			/* n more cases evaluated by the oracle */
void vh_sig(uint64_t sig);		/* signature of a non-trivial case */
void vh_count(const char *name, long n);	/* named counter of observed events */
void vh_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));	/* an actual case, written out (first few are kept) */
int vh_want_sample(void);

/* --- verdicts ---------------------------------------------------------------------------- */
/* The oracle saw a violation. key: what fails, stable over seeds and source edits. */
void vh_fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
/* The same, and the process cannot go on (state of the library unknown). */
void vh_fatal(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
long vh_failures(void);
#define VH_CHECK(c, key, ...) do { if (!(c)) { vh_fail(key, __VA_ARGS__); } } while (0)
#define VH_MUST(c, key, ...) do { if (!(c)) { vh_fatal(key, __VA_ARGS__); } } while (0)
/* The harness itself failed (a system call of its own): inconclusive. */
void vh_broken(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
/* All cases done: writes the summary. The process may still do what it likes. */
void vh_done(void);
/* vh_done() and immediate exit, without the library's exit handlers. */
void vh_exit(void) __attribute__((noreturn));
/* In a child process of fork(): drop the recorder. */
void vh_forked(void);
void vh_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));	/* debugging aid, VH_VERBOSE=1 */

/* --- time -------------------------------------------------------------------------------- */
uint64_t vh_ns(void);			/* CLOCK_MONOTONIC */
uint64_t vh_calm(void);			/* the same without the time the main thread waited for a processor: for deadlines */
int vh_late(int pid, uint64_t t0, int seconds);	/* since t0, of vh_ns, for a process, without the time it waited for a processor */
void vh_msleep(int ms);			/* sleeps in the kernel, restarting */
/* the watchdog ends the process when no vh_beat() came for the given number of seconds */
void vh_watchdog(int seconds);
void vh_beat(void);

/* --- scratch directory of this process, removed at vh_done/vh_exit ------------------------- */
const char *vh_dir(void);

/* --- memory next to an inaccessible page ---------------------------------------------------- */
void *vh_guard(const void *src, size_t n);	/* copy of src, its last byte just before a guard page */
void vh_guard_reset(void);		/* forget all */

/* --- checking allocator (builds with --wrap=malloc ... only) -------------------------------- */
size_t vm_live(void);			/* blocks allocated and not freed */
size_t vm_bytes(void);
void vm_check(const char *when);	/* check canaries of live blocks and poison of freed blocks */
extern int vm_on;
extern unsigned vm_gen; extern int vm_bt; void vm_report(unsigned from, unsigned to);	/* debugging aids */
#endif
