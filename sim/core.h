/* Deterministic simulation core: choice stream, fault swarm, runner, shrinker, replay. */
#ifndef DST_CORE_H
#define DST_CORE_H 1
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#ifdef __cplusplus
extern "C" {
#endif

/* ---- the decision stream: every nondeterministic choice of a run comes from here ---- */
uint32_t ch(uint32_t n);                 /* recorded choice in [0,n); 0 is the "simplest" */
uint32_t ch_pick(uint32_t n, uint32_t v);/* record v (computed by a strategy); replay returns the recorded value */
int      ch_p(uint32_t num, uint32_t den);/* recorded 0/1; 1 with probability num/den */
uint32_t ch_range(uint32_t lo, uint32_t hi); /* inclusive */
uint64_t ch_seed(void);                  /* recorded 32-bit seed for bulk data; 0 when exhausted */
int      ch_replaying(void);

/* PRNG for bulk data (never recorded; seeded from ch_seed) */
typedef struct { uint64_t s; } prng;
static inline uint64_t prng_next(prng *p)
{
    uint64_t z = (p->s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static inline uint64_t mix64(uint64_t a, uint64_t b)
{
    prng p = { a ^ (b * 0xff51afd7ed558ccdull) };
    (void)prng_next(&p);
    return prng_next(&p);
}

/* ---- faults ---- */
int  fault(const char *kind);            /* asks whether this fault fires here */
void faults_off(void);                   /* no further faults in this run */
void faults_on(void);
int  faults_are_off(void);
unsigned faults_fired(void);             /* how many fired in this run */
void fault_note(const char *kind);       /* count an injection decided elsewhere */

/* ---- trace, coverage, counters ---- */
void ev(const char *fmt, ...) __attribute__((format(printf,1,2))); /* event: hashed, printed on replay */
void evq(uint64_t a, uint64_t b, uint64_t c);   /* cheap hashed event */
void cover(uint64_t h);                  /* distinct state/interleaving measure */
void tally(const char *name, uint64_t n);
uint64_t run_hash(void);
extern int dst_verbose;                  /* 1 in replay mode */
void run_nontrivial(void);               /* this run is non-trivial by the harness' rule */
void sample(const char *fmt, ...) __attribute__((format(printf,1,2)));

/* ---- verdicts ---- */
void violation(const char *cls, const char *fmt, ...) __attribute__((noreturn,format(printf,2,3)));
#define CHECK(cond, cls, ...) do { if (!(cond)) violation(cls, __VA_ARGS__); } while (0)
void harness_error(const char *fmt, ...) __attribute__((noreturn,format(printf,1,2)));
void discard(void) __attribute__((noreturn));   /* abandon this run silently (counted) */

/* a crash inside the code under test: if the harness declares it legal, give a class prefix */
extern const char *dst_property;
extern uint64_t dst_sim_ns;              /* simulated time of this run */

/* ---- what each harness provides ---- */
typedef struct dst_harness {
    const char *property;
    const char *name;
    void (*setup)(void);                 /* once per worker process */
    void (*run)(void);                   /* one simulated execution */
    const char *rule;                    /* evidence rule */
    int  fork_each;                      /* every run in its own process */
    int  cpu_limit_s;                    /* per-run cpu bound -> "hang" (0 = default 8) */
} dst_harness;
extern const dst_harness harness;

/* static variables of the code under test (and of small harnesses): copied out of / back into a buffer */
size_t dst_statics_size(void);
void dst_statics_save(void *buf, int restore);
void dst_more_time(int secs);             /* a run that has a lot to do gets this much cpu time from here on */

#define NELEM(a) (sizeof(a)/sizeof((a)[0]))
#ifdef __cplusplus
}
#endif
#endif
