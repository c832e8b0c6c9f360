/* Simulated threads, weak memory and heap for code compiled with -fsanitize=thread. */
#ifndef DST_CSIM_H
#define DST_CSIM_H 1
#include "core.h"
#ifdef __cplusplus
extern "C" {
#endif
#define CS_MAXT 14
typedef struct cs_opts {
    unsigned step_fair;      /* after this many steps: no faults, fair schedule */
    unsigned step_max;       /* after this many: "no-progress" */
    int      weak;           /* allow C11 stale reads */
    int      plain_points;   /* schedule at plain heap accesses, too */
    int      races;          /* detect data races on heap memory */
    int      solo;           /* one thread exists and the code under test starts no other: atomics act directly on memory */
    int      statics;        /* treat the static variables of the code under test like heap memory */
} cs_opts;
extern cs_opts cs_cfg;
void     cs_defaults(void);               /* choose swarm configuration for this run */
void     cs_run(void (*fn)(void));        /* run fn as thread 0; returns when it returned */
int      cs_self(void);                   /* simulated thread number */
uint64_t cs_step(void);                   /* global step counter = logical time */
unsigned cs_live_threads(void);           /* created and not finished, without thread 0 */
unsigned cs_runnable(void);               /* threads other than the caller that can run now */
void     cs_settle(void);                 /* let the others run until all of them are blocked or done */
void     cs_quiesce(void);                /* faults and weak reads off from here on */
int      cs_weak_active(void);
size_t   cs_heap_live(void);              /* live heap blocks */
size_t   cs_heap_live_bytes(void);
unsigned cs_live_objects(void);           /* live (not destroyed) mutexes/semaphores/conds */
void     cs_yield(void);                  /* a pure scheduling point */
void     cs_set_alloc_faults(int on);     /* malloc and friends may fail (fault kind "alloc") */
int      cs_was_preempted_since(uint64_t step);
extern int cs_once_gen;                   /* which simulated process runs (pthread_once) */
/* heap for harness objects under test: */
void    *cs_malloc(size_t n);
void    *cs_calloc(size_t n);
void     cs_free(void *p);
extern int cs_create_faults, cs_eintr_faults, cs_init_faults, cs_stall_faults;
#ifdef __cplusplus
}
#endif
#endif
