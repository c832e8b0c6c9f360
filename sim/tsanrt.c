/*
 * A deterministic runtime behind the compiler's thread-sanitizer instrumentation:
 * fibers under a seeded scheduler, C11 atomics with legal stale reads, a
 * happens-before race detector and a checked heap.  Nothing here is instrumented.
 */
#define _GNU_SOURCE 1
#include "csim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <stdint.h>
#include <time.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <limits.h>
#include <sys/time.h>
#include <sys/mman.h>

#define MAXT CS_MAXT
#define STK  (256u*1024)
#define NOINST
typedef struct { uint32_t c[MAXT]; } vc_t;

enum { UNUSED, RUN, BLOCK, DONE };
typedef struct T {
    void *sp; char *stk;
    int id, st, err, joined, detached, sig;
    void *(*fn)(void*); void *arg; void *ret;
    void *wait; uint64_t wake; int timedout;
    vc_t vc, acqp, relf; int hasrelf;
    uint32_t prio, consec, stall_until;
    uint64_t laststep;
} T;

cs_opts cs_cfg;
int cs_create_faults, cs_eintr_faults, cs_init_faults, cs_stall_faults;
static T th[MAXT];
static int nth, cur, in_sim;
static uint64_t steps, steps0;
static void *main_sp;
static int alloc_faults, quiesced;
static int strategy; static uint32_t swnum, swden; static uint32_t chg[8]; static int nchg;
static uint32_t stale_num, stale_den;
static uint64_t n_switch, n_stale, n_spur, n_stall, n_plain;
static void (*main_fn)(void);
static vc_t scvc;
static vc_t oncevc;             /* one for all: at most misses races between different once-initialisations */

/* ---------------- context switch ---------------- */
__asm__(
".text\n.globl cs_switch\n.type cs_switch,@function\ncs_switch:\n"
" pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
" movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
" popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n"
".size cs_switch,.-cs_switch\n");
extern void cs_switch(void **save, void *to);

static void obj_reset(void);
static void heap_reset(void);
static void loc_reset(void);
static void shadow_reset(void);

int cs_self(void) { return cur; }
uint64_t cs_step(void) { return steps; }
int cs_weak_active(void) { return cs_cfg.weak && !quiesced; }
void cs_quiesce(void) { quiesced = 1; faults_off(); }
void cs_set_alloc_faults(int on) { alloc_faults = on; }
unsigned cs_live_threads(void) { unsigned n = 0; for (int i = 1; i < nth; i++) n += th[i].st == RUN || th[i].st == BLOCK; return n; }

static inline void vjoin(vc_t *a, const vc_t *b) { for (int i = 0; i < MAXT; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }

void cs_defaults(void)
{
    memset(&cs_cfg, 0, sizeof cs_cfg);
    cs_cfg.step_fair = 30000; cs_cfg.step_max = 300000;
    cs_cfg.races = 1;
    cs_cfg.weak = ch(2);
    cs_cfg.plain_points = ch(3) == 1;
    strategy = ch(4);
    static const uint32_t dens[] = { 2, 3, 5, 10, 30, 100 };
    swden = dens[ch(6)]; swnum = 1;
    nchg = 0;
    if (strategy == 1) { nchg = (int)ch_range(1, 4); uint32_t k = 20u << ch(6); for (int i = 0; i < nchg; i++) chg[i] = ch(k); }
    static const uint32_t sd[] = { 20, 6, 2 };
    stale_num = 1; stale_den = sd[ch(3)];
    cs_stall_faults = ch(3) == 1;
    cs_eintr_faults = 1; cs_create_faults = 0; cs_init_faults = 0;
    quiesced = 0; alloc_faults = 0;
}

static int runnable(int i) { return th[i].st == RUN; }

static void switch_to(int n)
{
    int o = cur;
    th[o].err = errno;
    cur = n; n_switch++;
    evq(0x5c, (uint64_t)n, steps);
    cs_switch(&th[o].sp, th[n].sp);
    errno = th[cur].err;
}

static void deadlock(void)
{
    char b[512]; int k = 0;
    for (int i = 0; i < nth && k < 400; i++) if (th[i].st == BLOCK) k += snprintf(b+k, sizeof b-k, " T%d(blocked)", i);
    violation("deadlock", "no simulated thread can run after %llu steps:%s", (unsigned long long)steps, b);
}

/* wake sleepers when nothing else runs; returns 0 when stuck */
static int advance_clock(void)
{
    uint64_t best = ~0ull; 
    for (int i = 0; i < nth; i++) if (th[i].st == BLOCK && th[i].wake && th[i].wake < best) best = th[i].wake;
    if (best == ~0ull) return 0;
    if (best > dst_sim_ns) dst_sim_ns = best;
    for (int i = 0; i < nth; i++) if (th[i].st == BLOCK && th[i].wake && th[i].wake <= dst_sim_ns) { th[i].st = RUN; th[i].timedout = 1; th[i].wait = 0; th[i].wake = 0; }
    return 1;
}

/* pick the next thread; must_leave: current cannot continue */
static int choose(int must_leave)
{
    int c[MAXT], n = 0;
    for (;;) {
        n = 0;
        int me_ok = !must_leave && runnable(cur);
        if (me_ok && !(th[cur].stall_until > steps)) c[n++] = cur;
        for (int k = 1; k < nth; k++) { int i = (cur + k) % nth; if (runnable(i) && !(th[i].stall_until > steps)) c[n++] = i; }
        if (must_leave && runnable(cur) && n == 0 && th[cur].stall_until <= steps) c[n++] = cur;
        if (n) break;
        for (int i = 0; i < nth; i++) if (runnable(i)) { th[i].stall_until = 0; n++; }
        if (n) continue;
        if (!advance_clock()) deadlock();
    }
    if (n == 1) return c[0];
    int fair = steps - steps0 > cs_cfg.step_fair || quiesced;
    if (fair) {
        if (c[0] == cur && th[cur].consec < 40) return cur;
        return c[0] == cur ? c[1] : c[0];
    }
    if (c[0] == cur && th[cur].consec > 100) return c[1 + steps % (uint64_t)(n-1)];  /* spinning: be fair */
    uint32_t v = 0;
    if (!ch_replaying()) {
        /* strategies draw from a run-seeded stream that is not part of the record */
        static prng sp; static uint64_t last; 
        if (last != steps0) { last = steps0; }
        sp.s = mix64(run_hash(), steps);
        switch (strategy) {
            case 0: case 3:
                if (c[0] == cur && prng_next(&sp) % swden >= swnum) v = 0;
                else v = (uint32_t)(prng_next(&sp) % (uint64_t)n);
                break;
            case 1: {
                for (int i = 0; i < nchg; i++) if (steps - steps0 == chg[i]) th[cur].prio = (uint32_t)i;
                uint32_t bp = 0; for (int i = 0; i < n; i++) if (th[c[i]].prio >= bp) { if (th[c[i]].prio > bp || i == 0) { bp = th[c[i]].prio; v = (uint32_t)i; } }
                break; }
            case 2:
                if (c[0] == cur && th[cur].consec < swden) v = 0; else v = n > 1 ? 1 : 0;
                break;
        }
    }
    return c[ch_pick((uint32_t)n, v)];
}

static void limits(void)
{
    if (steps - steps0 > cs_cfg.step_max)
        violation("no-progress", "no completion within %u steps of a fair, fault-free schedule", cs_cfg.step_max - cs_cfg.step_fair);
    if (steps - steps0 >= cs_cfg.step_fair && !quiesced) { quiesced = 1; faults_off(); }
}

static void point(void)
{
    if (!in_sim) return;
    steps++; dst_sim_ns += 20; th[cur].consec++;
    if ((steps & 15) == 0 || steps - steps0 >= cs_cfg.step_fair) limits();
    if (cs_stall_faults && nth > 2 && !quiesced && (steps % 7) == 0 && fault("thread-stall")) {
        th[cur].stall_until = (uint32_t)(steps + 20 + ch(300)); n_stall++;
    }
    int n = choose(0);
    if (n != cur) { th[n].consec = 0; switch_to(n); }
}
void cs_yield(void) { point(); }
unsigned cs_runnable(void) { unsigned n = 0; for (int i = 0; i < nth; i++) n += i != cur && (th[i].st == RUN || (th[i].st == BLOCK && th[i].wake)); return n; }
void cs_settle(void)
{
    /* the caller steps aside: woken by the clock only, which advances only when nobody can run */
    while (cs_runnable()) { extern int sim_usleep(unsigned); sim_usleep(1); }
}

static void block(void *on, uint64_t wake)
{
    th[cur].st = BLOCK; th[cur].wait = on; th[cur].wake = wake; th[cur].timedout = 0;
    steps++; limits();
    int n = choose(1);
    if (n != cur) { th[n].consec = 0; switch_to(n); }
    else if (th[cur].st == BLOCK) deadlock();
}
static void wake_all(void *on) { for (int i = 0; i < nth; i++) if (th[i].st == BLOCK && th[i].wait == on) { th[i].st = RUN; th[i].wait = 0; th[i].wake = 0; } }

/* ---------------- threads ---------------- */
static void thr_exit(void *ret)
{
    T *t = &th[cur];
    t->ret = ret; t->st = DONE;
    t->vc.c[t->id]++;
    wake_all(t);
    if (cur == 0) { int o = cur; in_sim = 0; cs_switch(&th[o].sp, main_sp); }
    steps++;
    int n = choose(1);
    th[n].consec = 0;
    int o = cur; cur = n; n_switch++;
    evq(0x5d, (uint64_t)n, steps);
    cs_switch(&th[o].sp, th[n].sp);
    abort();
}
static void tramp(void)
{
    errno = 0;
    if (cur == 0) { main_fn(); thr_exit(0); }
    thr_exit(th[cur].fn(th[cur].arg));
}
static int spawn(void *(*fn)(void*), void *arg)
{
    int id;
    for (id = 1; id < nth; id++) if (th[id].st == DONE && (th[id].joined || th[id].detached)) break;
    if (id >= nth) { if (nth >= MAXT) violation("too-many-threads", "more than %d threads", MAXT); id = nth++; th[id].vc.c[id] = 0; }
    T *t = &th[id];
    char *stk = t->stk; uint32_t oldclk = t->vc.c[id];
    memset(t, 0, sizeof *t);
    if (!stk) {
        stk = mmap(0, STK + 4096, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
        mprotect(stk, 4096, PROT_NONE);
        stk += 4096;
    }
    t->stk = stk; t->id = id; t->fn = fn; t->arg = arg; t->st = RUN;
    if (id > 0) {
        t->vc = th[cur].vc; th[cur].vc.c[cur]++;
    }
    t->vc.c[id] = oldclk + 1;
    t->prio = 8 + (ch_replaying() ? 0 : (uint32_t)(mix64(run_hash(), (uint64_t)id) % 64));
    uintptr_t sp = (uintptr_t)stk + STK - 64;
    sp &= ~(uintptr_t)15;
    uint64_t *s = (uint64_t*)sp;
    *--s = 0;                   /* alignment / fake return */
    *--s = (uint64_t)(uintptr_t)tramp;
    for (int i = 0; i < 6; i++) *--s = 0;
    t->sp = s;
    return id;
}

void cs_run(void (*fn)(void))
{
    nth = 0; cur = 0; steps0 = steps = 0; main_fn = fn;
    n_switch = n_stale = n_spur = n_stall = n_plain = 0;
    obj_reset(); loc_reset(); shadow_reset(); heap_reset(); memset(&scvc, 0, sizeof scvc); memset(&oncevc, 0, sizeof oncevc);
    spawn(0, 0);
    in_sim = 1;
    cs_switch(&main_sp, th[0].sp);
    in_sim = 0;
    tally("steps", steps); tally("context_switches", n_switch);
    if (n_stale) tally("stale_reads", n_stale);
    if (n_spur) tally("weak_cas_spurious", n_spur);
    cover(run_hash());
}

static int self_id(pthread_t t) { return (int)(uintptr_t)t - 1; }
pthread_t sim_pthread_self(void) { return (pthread_t)(uintptr_t)(cur + 1); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sim_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void*), void *arg)
{
    (void)a;
    point();
    if (cs_create_faults && fault("pthread_create")) return EAGAIN;
    int id = spawn(fn, arg);
    *t = (pthread_t)(uintptr_t)(id + 1);
    ev("T%d creates T%d", cur, id);
    point();
    return 0;
}
int sim_pthread_join(pthread_t t, void **ret)
{
    int id = self_id(t);
    if (id <= 0 || id >= nth || th[id].joined || th[id].detached)
        violation("join-misuse", "pthread_join of a thread that does not exist or was joined before");
    point();
    while (th[id].st != DONE) block(&th[id], 0);
    th[id].joined = 1;
    vjoin(&th[cur].vc, &th[id].vc);
    if (ret) *ret = th[id].ret;
    return 0;
}
int sim_pthread_detach(pthread_t t) { th[self_id(t)].detached = 1; return 0; }
void sim_pthread_exit(void *r) { thr_exit(r); }
int sim_pthread_cancel(pthread_t t) { (void)t; return ENOSYS; }
int sim_pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *c) { (void)t; (void)n; (void)c; return 0; }
int sim_sched_setaffinity(pid_t p, size_t n, const cpu_set_t *c) { (void)p; (void)n; (void)c; return 0; }
int sim_sched_yield(void) { point(); return 0; }
int sim_pthread_yield(void) { point(); return 0; }
long sim_sysconf(int n) { extern long sysconf(int); if (n == 84 || n == 83) return 3; return sysconf(n); }

static int sleep_ns(uint64_t ns) { if (!ns) ns = 1; block(&sleep_ns, dst_sim_ns + ns); return 0; }
int sim_usleep(unsigned us) { return sleep_ns((uint64_t)us * 1000); }
unsigned sim_sleep(unsigned s) { sleep_ns((uint64_t)s * 1000000000ull); return 0; }
int sim_nanosleep(const struct timespec *a, struct timespec *b) { if (b) b->tv_sec = b->tv_nsec = 0; return sleep_ns((uint64_t)a->tv_sec*1000000000ull + (uint64_t)a->tv_nsec); }
int sim_clock_gettime(clockid_t c, struct timespec *t) { (void)c; uint64_t n = dst_sim_ns + 1700000000ull*1000000000ull; t->tv_sec = (time_t)(n/1000000000ull); t->tv_nsec = (long)(n%1000000000ull); return 0; }
void __tsan_write_range(void *, size_t);
int sim_gettimeofday(struct timeval *t, void *z) { (void)z; struct timespec s; __tsan_write_range(t, sizeof *t); sim_clock_gettime(0, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec/1000; return 0; }

/* ---------------- sync objects ---------------- */
enum { OM = 1, OS, OC, OR };
typedef struct O { void *addr; int kind, live; int owner; int val; int writers, readers; int recursive, rec; int waiters; vc_t vc; } O;
#define NO 512
static O ob[NO]; static int nob;
static void obj_reset(void) { memset(ob, 0, sizeof(O) * (size_t)nob); nob = 0; }
static O *ofind(void *a, int kind)
{
    for (int i = 0; i < nob; i++) if (ob[i].addr == a && ob[i].kind == kind && ob[i].live) return &ob[i];
    return 0;
}
static O *onew(void *a, int kind)
{
    O *o = ofind(a, kind);
    if (!o) {
        int i; for (i = 0; i < nob; i++) if (!ob[i].live) break;
        if (i == nob) { if (nob >= NO) harness_error("too many sync objects"); nob++; }
        o = &ob[i];
    }
    memset(o, 0, sizeof *o);
    o->addr = a; o->kind = kind; o->live = 1; o->owner = -1;
    return o;
}
unsigned cs_live_objects(void) { unsigned n = 0; for (int i = 0; i < nob; i++) n += ob[i].live; return n; }
static void heap_check(const void *a, size_t n, int w);
static O *oget(void *a, int kind, const char *what)
{
    heap_check(a, 4, 0);
    O *o = ofind(a, kind);
    if (o) return o;
    if (kind == OM || kind == OC || kind == OR) {  /* static initialisers are all zero */
        size_t n = kind == OM ? sizeof(pthread_mutex_t) : kind == OC ? sizeof(pthread_cond_t) : sizeof(pthread_rwlock_t);
        const char *p = a; size_t i; for (i = 0; i < n && !p[i]; i++);
        if (i == n) return onew(a, kind);
    }
    violation("sync-object-misuse", "%s on an object that was never initialised or was destroyed", what);
}
static void odestroy(void *a, int kind, const char *what)
{
    O *o = oget(a, kind, what);
    for (int i = 0; i < nth; i++) if (th[i].st == BLOCK && th[i].wait == o)
        violation("destroy-while-waited", "%s while T%d waits on it", what, i);
    if (kind == OM && o->owner >= 0) violation("destroy-while-locked", "%s while T%d holds it", what, o->owner);
    o->live = 0;
    memset(a, 0xee, 8);          /* not a static initialiser any more */
}
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
    heap_check(m, sizeof *m, 1);
    if (cs_init_faults && fault("mutex_init")) return ENOMEM;
    O *o = onew(m, OM);
    if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); o->recursive = k == PTHREAD_MUTEX_RECURSIVE; }
    return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t *m) { odestroy(m, OM, "mutex destroy"); return 0; }
static int mtx_lock(pthread_mutex_t *m, int try)
{
    point();
    O *o = oget(m, OM, "mutex lock");
    if (o->owner == cur && o->recursive) { o->rec++; return 0; }
    if (o->owner == cur) { if (try) return EBUSY; violation("deadlock", "T%d locks a mutex it already holds", cur); }
    while (o->owner >= 0) { if (try) return EBUSY; block(o, 0); if (!o->live) violation("sync-object-misuse", "mutex destroyed while a thread waited for it"); }
    o->owner = cur; vjoin(&th[cur].vc, &o->vc);
    return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t *m) { return mtx_lock(m, 0); }
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { return mtx_lock(m, 1); }
int sim_pthread_mutex_unlock(pthread_mutex_t *m)
{
    point();
    O *o = oget(m, OM, "mutex unlock");
    if (o->owner != cur) violation("unlock-not-owner", "T%d unlocks a mutex held by %d", cur, o->owner);
    if (o->rec) { o->rec--; return 0; }
    o->owner = -1; o->vc = th[cur].vc; th[cur].vc.c[cur]++;
    wake_all(o);
    point();
    return 0;
}
int sim_sem_init(sem_t *s, int sh, unsigned v)
{
    (void)sh; heap_check(s, sizeof *s, 1);
    if (v > INT_MAX) { errno = EINVAL; return -1; }
    if (cs_init_faults && fault("sem_init")) { errno = ENOSPC; return -1; }
    O *o = onew(s, OS); o->val = (int)v; return 0;
}
int sim_sem_destroy(sem_t *s) { odestroy(s, OS, "semaphore destroy"); return 0; }
int sim_sem_post(sem_t *s)
{
    point();
    O *o = oget(s, OS, "semaphore post");
    if (o->val == INT_MAX) { errno = EOVERFLOW; return -1; }
    o->val++; vjoin(&o->vc, &th[cur].vc); th[cur].vc.c[cur]++;
    wake_all(o);
    point();
    return 0;
}
static int semwait(sem_t *s, uint64_t until, int try)
{
    point();
    O *o = oget(s, OS, "semaphore wait");
    if (!try && cs_eintr_faults && fault("sem_wait-EINTR")) { errno = EINTR; return -1; }
    while (o->val <= 0) {
        if (try) { errno = EAGAIN; return -1; }
        block(o, until);
        if (!o->live) violation("sync-object-misuse", "semaphore destroyed while a thread waited for it");
        if (th[cur].timedout && o->val <= 0) { errno = ETIMEDOUT; return -1; }
        if (o->val <= 0 && cs_eintr_faults && fault("sem_wait-EINTR")) { errno = EINTR; return -1; }
    }
    o->val--; vjoin(&th[cur].vc, &o->vc);
    return 0;
}
static uint64_t abs2sim(const struct timespec *t) { uint64_t n = (uint64_t)t->tv_sec*1000000000ull + (uint64_t)t->tv_nsec, b = 1700000000ull*1000000000ull; return n > b ? n - b + 1 : 1; }
int sim_sem_wait(sem_t *s) { return semwait(s, 0, 0); }
int sim_sem_trywait(sem_t *s) { return semwait(s, 0, 1); }
int sim_sem_timedwait(sem_t *s, const struct timespec *t) { return semwait(s, abs2sim(t), 0); }
int sim_sem_getvalue(sem_t *s, int *v) { *v = oget(s, OS, "semaphore getvalue")->val; return 0; }
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)a; if (cs_init_faults && fault("cond_init")) return ENOMEM; onew(c, OC); return 0; }
int sim_pthread_cond_destroy(pthread_cond_t *c) { odestroy(c, OC, "cond destroy"); return 0; }
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t until)
{
    O *o = oget(c, OC, "cond wait");
    O *mo = oget(m, OM, "cond wait mutex");
    if (mo->owner != cur) violation("unlock-not-owner", "cond wait without the mutex");
    mo->owner = -1; mo->vc = th[cur].vc; th[cur].vc.c[cur]++;
    wake_all(mo);
    int to = 0;
    if (!fault("cond-spurious-wakeup")) { block(o, until); to = th[cur].timedout; }
    else point();
    while (mo->owner >= 0) block(mo, 0);
    mo->owner = cur; vjoin(&th[cur].vc, &mo->vc);
    return to ? ETIMEDOUT : 0;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, 0); }
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return cwait(c, m, abs2sim(t)); }
int sim_pthread_cond_broadcast(pthread_cond_t *c) { point(); wake_all(oget(c, OC, "cond broadcast")); return 0; }
int sim_pthread_cond_signal(pthread_cond_t *c)
{
    point();
    O *o = oget(c, OC, "cond signal"); int w[MAXT], n = 0;
    for (int i = 0; i < nth; i++) if (th[i].st == BLOCK && th[i].wait == o) w[n++] = i;
    if (n) { int k = w[ch((uint32_t)n)]; th[k].st = RUN; th[k].wait = 0; th[k].wake = 0; }
    return 0;
}
int sim_pthread_spin_init(pthread_spinlock_t *l, int p) { (void)p; onew((void*)l, OM); return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t *l) { O *o = ofind((void*)l, OM); if (o) o->live = 0; return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t *l) { return mtx_lock((pthread_mutex_t*)l, 0); }
int sim_pthread_spin_trylock(pthread_spinlock_t *l) { return mtx_lock((pthread_mutex_t*)l, 1); }
int sim_pthread_spin_unlock(pthread_spinlock_t *l) { return sim_pthread_mutex_unlock((pthread_mutex_t*)l); }
int sim_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) { (void)a; onew(l, OR); return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t *l) { odestroy(l, OR, "rwlock destroy"); return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *l)
{ point(); O *o = oget(l, OR, "rdlock"); while (o->owner >= 0) block(o, 0); o->readers++; vjoin(&th[cur].vc, &o->vc); return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *l)
{ point(); O *o = oget(l, OR, "wrlock"); while (o->owner >= 0 || o->readers) block(o, 0); o->owner = cur; vjoin(&th[cur].vc, &o->vc); return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *l)
{ point(); O *o = oget(l, OR, "rwunlock"); if (o->owner == cur) o->owner = -1; else if (o->readers > 0) o->readers--; else violation("unlock-not-owner", "rwlock unlock");
  vjoin(&o->vc, &th[cur].vc); th[cur].vc.c[cur]++; wake_all(o); return 0; }
int cs_once_gen;
int sim_pthread_once(pthread_once_t *o, void (*f)(void))
{
    point();
    int mine = 1 | cs_once_gen << 2;       /* begun in a process this one was forked from: starts over, as in glibc */
    if (*(int*)o == 0 || ((*(int*)o & 3) == 1 && *(int*)o != mine)) { *(int*)o = mine; f(); *(int*)o = 2; vjoin(&oncevc, &th[cur].vc); th[cur].vc.c[cur]++; }
    else while ((*(volatile int*)o & 3) == 1) point();
    vjoin(&th[cur].vc, &oncevc);
    return 0;
}

/* ---------------- heap ---------------- */
#define HBASE 0x610000000000ull
#define HSIZE (96ull<<20)
static char *hp; static uint8_t *hs; static size_t hoff;     /* hs: one byte per 16: 0 none, 1..16 live bytes valid, 255 freed, 254 live full... */
typedef struct { size_t n; uint64_t magic; uint64_t off, pad; } H;
static size_t hlive, hlivebytes;
static void heap_reset(void)
{
    if (!hp) {
        hp = mmap((void*)HBASE, HSIZE, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
        if (hp == MAP_FAILED) harness_error("heap");
        hs = mmap(0, HSIZE/16, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    }
    memset(hs, 0, hoff/16 + 64);
    if (hoff > (8u<<20)) madvise(hp, HSIZE, MADV_DONTNEED);
    hoff = 4096; hlive = hlivebytes = 0;
}
static inline int in_heap(const void *a) { return (uintptr_t)a - HBASE < HSIZE; }
extern char __start_subjdata[] __attribute__((weak)), __stop_subjdata[] __attribute__((weak));
extern char __start_subjbss[] __attribute__((weak)), __stop_subjbss[] __attribute__((weak));
static inline int in_shared(const void *a)      /* heap and, if asked for, the static variables of the code under test */
{
    if (in_heap(a)) return 1;
    if (!cs_cfg.statics) return 0;
    return ((char*)a >= __start_subjdata && (char*)a < __stop_subjdata) || ((char*)a >= __start_subjbss && (char*)a < __stop_subjbss);
}
size_t cs_heap_live(void) { return hlive; }
size_t cs_heap_live_bytes(void) { return hlivebytes; }
static void heap_check(const void *a, size_t n, int w)
{
    if (!in_heap(a) || !n) return;
    size_t o = (uintptr_t)a - HBASE, e = o + n;
    for (size_t g = o/16; g <= (e-1)/16; g++) {
        uint8_t s = hs[g]; size_t hi = e - g*16; if (hi > 16) hi = 16;
        if (s == 255) violation("memory:use-after-free", "T%d %s %zu bytes of freed memory", cur, w ? "writes" : "reads", n);
        if (s == 0 || hi > s) violation("memory:heap-overflow", "T%d %s %zu bytes outside any live block", cur, w ? "writes" : "reads", n);
    }
}
static void shadow_clear(uintptr_t a, size_t n);
static void loc_clear(uintptr_t a, size_t n);
static void *halloc(size_t n, size_t al, int zero)
{
    if (alloc_faults && in_sim && fault("alloc")) { errno = ENOMEM; return 0; }
    if (n > HSIZE/2) { errno = ENOMEM; return 0; }
    if (al < 16) al = 16;
    size_t o = hoff + sizeof(H) + 32;
    o = (o + al - 1) & ~(al - 1);
    size_t r = (n + 15) & ~(size_t)15;
    if (o + r + 64 > HSIZE) violation("sim-memory-exhausted", "the code under test allocated more than the simulated machine has");
    H *h = (H*)(hp + o - sizeof(H)); h->n = n; h->magic = 0xabcdef0123ull; h->off = o;
    for (size_t i = 0; i < r/16; i++) hs[o/16 + i] = 16;
    if (n & 15) hs[(o + n)/16] = (uint8_t)(n & 15);
    hoff = o + r + 32;
    memset(hp + o, zero ? 0 : 0xa5, n);
    hlive++; hlivebytes += n;
    return hp + o;
}
static void hfree(void *p)
{
    if (!p) return;
    if (!in_heap(p)) violation("memory:bad-free", "free of a pointer that was not allocated");
    size_t o = (uintptr_t)p - HBASE;
    H *h = (H*)((char*)p - sizeof(H));
    if (o < 64 || h->off != o || (h->magic != 0xabcdef0123ull && h->magic != 0xdeadull)) violation("memory:bad-free", "free of a pointer that was not allocated");
    if (h->magic == 0xdeadull) violation("memory:double-free", "double free");
    h->magic = 0xdeadull;
    size_t r = (h->n + 15)/16;
    memset(hs + o/16, 255, r ? r : 1);
    memset(p, 0x5a, h->n);
    hlive--; hlivebytes -= h->n;
    if (h->n) { shadow_clear((uintptr_t)p, h->n); loc_clear((uintptr_t)p, h->n); }
}
void *cs_calloc(size_t n) { int s = alloc_faults; alloc_faults = 0; void *p = halloc(n, 64, 1); alloc_faults = s; return p; }
void *cs_malloc(size_t n) { static const uint8_t pat[] = { 0, 1, 0xa5, 0xff }; void *p = cs_calloc(n); memset(p, pat[ch(4)], n); return p; }   /* whatever was there before */
void cs_free(void *p) { hfree(p); }
void *sim_malloc(size_t n) { point(); return halloc(n, 16, 0); }
void *sim_calloc(size_t a, size_t b) { point(); size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; } return halloc(n, 16, 1); }
void sim_free(void *p) { if (in_sim && p) point(); hfree(p); }
void *sim_realloc(void *p, size_t n)
{
    if (!p) return sim_malloc(n);
    H *h = (H*)((char*)p - sizeof(H));
    heap_check(p, 1, 0);
    void *q = halloc(n, 16, 0);
    if (!q) return 0;
    memcpy(q, p, h->n < n ? h->n : n);
    hfree(p);
    return q;
}
int sim_posix_memalign(void **p, size_t al, size_t n) { void *q = halloc(n, al, 0); if (!q) return ENOMEM; *p = q; return 0; }
void *sim_aligned_alloc(size_t al, size_t n) { return halloc(n, al, 0); }
void *sim_memalign(size_t al, size_t n) { return halloc(n, al, 0); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = halloc(n, 16, 0); if (p) memcpy(p, s, n); return p; }

/* ---------------- race shadow ---------------- */
typedef struct { uint32_t clk; uint8_t tid, mask, w, at; } A;
typedef struct G { uint64_t key; uint32_t gen; uint8_t n; A a[10]; } G;
#define GB 15
static G *gt, *gsmall; static uint32_t ggen = 1, gb = GB, gused;
static void shadow_reset(void)
{
    if (!gsmall) gsmall = mmap(0, sizeof(G) << GB, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    if (gt != gsmall && gt) munmap(gt, sizeof(G) << gb);
    gt = gsmall; gb = GB; gused = 0; ggen++;
}
static G *gfind(uint64_t key, int make);
static void shadow_grow(void)
{
    G *o = gt; uint32_t ob = gb; gb = ob + 2; gused = 0; gt = mmap(0, sizeof(G) << gb, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); if (gt == MAP_FAILED) harness_error("shadow");
    for (uint32_t i = 0; i < 1u << ob; i++) if (o[i].gen == ggen) *gfind(o[i].key, 1) = o[i];
    if (o != gsmall) munmap(o, sizeof(G) << ob);
}
static G *gfind(uint64_t key, int make)
{
    uint32_t i = (uint32_t)((key * 0x9e3779b97f4a7c15ull) >> (64-gb));
    for (;; i = (i+1) & ((1u<<gb)-1)) {
        if (gt[i].gen != ggen) { if (!make) return 0; if (++gused > 3u << (gb - 2)) { shadow_grow(); return gfind(key, make); } gt[i].gen = ggen; gt[i].key = key; gt[i].n = 0; return &gt[i]; }
        if (gt[i].key == key) return &gt[i];
    }
}
static void shadow_clear(uintptr_t a, size_t n)
{
    if (n > 1<<16) { return; }
    for (uint64_t g = a >> 3; g <= (a + n - 1) >> 3; g++) { G *x = gfind(g, 0); if (x) x->n = 0; }
}
static void race_access(uintptr_t a, size_t n, int w, int at)
{
    if (!cs_cfg.races || !in_sim || nth < 2) return;
    T *t = &th[cur];
    uint32_t myc = t->vc.c[cur];
    while (n) {
        unsigned off = a & 7; size_t k = 8 - off; if (k > n) k = n;
        uint8_t mask = (uint8_t)(((1u << k) - 1) << off);
        G *g = gfind(a >> 3, 1);
        if (g) {
            int slot = -1;
            for (int i = 0; i < g->n; ) {
                A *x = &g->a[i];
                if ((x->mask & mask) && (x->w || w) && !(x->at && at) && x->tid != cur && x->clk > t->vc.c[x->tid])
                    violation("data-race", "T%d %s and T%d %s the same shared memory without any ordering between them", cur, w ? "writes" : "reads", x->tid, x->w ? "writes" : "reads");
                /* drop records this access supersedes */
                if (w && (x->mask & ~mask) == 0 && (x->tid == cur || x->clk <= t->vc.c[x->tid]) && at <= x->at) { *x = g->a[--g->n]; continue; }
                if (x->tid == cur && x->mask == mask && x->w == w && x->at == at) slot = i;
                i++;
            }
            if (slot < 0) { if (g->n < 10) slot = g->n++; else slot = (int)(steps % 10); }
            g->a[slot] = (A){ myc, (uint8_t)cur, mask, (uint8_t)w, (uint8_t)at };
        }
        a += k; n -= k;
    }
}

/* ---------------- weak memory: per-location store history ---------------- */
#define HIST 6
typedef struct { uint64_t v; uint32_t tid, clk; int sc; vc_t rel; } S_;
typedef struct L { uint64_t key; uint32_t gen; uint8_t sz, n; uint32_t base; /* index of oldest */ S_ s[HIST]; uint32_t seen[MAXT]; uint32_t stale[MAXT]; } L;
#define LB 13
static L *lt; static uint32_t lgen = 1;
static void loc_reset(void) { if (!lt) lt = mmap(0, sizeof(L) << LB, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); lgen++; }
static L *lfind(uint64_t key, int make)
{
    uint32_t i = (uint32_t)((key * 0x9e3779b97f4a7c15ull) >> (64-LB));
    for (int p = 0; p < (1<<LB); p++, i = (i+1) & ((1u<<LB)-1)) {
        if (lt[i].gen != lgen) { if (!make) return 0; memset(&lt[i], 0, offsetof(L, s)); memset(lt[i].seen, 0, sizeof lt[i].seen); memset(lt[i].stale, 0, sizeof lt[i].stale); lt[i].gen = lgen; lt[i].key = key; return &lt[i]; }
        if (lt[i].key == key) return &lt[i];
    }
    harness_error("too many atomics");
}
static uint64_t rd(const volatile void *a, int sz)
{ switch (sz) { case 1: return *(const volatile uint8_t*)a; case 2: return *(const volatile uint16_t*)a; case 4: return *(const volatile uint32_t*)a; default: return *(const volatile uint64_t*)a; } }
static void wr(volatile void *a, int sz, uint64_t v)
{ switch (sz) { case 1: *(volatile uint8_t*)a = (uint8_t)v; break; case 2: *(volatile uint16_t*)a = (uint16_t)v; break; case 4: *(volatile uint32_t*)a = (uint32_t)v; break; default: *(volatile uint64_t*)a = v; } }
static void loc_clear(uintptr_t a, size_t n)
{
    if (n > 1<<16) return;
    for (uintptr_t x = a & ~7ull; x < a + n; x++) { L *l = lfind(x, 0); if (l) l->n = 0; }
}
static L *loc(const volatile void *a, int sz)
{
    L *l = lfind((uint64_t)(uintptr_t)a, 1);
    uint64_t v = rd(a, sz);
    if (l->n && (l->sz != sz || l->s[l->n-1].v != v)) { l->base += l->n; l->n = 0; }
    if (!l->n) {
        /* value set by plain stores (initialisation): visible to everyone who can get here without a race */
        memset(&l->s[0], 0, sizeof l->s[0]);
        l->s[0].v = v; l->n = 1; l->sz = (uint8_t)sz;
    }
    return l;
}
static inline int is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline int is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

static void push(L *l, uint64_t v, int mo, int rmw)
{
    T *t = &th[cur];
    vc_t prel; int hasprev = rmw && l->n; if (hasprev) prel = l->s[l->n-1].rel;
    if (l->n == HIST) { memmove(&l->s[0], &l->s[1], sizeof(S_) * (HIST-1)); l->n--; l->base++; }
    S_ *s = &l->s[l->n++];
    memset(s, 0, sizeof *s);
    s->v = v; s->tid = (uint32_t)cur; s->clk = t->vc.c[cur]; s->sc = mo == 5;
    if (is_rel(mo)) s->rel = t->vc; else if (t->hasrelf) s->rel = t->relf;
    if (hasprev) vjoin(&s->rel, &prel);
    t->vc.c[cur]++;
    l->seen[cur] = l->base + l->n - 1;
}
static uint64_t do_load(const volatile void *a, int sz, int mo)
{
    if (!in_sim) return rd(a, sz);
    if (cs_cfg.solo) { heap_check((const void*)a, (size_t)sz, 0); return rd(a, sz); }
    point();
    heap_check((const void*)a, (size_t)sz, 0);
    if (in_shared((const void*)a)) race_access((uintptr_t)a, (size_t)sz, 0, 1);
    T *t = &th[cur];
    L *l = loc(a, sz);
    int i = l->n - 1;
    if (cs_cfg.weak && !quiesced && l->n > 1) {
        int lo = i;
        while (lo > 0) {
            S_ *s = &l->s[lo];
            if (s->clk <= t->vc.c[s->tid] || l->base + (uint32_t)lo <= l->seen[cur]) break;
            if (mo == 5 && s->sc) break;
            lo--;
        }
        int k = i - lo + 1;
        if (k > 1) {
            uint32_t back = 0;
            if (l->stale[cur] < 12) {
                uint64_t r = ch_replaying() ? 0 : mix64(run_hash() ^ 0x57a1e, steps);
                back = ch_pick((uint32_t)k, r % stale_den < stale_num ? (uint32_t)((r >> 20) % (uint64_t)k) : 0);
            }
            if (back) { n_stale++; l->stale[cur]++; } else l->stale[cur] = 0;
            i -= (int)back;
        }
    }
    S_ *s = &l->s[i];
    if (l->base + (uint32_t)i > l->seen[cur]) l->seen[cur] = l->base + (uint32_t)i;
    if (is_acq(mo)) vjoin(&t->vc, &s->rel); else vjoin(&t->acqp, &s->rel);
    evq(0xa1, (uint64_t)cur, s->v);
    return s->v;
}
static void do_store(volatile void *a, int sz, uint64_t v, int mo)
{
    if (!in_sim) { wr(a, sz, v); return; }
    if (cs_cfg.solo) { heap_check((const void*)a, (size_t)sz, 1); wr(a, sz, v); return; }
    point();
    heap_check((const void*)a, (size_t)sz, 1);
    if (in_shared((const void*)a)) race_access((uintptr_t)a, (size_t)sz, 1, 1);
    L *l = loc(a, sz);
    wr(a, sz, v); push(l, rd(a, sz), mo, 0);
    evq(0xa2, (uint64_t)cur, v);
}
typedef uint64_t (*rmwf)(uint64_t, uint64_t);
static uint64_t do_rmw(volatile void *a, int sz, uint64_t v, int mo, int op)
{
    if (in_sim) {
        if (!cs_cfg.solo) point();
        heap_check((const void*)a, (size_t)sz, 1);
        if (!cs_cfg.solo && in_shared((const void*)a)) race_access((uintptr_t)a, (size_t)sz, 1, 1);
    }
    uint64_t o = rd(a, sz), n;
    switch (op) { case 0: n = v; break; case 1: n = o + v; break; case 2: n = o - v; break; case 3: n = o & v; break; case 4: n = o | v; break; case 5: n = o ^ v; break; default: n = ~(o & v); }
    if (!in_sim || cs_cfg.solo) { wr(a, sz, n); return o; }
    L *l = loc(a, sz); T *t = &th[cur];
    if (is_acq(mo)) vjoin(&t->vc, &l->s[l->n-1].rel); else vjoin(&t->acqp, &l->s[l->n-1].rel);
    wr(a, sz, n); push(l, rd(a, sz), mo, 1);
    evq(0xa3, (uint64_t)cur, n);
    return o;
}
static int do_cas(volatile void *a, void *c, int sz, uint64_t v, int mo, int fmo, int weak)
{
    if (in_sim) {
        if (!cs_cfg.solo) point();
        heap_check((const void*)a, (size_t)sz, 1);
        if (!cs_cfg.solo && in_shared((const void*)a)) race_access((uintptr_t)a, (size_t)sz, 1, 1);
    }
    uint64_t o = rd(a, sz), e = rd(c, sz);
    int ok = o == e;
    if (!in_sim || cs_cfg.solo) { if (ok) wr(a, sz, v); else wr(c, sz, o); return ok; }
    L *l = loc(a, sz); T *t = &th[cur];
    if (ok && weak && !quiesced && fault("weak-cas-spurious")) { n_spur++; ok = 0; }
    int m = ok ? mo : fmo;
    if (is_acq(m)) vjoin(&t->vc, &l->s[l->n-1].rel); else vjoin(&t->acqp, &l->s[l->n-1].rel);
    if (ok) { wr(a, sz, v); push(l, rd(a, sz), mo, 1); }
    else { wr(c, sz, o); l->seen[cur] = l->base + l->n - 1; }
    evq(0xa4, (uint64_t)cur, (uint64_t)ok);
    return ok;
}

static void do_fence(int mo)
{
    if (!in_sim) return;
    point();
    T *t = &th[cur];
    if (is_acq(mo)) vjoin(&t->vc, &t->acqp);
    if (mo == 5) { vjoin(&t->vc, &scvc); scvc = t->vc; }
    if (is_rel(mo)) { t->relf = t->vc; t->hasrelf = 1; t->vc.c[cur]++; }
}

#define ATOMICS(N, TY) \
TY __tsan_atomic##N##_load(const volatile TY *a, int mo) { return (TY)do_load(a, N/8, mo); } \
void __tsan_atomic##N##_store(volatile TY *a, TY v, int mo) { do_store(a, N/8, v, mo); } \
TY __tsan_atomic##N##_exchange(volatile TY *a, TY v, int mo) { return (TY)do_rmw(a, N/8, v, mo, 0); } \
TY __tsan_atomic##N##_fetch_add(volatile TY *a, TY v, int mo) { return (TY)do_rmw(a, N/8, v, mo, 1); } \
TY __tsan_atomic##N##_fetch_sub(volatile TY *a, TY v, int mo) { return (TY)do_rmw(a, N/8, v, mo, 2); } \
TY __tsan_atomic##N##_fetch_and(volatile TY *a, TY v, int mo) { return (TY)do_rmw(a, N/8, v, mo, 3); } \
TY __tsan_atomic##N##_fetch_or(volatile TY *a, TY v, int mo) { return (TY)do_rmw(a, N/8, v, mo, 4); } \
TY __tsan_atomic##N##_fetch_xor(volatile TY *a, TY v, int mo) { return (TY)do_rmw(a, N/8, v, mo, 5); } \
TY __tsan_atomic##N##_fetch_nand(volatile TY *a, TY v, int mo) { return (TY)do_rmw(a, N/8, v, mo, 6); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int fmo) { return do_cas(a, c, N/8, v, mo, fmo, 0); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int fmo) { return do_cas(a, c, N/8, v, mo, fmo, 1); } \
TY __tsan_atomic##N##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int fmo) { do_cas(a, &c, N/8, v, mo, fmo, 0); return c; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { do_fence(mo); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

static void plain(uintptr_t a, size_t n, int w)
{
    if (!in_sim || !in_shared((void*)a)) return;
    heap_check((void*)a, n, w);
    if (cs_cfg.plain_points && !quiesced) { n_plain++; point(); heap_check((void*)a, n, w); }
    race_access(a, n, w, 0);
}
#define RW(N) \
void __tsan_read##N(void *a) { plain((uintptr_t)a, N, 0); } \
void __tsan_write##N(void *a) { plain((uintptr_t)a, N, 1); } \
void __tsan_unaligned_read##N(void *a) { plain((uintptr_t)a, N, 0); } \
void __tsan_unaligned_write##N(void *a) { plain((uintptr_t)a, N, 1); } \
void __tsan_volatile_read##N(void *a) { plain((uintptr_t)a, N, 0); } \
void __tsan_volatile_write##N(void *a) { plain((uintptr_t)a, N, 1); } \
void __tsan_unaligned_volatile_read##N(void *a) { plain((uintptr_t)a, N, 0); } \
void __tsan_unaligned_volatile_write##N(void *a) { plain((uintptr_t)a, N, 1); } \
void __tsan_read_write##N(void *a) { plain((uintptr_t)a, N, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { plain((uintptr_t)a, n, 0); }
void __tsan_write_range(void *a, size_t n) { plain((uintptr_t)a, n, 1); }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void **a) { (void)a; }
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *sim_memcpy(void *d, const void *s, size_t n) { plain((uintptr_t)s, n, 0); plain((uintptr_t)d, n, 1); return memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { plain((uintptr_t)s, n, 0); plain((uintptr_t)d, n, 1); return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { plain((uintptr_t)d, n, 1); return memset(d, c, n); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return sim_memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return sim_memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return sim_memset(d, c, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { plain((uintptr_t)a, n, 0); plain((uintptr_t)b, n, 0); return memcmp(a, b, n); }
