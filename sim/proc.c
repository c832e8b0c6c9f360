/* see proc.h */
#define _GNU_SOURCE 1
#include "proc.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <stdio.h>
#include <signal.h>
#include <pthread.h>
#include <sys/mman.h>

#define NTLS 8
#define NKEY 8
#define NATF 8
typedef struct { void *ctl; char *mem; size_t n; } tls_t;
typedef struct { tls_t t[NTLS]; const void *key[NKEY]; int live; } lt_t;
typedef struct { pid_t pid; char *st; lt_t l[PR_LT]; int natf, raw, started; void (*prep[NATF])(void), (*par[NATF])(void), (*chi[NATF])(void); int nkey; void (*dtor[NKEY])(void*); } P;
static P pr[PR_MAX]; static int npr, curp, ltof[CS_MAXT];
int (*pr_entropy)(void *, size_t);
void (*pr_die)(const char *);

static char *arena; static size_t aoff;
#define ASZ (8u<<20)
static void *grab(size_t n)
{
    if (!arena) arena = mmap(0, ASZ, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    aoff = (aoff + 63) & ~(size_t)63;
    if (aoff + n > ASZ) discard();
    void *p = arena + aoff; aoff += n;
    return p;
}
void pr_reset(void)
{
    if (arena) memset(arena, 0, aoff);
    aoff = 0; memset(pr, 0, sizeof pr); memset(ltof, 0, sizeof ltof);
    npr = 1; curp = 0; cs_once_gen = 0; pr[0].pid = 1000; pr[0].l[0].live = 1;
    pr_entropy = 0; pr_die = 0;
}
int pr_cur(void) { return curp; }
pid_t pr_pid(int p) { return pr[p].pid; }
int pr_lt(void) { return ltof[cs_self()]; }
void pr_thread(int lt, int fresh)
{
    ltof[cs_self()] = lt;
    lt_t *l = &pr[curp].l[lt];
    if (fresh || !l->live) {
        for (int k = 0; k < pr[curp].nkey; k++) if (l->key[k] && pr[curp].dtor[k]) { void *v = (void*)l->key[k]; l->key[k] = 0; pr[curp].dtor[k](v); }
        memset(l, 0, sizeof *l); l->live = 1;
    }
}
int pr_fork(int lt, int raw, pid_t pid)
{
    if (npr >= PR_MAX) return -1;
    P *o = &pr[curp];
    if (!raw) for (int i = o->natf; i-- > 0; ) if (o->prep[i]) o->prep[i]();
    int n = npr++; P *c = &pr[n];
    *c = *o;
    size_t z = dst_statics_size();
    c->st = grab(z); dst_statics_save(c->st, 0);
    c->pid = pid;
    memset(c->l, 0, sizeof c->l);
    /* only the forking thread exists in the child, as its first */
    c->l[0] = o->l[lt];
    for (int i = 0; i < NTLS; i++) if (c->l[0].t[i].ctl) { char *m = grab(c->l[0].t[i].n); memcpy(m, c->l[0].t[i].mem, c->l[0].t[i].n); c->l[0].t[i].mem = m; }
    if (!raw) {
        for (int i = 0; i < o->natf; i++) if (o->par[i]) o->par[i]();
        /* the child's handlers run when it first runs: nothing else can see the difference */
    }
    c->raw = raw; c->started = 0;
    return n;
}
void pr_switch(int p)
{
    if (p == curp) return;
    size_t z = dst_statics_size();
    if (!pr[curp].st) pr[curp].st = grab(z);
    dst_statics_save(pr[curp].st, 0);
    curp = p; cs_once_gen = p;
    dst_statics_save(pr[p].st, 1);
    if (p && !pr[p].started && !pr[p].raw) for (int i = 0; i < pr[p].natf; i++) if (pr[p].chi[i]) pr[p].chi[i]();
    pr[p].started = 1;
}

/* ---- what the code under test calls ---- */
pid_t sim_getpid(void) { return pr[curp].pid; }
pid_t sim_getppid(void) { return 1; }
int sim_pthread_atfork(void (*a)(void), void (*b)(void), void (*c)(void))
{
    P *p = &pr[curp]; int n = p->natf;
    if (n >= NATF) return ENOMEM;
    p->prep[n] = a; p->par[n] = b; p->chi[n] = c; p->natf++;
    return 0;
}
int sim___register_atfork(void (*a)(void), void (*b)(void), void (*c)(void), void *h) { (void)h; return sim_pthread_atfork(a, b, c); }
int sim_pthread_key_create(pthread_key_t *k, void (*d)(void*)) { P *p = &pr[curp]; if (p->nkey >= NKEY) return EAGAIN; p->dtor[p->nkey] = d; *k = (pthread_key_t)p->nkey++; return 0; }
int sim_pthread_key_delete(pthread_key_t k) { (void)k; return 0; }
void *sim_pthread_getspecific(pthread_key_t k) { return (void*)pr[curp].l[pr_lt()].key[k]; }
int sim_pthread_setspecific(pthread_key_t k, const void *v) { pr[curp].l[pr_lt()].key[k] = v; return 0; }
extern void __tsan_write_range(void *, size_t);
int sim_getentropy(void *b, size_t n)
{
    cs_yield();
    if (n > 256) { errno = EIO; return -1; }
    __tsan_write_range(b, n);
    return pr_entropy(b, n);
}
ssize_t sim_getrandom(void *b, size_t n, unsigned fl) { (void)fl; cs_yield(); return pr_entropy(b, n) < 0 ? -1 : (ssize_t)n; }
static void die(const char *how) __attribute__((noreturn));
static void die(const char *how) { if (pr_die) pr_die(how); violation("process-end", "the code under test ended the process (%s)", how); }
void sim_abort(void) { die("abort"); }
void sim_exit(int r) { (void)r; die("exit"); }
void sim__exit(int r) { (void)r; die("_exit"); }
void sim__Exit(int r) { (void)r; die("_Exit"); }
int sim_raise(int s) { if (s == 0) return 0; die("raise"); }
int sim_kill(pid_t p, int s) { (void)p; if (s == 0) return 0; die("kill"); }
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { (void)f; (void)fn; static char b[200]; snprintf(b, sizeof b, "assert(%.100s) line %u", e, l); die(b); }

/* ---- thread-local storage ---- */
typedef struct { size_t size, align; uintptr_t loc; const void *templ; } ctl_t;
void *__emutls_get_address(void *vc)
{
    ctl_t *c = vc; lt_t *l = &pr[curp].l[pr_lt()];
    int i;
    for (i = 0; i < NTLS && l->t[i].ctl; i++) if (l->t[i].ctl == vc) return l->t[i].mem;
    if (i == NTLS) harness_error("too many thread-local variables");
    l->t[i].ctl = vc; l->t[i].n = c->size; l->t[i].mem = grab(c->size);
    if (c->templ) memcpy(l->t[i].mem, c->templ, c->size);
    return l->t[i].mem;
}
