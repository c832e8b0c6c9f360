/* Deterministic simulation core. See core.h. Built without sanitizer instrumentation. */
#define _GNU_SOURCE 1
#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <stdatomic.h>

#define MAXCH   (1u<<19)
#define MAXW    16
#define NCNT    256
#define COVBITS 22
#define TRACEMAX (1u<<20)

typedef struct {
    _Atomic uint32_t running;       /* a run is in progress */
    _Atomic uint32_t failed;        /* violation recorded */
    uint64_t seed, idx;
    uint32_t nch;
    uint64_t hash;
    char cls[128];
    char msg[1024];
    uint32_t ch[MAXCH];
    uint32_t tlen;
    char trace[TRACEMAX];
} slot_t;

typedef struct {
    _Atomic uint32_t lock;
    _Atomic uint64_t runs, discarded, nontrivial, rechecked, nondet, simns, faults, clean_runs, known_hits, dropped;
    _Atomic uint64_t covn, intern;
    _Atomic uint32_t ncnt;
    struct { char name[48]; _Atomic uint64_t v; } cnt[NCNT];
    _Atomic uint32_t stop;
    _Atomic uint32_t nsamples;
    char samples[6][700];
    _Atomic uint64_t cov[1u<<COVBITS];
    _Atomic uint64_t ih[1u<<COVBITS];
    slot_t slot[MAXW+1];
} shared_t;

static shared_t *S;
static slot_t *me;
int dst_verbose;
const char *dst_property;
uint64_t dst_sim_ns;

/* ---- per run state ---- */
static prng  g_rng;
static int   g_replay;
static const uint32_t *g_in; static uint32_t g_nin, g_pos;
static uint64_t g_hash;
static int g_nontrivial;
static int g_faults_off;
static unsigned g_fired;
static jmp_buf g_jmp;
static int g_in_run;

#define MAXFK 64
static struct { const char *kind; int mode; uint32_t k, seen; } g_fk[MAXFK];
static int g_nfk;

static void die_(const char *m) { fprintf(stderr, "dst: %s: %s\n", m, strerror(errno)); _exit(3); }

void harness_error(const char *fmt, ...)
{
    char b[1024];
    va_list ap; va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    fprintf(stderr, "HARNESS-ERROR %s\n", b);
    if (me) snprintf(me->msg, sizeof me->msg, "%s", b);
    _exit(4);
}

int ch_replaying(void) { return g_replay; }

static uint32_t logch(uint32_t v)
{
    if (me->nch < MAXCH) me->ch[me->nch++] = v;
    else if (me->nch == MAXCH) violation("sim-choice-overflow", "run made more than %u choices", MAXCH);
    g_hash = mix64(g_hash, v + 0x51ull);
    return v;
}

static int g_overflow_guard;
uint32_t ch_pick(uint32_t n, uint32_t v)
{
    if (n <= 1) return 0;
    if (g_replay) {
        v = g_pos < g_nin ? g_in[g_pos++] : 0;
        if (v >= n) v %= n;
    }
    return logch(v);
}

uint32_t ch(uint32_t n)
{
    if (n <= 1) return 0;
    uint32_t v = g_replay ? 0 : (uint32_t)(prng_next(&g_rng) % n);
    return ch_pick(n, v);
}
int ch_p(uint32_t num, uint32_t den)
{
    uint32_t v = g_replay ? 0 : ((uint32_t)(prng_next(&g_rng) % den) < num);
    return (int)ch_pick(2, v);
}
uint32_t ch_range(uint32_t lo, uint32_t hi) { return lo + ch(hi - lo + 1); }
uint64_t ch_seed(void)
{
    uint32_t v = g_replay ? 0 : (uint32_t)prng_next(&g_rng);
    return ch_pick(0xffffffffu, v % 0xffffffffu);
}

/* ---- shared counters ---- */
static void lk(void) { uint32_t z; do { z = 0; } while (!atomic_compare_exchange_weak(&S->lock, &z, 1)); }
static void ulk(void) { atomic_store(&S->lock, 0); }

void tally(const char *name, uint64_t n)
{
    uint32_t m = atomic_load(&S->ncnt);
    for (uint32_t i = 0; i < m; i++)
        if (!strcmp(S->cnt[i].name, name)) { atomic_fetch_add(&S->cnt[i].v, n); return; }
    lk();
    m = atomic_load(&S->ncnt);
    uint32_t i;
    for (i = 0; i < m; i++) if (!strcmp(S->cnt[i].name, name)) break;
    if (i == m && m < NCNT) { snprintf(S->cnt[m].name, 48, "%s", name); atomic_store(&S->ncnt, m+1); }
    ulk();
    if (i < NCNT) atomic_fetch_add(&S->cnt[i].v, n);
}

static int setins(_Atomic uint64_t *t, uint64_t h)
{
    if (!h) h = 1;
    uint32_t m = (1u<<COVBITS)-1, i = (uint32_t)(h >> 20) & m;
    for (int p = 0; p < 64; p++, i = (i+1)&m) {
        uint64_t c = atomic_load_explicit(&t[i], memory_order_relaxed);
        if (c == h) return 0;
        if (!c) {
            uint64_t z = 0;
            if (atomic_compare_exchange_strong(&t[i], &z, h)) return 1;
            if (z == h) return 0;
        }
    }
    atomic_fetch_add(&S->dropped, 1);
    return 0;
}
void cover(uint64_t h) { if (setins(S->cov, h)) atomic_fetch_add(&S->covn, 1); }
void run_nontrivial(void) { g_nontrivial = 1; }
uint64_t run_hash(void) { return g_hash; }

void sample(const char *fmt, ...)
{
    if (atomic_load(&S->nsamples) >= 6) return;
    char b[700];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    uint32_t i = atomic_fetch_add(&S->nsamples, 1);
    if (i < 6) memcpy(S->samples[i], b, sizeof b);
    else atomic_store(&S->nsamples, 6);
}

void evq(uint64_t a, uint64_t b, uint64_t c) { g_hash = mix64(mix64(g_hash, a), mix64(b, c)); }
void ev(const char *fmt, ...)
{
    char b[512];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    if (n >= (int)sizeof b) n = sizeof b - 1;
    uint64_t h = 1469598103934665603ull;
    for (int i = 0; i < n; i++) h = (h ^ (uint8_t)b[i]) * 1099511628211ull;
    g_hash = mix64(g_hash, h);
    if (dst_verbose && me->tlen + n + 2 < TRACEMAX) {
        memcpy(me->trace + me->tlen, b, n); me->tlen += n;
        me->trace[me->tlen++] = '\n'; me->trace[me->tlen] = 0;
    }
}

/* ---- faults ---- */
void faults_off(void) { g_faults_off = 1; }
void faults_on(void)  { g_faults_off = 0; }
int  faults_are_off(void) { return g_faults_off; }
unsigned faults_fired(void) { return g_fired; }
void fault_note(const char *kind)
{
    char b[64]; snprintf(b, sizeof b, "fault:%s", kind);
    tally(b, 1); atomic_fetch_add(&S->faults, 1); g_fired++;
    ev("FAULT %s", kind);
}
int fault(const char *kind)
{
    if (g_faults_off) return 0;
    int i;
    for (i = 0; i < g_nfk; i++) if (g_fk[i].kind == kind || !strcmp(g_fk[i].kind, kind)) break;
    if (i == g_nfk) {
        if (g_nfk >= MAXFK) return 0;
        g_nfk++;
        g_fk[i].kind = kind; g_fk[i].seen = 0; g_fk[i].k = 0;
        /* swarm: most kinds are off in a given run */
        static const int modes[] = { 0,0,0,0,1,2,3,4,4,4 };
        g_fk[i].mode = g_replay ? (int)ch_pick(5, 0) : (int)ch_pick(5, modes[prng_next(&g_rng) % 10]);
        if (g_fk[i].mode == 4) g_fk[i].k = ch(40);
    }
    int f = 0;
    uint32_t seen = g_fk[i].seen++;
    switch (g_fk[i].mode) {
        case 0: return 0;
        case 1: f = ch_p(1, 40); break;
        case 2: f = ch_p(1, 6);  break;
        case 3: f = ch_p(1, 2);  break;
        case 4: f = (seen == g_fk[i].k); break;   /* exactly the k-th opportunity */
    }
    if (f) fault_note(kind);
    return f;
}

/* ---- verdicts ---- */
void violation(const char *cls, const char *fmt, ...)
{
    static int again;
    if (!again++) {
        snprintf(me->cls, sizeof me->cls, "%s", cls);
        va_list ap; va_start(ap, fmt);
        vsnprintf(me->msg, sizeof me->msg, fmt, ap);
        va_end(ap);
        me->hash = strcmp(cls, "hang") ? g_hash : 0;      /* where the time ran out is not part of the run */
        atomic_store(&me->failed, 1);
    }
    _exit(1);
}
void discard(void) { longjmp(g_jmp, 2); }

static void on_sig(int sig)
{
    const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS" :
                    sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGPROF ? "hang" :
                    sig == SIGVTALRM ? "hang" : sig == SIGTRAP ? "SIGTRAP" : "signal";
    char b[64];
    snprintf(b, sizeof b, "%s%s", sig == SIGPROF || sig == SIGVTALRM ? "" : "crash:", n);
    violation(b, "the code under test died or did not return: %s", n);
}

/* sanitizer runtimes call this if present */
static char g_san[512];
void dst_san_report(const char *rep)
{
    const char *p = strstr(rep, "ERROR: ");
    p = p ? p + 7 : rep;
    const char *q = strstr(p, ": ");
    if (q && q - p < 40) p = q + 2;
    char kind[64]; size_t i;
    for (i = 0; p[i] && p[i] != ' ' && p[i] != '\n' && i < sizeof kind - 1; i++) kind[i] = p[i];
    kind[i] = 0;
    if (!strcmp(kind, "SEGV")) strcpy(kind, "SIGSEGV");
    /* keep first frames for the message */
    const char *fr = strstr(rep, "#0");
    snprintf(g_san, sizeof g_san, "%.200s | %.250s", p, fr ? fr : "");
    for (char *s = g_san; *s; s++) if (*s == '\n') *s = ' ';
    char c[96]; snprintf(c, sizeof c, "memory:%s", kind);
    violation(c, "%s", g_san);
}

static void arm_signals(void)
{
    static char *alt;
    if (!alt) alt = mmap(0, 1<<18, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    stack_t ss = { .ss_sp = alt, .ss_size = 1<<18 };
    sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK|SA_NODEFER;
    int sigs[] = { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGVTALRM, SIGTRAP };
    for (unsigned i = 0; i < NELEM(sigs); i++) sigaction(sigs[i], &sa, 0);
    signal(SIGPIPE, SIG_IGN);
}

static void arm_timer(int on)
{
    int lim = harness.cpu_limit_s ? harness.cpu_limit_s : 8;
    struct itimerval it = { {0,0}, { on ? lim : 0, 0 } };
    setitimer(ITIMER_VIRTUAL, &it, 0);
}

void dst_more_time(int secs) { struct itimerval it = { {0,0}, { secs, 0 } }; setitimer(ITIMER_VIRTUAL, &it, 0); }     /* for a run that has a lot to do */

/* static variables of the code under test go back to their first values before each run */
extern char __start_subjdata[] __attribute__((weak)), __stop_subjdata[] __attribute__((weak));
extern char __start_subjbss[] __attribute__((weak)), __stop_subjbss[] __attribute__((weak));
static char *g_snap[2]; static int g_snapped;
static void rawcopy(void *d, const void *s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static void statics(int restore)
{
    char *b[2] = { __start_subjdata, __start_subjbss }, *e[2] = { __stop_subjdata, __stop_subjbss };
    for (int i = 0; i < 2; i++) {
        size_t n = b[i] ? (size_t)(e[i] - b[i]) : 0;
        if (!n) continue;
        if (!restore) {
            g_snap[i] = mmap(0, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
            if (g_snap[i] == MAP_FAILED) die_("mmap");
            rawcopy(g_snap[i], b[i], n);
        } else rawcopy(b[i], g_snap[i], n);
    }
}
void dst_statics_save(void *to, int restore)     /* the statics of one simulated process */
{
    char *p = to;
    char *b[2] = { __start_subjdata, __start_subjbss }, *e[2] = { __stop_subjdata, __stop_subjbss };
    for (int i = 0; i < 2; i++) {
        size_t n = b[i] ? (size_t)(e[i] - b[i]) : 0;
        if (restore) rawcopy(b[i], p, n); else rawcopy(p, b[i], n);
        p += n;
    }
}
size_t dst_statics_size(void) { return (__start_subjdata ? (size_t)(__stop_subjdata - __start_subjdata) : 0) + (__start_subjbss ? (size_t)(__stop_subjbss - __start_subjbss) : 0); }

/* ---- one run in the current process; returns 0 ok, 2 discarded; exits on violation ---- */
static int one_run(uint64_t seed, const uint32_t *in, uint32_t nin)
{
    g_rng.s = seed; g_replay = in != 0; g_in = in; g_nin = nin; g_pos = 0;
    g_hash = 0x1234; g_nontrivial = 0; g_faults_off = 0; g_fired = 0; g_nfk = 0;
    dst_sim_ns = 0; g_overflow_guard = 0;
    me->seed = seed; me->nch = 0; me->tlen = 0; me->trace[0] = 0;
    atomic_store(&me->failed, 0); atomic_store(&me->running, 1);
    statics(g_snapped); g_snapped = 1;
    arm_timer(1);
    int r = setjmp(g_jmp);
    if (!r) { g_in_run = 1; errno = ENOTTY;      /* a program in the middle of its life */  harness.run(); }
    g_in_run = 0;
    arm_timer(0);
    me->hash = g_hash;
    atomic_store(&me->running, 0);
    return r;
}

static uint64_t now_ms(void)
{
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return (uint64_t)t.tv_sec*1000 + t.tv_nsec/1000000;
}

static void account(int r)
{
    atomic_fetch_add(&S->runs, 1);
    if (r == 2) atomic_fetch_add(&S->discarded, 1);
    else {
        if (g_nontrivial && setins(S->ih, me->hash)) atomic_fetch_add(&S->nontrivial, 1);
        if (!g_fired) atomic_fetch_add(&S->clean_runs, 1);
    }
    atomic_fetch_add(&S->simns, dst_sim_ns);
}

static void quiet_stderr(void)
{
    int f = open("/dev/null", O_WRONLY);
    if (f >= 0) { dup2(f, 2); dup2(f, 1); if (f > 2) close(f); }
}

/* worker: executes runs until told to stop */
static void worker(int w, int jobs, uint64_t base, uint64_t *next, uint64_t maxruns, uint64_t deadline, int batch)
{
    me = &S->slot[w];
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (!getenv("DST_DEBUG")) quiet_stderr();
    arm_signals();
    if (harness.setup) harness.setup();
    uint32_t *copy = malloc(sizeof(uint32_t) * MAXCH);
    for (int b = 0; b < batch; b++) {
        uint64_t idx = *next;
        if (atomic_load(&S->stop) || idx >= maxruns || now_ms() >= deadline) _exit(10);
        *next += (uint64_t)jobs;
        me->idx = idx;
        int r = one_run(mix64(base, idx + 1), 0, 0);
        account(r);
        if (r != 2 && (idx % 97) == 0 && !harness.fork_each) {   /* same choices twice: same hash? */
            uint64_t h = me->hash; uint32_t n = me->nch;
            memcpy(copy, me->ch, n * sizeof *copy);
            one_run(me->seed, copy, n);
            atomic_fetch_add(&S->rechecked, 1);
            if (me->hash != h) atomic_fetch_add(&S->nondet, 1);
        }
    }
    _exit(0);
}

/* ---- child execution of a fixed choice list (shrink/replay) ---- */
typedef struct { int failed; uint64_t hash; uint32_t nch; char cls[128]; char msg[1024]; } res_t;

static uint32_t *g_outch;   /* choices actually consumed by last exec_choices */
static void exec_choices(const uint32_t *in, uint32_t n, res_t *r, int verbose, int use_seed, uint64_t seed)
{
    slot_t *sl = &S->slot[MAXW];
    memset(r, 0, sizeof *r);
    atomic_store(&sl->failed, 0); atomic_store(&sl->running, 0);
    sl->nch = 0; sl->cls[0] = 0; sl->msg[0] = 0; sl->tlen = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) die_("fork");
    if (!p) {
        me = sl; dst_verbose = verbose;
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (!getenv("DST_DEBUG")) quiet_stderr();
        arm_signals();
        if (harness.setup) harness.setup();
        static const uint32_t none[1];
        one_run(seed, use_seed ? 0 : n ? in : none, n);
        _exit(0);
    }
    int st; 
    uint64_t t0 = now_ms(); int hung = 0;
    for (;;) {
        pid_t q = waitpid(p, &st, WNOHANG);
        if (q == p) break;
        if (now_ms() - t0 > 60000) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = 1; break; }
        struct timespec ts = {0, 100000}; nanosleep(&ts, 0);
    }
    if (atomic_load(&sl->failed)) {
        r->failed = 1; r->hash = sl->hash;
        memcpy(r->cls, sl->cls, sizeof r->cls); memcpy(r->msg, sl->msg, sizeof r->msg);
    } else if (hung) {
        r->failed = 1; strcpy(r->cls, "hang-wall"); strcpy(r->msg, "no progress in 60 s");
    } else if (WIFSIGNALED(st)) {
        r->failed = 1; snprintf(r->cls, sizeof r->cls, "crash:signal%d", WTERMSIG(st));
        strcpy(r->msg, "process killed");
    } else if (WEXITSTATUS(st) != 0) {
        if (WEXITSTATUS(st) == 4) { fprintf(stderr, "harness error in replay: %s\n", sl->msg); }
        r->failed = 1; snprintf(r->cls, sizeof r->cls, "exit:%d", WEXITSTATUS(st));
        strcpy(r->msg, "the process exited inside a run");
    } else r->hash = sl->hash;
    r->nch = sl->nch;
    if (!g_outch) g_outch = malloc(sizeof(uint32_t) * MAXCH);
    memcpy(g_outch, sl->ch, sl->nch * sizeof(uint32_t));
}

static uint32_t trimz(const uint32_t *a, uint32_t n) { while (n && !a[n-1]) n--; return n; }

static uint32_t shrink(uint32_t *c, uint32_t n, const char *cls, int secs, unsigned *tries)
{
    uint64_t end = now_ms() + (uint64_t)secs*1000;
    uint32_t *t = malloc(sizeof(uint32_t) * (MAXCH + 1));
    res_t r;
    int progress = 1;
    n = trimz(c, n);
    while (progress && now_ms() < end) {
        progress = 0;
        /* delete chunks */
        for (uint32_t sz = n/2 ? n/2 : 1; sz >= 1 && now_ms() < end; sz /= 2) {
            for (uint32_t i = 0; i + sz <= n && now_ms() < end; ) {
                memcpy(t, c, i*4); memcpy(t+i, c+i+sz, (n-i-sz)*4);
                exec_choices(t, n-sz, &r, 0, 0, 0); ++*tries;
                if (r.failed && !strcmp(r.cls, cls)) {
                    /* keep only what was consumed */
                    uint32_t m = n - sz;
                    if (r.nch < m) m = r.nch;
                    memcpy(c, t, m*4); n = trimz(c, m); progress = 1;
                } else i += sz;
            }
        }
        /* zero chunks */
        for (uint32_t sz = n/2 ? n/2 : 1; sz >= 1 && now_ms() < end; sz /= 2) {
            for (uint32_t i = 0; i + sz <= n && now_ms() < end; i += sz) {
                int any = 0;
                for (uint32_t k = i; k < i+sz; k++) any |= c[k] != 0;
                if (!any) continue;
                memcpy(t, c, n*4); memset(t+i, 0, sz*4);
                exec_choices(t, n, &r, 0, 0, 0); ++*tries;
                if (r.failed && !strcmp(r.cls, cls)) { memcpy(c, t, n*4); n = trimz(c, n); progress = 1; }
            }
        }
        /* lower single values */
        for (uint32_t i = 0; i < n && now_ms() < end; i++) {
            if (!c[i]) continue;
            uint32_t lo = 0, hi = c[i];
            while (lo < hi && now_ms() < end) {
                uint32_t mid = lo + (hi-lo)/2;
                memcpy(t, c, n*4); t[i] = mid;
                exec_choices(t, n, &r, 0, 0, 0); ++*tries;
                if (r.failed && !strcmp(r.cls, cls)) { c[i] = mid; hi = mid; progress = 1; }
                else lo = mid + 1;
            }
        }
        n = trimz(c, n);
    }
    free(t);
    return n;
}

static int known(const char *file, const char *cls)
{
    if (!file) return 0;
    FILE *f = fopen(file, "r");
    if (!f) return 0;
    char line[2048], want[256]; int hit = 0;
    snprintf(want, sizeof want, "known: property=%s sig=%s ", harness.property, cls);
    while (fgets(line, sizeof line, f)) if (!strncmp(line, want, strlen(want))) { hit = 1; break; }
    fclose(f);
    return hit;
}

static void jstr(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static void write_stats(const char *out, double wall, int nviol, uint64_t base)
{
    FILE *f = fopen(out, "w");
    if (!f) die_(out);
    uint64_t runs = S->runs;
    fprintf(f, "{\n \"property\": "); jstr(f, harness.property);
    fprintf(f, ",\n \"harness\": "); jstr(f, harness.name);
    fprintf(f, ",\n \"rule\": "); jstr(f, harness.rule);
    fprintf(f, ",\n \"seed\": %llu,\n \"runs\": %llu,\n \"discarded\": %llu,\n \"distinct_nontrivial\": %llu,\n \"states\": %llu,\n"
        " \"fault_free_runs\": %llu,\n \"faults\": %llu,\n \"rechecked\": %llu,\n \"nondeterministic\": %llu,\n \"known_hits\": %llu,\n"
        " \"sim_seconds\": %.6f,\n \"wall_s\": %.3f,\n \"violations\": %d,\n \"set_overflow\": %llu,\n",
        (unsigned long long)base, (unsigned long long)runs, (unsigned long long)S->discarded, (unsigned long long)S->nontrivial,
        (unsigned long long)S->covn, (unsigned long long)S->clean_runs, (unsigned long long)S->faults, (unsigned long long)S->rechecked,
        (unsigned long long)S->nondet, (unsigned long long)S->known_hits, (double)S->simns/1e9, wall, nviol, (unsigned long long)S->dropped);
    fprintf(f, " \"counters\": {");
    for (uint32_t i = 0; i < S->ncnt; i++) {
        if (i) fputc(',', f);
        fprintf(f, "\n  "); jstr(f, S->cnt[i].name); fprintf(f, ": %llu", (unsigned long long)S->cnt[i].v);
    }
    fprintf(f, "\n },\n \"samples\": [");
    for (uint32_t i = 0; i < S->nsamples && i < 6; i++) { if (i) fputc(',', f); fprintf(f, "\n  "); jstr(f, S->samples[i]); }
    fprintf(f, "\n ]\n}\n");
    fclose(f);
}

static void write_replay(const char *path, uint64_t seed, const char *cls, const char *msg, uint64_t hash,
                         const uint32_t *c, uint32_t n, uint32_t orig, unsigned tries, const char *trace)
{
    FILE *f = fopen(path, "w");
    if (!f) die_(path);
    fprintf(f, "DST-REPLAY 1\nproperty: %s\nharness: %s\nseed: %llu\nclass: %s\nmessage: ", harness.property, harness.name,
            (unsigned long long)seed, cls);
    for (const char *s = msg; *s; s++) fputc(*s == '\n' ? ' ' : *s, f);
    fprintf(f, "\nhash: %016llx\noriginal-choices: %u\nshrink-attempts: %u\nchoices: %u", (unsigned long long)hash, orig, tries, n);
    for (uint32_t i = 0; i < n; i++) fprintf(f, "%s%u", i % 24 ? " " : "\n  ", c[i]);
    fprintf(f, "\nend\ntrace:\n%s", trace ? trace : "");
    fclose(f);
}

static int read_replay(const char *path, uint32_t **pc, uint32_t *pn, char *cls, uint64_t *hash)
{
    FILE *f = fopen(path, "r");
    if (!f) die_(path);
    char line[4096]; uint32_t n = 0, i = 0; uint32_t *c = 0;
    cls[0] = 0; *hash = 0;
    while (fgets(line, sizeof line, f)) {
        if (!strncmp(line, "class: ", 7)) { sscanf(line + 7, "%127s", cls); }
        else if (!strncmp(line, "hash: ", 6)) { unsigned long long h; sscanf(line+6, "%llx", &h); *hash = h; }
        else if (!strncmp(line, "choices: ", 9)) {
            n = (uint32_t)strtoul(line + 9, 0, 10); c = calloc(n + 1, 4);
            while (i < n && fscanf(f, "%u", &c[i]) == 1) i++;
            break;
        }
    }
    fclose(f);
    if (!c) { fprintf(stderr, "bad replay file\n"); exit(2); }
    *pc = c; *pn = i;
    return 0;
}

static int do_replay(const char *path)
{
    uint32_t *c, n; char cls[128]; uint64_t h; res_t r;
    read_replay(path, &c, &n, cls, &h);
    exec_choices(c, n, &r, 1, 0, 0);
    printf("%s", S->slot[MAXW].trace);
    printf("REPLAY property=%s class=%s hash=%016llx want_class=%s want_hash=%016llx\n", harness.property,
           r.failed ? r.cls : "-", (unsigned long long)(h ? r.hash : 0), cls, (unsigned long long)h);
    if (r.failed) { printf("VIOLATION-REPRODUCED %s\n", r.msg); return !strcmp(r.cls, cls) ? 1 : 5; }
    return 0;
}

int main(int argc, char **argv)
{
    /* ASLR off if we may: addresses then repeat, too */
    if (!getenv("DST_NOPERS")) {
        int cur = personality(0xffffffff);
        if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && personality(cur | ADDR_NO_RANDOMIZE) != -1) {
            setenv("DST_NOPERS", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    uint64_t seed = 1, maxruns = ~0ull; int secs = 10, jobs = 8, shr = 40, batch = 0;
    const char *out = 0, *rep = 0, *kf = 0, *rpath = 0; 
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--secs")) secs = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--runs")) maxruns = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--stats")) out = argv[++i];
        else if (!strcmp(argv[i], "--shrink")) shr = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--batch")) batch = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--replay-out")) rpath = argv[++i];
        else if (!strcmp(argv[i], "--known")) kf = argv[++i];
        else if (!strcmp(argv[i], "replay")) rep = argv[++i];
        else { fprintf(stderr, "bad arg %s\n", argv[i]); return 2; }
    }
    if (jobs > MAXW) jobs = MAXW;
    dst_property = harness.property;
    S = mmap(0, sizeof *S, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) die_("mmap");
    me = &S->slot[MAXW];
    if (rep) return do_replay(rep);

    uint64_t t0 = now_ms(), deadline = t0 + (uint64_t)secs * 1000;
    uint64_t *next = mmap(0, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    pid_t pid[MAXW]; uint64_t lastidx[MAXW], lastt[MAXW];
    int alive = 0;
    if (!batch) batch = harness.fork_each ? 1 : 400;
    for (int w = 0; w < jobs; w++) { next[w] = w; pid[w] = 0; lastidx[w] = ~0ull; }
    int done = 0; int viol = 0, knownc = 0, unrep = 0;
    slot_t *bad = 0; uint32_t *bc = malloc(4*(MAXCH+1)); uint32_t bn = 0; uint64_t bseed = 0; res_t br;
    memset(&br, 0, sizeof br);
    char ignored[32][128]; int nign = 0;
    while (!done) {
        for (int w = 0; w < jobs; w++) if (!pid[w]) {
            atomic_store(&S->slot[w].running, 0); atomic_store(&S->slot[w].failed, 0);
            fflush(stdout); fflush(stderr);
            pid_t p = fork();
            if (p < 0) die_("fork");
            if (!p) worker(w, jobs, seed, &next[w], maxruns, deadline, batch);
            pid[w] = p; alive++; lastt[w] = now_ms();
        }
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p == 0) {
            struct timespec ts = {0, harness.fork_each ? 50000 : 2000000}; nanosleep(&ts, 0);
            uint64_t t = now_ms();
            for (int w = 0; w < jobs; w++) {
                if (S->slot[w].idx != lastidx[w]) { lastidx[w] = S->slot[w].idx; lastt[w] = t; }
                else if (pid[w] && t - lastt[w] > 60000 && atomic_load(&S->slot[w].running)) {
                    /* blocked without using cpu (e.g. a real blocking call) */
                    snprintf(S->slot[w].cls, 128, "hang-wall");
                    snprintf(S->slot[w].msg, 1024, "no progress in 60 s");
                    atomic_store(&S->slot[w].failed, 1);
                    kill(pid[w], SIGKILL);
                }
            }
            continue;
        }
        if (p < 0) { if (errno == EINTR) continue; break; }
        int w; for (w = 0; w < jobs; w++) if (pid[w] == p) break;
        if (w == jobs) continue;
        pid[w] = 0; alive--;
        slot_t *sl = &S->slot[w];
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { done = 1; break; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 4) { fprintf(stderr, "dst: harness error seed %llu: %s\n", (unsigned long long)sl->seed, sl->msg); 
            atomic_store(&S->stop, 1); for (int k = 0; k < jobs; k++) if (pid[k]) { kill(pid[k], SIGKILL); waitpid(pid[k], 0, 0); } return 4; }
        if (!atomic_load(&sl->failed)) {
            if (WIFSIGNALED(st)) { snprintf(sl->cls, 128, "crash:signal%d", WTERMSIG(st)); snprintf(sl->msg, 1024, "process killed"); }
            else { snprintf(sl->cls, 128, "exit:%d", WEXITSTATUS(st)); snprintf(sl->msg, 1024, "the process exited inside a run"); }
        }
        atomic_fetch_add(&S->runs, 1);
        if (known(kf, sl->cls)) { atomic_fetch_add(&S->known_hits, 1); knownc++; continue; }
        int ig = 0; for (int k = 0; k < nign; k++) ig |= !strcmp(ignored[k], sl->cls);
        if (ig) continue;
        /* gate 1: same choices in a fresh process give the same violation, twice */
        memcpy(bc, sl->ch, sl->nch*4); bn = sl->nch; bseed = sl->seed;
        res_t r1, r2;
        exec_choices(bc, bn, &r1, 0, 0, bseed);
        exec_choices(bc, bn, &r2, 0, 0, bseed);
        if (!strncmp(sl->cls, "hang", 4) && ((!r1.failed && !strncmp(r2.cls, "hang", r2.failed ? 4 : 0)) || (!r2.failed && !strncmp(r1.cls, "hang", r1.failed ? 4 : 0)))) {
            /* only slow: it ended when it was given the time (a simulated run that hangs does so every time) */
            fprintf(stderr, "dst: seed %llu takes about as long as it may\n", (unsigned long long)bseed); tally("slow_runs", 1); continue;
        }
        if (!(r1.failed && r2.failed && !strcmp(r1.cls, r2.cls))) {
            fprintf(stderr, "dst: seed %llu class %s (%.200s) did not repeat (%s/%s %016llx/%016llx)\n", (unsigned long long)bseed, sl->cls, sl->msg,
                r1.cls, r2.cls, (unsigned long long)r1.hash, (unsigned long long)r2.hash);
            if (++unrep >= 50 && nign < 32) { snprintf(ignored[nign++], 128, "%s", sl->cls); unrep = 0; }
            tally("unrepeatable_failures", 1);
            continue;
        }
        if (known(kf, r1.cls)) { atomic_fetch_add(&S->known_hits, 1); continue; }
        br = r1; bad = sl; viol = 1; done = 1;
    }
    atomic_store(&S->stop, 1);
    for (int w = 0; w < jobs; w++) if (pid[w]) {
        if (viol) kill(pid[w], SIGKILL);
        int st; 
        uint64_t e = now_ms() + 20000;
        while (waitpid(pid[w], &st, WNOHANG) == 0) {
            if (now_ms() > e) kill(pid[w], SIGKILL);
            struct timespec ts = {0, 1000000}; nanosleep(&ts, 0);
        }
        /* a failure found while we were stopping counts too */
        slot_t *sl = &S->slot[w];
        if (!viol && WIFEXITED(st) && WEXITSTATUS(st) == 1 && atomic_load(&sl->failed) && !known(kf, sl->cls)) {
            memcpy(bc, sl->ch, sl->nch*4); bn = sl->nch; bseed = sl->seed;
            res_t r1, r2;
            exec_choices(bc, bn, &r1, 0, 0, bseed);
            exec_choices(bc, bn, &r2, 0, 0, bseed);
            if (r1.failed && r2.failed && !strcmp(r1.cls, r2.cls) && !known(kf, r1.cls)) { br = r1; bad = sl; viol = 1; }
        }
    }
    (void)bad;
    double wall = (double)(now_ms() - t0)/1000.0;
    if (out) write_stats(out, wall, viol, seed);
    double rate = wall > 0 ? (double)S->runs / wall : 0;
    printf("dst: %s/%s runs=%llu (%.0f/s) distinct_nontrivial=%llu states=%llu faults=%llu rechecked=%llu nondet=%llu known=%llu wall=%.1fs\n",
        harness.property, harness.name, (unsigned long long)S->runs, rate, (unsigned long long)S->nontrivial, (unsigned long long)S->covn,
        (unsigned long long)S->faults, (unsigned long long)S->rechecked, (unsigned long long)S->nondet, (unsigned long long)S->known_hits, wall);
    if (!viol) return 0;
    uint32_t orig = bn; unsigned tries = 0;
    printf("dst: violation class=%s seed=%llu choices=%u: %s\n", br.cls, (unsigned long long)bseed, bn, br.msg);
    fflush(stdout);
    uint32_t *oc = malloc(4 * (orig + 1)); memcpy(oc, bc, 4 * orig);
    bn = shrink(bc, bn, br.cls, shr, &tries);
    res_t fin, chk; exec_choices(bc, bn, &fin, 1, 0, bseed);
    if (!fin.failed || strcmp(fin.cls, br.cls)) { memcpy(bc, oc, 4 * orig); bn = orig; exec_choices(bc, bn, &fin, 1, 0, bseed); }
    exec_choices(bc, bn, &chk, 1, 0, bseed);
    if (fin.failed && chk.failed && !strcmp(fin.cls, chk.cls) && fin.hash != chk.hash) {
        /* the fault makes the code under test read what no run decides (memory it has not written, addresses) */
        printf("dst: the violation repeats, the event log around it does not\n"); fin.hash = 0;
    }
    if (!fin.failed || strcmp(fin.cls, br.cls)) { fprintf(stderr, "dst: shrunk case lost the violation\n"); return 5; }
    /* hash is of the verbose run; replay is verbose as well */
    const char *path = rpath ? rpath : "replay.txt";
    write_replay(path, bseed, fin.cls, fin.msg, fin.hash, bc, bn, orig, tries, S->slot[MAXW].trace);
    printf("dst: minimised %u -> %u choices in %u attempts: %s\n", orig, bn, tries, fin.msg);
    return 1;
}
