/* I03: the per-thread random generator, under every interleaving of threads, forks and failing seeds */
#include "thr.h"
#include "proc.h"
#include "utils/arc4random.h"

/* every 8-byte window of everything anybody ever got in this run */
#define WB 19
typedef struct { uint64_t w; uint32_t gen; uint16_t who; } win_t;
static win_t wt[1u << WB]; static uint32_t wgen; static unsigned nwin;
static void win_reset(void) { wgen++; nwin = 0; }
static int win_add(uint64_t w, unsigned who)
{
    if (nwin > (1u << WB) * 3 / 4) return -1;
    for (uint32_t i = (uint32_t)(mix64(w, 7) >> (64 - WB)); ; i = (i + 1) & ((1u << WB) - 1)) {
        if (wt[i].gen != wgen) { wt[i] = (win_t){ w, wgen, (uint16_t)who }; nwin++; return -1; }
        if (wt[i].w == w) return wt[i].who;
    }
}
/* one logical thread of one process */
typedef struct { uint64_t roll; unsigned nroll; int last; uint64_t since; int seeded, used; uint8_t born; } str_t;
static str_t T_[PR_MAX][PR_LT];
static int dead[PR_MAX], np, proc_seeded[PR_MAX];
static unsigned npair, nsame;      /* requests that begin with the byte the previous one ended with */
static unsigned nreq, nmatch_last, nmatch_first, nmatch_n;
static uint64_t entseq, entseed; static int flipcall, flipbit, failing, failed_now;
static uint32_t ones[32]; static unsigned nwords;
#define BUDGET (1600000ull)

static int entropy(void *b, size_t n)
{
    if (failing && fault("getentropy")) { failed_now = 1; errno = ENOSYS; ev("the system has no seed material"); return -1; }
    prng p = { mix64(entseed, ++entseq) };
    for (size_t i = 0; i < n; i++) ((uint8_t*)b)[i] = (uint8_t)(prng_next(&p) >> 24);
    if (flipcall && (uint64_t)flipcall == entseq && (size_t)flipbit / 8 < n) ((uint8_t*)b)[flipbit / 8] ^= (uint8_t)(1u << (flipbit & 7));
    str_t *t = &T_[pr_cur()][pr_lt()];
    t->since = 0; t->seeded = 1; proc_seeded[pr_cur()] = 1;
    evq(0xe7, (uint64_t)pr_cur(), (uint64_t)pr_lt());
    return 0;
}
static void brk_(str_t *t) { t->nroll = 0; }
#define NOSW __attribute__((no_sanitize("thread"), noinline))     /* no thread switches inside */
NOSW static void got(str_t *t, const uint8_t *b, size_t n, int all)
{
    unsigned who = (unsigned)(pr_cur() * PR_LT + pr_lt());
    if (n && t->nroll && npair < 200) { npair++; nsame += b[0] == t->last; }
    if (n) t->last = b[n - 1];
    for (size_t i = 0; i < n; i++) {
        t->roll = t->roll << 8 | b[i];
        if (++t->nroll < 8) continue;
        if (!all && i > 600 && i + 600 < n && (i & 63) != 7) continue;
        int o = win_add(t->roll, who);
        if (o >= 0) violation("stream-repeated", "process %d thread %d received 8 bytes that process %d thread %d had received before", pr_cur(), pr_lt(), o / PR_LT, o % PR_LT);
    }
}
NOSW static void bits(const uint8_t *b, size_t n)
{
    for (size_t i = 0; i + 4 <= n && nwords < 60000; i += 4) {
        uint32_t v = b[i] | (uint32_t)b[i+1] << 8 | (uint32_t)b[i+2] << 16 | (uint32_t)b[i+3] << 24;
        nwords++; for (int k = 0; k < 32; k++) ones[k] += v >> k & 1;
    }
}
static void before(size_t n) { (void)n; nreq++; failed_now = 0; failing = 0; }
static void rule(str_t *t, uint64_t was, size_t n)
{
    /* `was` bytes had been produced since the last seeding when this request began */
    CHECK(proc_seeded[pr_cur()], "unseeded", "process %d produced random bytes without ever obtaining seed material", pr_cur());
    if (was >= BUDGET) CHECK(t->since < was, "reseed-overdue", "%llu bytes were produced since seed material was last obtained, and the next request did not obtain any", (unsigned long long)was);
    t->since += n; t->used = 1;
}
static void do_buf(size_t n, int may_fail, int all)
{
    str_t *t = &T_[pr_cur()][pr_lt()];
    uint8_t *b = cs_calloc(n + 32); uint8_t pat = (uint8_t)mix64(nreq, n);
    memset(b, pat, n + 32);
    uint64_t was = t->since;
    before(n); failing = may_fail;
    arc4random_buf(b, n);
    failing = 0;
    rule(t, was, n);
    for (size_t i = n; i < n + 32; i++) CHECK(b[i] == pat, "overrun", "a request for %zu bytes changed byte %zu", n, i);
    if (n) { nmatch_n++; nmatch_last += b[n - 1] == pat; nmatch_first += b[0] == pat; }
    got(t, b, n, all);
    bits(b, n);
    cs_free(b);
}
static void do_32(int may_fail)
{
    str_t *t = &T_[pr_cur()][pr_lt()]; uint64_t was = t->since;
    before(4); failing = may_fail;
    uint32_t v = arc4random();
    failing = 0;
    rule(t, was, 4);
    bits((uint8_t*)&v, 4);
    got(t, (uint8_t*)&v, 4, 1);
}
static uint32_t a_bound(void)
{
    switch (ch(9)) {
        case 0: return 2 + ch(30); case 1: return 3u << 30; case 2: return 5u << 29; case 3: return 0xffffffffu - ch(3);
        case 4: return (1u << 31) + ch(3) - 1; case 5: return 1u << ch_range(1, 31); case 6: return ch(2); case 7: return 0x80000000u + (uint32_t)(mix64(ch_seed(), 1) >> 33);
        default: return (uint32_t)mix64(ch_seed(), 2) | 2;
    }
}
static uint32_t do_uniform(uint32_t bound, int may_fail)
{
    str_t *t = &T_[pr_cur()][pr_lt()]; uint64_t was = t->since;
    before(4); failing = may_fail;
    uint32_t v = arc4random_uniform(bound);
    failing = 0;
    if (bound < 2) { CHECK(v == 0, "not-below-bound", "bounded draw below %u gave %u", bound, v); return v; }
    rule(t, was, 4);
    brk_(t);
    CHECK(v < bound, "not-below-bound", "bounded draw below %u gave %u", bound, v);
    return v;
}

static int quota[PR_LT], single, forks_ok; static pid_t nextpid;
static void fork_here(void)
{
    if (np >= PR_MAX) return;
    int raw = ch_p(1, 4);
    pid_t pid = nextpid;
    if (!raw && ch_p(1, 2)) {
        /* the system may hand out the number of a process that is gone */
        for (int i = 0; i < np; i++) if (dead[i]) {
            int inuse = 0; for (int j = 0; j < np; j++) inuse |= !dead[j] && pr_pid(j) == pr_pid(i);
            if (!inuse) { pid = pr_pid(i); break; }
        }
    }
    if (pid == nextpid) nextpid++; else { fault_note("pid-reused"); }
    int lt = pr_lt(), me = pr_cur();
    int c = pr_fork(lt, raw, pid);
    if (c < 0) return;
    np = c + 1; fault_note(raw ? "fork-without-handlers" : "fork");
    ev("process %d thread %d forks process %d (pid %d%s)", me, lt, c, pid, raw ? ", raw" : "");
    memset(T_[c], 0, sizeof T_[c]); T_[c][0].since = ~0ull >> 1; proc_seeded[c] = 0; dead[c] = 0;
    T_[c][0].used = T_[me][lt].used;
}
static void died(const char *how)
{
    if (!failed_now) return;        /* no reason to */
    ev("process %d gives up: %s", pr_cur(), how);
    dead[pr_cur()] = 1; failing = 0; failed_now = 0; tally("process_gave_up", 1);
    extern void pthread_exit(void *) __attribute__((noreturn));
    pthread_exit(0);
}
static void *worker(void *a)
{
    int lt = (int)(intptr_t)a & 0xff;
    pr_thread(lt, (int)(intptr_t)a >> 8);
    str_t *t = &T_[pr_cur()][lt];
    if ((intptr_t)a >> 8) memset(t, 0, sizeof *t);
    int n = quota[lt];
    while (n-- > 0) {
        switch (ch(8)) {
            case 0: case 1: case 2: do_32(single); break;
            case 3: do_buf(ch(40), single, 1); break;
            case 4: do_buf(ch_range(8, 200), single, 1); break;
            case 5: { static const uint16_t z[] = { 984, 985, 1024, 1008, 500, 2047, 2048, 3000 }; do_buf(z[ch(8)], single, 1); break; }
            case 6: do_uniform(a_bound(), single); break;
            case 7: if (forks_ok) fork_here(); break;
        }
        if (failed_now) violation("failure-ignored", "a request returned although the system had no seed material for it");
    }
    return 0;
}
static void history(void)
{
    unsigned phases = ch_range(1, 8);
    nextpid = 1001; np = 1; T_[0][0].since = ~0ull >> 1;
    int born[PR_MAX] = { 1 };
    for (unsigned k = 0; k < phases; k++) {
        int cand[PR_MAX], n = 0;
        for (int i = 0; i < np; i++) if (!dead[i]) cand[n++] = i;
        if (!n) break;
        int p = cand[ch((uint32_t)n)];
        if (born[p] == 0) born[p] = 1;
        pr_switch(p);
        unsigned nt = ch_range(1, 4); single = nt == 1; forks_ok = 1;
        pthread_t h[4];
        ev("process %d runs %u threads", p, nt);
        int first = (int)ch(3);
        for (unsigned i = 0; i < nt; i++) {
            int lt = i == 0 ? 0 : (int)i + first; if (lt >= PR_LT) lt = PR_LT - 1;
            quota[lt] = (int)ch_range(1, 6);
            int fresh = i && ch_p(1, 4);
            pthread_create(&h[i], 0, worker, (void*)(intptr_t)(lt | fresh << 8));
        }
        for (unsigned i = 0; i < nt; i++) pthread_join(h[i], 0);
        if (!dead[p] && ch_p(1, 4)) { dead[p] = 1; ev("process %d ends", p); }
    }
    if (np > 1) run_nontrivial();
    tally("processes", (uint64_t)np);
}
static void bulk(void)
{
    static const uint32_t z[] = { 64, 1000, 4096, 1023, 65536, 100000, 1u << 20, 2000000, 7, 4 };
    uint64_t total = 0; unsigned nb = ch_range(2, 40);
    unsigned style = ch(3);
    np = 1; single = 0;
    for (unsigned i = 0; i < nb && total < 5000000; i++) {
        uint32_t n = style == 0 ? z[ch(10)] : style == 1 ? (i == 0 ? z[ch(10)] : 4096) : 65536;
        do_buf(n, 0, 0); total += n;
    }
    if (style == 1) for (unsigned i = 0; i < 430; i++) do_buf(4096, 0, 0);
    run_nontrivial(); tally("bulk_bytes", total);
}
static void many(void)
{
    unsigned lim = 1u << ch_range(1, 7);
    np = 1;
    for (unsigned i = 0; i < 200; i++) do_buf(1 + (size_t)(mix64(entseed, i) % lim), 0, 1);
    run_nontrivial();
}
static void uniform(void)
{
    uint32_t b = a_bound(); if (b < 2) b = 3u << 30;
    unsigned nb = b < 8 ? b : 8, cnt[8] = { 0 }, n = 1500; uint64_t sz[8];
    for (unsigned i = 0; i < nb; i++) sz[i] = ((uint64_t)b * (i + 1) + nb - 1) / nb - ((uint64_t)b * i + nb - 1) / nb;
    np = 1;
    for (unsigned i = 0; i < n; i++) cnt[(uint64_t)do_uniform(b, 0) * nb / b]++;
    for (unsigned i = 0; i < nb; i++) {
        double p = (double)sz[i] / b, e = n * p, v = n * p * (1 - p), d = cnt[i] - e;
        CHECK(d * d <= 64 * v + 1, "not-uniform", "of %u draws below %u, %u fell into part %u of %u (expected %.0f)", n, b, cnt[i], i, nb, e);
    }
    run_nontrivial();
}
static uint8_t outs[2][8192];
static unsigned seq_(unsigned shape, unsigned k, int which)
{
    uint8_t b[600]; unsigned at = 0;
    memset(outs[which], 0, sizeof outs[0]);
    for (unsigned i = 0; i < k; i++) {
        unsigned n = (unsigned)(mix64(shape, i) % (shape % 3 ? 500 : 16)) + 1;
        memset(b, which ? 0x3c : 0xc3, sizeof b);
        arc4random_buf(b, n);
        memcpy(outs[which] + at, b, n); at += n;
    }
    return at;
}
static void sensitive(void)
{
    /* the same requests again in an identical process, possibly with one bit of one piece of seed material changed */
    unsigned shape = ch(1000), k = ch_range(1, 12), same = 0;
    np = 1;
    int c = pr_fork(0, 1, pr_pid(0));        /* a copy in which nothing has been requested yet */
    entseq = 0; flipcall = 0;
    unsigned n = seq_(shape, k, 0); uint64_t calls = entseq;
    CHECK(calls > 0, "unseeded", "%u requests were served without obtaining seed material", k);
    pr_switch(c);
    flipcall = (int)ch((uint32_t)calls); flipbit = (int)ch(256); entseq = 0;
    seq_(shape, k, 1);
    for (unsigned i = 0; i < n; i++) same += outs[0][i] == outs[1][i];
    if (flipcall) CHECK(n < 8 || same < n, "seed-not-used", "the output does not depend on bit %d of seed material %d of %llu", flipbit, flipcall, (unsigned long long)calls);
    else if (same != n && same > n / 2) violation("not-filled", "%u of the %u bytes returned depend on what the buffers held before", n - same, n);
    run_nontrivial();
}
static void body(void)
{
    switch (ch(16)) {
        case 12: many(); break;
        case 13: bulk(); break;
        case 14: uniform(); break;
        case 15: sensitive(); break;
        default: history();
    }
    CHECK(nsame < 14, "byte-repeated", "%u of %u requests began with the byte the previous one had ended with", nsame, npair);
    CHECK(nmatch_n < 40 || (nmatch_last <= nmatch_n / 4 + 8 && nmatch_first <= nmatch_n / 4 + 8), "not-filled", "of %u buffers, %u came back with the first and %u with the last byte unchanged", nmatch_n, nmatch_first, nmatch_last);
    if (nwords >= 1000) for (int k = 0; k < 32; k++) { double d = 2.0 * ones[k] - nwords; CHECK(d * d <= 81.0 * nwords, "biased-bit", "bit %d is set in %u of %u random numbers", k, ones[k], nwords); }
}
static void run(void)
{
    win_reset(); memset(T_, 0, sizeof T_); memset(dead, 0, sizeof dead); memset(proc_seeded, 0, sizeof proc_seeded); memset(ones, 0, sizeof ones);
    nreq = nmatch_first = nmatch_last = nmatch_n = nwords = npair = nsame = 0; entseq = 0; flipcall = 0; failing = failed_now = 0; np = 1;
    cs_defaults(); cs_cfg.statics = 1; cs_cfg.weak = 0; cs_cfg.step_fair = 200000; cs_cfg.step_max = 4000000;
    cs_stall_faults = 0;
    pr_reset(); entseed = ch_seed(); if (!entseed) entseed = 1; pr_entropy = entropy; pr_die = died;
    cs_run(body);
    tally("requests", nreq);
    sample("%d process(es), %u requests, %llu seedings", np, nreq, (unsigned long long)entseq);
}
const dst_harness harness = { .property = "I03", .name = "arc4random", .run = run, .rule = "a run counts as non-trivial when a process forked, or a bulk, uniformity or seed-sensitivity history completed" };
