/* C06: work distributor with one queue per worker */
#include "thr.h"
#include "posix/work.h"
extern void work_manager_cleanup(work_manager*) __attribute__((weak));
extern int work_manager_destroy(work_manager*) __attribute__((weak));
#define MAXJ (WORK_MAX + 1200)
typedef struct { uint32_t id, chk; int yields, result; } jobt;
static jobt *J[MAXJ]; static uint8_t ran[MAXJ], active[CS_MAXT]; static int pin[MAXJ], by[MAXJ], on[MAXJ], got[MAXJ], seqs[MAXJ];
static unsigned nj, nthr, wait_returned; static unsigned big, handed, gate; static int fails, nsub, seqno;
static work_manager *wm; static char ctxobj; static int last[4][8];

static int func(void *ctx, void *job, int w)
{
    jobt *j = job;
    CHECK(ctx == &ctxobj, "context", "work got a context that is not the one given at creation");
    CHECK(w >= 0 && w < (int)nthr, "worker-number", "work ran on worker %d of %u", w, nthr);
    CHECK(!active[w], "worker-shared", "two items run on worker %d at once", w);
    CHECK(!wait_returned, "late-job", "work ran after waiting returned");
    active[w] = 1;
    CHECK(j->chk == (j->id ^ 0xabcdef), "corrupt-job", "the item's data is not what its submitter wrote");
    uint32_t id = j->id;
    CHECK(!ran[id], "ran-twice", "item %u ran twice", id);
    ran[id] = 1; on[id] = w;
    if (pin[id] >= 0) {
        CHECK(pin[id] == w, "pinning", "item %u pinned to worker %d ran on worker %d", id, pin[id], w);
        CHECK((int)id > last[by[id]][w], "order", "items %d and %u pinned to worker %d by one submitter ran out of order", last[by[id]][w], id, w);
        last[by[id]][w] = (int)id;
    }
    while (id == 0 && handed < gate) cs_yield();       /* the first item takes until the queue is nearly full */
    for (int i = 0; i < j->yields; i++) cs_yield();
    ev("item %u on %d", id, w);
    active[w] = 0;
    return j->result;
}
static void *submitter(void *a)
{
    int k = (int)(intptr_t)a;
    for (unsigned i = 0; i < nj; i++) if (by[i] == k) {
        jobt *j = J[i]; j->id = i; j->chk = i ^ 0xabcdef;
        got[i] = work_manager_submit_work(wm, pin[i], j);
        handed++; CHECK(pin[i] < 0 ? got[i] >= 0 && got[i] < (int)nthr : got[i] == pin[i], "return-code", "submitting for worker %d returned %d", pin[i], got[i]);
    }
    return 0;
}
static void body(void)
{
    int ask = (int)ch_range(0, 4);
    nthr = ask ? (unsigned)ask : 3;
    wm = cs_malloc(sizeof *wm);
    nj = big ? WORK_MAX - 20 + ch(1200) : ch(3) == 0 ? ch(120) : ch(12);
    nsub = (int)ch_range(1, 3); gate = big && nsub == 1 ? WORK_MAX - 30 : 0;
    unsigned maxy = ch(6), failrate = ch(4), pinrate = ch(5); fails = 0;
    jobt *all = cs_calloc(sizeof(jobt) * (nj ? nj : 1)); prng g = { big ? ch_seed() : 0 }; unsigned target = big ? ch(nthr) : 0;
    for (unsigned i = 0; i < nj; i++) {
        J[i] = all + i; on[i] = got[i] = -1;
        if (big) {      /* nearly all of it for one worker */
            unsigned x = (unsigned)(prng_next(&g) >> 20); J[i]->yields = i < 200 ? (int)(x % 4) : 0; J[i]->result = x % 64 == 5 ? -1 : 0; fails += J[i]->result < 0;
            pin[i] = i && (x >> 8) % 50 == 1 ? (int)((x >> 16) % nthr) : (int)target; by[i] = (int)((x >> 24) % (unsigned)nsub); if (!i) by[i] = 0; continue;
        }
        J[i]->yields = (int)ch(maxy + 1);
        unsigned r = ch(4);
        J[i]->result = r < failrate ? -(int)(1 + ch(3)) : (int)ch(2); fails += J[i]->result < 0;
        pin[i] = ch(4) < pinrate ? (int)ch(nthr) : -1 - (int)ch(2);
        by[i] = (int)ch((uint32_t)nsub);
    }
    memset(last, 0xff, sizeof last);
    size_t heap0 = cs_heap_live();
    unsigned cfg = ch(6);
    cs_create_faults = cfg == 1; cs_init_faults = cfg == 2; cs_set_alloc_faults(cfg == 3);
    int r = work_manager_init(wm, ask, func, &ctxobj);
    cs_create_faults = cs_init_faults = 0; cs_set_alloc_faults(0);
    if (r < 0 || (r == 0 && cfg)) {
        CHECK(r < 0, "return-code", "creation failed with return value %d", r);
        CHECK(cfg >= 1 && cfg <= 3 && faults_fired(), "spurious-failure", "creation failed with %d without cause", r);
        cs_settle();
        CHECK(cs_live_threads() == 0, "worker-left", "creation failed but %u workers are left", cs_live_threads());
        CHECK(cs_live_objects() == 0 && cs_heap_live() == heap0, "leak", "creation failed but %u synchronisation objects and %zu heap blocks are left", cs_live_objects(), cs_heap_live() - heap0);
        tally("create_failed", 1); run_nontrivial();
        return;
    }
    CHECK(r == (int)nthr, "return-code", "creation returned %d for %u workers", r, nthr);
    CHECK(cs_live_threads() == nthr, "worker-count", "%u workers running, %u were asked for", cs_live_threads(), nthr);
    pthread_t t[3];
    if (ch(4) == 0) cs_settle();
    for (int k = 1; k < nsub; k++) pthread_create(&t[k], 0, submitter, (void*)(intptr_t)k);
    submitter(0);
    for (int k = 1; k < nsub; k++) pthread_join(t[k], 0);
    r = work_manager_wait(wm);
    wait_returned = 1;
    for (unsigned i = 0; i < nj; i++) CHECK(ran[i], "lost-job", "waiting returned but item %u of %u has not run", i, nj);
    for (unsigned i = 0; i < nj; i++) CHECK(on[i] == got[i], "pinning", "item %u was said to go to worker %d but ran on %d", i, got[i], on[i]);
    for (unsigned i = 0; i < nthr; i++) CHECK(!active[i], "early-return", "waiting returned while work runs on worker %u", i);
    CHECK(cs_live_threads() == 0, "worker-left", "waiting returned with %u workers running", cs_live_threads());
    CHECK(r == fails, "failure-count", "waiting returned %d, %d items reported failure", r, fails);
    /* unpinned items go round the workers */
    unsigned cnt[8] = {0}, un = 0; int prev = -1;
    for (unsigned i = 0; i < nj; i++) if (pin[i] < 0) {
        cnt[on[i]]++; un++;
        if (nsub == 1) { CHECK(prev < 0 || on[i] == (prev + 1) % (int)nthr, "round-robin", "unpinned items went to worker %d and then %d of %u", prev, on[i], nthr); prev = on[i]; }
    }
    for (unsigned i = 0; i < nthr; i++) CHECK(cnt[i] == un / nthr || cnt[i] == un / nthr + 1 , "round-robin", "worker %u got %u of %u unpinned items (%u workers)", i, cnt[i], un, nthr);
    if (work_manager_cleanup) work_manager_cleanup(wm); else if (work_manager_destroy) work_manager_destroy(wm);
    CHECK(cs_live_objects() == 0, "leak", "%u synchronisation objects left after cleanup", cs_live_objects());
    CHECK(cs_heap_live() == heap0, "leak", "%zu heap blocks left after cleanup", cs_heap_live() - heap0);
    tally("items", nj); tally("full_queue", big); tally("unpinned", un);
    if (nj > nthr) run_nontrivial();
    sample("%u workers, %u items (%u unpinned) from %d submitters, %d failing, %u faults", nthr, nj, un, nsub, fails, faults_fired());
}
static void run(void)
{
    memset(ran, 0, sizeof ran); memset(active, 0, sizeof active); wait_returned = 0;
    handed = gate = 0; cs_defaults(); big = ch(15000) == 14999; if (big) cs_cfg.step_max = 20000000; cs_run(body);
}
const dst_harness harness = { .property = "C06", .name = "work", .run = run,
  .rule = "one run = a distributor of 1..4 workers (or the processor count) with 0..120 pinned and unpinned items (now and then more than a queue holds) from 1-3 submitter threads under a seeded schedule, with thread, semaphore, mutex and memory creation failures and interrupted waits; non-trivial: more items than workers, or a failed creation; distinct by the hash of the whole event and schedule log" };
