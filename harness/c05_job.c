/* C05: thread pool with one shared queue */
#include "thr.h"
#include "posix/job.h"
extern void job_manager_cleanup(job_manager*) __attribute__((weak));
extern void job_manager_destroy(job_manager*) __attribute__((weak));
#ifndef MAXJ
#define MAXJ (2 * JOB_MAX + 300)
#endif
typedef struct { uint32_t id, chk; int yields, result; } jobt;
static jobt *J[MAXJ]; static uint8_t ran[MAXJ], active[CS_MAXT]; static unsigned nj, nthr, wait_returned; static int fails, nsub;
static job_manager *jm; static char ctxobj; static int per[4];
static uint32_t order[MAXJ]; static unsigned norder, big, handed, gate;

static int func(void *ctx, void *job, int w)
{
    jobt *j = job;
    CHECK(ctx == &ctxobj, "context", "a job got a context that is not the one given at creation");
    CHECK(w >= 0 && w < (int)nthr, "worker-number", "a job ran on worker %d of %u", w, nthr);
    CHECK(!active[w], "worker-shared", "two jobs run on worker %d at once", w);
    CHECK(!wait_returned, "late-job", "a job ran after waiting returned");
    active[w] = 1;
    CHECK(j->chk == (j->id ^ 0xabcdef), "corrupt-job", "a job's data is not what its submitter wrote");
    uint32_t id = j->id;
    CHECK(!ran[id], "ran-twice", "job %u ran twice", id);
    ran[id] = 1;
    while (id == 0 && handed < gate) cs_yield();       /* the first job takes until the queue is nearly full */
    for (int i = 0; i < j->yields; i++) cs_yield();
    ev("job %u on %d", id, w);
    active[w] = 0;
    if (norder < MAXJ) order[norder++] = id;
    return j->result;
}
static void *submitter(void *a)
{
    int k = (int)(intptr_t)a;
    for (unsigned i = 0; i < nj; i++) if ((int)(i % (unsigned)nsub) == k) {
        jobt *j = J[i]; j->id = i; j->chk = i ^ 0xabcdef;
        job_manager_submit_job(jm, j); handed++;
    }
    return 0;
}
static void body(void)
{
    int ask = (int)ch_range(0, 4) ;
    nthr = ask ? (unsigned)ask : 3;
    jm = cs_malloc(sizeof *jm);
    nj = big ? JOB_MAX - 20 + ch(JOB_MAX + 300) : ch(3) == 0 ? ch(120) : ch(12); gate = big && ask == 1 ? JOB_MAX - 30 : 0;
    nsub = (int)ch_range(1, 3);
    unsigned maxy = ch(6), failrate = ch(4); fails = 0;
    jobt *all = cs_calloc(sizeof(jobt) * (nj ? nj : 1)); prng g = { big ? ch_seed() : 0 };
    for (unsigned i = 0; i < nj; i++) {
        J[i] = all + i; J[i]->yields = big ? (int)(prng_next(&g) % (maxy + 1)) : (int)ch(maxy + 1);
        unsigned r = big ? (unsigned)(prng_next(&g) % 4) : ch(4);
        J[i]->result = r < failrate ? -(int)(1 + (big ? r : ch(3))) : big ? 0 : (int)ch(2); fails += J[i]->result < 0;
    }
    size_t heap0 = cs_heap_live();
    unsigned cfg = ch(6);
    cs_create_faults = cfg == 1; cs_init_faults = cfg == 2; cs_set_alloc_faults(cfg == 3);
    int r = job_manager_init(jm, ask, func, &ctxobj);
    cs_create_faults = cs_init_faults = 0; cs_set_alloc_faults(0);
    if (r < 0 || (r == 0 && cfg)) {
        CHECK(r < 0, "return-code", "creation failed with return value %d", r);
        CHECK(cfg >= 1 && cfg <= 3 && faults_fired(), "spurious-failure", "creation failed with %d without cause", r);
        cs_settle();
        CHECK(cs_live_threads() == 0, "worker-left", "creation failed but %u workers are left", cs_live_threads());
        CHECK(cs_live_objects() == 0 && cs_heap_live() == heap0, "leak", "creation failed but %u synchronisation objects and %zu heap blocks are left", cs_live_objects(), cs_heap_live() - heap0);
        tally("create_failed", 1); run_nontrivial();
        return;
    }
    CHECK(r == (int)nthr, "return-code", "creation returned %d for %u workers", r, nthr);
    CHECK(cs_live_threads() == nthr, "worker-count", "%u workers running, %u were asked for", cs_live_threads(), nthr);
    pthread_t t[3];
    if (ch(4) == 0) cs_settle();
    for (int k = 1; k < nsub; k++) pthread_create(&t[k], 0, submitter, (void*)(intptr_t)k);
    submitter(0);
    for (int k = 1; k < nsub; k++) pthread_join(t[k], 0);
    r = job_manager_wait(jm);
    wait_returned = 1;
    for (unsigned i = 0; i < nj; i++) CHECK(ran[i], "lost-job", "waiting returned but job %u of %u has not run", i, nj);
    for (unsigned i = 0; i < nthr; i++) CHECK(!active[i], "early-return", "waiting returned while a job runs on worker %u", i);
    CHECK(cs_live_threads() == 0, "worker-left", "waiting returned with %u workers running", cs_live_threads());
    CHECK(r == fails, "failure-count", "waiting returned %d, %d jobs reported failure", r, fails);
    if (job_manager_cleanup) job_manager_cleanup(jm); else if (job_manager_destroy) job_manager_destroy(jm);
    CHECK(cs_live_objects() == 0, "leak", "%u synchronisation objects left after cleanup", cs_live_objects());
    CHECK(cs_heap_live() == heap0, "leak", "%zu heap blocks left after cleanup", cs_heap_live() - heap0);
    tally("jobs", nj); tally("full_queue", big);
    if (nj > nthr) run_nontrivial();
    sample("%u workers, %u jobs from %d submitters, %d failing, %u faults", nthr, nj, nsub, fails, faults_fired());
}
static void run(void)
{
    memset(ran, 0, sizeof ran); memset(active, 0, sizeof active); wait_returned = 0; norder = handed = gate = 0;
    cs_defaults(); big = ch(300) == 299; if (big) { cs_cfg.step_max = 2000000; } cs_run(body);
}
const dst_harness harness = { .property = "C05", .name = "job", .run = run,
  .rule = "one run = a pool of 1..4 workers (or the processor count) with 0..120 jobs (now and then more than the queue holds) from 1-3 submitter threads under a seeded schedule, with thread, semaphore, mutex and memory creation failures and interrupted waits; non-trivial: more jobs than workers, or a failed creation; distinct by the hash of the whole event and schedule log" };
