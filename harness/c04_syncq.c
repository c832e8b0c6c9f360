/* C04: blocking queue on semaphores */
#include "thr.h"
#include "fast/syncq.h"
typedef struct { uint64_t id, chk, tail; } item;
#define MK(v) ((item){ (v), ~(v) * 3, (v) ^ 0x5555555555555555ull })
SYNCQ_TYPEDEF(sq, item, 16);
static sq *Q; static unsigned cap, nprod, ncons; static uint32_t nextv;
static unsigned plan[CS_MAXT]; static unsigned done_enq, done_deq;

static void do_enq(void)
{
    uint32_t v = nextv++;
    unsigned i = op_begin(ENQ, v, 1);
    item e = MK((uint64_t)v);
    SYNCQ_ENQ(Q, e);
    op_end(i, 1, v); done_enq++;
    ev("T%d enq %u", cs_self(), v);
}
static void do_deq(void)
{
    unsigned i = op_begin(DEQ, 0, 1);
    item e = SYNCQ_DEQ(Q);
    item w = MK(e.id);
    CHECK(e.chk == w.chk && e.tail == w.tail && e.id && e.id < nextv, "corrupt-item", "a removal returned something that is no item");
    op_end(i, 1, e.id); done_deq++;
    ev("T%d deq -> %llu", cs_self(), (unsigned long long)e.id);
}
static void *prod(void *a) { for (unsigned i = 0; i < plan[(intptr_t)a]; i++) do_enq(); return 0; }
static void *cons(void *a) { for (unsigned i = 0; i < plan[(intptr_t)a]; i++) do_deq(); return 0; }

static void body(void)
{
    static const unsigned szs[] = { 1, 2, 3, 4, 8, 16, 5 };
    cap = szs[ch(NELEM(szs))];
    Q = cs_malloc(sizeof *Q);
    cs_init_faults = ch(6) == 5;
    int r = SYNCQ_INIT(Q, cap);
    cs_init_faults = 0;
    if (r) { CHECK(r < 0, "return-code", "initialisation returned %d", r); CHECK(faults_fired(), "spurious-failure", "initialisation failed without cause"); CHECK(cs_live_objects() == 0, "leak", "initialisation failed but %u synchronisation objects are left", cs_live_objects()); tally("init_failed", 1); cs_free(Q); return; }
    nprod = ch_range(1, 4); ncons = ch_range(1, 4);
    unsigned tot = 0, rem, maxn = ch_range(1, 16);
    for (unsigned i = 0; i < nprod; i++) tot += plan[i] = ch_range(1, maxn);
    rem = tot;
    /* consumers take all but up to 'left' items in total */
    unsigned want = ch(3) == 0 ? ch(tot + 1) : tot;
    if (tot - want > cap) want = tot - cap;
    rem = want;
    for (unsigned i = 0; i < ncons; i++) { unsigned k = i == ncons - 1 ? rem : ch(rem + 1); plan[nprod + i] = k; rem -= k; }
    pthread_t t[10]; unsigned n = 0, mode = ch(4);
    if (mode == 1) {        /* producers first: exactly the capacity fits, then they wait */
        for (unsigned i = 0; i < nprod; i++) pthread_create(&t[n++], 0, prod, (void*)(intptr_t)i);
        cs_settle();
        CHECK(done_enq == (tot < cap ? tot : cap), "wait", "with nobody removing, %u of %u insertions finished (capacity %u)", done_enq, tot, cap);
        for (unsigned i = 0; i < ncons; i++) pthread_create(&t[n++], 0, cons, (void*)(intptr_t)(nprod + i));
    } else if (mode == 2) { /* consumers first: all wait */
        for (unsigned i = 0; i < ncons; i++) pthread_create(&t[n++], 0, cons, (void*)(intptr_t)(nprod + i));
        cs_settle();
        CHECK(done_deq == 0, "wait", "%u removals finished before anything was inserted", done_deq);
        for (unsigned i = 0; i < nprod; i++) pthread_create(&t[n++], 0, prod, (void*)(intptr_t)i);
    } else {
        unsigned a = 0, b = 0;
        while (a < nprod || b < ncons) {
            if (b == ncons || (a < nprod && !ch(2))) { pthread_create(&t[n++], 0, prod, (void*)(intptr_t)a); a++; }
            else { pthread_create(&t[n++], 0, cons, (void*)(intptr_t)(nprod + b)); b++; }
        }
    }
    for (unsigned i = 0; i < n; i++) pthread_join(t[i], 0);   /* a lost wake-up is a deadlock here */
    CHECK(done_enq == tot && done_deq == want, "wait", "internal");
    for (unsigned k = want; k < tot; k++) do_deq();            /* blocks forever if an item is missing */
    /* the queue is empty now: a removal must wait */
    pthread_t x; plan[0] = 1;
    unsigned before = done_deq;
    pthread_create(&x, 0, cons, (void*)0);
    cs_settle();
    CHECK(done_deq == before, "invented-item", "a removal from an empty queue did not wait");
    do_enq(); pthread_join(x, 0);
    /* and exactly 'cap' fit again */
    unsigned fill = cap; plan[0] = fill + 1; before = done_enq;
    pthread_create(&x, 0, prod, (void*)0);
    cs_settle();
    CHECK(done_enq - before == fill, "wait", "an empty queue of %u took %u items without a removal", cap, done_enq - before);
    for (unsigned k = 0; k < fill + 1; k++) do_deq();
    pthread_join(x, 0);
    fifo_check(cap, 1);
    tally("items", done_deq);
    if (done_deq > cap + 2) run_nontrivial();
    sample("capacity %u, %u producers, %u consumers, %u items, mode %u, %u faults", cap, nprod, ncons, done_deq, mode, faults_fired());
    SYNCQ_FINI(Q);
    CHECK(cs_live_objects() == 0, "leak", "%u synchronisation objects left after finishing the queue", cs_live_objects());
    cs_free(Q);
}
/* a very large queue, filled and emptied by one thread; a second one has to wait when it is full or empty */
SYNCQ_TYPEDEF(sqv, item, 140000);
static sqv *V; static uint32_t vi, vo; static int vdone;
static void v_put(void) { item e = MK((uint64_t)vi + 1000); SYNCQ_ENQ(V, e); vi++; }
static void v_get(void)
{
    item e = SYNCQ_DEQ(V), w = MK((uint64_t)vo + 1000);
    CHECK(e.id == w.id && e.chk == w.chk && e.tail == w.tail, "order", "removal %u returned %llu, the oldest item is %llu", vo, (unsigned long long)e.id, (unsigned long long)w.id);
    vo++;
}
static void *v_putter(void *a) { (void)a; v_put(); vdone = 1; return 0; }
static void *v_getter(void *a) { (void)a; v_get(); vdone = 1; return 0; }
static void vast(void)
{
    cs_cfg.weak = 0; cs_cfg.plain_points = 0; cs_cfg.races = 0; cs_cfg.step_fair = 1u << 30; cs_cfg.step_max = 1u << 31; cs_eintr_faults = 0; cs_stall_faults = 0;
    V = cs_malloc(sizeof *V); vi = vo = 0;
    cap = ch(3) ? 65534 + ch(5) : 30000 + ch(110000);
    int r = SYNCQ_INIT(V, cap);
    CHECK(!r, "spurious-failure", "initialisation returned %d without cause", r);
    for (unsigned k = ch_range(1, 3); k; k--) {
        pthread_t x;
        while (vi - vo < cap) v_put();
        vdone = 0; pthread_create(&x, 0, v_putter, 0); cs_settle();
        CHECK(!vdone, "over-capacity", "a full queue of %u took another item", cap);
        v_get(); pthread_join(x, 0);
        unsigned dn = ch(2) ? 0 : ch(cap);
        while (vi - vo > dn) v_get();
        if (!dn) {
            vdone = 0; pthread_create(&x, 0, v_getter, 0); cs_settle();
            CHECK(!vdone, "invented-item", "a removal from an empty queue did not wait");
            v_put(); pthread_join(x, 0);
        }
    }
    while (vi != vo) v_get();
    SYNCQ_FINI(V); cs_free(V);
    CHECK(cs_live_objects() == 0, "leak", "%u synchronisation objects left after finishing the queue", cs_live_objects());
    tally("large_queues", 1); run_nontrivial();
    sample("capacity %u: %u items", cap, vi);
}
static void run(void) { nH = 0; clk = 0; nextv = 1; done_enq = done_deq = 0; cs_defaults(); cs_run(ch_p(1, 3000) ? vast : body); }
const dst_harness harness = { .property = "C04", .name = "syncq", .run = run,
  .rule = "one run = a queue of capacity 1..16 with 1-4 producers and 1-4 consumers moving up to 64 items under a seeded schedule with interrupted semaphore waits and stalled threads; producers-first and consumers-first phases check that exactly the capacity fits and nobody waits otherwise; rarely a queue of up to 140000 items; non-trivial: more items than the capacity + 2; distinct by the hash of the whole event and schedule log" };
