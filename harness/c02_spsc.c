/* C02: single-producer/single-consumer queue */
#include "thr.h"
#include "utils/utils.h"
#include "fast/spsc_bounded_queue.h"

typedef struct { uint64_t id, chk, tail; } item;
#define MK(v) ((item){ (v), ~(v) * 3, (v) ^ 0x5555555555555555ull })
static inline void intact(item e)
{ item w = MK(e.id); CHECK(e.chk == w.chk && e.tail == w.tail, "corrupt-item", "item %llu arrived torn or altered", (unsigned long long)e.id); }

SPSCQ_DYN_TYPEDEF(qdyn, item);
SPSCQ_TYPEDEF(qfix, item, 5);
SPSCQ_TYPEDEF(qbyte, uint8_t, 2);

static qdyn *D; static qfix *F; static qbyte *B; static int kind;
static unsigned sz, nput, nget, pp, pc;
static uint32_t nextv; static int serial_mode;

static int enq(uint32_t v)
{
    item e = MK((uint64_t)v);
    switch (kind) { case 0: return SPSCQ_ENQ(D, e); case 1: return SPSCQ_ENQ(F, e); default: return SPSCQ_ENQ(B, (uint8_t)v); }
}
static int deq(uint64_t *v)
{
    item e = {0}; uint8_t b = 0; int r;
    switch (kind) {
        case 0: r = SPSCQ_DEQ(D, e); break;
        case 1: r = SPSCQ_DEQ(F, e); break;
        default: r = SPSCQ_DEQ(B, b); *v = b; return r;
    }
    if (r) intact(e);
    *v = e.id; return r;
}
static unsigned qsize(void) { return kind == 0 ? SPSCQ_SIZE(D) : kind == 1 ? SPSCQ_SIZE(F) : SPSCQ_SIZE(B); }
static int qfull(void) { return kind == 0 ? SPSCQ_FULL_P(D) : kind == 1 ? SPSCQ_FULL_P(F) : SPSCQ_FULL_P(B); }
static int qempty(void) { return kind == 0 ? SPSCQ_EMPTY_P(D) : kind == 1 ? SPSCQ_EMPTY_P(F) : SPSCQ_EMPTY_P(B); }

static int do_enq(void)
{
    uint32_t v = nextv;
    uint64_t s0 = cs_step();
    unsigned i = op_begin(ENQ, v, 0);
    int ok = enq(v);
    op_end(i, ok, v);
    if (ok) nextv++;
    ev("T%d enq %u -> %d", cs_self(), v, ok);
    (void)s0;
    return ok;
}
static int do_deq(void)
{
    uint64_t v = 0;
    unsigned i = op_begin(DEQ, 0, 0);
    int ok = deq(&v);
    op_end(i, ok, v);
    ev("T%d deq -> %d %llu", cs_self(), ok, (unsigned long long)v);
    return ok;
}
static void *prod(void *a) { (void)a; for (unsigned i = 0; i < nput; i++) { if (!do_enq() && pp) cs_yield(); } return 0; }
static void *cons(void *a) { (void)a; for (unsigned i = 0; i < nget; i++) { if (!do_deq() && pc) cs_yield(); } return 0; }

static unsigned expect;
static void recount(void) { expect = 0; for (unsigned i = 0; i < nH; i++) if (H_[i].ok) { if (H_[i].kind == ENQ) expect++; else expect--; } }
static void quiet_state(void)
{
    recount();
    CHECK(qsize() == expect, "size", "idle queue reports size %u, %u items are held", qsize(), expect);
    CHECK(!qfull() == !(expect == sz - 1), "full-query", "idle queue of %u/%u reports full=%d", expect, sz - 1, qfull());
    CHECK(!qempty() == !(expect == 0), "empty-query", "idle queue of %u/%u reports empty=%d", expect, sz - 1, qempty());
}
static void refusals(void)
{
    /* a refused insert: at some moment of the call the queue was full, judged by what had finished before
       it began; only meaningful without legal stale reads */
    for (unsigned i = 0; i < nH; i++) if (!H_[i].ok) {
        int n = 0;
        for (unsigned k = 0; k < nH; k++) if (H_[k].ok) {
            if (H_[i].kind == ENQ) { if (H_[k].kind == ENQ && H_[k].ret < H_[i].inv) n++; if (H_[k].kind == DEQ && H_[k].ret < H_[i].inv) n--; }
            else { if (H_[k].kind == ENQ && H_[k].ret < H_[i].inv) n++; if (H_[k].kind == DEQ && H_[k].ret < H_[i].inv) n--; }
        }
        if (H_[i].kind == ENQ) CHECK(n >= (int)sz - 1, "spurious-full", "an insert was refused with at most %d of %u items held", n, sz - 1);
        else CHECK(n <= 0, "spurious-empty", "a removal was refused with at least %d items held", n);
    }
}
static void body(void)
{
    kind = (int)ch(5); if (kind > 2) kind = 0;
    static const unsigned szs[] = { 2, 3, 4, 5, 8, 17, 6, 9 };
    sz = kind == 0 ? szs[ch(NELEM(szs))] : kind == 1 ? 5 : 2;
    if (kind == 0) {
        D = cs_malloc(sizeof *D);
        SPSCQ_DYN_INIT(D, sz);
    } else if (kind == 1) { F = cs_malloc(sizeof *F); unsigned k = ch(3); sz = k ? 5 : 3; SPSCQ_INIT(F, sz); }
    else { B = cs_malloc(sizeof *B); SPSCQ_INIT(B, 2); }
    quiet_state();
    unsigned rounds = ch_range(1, 3), base = 0;
    for (unsigned r = 0; r < rounds; r++) {
        pthread_t t[2];
        nput = ch_range(1, 60); nget = ch_range(1, 60); pp = ch(2); pc = ch(2);
        if (kind == 2 && nextv + nput > 250) nput = 250 - nextv > 0 ? 1 : 1;
        if (nextv > 240 && kind == 2) break;
        pthread_create(&t[0], 0, prod, 0);
        pthread_create(&t[1], 0, cons, 0);
        pthread_join(t[0], 0); pthread_join(t[1], 0);
        quiet_state();
        if (kind != 2 && ch(4) == 0) {
            while (expect < sz - 1) { CHECK(do_enq(), "spurious-full", "idle queue with %u of %u items refused an item", expect, sz - 1); quiet_state(); }
            CHECK(!do_enq(), "over-capacity", "an idle full queue of %u accepted an item", sz - 1);
            quiet_state();
        }
        if (ch(3) == 0) {
            while (expect) { CHECK(do_deq(), "spurious-empty", "idle queue with %u items reported empty", expect); quiet_state(); }
            CHECK(!do_deq(), "invented-item", "an idle empty queue delivered an item");
        }
    }
    (void)base;
    recount();
    while (expect) { CHECK(do_deq(), "spurious-empty", "idle queue with %u items reported empty", expect); quiet_state(); }
    CHECK(!do_deq(), "invented-item", "an idle empty queue delivered an item");
    fifo_check(sz - 1, 1);
    /* one consumer at a time: delivery order is exact */
    uint64_t last = 0;
    for (unsigned i = 0; i < nH; i++) if (H_[i].ok && H_[i].kind == DEQ) { CHECK(H_[i].v == last + 1, "order", "received item %llu after item %llu", (unsigned long long)H_[i].v, (unsigned long long)last); last = H_[i].v; }
    if (!cs_cfg.weak) refusals();
    int okc = 0, fail = 0; for (unsigned i = 0; i < nH; i++) { okc += H_[i].ok; fail += !H_[i].ok; }
    tally("ops_ok", (uint64_t)okc); tally("ops_refused", (uint64_t)fail);
    if (okc > 2 * (int)sz) run_nontrivial();
    sample("size %u kind %d rounds %u: %d transfers, %d refusals, %llu steps", sz, kind, rounds, okc, fail, (unsigned long long)cs_step());
    if (kind == 0 && ch(2)) {
        SPSCQ_RESET(D); nH = 0; quiet_state();
    }
    if (kind == 0) { SPSCQ_DYN_FINI(D); cs_free(D); } else if (kind == 1) cs_free(F); else cs_free(B);
    CHECK(cs_heap_live() == 0, "leak", "%zu heap blocks left after deleting the queue", cs_heap_live());
}
/* a very large dynamic queue, used by one thread */
static uint64_t vi, vo; static unsigned lo_;
static void v_state(void)
{
    uint64_t n = vi - vo;
    CHECK(qsize() == n, "size", "idle queue reports size %u, %llu items are held", qsize(), (unsigned long long)n);
    CHECK(!qfull() == !(n == sz - 1), "full-query", "idle queue of %llu/%u reports full=%d", (unsigned long long)n, sz - 1, qfull());
    CHECK(!qempty() == !(n == 0), "empty-query", "idle queue of %llu/%u reports empty=%d", (unsigned long long)n, sz - 1, qempty());
}
static void v_put(void)
{
    int r = enq(lo_ + (uint32_t)vi), want = vi - vo < sz - 1;
    CHECK(!r == !want, want ? "spurious-full" : "over-capacity", "idle queue of %u with %llu items %s an item", sz - 1, (unsigned long long)(vi - vo), r ? "accepted" : "refused");
    if (r) vi++;
}
static void v_get(void)
{
    uint64_t x = 0; int r = deq(&x), want = vi != vo;
    CHECK(!r == !want, want ? "spurious-empty" : "invented-item", "idle queue with %llu items: removal returned %d", (unsigned long long)(vi - vo), r);
    if (r) { CHECK(x == lo_ + (uint32_t)vo, "order", "received item %llx, the oldest is %llx", (unsigned long long)x, (unsigned long long)(lo_ + (uint32_t)vo)); vo++; }
}
static void vast(void)
{
    cs_cfg.weak = 0; cs_cfg.plain_points = 0; cs_cfg.races = 0; cs_cfg.solo = 1;
    kind = 0; lo_ = 0x31000000; vi = vo = 0;
    sz = ch(3) ? 65536 - 2 + ch(5) : 30000 + ch(300000);
    D = cs_malloc(sizeof *D);
    SPSCQ_DYN_INIT(D, sz);
    v_state();
    unsigned turns = ch_range(2, 5);
    for (unsigned k = 0; k < turns; k++) {
        unsigned up = ch(2) ? sz - 1 : ch(sz), dn = ch(2) ? 0 : ch(sz);
        while (vi - vo < up) { v_put(); if (!(vi & 0x7ff)) v_state(); }
        if (up == sz - 1) v_put();
        v_state();
        while (vi - vo > dn) { v_get(); if (!(vo & 0x7ff)) v_state(); }
        if (!dn) v_get();
        v_state();
    }
    if (ch(2)) { SPSCQ_RESET(D); vo = vi; v_state(); for (unsigned k = ch(2000); k; k--) v_put(); }
    while (vi != vo) v_get();
    v_get(); v_state();
    SPSCQ_DYN_FINI(D); cs_free(D);
    CHECK(cs_heap_live() == 0, "leak", "%zu heap blocks left after deleting the queue", cs_heap_live());
    tally("large_queues", 1); run_nontrivial();
    sample("size %u: %llu items moved by one thread", sz, (unsigned long long)vi);
}
static void run(void) { nH = 0; clk = 0; nextv = 1; cs_defaults(); cs_run(ch_p(1, 1500) ? vast : body); }
const dst_harness harness = { .property = "C02", .name = "spsc", .run = run,
  .rule = "one run = a queue of declared size 2..17 (static, dynamic, 24-byte or 1-byte items), 1-3 rounds of one producer and one consumer thread with up to 60 operations each under a seeded schedule, legal stale reads in half of the runs; rarely a queue of up to 330000 items used by one thread; non-trivial: more successful operations than twice the size; distinct by the hash of the whole event and schedule log" };
