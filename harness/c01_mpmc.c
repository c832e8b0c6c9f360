/* C01: multi-producer/multi-consumer bounded queue */
#include "thr.h"
#include "utils/utils.h"
#include "fast/mpmc_bounded_queue.h"

typedef struct { uint64_t id, chk, tail; } item;
#define MK(v) ((item){ (v), ~(v) * 3, (v) ^ 0x5555555555555555ull })
static inline void intact(item e)
{ item w = MK(e.id); CHECK(e.chk == w.chk && e.tail == w.tail, "corrupt-item", "item %llu arrived torn or altered", (unsigned long long)e.id); }

MPMC_QUEUE_TYPE(qa, item);
MPMC_QUEUE_TYPE(qb, uint16_t);

static int useb, serial, shadowing;
static qa *A; static qb *B;
static unsigned cap, nprod, ncons, live_p, live_c;
static uint32_t nextv;
static struct { int n; uint8_t op[40]; } plan[CS_MAXT];
static pthread_mutex_t ser;
static uint32_t model[4096]; static unsigned mh, mt;   /* serial mode: exact model */

static int enq(uint32_t v) { if (useb) return MPMC_QUEUE_ENQ(B, (uint16_t)v); item e = MK((uint64_t)v); return MPMC_QUEUE_ENQ(A, e); }
static void enqw(uint32_t v) { if (useb) MPMC_QUEUE_ENQ_WAIT(B, (uint16_t)v); else { item e = MK((uint64_t)v); MPMC_QUEUE_ENQ_WAIT(A, e); } }
static int deq(uint64_t *v)
{
    if (useb) { uint16_t x = 0; int r = MPMC_QUEUE_DEQ(B, x); *v = x; return r; }
    item e = {0}; int r = MPMC_QUEUE_DEQ(A, e); if (r) intact(e); *v = e.id; return r;
}
static void deqw(uint64_t *v)
{
    if (useb) { uint16_t x = 0; MPMC_QUEUE_DEQ_WAIT(B, x); *v = x; }
    else { item e = {0}; MPMC_QUEUE_DEQ_WAIT(A, e); intact(e); *v = e.id; }
}
static size_t qsize(void) { return useb ? MPMC_QUEUE_SIZE(B) : MPMC_QUEUE_SIZE(A); }
static int qfull(void) { return useb ? MPMC_QUEUE_FULL_P(B) : MPMC_QUEUE_FULL_P(A); }
static int qempty(void) { return useb ? MPMC_QUEUE_EMPTY_P(B) : MPMC_QUEUE_EMPTY_P(A); }

static int do_enq(int wait)
{
    uint32_t v = nextv++;
    if (serial) {
        sim_lock: pthread_mutex_lock(&ser);
        unsigned n = mt - mh;
        if (wait && n == cap) { pthread_mutex_unlock(&ser); wait = 0; goto sim_lock; }
        unsigned i = op_begin(ENQ, v, wait); int ok = 1;
        if (wait) enqw(v); else ok = enq(v);
        op_end(i, ok, v);
        CHECK(ok == (n < cap), ok ? "over-capacity" : "spurious-full", "non-overlapped enqueue %s with %u of %u items held", ok ? "succeeded" : "reported full", n, cap);
        if (ok) model[mt++ % 4096] = v;
        pthread_mutex_unlock(&ser);
        return ok;
    }
    unsigned i = op_begin(ENQ, v, wait); int ok = 1;
    if (wait) enqw(v); else ok = enq(v);
    op_end(i, ok, v);
    ev("T%d enq%s %u -> %d", cs_self(), wait ? "-wait" : "", v, ok);
    return ok;
}
static int do_deq(int wait)
{
    uint64_t v = 0;
    if (serial) {
        again: pthread_mutex_lock(&ser);
        unsigned n = mt - mh;
        if (wait && n == 0) { pthread_mutex_unlock(&ser); wait = 0; goto again; }
        unsigned i = op_begin(DEQ, 0, wait); int ok = 1;
        if (wait) deqw(&v); else ok = deq(&v);
        op_end(i, ok, v);
        CHECK(ok == (n > 0), ok ? "invented-item" : "spurious-empty", "non-overlapped dequeue %s with %u items held", ok ? "succeeded" : "reported empty", n);
        if (ok) { uint32_t w = model[mh++ % 4096]; CHECK(w == v, "order", "dequeue returned %llu, the oldest item is %u", (unsigned long long)v, w); }
        pthread_mutex_unlock(&ser);
        return ok;
    }
    unsigned i = op_begin(DEQ, 0, wait); int ok = 1;
    if (wait) deqw(&v); else ok = deq(&v);
    op_end(i, ok, v);
    ev("T%d deq%s -> %d %llu", cs_self(), wait ? "-wait" : "", ok, (unsigned long long)v);
    return ok;
}
static void *prod(void *a) { int k = (int)(intptr_t)a; for (int i = 0; i < plan[k].n; i++) do_enq(plan[k].op[i]); live_p--; return 0; }
static void *cons(void *a) { int k = (int)(intptr_t)a; for (int i = 0; i < plan[k].n; i++) do_deq(plan[k].op[i]); live_c--; return 0; }

static unsigned expect;      /* items held at quiescence */
static void recount(void) { expect = 0; for (unsigned i = 0; i < nH; i++) if (H_[i].ok) { if (H_[i].kind == ENQ) expect++; else expect--; } }
static void quiet_state(void)
{
    recount();
    CHECK(qsize() == expect, "size", "idle queue reports size %zu, %u items are held", qsize(), expect);
    CHECK(!qfull() == !(expect == cap), "full-query", "idle queue of %u/%u reports full=%d", expect, cap, qfull());
    CHECK(!qempty() == !(expect == 0), "empty-query", "idle queue of %u/%u reports empty=%d", expect, cap, qempty());
}
/* Single-threaded transfers outside the recorded history.  ids come from their own sequence; u16 items carry the low bits. */
static uint64_t ov_in, ov_out;
static void ov_enq(void) { uint32_t v = 0x2b000000u + (uint32_t)ov_in; CHECK(enq(v), "spurious-full", "an idle queue of %u refused an item with %llu of %u held, after %llu items", cap, (unsigned long long)(ov_in - ov_out), cap, (unsigned long long)ov_in); ov_in++; }
static void ov_deq(void)
{
    uint64_t x = 0, w = 0x2b000000u + (uint32_t)ov_out;
    CHECK(deq(&x), "spurious-empty", "an idle queue with %llu items reported empty, after %llu items", (unsigned long long)(ov_in - ov_out), (unsigned long long)ov_out);
    if (useb) w &= 0xffff;
    CHECK(x == w, "order", "dequeue %llu returned %llx, the oldest item is %llx", (unsigned long long)ov_out, (unsigned long long)x, (unsigned long long)w);
    ov_out++;
}
static void ov_state(void)
{
    uint64_t n = ov_in - ov_out;
    CHECK(qsize() == n, "size", "idle queue reports size %zu, %llu items are held", qsize(), (unsigned long long)n);
    CHECK(!qfull() == !(n == cap), "full-query", "idle queue of %llu/%u reports full=%d", (unsigned long long)n, cap, qfull());
    CHECK(!qempty() == !(n == 0), "empty-query", "idle queue of %llu/%u reports empty=%d", (unsigned long long)n, cap, qempty());
}
/* A queue that has been in use for very long.  Its counters are recognised by their value after a known
   number of operations and moved on by a whole number of turns; if the layout is another one (the
   values are not found exactly where they are expected), the queue stays as it is. */
static void age(void)
{
    uint64_t k = 40 + ch(60), N = k * cap;
    int races = cs_cfg.races, pp = cs_cfg.plain_points; cs_cfg.races = cs_cfg.plain_points = 0; cs_cfg.solo = 1;
    for (uint64_t i = 0; i < N; i++) { ov_enq(); ov_deq(); }
    ov_state();
    uint64_t *h = useb ? (uint64_t*)B : (uint64_t*)A, *hw[2], **sw = cs_malloc((cap + 1) * sizeof *sw); unsigned nh = 0, ns = 0, np = 0; size_t hb = useb ? sizeof *B : sizeof *A, bytes = cs_heap_live_bytes() - hb - (cap + 1) * sizeof *sw;
    uint64_t *blk = 0;
    for (size_t i = 0; i < hb / 8; i++) {
        if (h[i] == N) { if (nh < 2) hw[nh] = &h[i]; nh++; }
        if (h[i] >> 24) { blk = (uint64_t*)(uintptr_t)h[i]; np++; }
    }
    if (nh == 2 && np == 1 && N != cap && N != cap - 1)
        for (size_t i = 0; i < bytes / 8; i++) if (blk[i] == 2 * k) { if (ns < cap) sw[ns] = &blk[i]; ns++; }
    if (ns == cap) {
        static const uint8_t bits[] = { 8, 15, 16, 17, 31, 32, 33, 34, 36, 40, 47 };
        unsigned b = bits[ch(NELEM(bits))];
        uint64_t K = ((1ull << b) - ch(30)) / cap;      /* number of turns made: the head comes near 2^b */
        if (ch(2)) K = (1ull << b) / 2 - ch(4);         /* the slots' turn comes near 2^b */
        if (K < k) K = k;
        for (unsigned i = 0; i < 2; i++) __atomic_store_n(hw[i], K * cap, __ATOMIC_SEQ_CST);
        for (unsigned i = 0; i < ns; i++) __atomic_store_n(sw[i], 2 * K, __ATOMIC_SEQ_CST);
        ov_in = ov_out = K * cap;
        fault_note("old-queue"); ev("aged to %llu turns", (unsigned long long)K);
    } else tally("not_aged", 1);
    cs_free(sw);
    ov_state();
    cs_cfg.races = races; cs_cfg.plain_points = pp; cs_cfg.solo = 0;
}
/* many items, or many operations, by one thread */
static void vast(void)
{
    cs_cfg.weak = 0; cs_cfg.plain_points = 0; cs_cfg.races = 0; cs_cfg.solo = 1;
    int old = ch(2);
    unsigned want = old ? 1u << ch(3) : 40000 + ch(160000);
    for (cap = 1; cap < want; cap *= 2);
    if (useb) B = MPMC_QUEUE_NEW(qb, want); else A = MPMC_QUEUE_NEW(qa, want);
    ov_state();
    if (old) for (unsigned n = 66000 + ch(70000), i = 0; i < n; i++) {
        unsigned k = ch_p(1, 500) ? 1 + ch(cap) : 1;
        for (unsigned j = 0; j < k; j++) ov_enq();
        if (k > 1) { ov_state(); if (k == cap) CHECK(!enq(1), "over-capacity", "a full queue of %u accepted an item", cap); }
        for (unsigned j = 0; j < k; j++) ov_deq();
    } else for (unsigned r = ch_range(1, 3), i = 0; i < r; i++) {
        while (ov_in - ov_out < cap) { ov_enq(); if (!(ov_in & 0x3ff)) ov_state(); }
        ov_state();
        CHECK(!enq(1), "over-capacity", "an idle full queue of %u accepted an item", cap);
        unsigned keep = ch(cap);
        while (ov_in - ov_out > keep) ov_deq();
        ov_state();
    }
    while (ov_in != ov_out) ov_deq();
    ov_state();
    uint64_t x; CHECK(!deq(&x), "invented-item", "an idle empty queue delivered an item");
    if (useb) MPMC_QUEUE_DEL(B); else MPMC_QUEUE_DEL(A);
    CHECK(cs_heap_live() == 0, "leak", "%zu heap blocks left after deleting the queue", cs_heap_live());
    tally(old ? "many_operations" : "many_items", 1); run_nontrivial();
    sample("cap %u: %llu items in %s", cap, (unsigned long long)ov_in, old ? "a small queue" : "a large queue");
}
static void body(void)
{
    static const unsigned sz[] = { 1, 2, 2, 3, 4, 4, 5, 8, 9, 16, 7 };
    unsigned want = sz[ch(NELEM(sz))];
    for (cap = 1; cap < want; cap *= 2);
    if (useb) B = MPMC_QUEUE_NEW(qb, want); else A = MPMC_QUEUE_NEW(qa, want);
    if (ch_p(1, 12)) age();
    if (serial) pthread_mutex_init(&ser, 0);
    unsigned rounds = ch_range(1, 3);
    quiet_state();
    for (unsigned r = 0; r < rounds; r++) {
        nprod = ch_range(1, 4); ncons = ch_range(1, 4);
        unsigned maxops = 1u + ch(12);
        if (ch(8) == 0) maxops = 30;
        uint32_t wp = ch(5), wc = ch(5);
        pthread_t t[10]; unsigned n = 0;
        live_p = nprod; live_c = ncons;
        for (unsigned i = 0; i < nprod + ncons; i++) {
            plan[i].n = (int)ch_range(1, maxops);
            for (int k = 0; k < plan[i].n; k++) plan[i].op[k] = (uint8_t)(ch(4) < (i < nprod ? wp : wc));
        }
        for (unsigned i = 0; i < nprod + ncons; i++)
            pthread_create(&t[n++], 0, i < nprod ? prod : cons, (void*)(intptr_t)i);
        /* whoever is left waiting for space or for items gets it from here */
        while (live_p || live_c) {
            if (!live_p && live_c) do_enq(0);
            else if (!live_c && live_p) do_deq(0);
            cs_yield();
        }
        for (unsigned i = 0; i < n; i++) pthread_join(t[i], 0);
        quiet_state();
        /* fill it to the brim, or empty it, alone: exact behaviour */
        if (ch(3) == 0) {
            while (expect < cap) { CHECK(do_enq(0), "spurious-full", "idle queue with %u of %u items refused an item", expect, cap); quiet_state(); }
            CHECK(!do_enq(0), "over-capacity", "an idle full queue of %u accepted an item", cap);
            quiet_state();
        }
        if (ch(3) == 0) {
            while (expect) { CHECK(do_deq(0), "spurious-empty", "idle queue with %u items reported empty", expect); quiet_state(); }
            CHECK(!do_deq(0), "invented-item", "an idle empty queue delivered an item");
        }
    }
    recount();
    while (expect) { CHECK(do_deq(0), "spurious-empty", "idle queue with %u items reported empty", expect); recount(); }
    CHECK(!do_deq(0), "invented-item", "an idle empty queue delivered an item");
    quiet_state();
    fifo_check(cap, 1);
    if (!cs_cfg.weak)
        for (unsigned i = 0; i < nH; i++) if (!H_[i].ok) {
            int ov = 0; int n = 0;
            for (unsigned k = 0; k < nH; k++) if (k != i) {
                if (H_[k].inv < H_[i].ret && H_[k].ret > H_[i].inv) ov = 1;
                if (H_[k].ok && H_[k].ret < H_[i].inv) n += H_[k].kind == ENQ ? 1 : -1;
            }
            if (!ov) CHECK(n == (H_[i].kind == ENQ ? (int)cap : 0), H_[i].kind == ENQ ? "spurious-full" : "spurious-empty", "a non-overlapped %s failed with %d of %u items held", opn(&H_[i]), n, cap);
        }
    int okc = 0, fail = 0; for (unsigned i = 0; i < nH; i++) { okc += H_[i].ok; fail += !H_[i].ok; }
    tally("ops_ok", (uint64_t)okc); tally("ops_refused", (uint64_t)fail);
    tally("wraps", nextv / cap);
    if (okc > 2 * (int)cap || okc > 8) run_nontrivial();
    sample("cap %u (asked %u) %s%s rounds %u, %d successful and %d refused operations, %llu steps", cap, want, useb ? "u16" : "24-byte struct", serial ? " serial" : "", rounds, okc, fail, (unsigned long long)cs_step());
    if (useb) MPMC_QUEUE_DEL(B); else MPMC_QUEUE_DEL(A);
    if (serial) pthread_mutex_destroy(&ser);
    CHECK(cs_heap_live() == 0, "leak", "%zu heap blocks left after deleting the queue", cs_heap_live());
}
static void run(void)
{
    nH = 0; clk = 0; nextv = 1; mh = mt = 0; A = 0; B = 0; ov_in = ov_out = 0;
    cs_defaults();
    useb = ch(4) == 3; serial = ch(5) == 4;
    cs_run(ch_p(1, 1500) ? vast : body);
}
const dst_harness harness = { .property = "C01", .name = "mpmc", .run = run,
  .rule = "one run = a queue of 1..16 slots, 1-3 rounds of 1-4 producers and 1-4 consumers each doing a random mix of waiting and non-waiting operations under a seeded schedule (plus legal stale reads in half of the runs), on a queue that, in 1 of 12 runs, has been made as old as 2^8..2^47 operations; rarely one thread moving some 10^5 items through a small or a very large queue; non-trivial: more successful operations than twice the capacity (so the slots wrapped) or more than 8; distinct by the hash of the whole event and schedule log" };
