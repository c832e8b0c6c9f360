/* C03: ring buffer, batches */
#include "thr.h"
#include "utils/utils.h"
#include "fast/ringbuf.h"

#define MAXB 24
typedef struct { uint8_t kind, fixed, thr, done; int n, got; uint32_t inv, ret; uint32_t v[MAXB]; } bat;
static bat Bt[400]; static unsigned nB;
static rte_ring *R; static unsigned cap, usz, family; static int sp, sc;
static unsigned nprod, ncons; static uint32_t nextv;
static struct { int n, retry; uint8_t k[24], fx[24]; } plan[CS_MAXT];
static unsigned stock;

static void *P(uint32_t v) { return (void*)((uintptr_t)v * 0x9e3779b97f4a7c15ull | 1); }
static uint32_t U(void *p)
{
    uintptr_t x = (uintptr_t)p;
    for (uint32_t v = 1; v < nextv; v++) if (P(v) == (void*)x) return v;
    violation("invented-item", "the ring delivered a pointer that nobody stored");
}
static int do_enq(int n, int fixed)
{
    if (nB >= NELEM(Bt)) discard();
    BAR; void *o[MAXB]; bat *b = &Bt[nB++];
    *b = (bat){ .kind = ENQ, .fixed = (uint8_t)fixed, .thr = (uint8_t)cs_self(), .n = n, .inv = ++clk, .ret = ~0u };
    for (int i = 0; i < n; i++) { b->v[i] = nextv++; o[i] = P(b->v[i]); }
    int r, exp = family && sp ? 1 : family ? 2 : 0;
    BAR;
    if (n == 1 && fixed == 2) {
        r = exp == 0 ? rte_ring_enqueue(R, o[0]) : exp == 1 ? rte_ring_sp_enqueue(R, o[0]) : rte_ring_mp_enqueue(R, o[0]);
    } else if (fixed)
        r = exp == 0 ? rte_ring_enqueue_bulk(R, o, (unsigned)n) : exp == 1 ? rte_ring_sp_enqueue_bulk(R, o, (unsigned)n) : rte_ring_mp_enqueue_bulk(R, o, (unsigned)n);
    else
        r = exp == 0 ? rte_ring_enqueue_burst(R, o, (unsigned)n) : exp == 1 ? rte_ring_sp_enqueue_burst(R, o, (unsigned)n) : rte_ring_mp_enqueue_burst(R, o, (unsigned)n);
    if (fixed) { CHECK(r == -ENOBUFS || r == 0 || r == n, "return-code", "fixed enqueue of %d returned %d", n, r); b->got = r < 0 ? 0 : n; }
    else { CHECK(r >= 0 && r <= n, "return-code", "best-effort enqueue of %d returned %d", n, r); b->got = r; }
    BAR;
    b->ret = ++clk; b->done = 1;
    BAR;
    ev("T%d enq %s %d -> %d", cs_self(), fixed ? "fixed" : "burst", n, b->got);
    return b->got;
}
static int do_deq(int n, int fixed)
{
    if (nB >= NELEM(Bt)) discard();
    BAR; void *o[MAXB]; bat *b = &Bt[nB++];
    for (int i = 0; i < MAXB; i++) o[i] = 0;
    *b = (bat){ .kind = DEQ, .fixed = (uint8_t)fixed, .thr = (uint8_t)cs_self(), .n = n, .inv = ++clk, .ret = ~0u };
    int r, exp = family && sc ? 1 : family ? 2 : 0;
    BAR;
    if (n == 1 && fixed == 2)
        r = exp == 0 ? rte_ring_dequeue(R, o) : exp == 1 ? rte_ring_sc_dequeue(R, o) : rte_ring_mc_dequeue(R, o);
    else if (fixed)
        r = exp == 0 ? rte_ring_dequeue_bulk(R, o, (unsigned)n) : exp == 1 ? rte_ring_sc_dequeue_bulk(R, o, (unsigned)n) : rte_ring_mc_dequeue_bulk(R, o, (unsigned)n);
    else
        r = exp == 0 ? rte_ring_dequeue_burst(R, o, (unsigned)n) : exp == 1 ? rte_ring_sc_dequeue_burst(R, o, (unsigned)n) : rte_ring_mc_dequeue_burst(R, o, (unsigned)n);
    if (fixed) { CHECK(r == -ENOENT || r == 0 || r == n, "return-code", "fixed dequeue of %d returned %d", n, r); b->got = r < 0 ? 0 : n; }
    else { CHECK(r >= 0 && r <= n, "return-code", "best-effort dequeue of %d returned %d", n, r); b->got = r; }
    for (int i = 0; i < b->got; i++) b->v[i] = U(o[i]);
    for (int i = b->got; i < MAXB; i++) CHECK(!o[i], "buffer", "dequeue wrote past the %d items it reported", b->got);
    BAR;
    b->ret = ++clk; b->done = 1;
    BAR;
    ev("T%d deq %s %d -> %d first %u", cs_self(), fixed ? "fixed" : "burst", n, b->got, b->got ? b->v[0] : 0);
    return b->got;
}
static void *prod(void *a) { int k = (int)(intptr_t)a; for (int i = 0; i < plan[k].n; i++) for (int t = 0; t <= plan[k].retry; t++) { if (do_enq(plan[k].k[i], plan[k].fx[i])) break; cs_yield(); } return 0; }
static void *cons(void *a) { int k = (int)(intptr_t)a; for (int i = 0; i < plan[k].n; i++) for (int t = 0; t <= plan[k].retry; t++) { if (do_deq(plan[k].k[i], plan[k].fx[i])) break; cs_yield(); } return 0; }
static void quiet(void)
{
    stock = 0;
    for (unsigned i = 0; i < nB; i++) { if (Bt[i].kind == ENQ) stock += (unsigned)Bt[i].got; else stock -= (unsigned)Bt[i].got; }
    CHECK(rte_ring_count(R) == stock, "size", "idle ring reports %u items, %u are held", rte_ring_count(R), stock);
    CHECK(rte_ring_free_count(R) == cap - stock, "size", "idle ring reports %u free, %u are", rte_ring_free_count(R), cap - stock);
    CHECK(!rte_ring_full(R) == !(stock == cap), "full-query", "idle ring of %u/%u reports full=%d", stock, cap, rte_ring_full(R));
    CHECK(!rte_ring_empty(R) == !(stock == 0), "empty-query", "idle ring of %u/%u reports empty=%d", stock, cap, rte_ring_empty(R));
}
static void alone(int kind, int n, int fixed)
{
    unsigned room = kind == ENQ ? cap - stock : stock;
    int g = kind == ENQ ? do_enq(n, fixed) : do_deq(n, fixed);
    int want = (unsigned)n <= room ? n : fixed ? 0 : (int)room;
    CHECK(g == want, kind == ENQ ? "enqueue-count" : "dequeue-count", "idle ring %u/%u: %s %s of %d transferred %d, should be %d", stock, cap, fixed ? "fixed" : "best-effort", kind == ENQ ? "enqueue" : "dequeue", n, g, want);
    quiet();
}
static void judge(void)
{
    /* expand batches to items */
    nH = 0; unsigned per[2] = {0, 0};
    static uint32_t batof[1<<14]; static uint8_t pos[1<<14];
    for (unsigned i = 0; i < nB; i++) for (int k = 0; k < Bt[i].got; k++) {
        if (nH >= MAXOP) discard();
        H_[nH++] = (op_t){ .kind = Bt[i].kind, .ok = 1, .thr = Bt[i].thr, .v = Bt[i].v[k], .inv = Bt[i].inv, .ret = Bt[i].ret, .done = 1 };
        per[Bt[i].kind == DEQ]++;
        if (Bt[i].kind == ENQ) { batof[Bt[i].v[k]] = i; pos[Bt[i].v[k]] = (uint8_t)k; }
    }
    fifo_check(cap, 1);
    for (unsigned i = 0; i < nB; i++) if (Bt[i].kind == DEQ)
        for (int k = 1; k < Bt[i].got; k++) {
            uint32_t x = Bt[i].v[k-1], y = Bt[i].v[k];
            if (batof[x] == batof[y]) CHECK(pos[y] == pos[x] + 1, "contiguity", "items %u,%u of one batch were delivered out of sequence", x, y);
            else CHECK(pos[x] == Bt[batof[x]].got - 1 && pos[y] == 0, "contiguity", "a batch was split: item %u follows item %u inside one dequeue", y, x);
        }
    if (cs_cfg.weak) return;
    for (unsigned i = 0; i < nB; i++) {
        bat *b = &Bt[i];
        if (b->got == b->n) continue;
        int e0 = 0, e1 = 0, d0 = 0, d1 = 0;   /* 0: finished before I began, 1: begun before I finished */
        for (unsigned k = 0; k < nB; k++) if (k != i) {
            if (Bt[k].kind == ENQ) { if (Bt[k].ret < b->inv) e0 += Bt[k].got; if (Bt[k].inv < b->ret) e1 += Bt[k].got; }
            else { if (Bt[k].ret < b->inv) d0 += Bt[k].got; if (Bt[k].inv < b->ret) d1 += Bt[k].got; }
        }
        int need = b->fixed ? b->n : b->got + 1;
        if (b->kind == ENQ) CHECK(e1 - d0 + need > (int)cap, "spurious-full", "%s enqueue of %d took %d although room for %d was there throughout", b->fixed ? "fixed" : "best-effort", b->n, b->got, need);
        else CHECK(e0 - d1 < need, "spurious-empty", "%s dequeue of %d got %d although %d items were there throughout", b->fixed ? "fixed" : "best-effort", b->n, b->got, need);
    }
}
/* transfers by one thread, outside the recorded history */
static uint64_t vi, vo;
static void *VP(uint64_t v) { return (void*)(uintptr_t)((v + 0x51000000) * 0x9e3779b97f4a7c15ull | 1); }
static int x_enq(void **o, unsigned n, int fixed)
{
    int exp = family && sp ? 1 : family ? 2 : 0;
    return fixed ? exp == 0 ? rte_ring_enqueue_bulk(R, o, n) : exp == 1 ? rte_ring_sp_enqueue_bulk(R, o, n) : rte_ring_mp_enqueue_bulk(R, o, n)
                 : exp == 0 ? rte_ring_enqueue_burst(R, o, n) : exp == 1 ? rte_ring_sp_enqueue_burst(R, o, n) : rte_ring_mp_enqueue_burst(R, o, n);
}
static int x_deq(void **o, unsigned n, int fixed)
{
    int exp = family && sc ? 1 : family ? 2 : 0;
    return fixed ? exp == 0 ? rte_ring_dequeue_bulk(R, o, n) : exp == 1 ? rte_ring_sc_dequeue_bulk(R, o, n) : rte_ring_mc_dequeue_bulk(R, o, n)
                 : exp == 0 ? rte_ring_dequeue_burst(R, o, n) : exp == 1 ? rte_ring_sc_dequeue_burst(R, o, n) : rte_ring_mc_dequeue_burst(R, o, n);
}
static void v_move(int kind, void **o, unsigned n, int fixed)
{
    uint64_t held = vi - vo, room = kind == ENQ ? cap - held : held;
    int want = n <= room ? (int)n : fixed ? 0 : (int)room;
    if (kind == ENQ) for (unsigned i = 0; i < n; i++) o[i] = VP(vi + i);
    int r = kind == ENQ ? x_enq(o, n, fixed) : x_deq(o, n, fixed);
    int got = fixed ? (r == (kind == ENQ ? -ENOBUFS : -ENOENT) ? 0 : (int)n) : r;
    CHECK(got == want && (fixed ? got ? r == 0 || r == got : r < 0 || !n : 1), kind == ENQ ? "enqueue-count" : "dequeue-count", "idle ring %llu/%u: %s %s of %u returned %d", (unsigned long long)held, cap, fixed ? "fixed" : "best-effort", kind == ENQ ? "enqueue" : "dequeue", n, r);
    if (kind == ENQ) vi += (unsigned)got;
    else { for (int i = 0; i < got; i++) CHECK(o[i] == VP(vo + (unsigned)i), "order", "item %llu was not delivered at its place", (unsigned long long)(vo + (unsigned)i)); vo += (unsigned)got; }
    uint64_t c = vi - vo;
    CHECK(rte_ring_count(R) == c && rte_ring_free_count(R) == cap - c, "size", "idle ring reports %u items and %u free, %llu of %u are held", rte_ring_count(R), rte_ring_free_count(R), (unsigned long long)c, cap);
    CHECK(!rte_ring_full(R) == !(c == cap) && !rte_ring_empty(R) == !(c == 0), "full-query", "idle ring of %llu/%u reports full=%d empty=%d", (unsigned long long)c, cap, rte_ring_full(R), rte_ring_empty(R));
}
/* A ring that has been in use for very long: its four counters are recognised by their value after a known
   number of transfers and moved on by a multiple of the size; with another layout nothing is changed. */
static void age(unsigned p2)
{
    int races = cs_cfg.races, pp = cs_cfg.plain_points; cs_cfg.races = cs_cfg.plain_points = 0; cs_cfg.solo = 1;
    unsigned N = p2 * (2 + ch(4)) + 40 + ch(20); void *o[1];
    for (unsigned i = 0; i < N; i++) { v_move(ENQ, o, 1, 1); v_move(DEQ, o, 1, 1); }
    uint64_t *h = (uint64_t*)R; uint32_t *h4 = (uint32_t*)R; unsigned n8 = 0, n4 = 0, i8[4], i4[4];
    for (unsigned i = 0; i < sizeof *R / 8; i++) if (h[i] == N) { if (n8 < 4) i8[n8] = i; n8++; }
    for (unsigned i = 0; i < sizeof *R / 4; i++) if (h4[i] == N) { if (n4 < 4) i4[n4] = i; n4++; }
    static const uint8_t bits[] = { 8, 15, 16, 17, 31, 32, 33, 40, 47 };
    unsigned b = bits[ch(NELEM(bits))], back = ch(40);
    uint64_t add = ((1ull << b) - back) / p2 * p2;
    if (n8 == 4 && n4 == 4) for (unsigned i = 0; i < 4; i++) __atomic_store_n(&h[i8[i]], N + add, __ATOMIC_SEQ_CST);
    else if (n4 == 4) for (unsigned i = 0; i < 4; i++) __atomic_store_n(&h4[i4[i]], (uint32_t)(N + add), __ATOMIC_SEQ_CST);
    if (n4 == 4) { fault_note("old-ring"); ev("aged by %llu", (unsigned long long)add); } else tally("not_aged", 1);
    cs_cfg.races = races; cs_cfg.plain_points = pp; cs_cfg.solo = 0;
}
static void vast(void)
{
    cs_cfg.weak = 0; cs_cfg.plain_points = 0; cs_cfg.races = 0; cs_cfg.solo = 1;
    sp = ch(3) == 2; sc = ch(3) == 2; family = ch(3) == 2;
    usz = ch(2) ? 1u << (16 + ch(3)) : 40000 + ch(90000);
    unsigned p2; for (p2 = 1; p2 < usz; p2 *= 2);
    cap = p2 - 1;
    R = rte_ring_create(usz, (sp ? RING_F_SP_ENQ : 0) | (sc ? RING_F_SC_DEQ : 0));
    void **o = cs_malloc((p2 + 8) * sizeof *o);
    unsigned ops = ch_range(4, 24);
    for (unsigned k = 0; k < ops; k++) {
        int kind = ch(5) < 3 ? ENQ : DEQ;
        unsigned held = (unsigned)(vi - vo), room = kind == ENQ ? cap - held : held, m = ch(6);
        unsigned n = m == 0 ? room : m == 1 && room ? room - 1 : m == 2 ? room + 1 : m == 3 ? ch(100) + 1 : m == 4 ? 65535 + ch(3) : 1 + ch(p2);
        if (n > p2) n = p2;
        if (!n) n = 1;
        v_move(kind, o, n, (int)ch(2));
    }
    while (vi != vo) v_move(DEQ, o, ch(4) ? 1 + ch(p2) : (unsigned)(vi - vo), 0);
    v_move(DEQ, o, 1, 1); v_move(DEQ, o, 1, 0);
    cs_free(o); rte_ring_destroy(R);
    CHECK(cs_heap_live() == 0, "leak", "%zu heap blocks left after destroying the ring", cs_heap_live());
    tally("large_rings", 1); run_nontrivial();
    sample("ring %u: %llu items in batches of thousands", p2, (unsigned long long)vi);
}
static void body(void)
{
    static const unsigned szs[] = { 2, 4, 4, 8, 8, 16, 3, 5, 32 };
    usz = szs[ch(NELEM(szs))];
    unsigned p2; for (p2 = 1; p2 < usz; p2 *= 2);
    cap = p2 - 1;
    sp = ch(3) == 2; sc = ch(3) == 2; family = ch(3) == 2;
    unsigned flags = (sp ? RING_F_SP_ENQ : 0) | (sc ? RING_F_SC_DEQ : 0);
    void *mem = 0;
    if (ch(4) == 3) {
        size_t need = rte_ring_size(p2), room = need + ch(2) * 64, r2 = need - 1, r0 = room;
        mem = cs_malloc(room);
        CHECK(!rte_ring_create_from(usz, flags, mem, &r2), "create", "a ring of %u was placed into a buffer that is too small", usz);
        R = rte_ring_create_from(usz, flags, mem, &room);
        CHECK(R && room == r0 - need, "create", "ring creation in a sufficient buffer failed");
    } else R = rte_ring_create(usz, flags);
    if (ch_p(1, 12)) age(p2);
    quiet();
    unsigned rounds = ch_range(1, 3);
    for (unsigned r = 0; r < rounds; r++) {
        nprod = sp ? 1 : ch_range(1, 3); ncons = sc ? 1 : ch_range(1, 3);
        unsigned maxops = ch_range(1, 10), maxn = ch(3) == 0 ? 1 : ch_range(1, cap < 20 ? cap + 1 : 20);
        pthread_t t[10]; unsigned n = 0;
        for (unsigned i = 0; i < nprod + ncons; i++) {
            plan[i].n = (int)ch_range(1, maxops); plan[i].retry = (int)ch(6);
            unsigned fx = ch(3);
            for (int k = 0; k < plan[i].n; k++) { plan[i].k[k] = (uint8_t)ch_range(1, maxn); plan[i].fx[k] = (uint8_t)(fx == 2 ? ch(3) : fx ? 1 + ch(2) : 0); }
        }
        for (unsigned i = 0; i < nprod + ncons; i++)
            pthread_create(&t[n++], 0, i < nprod ? prod : cons, (void*)(intptr_t)i);
        for (unsigned i = 0; i < n; i++) pthread_join(t[i], 0);
        quiet();
        unsigned extra = ch(4);
        for (unsigned k = 0; k < extra; k++) alone(ch(2) ? ENQ : DEQ, (int)ch_range(1, cap < 20 ? cap + 1 : 20), (int)ch(2));
        if (ch(4) == 0) {
            while (stock < cap) alone(ENQ, 1, (int)(1 + ch(2)));
            alone(ENQ, 1, 1); alone(ENQ, 1, 0);
        }
    }
    while (stock) alone(DEQ, (int)(stock < 20 ? stock : 20), 0);
    alone(DEQ, 1, 1);
    judge();
    int items = 0, ref = 0; for (unsigned i = 0; i < nB; i++) { items += Bt[i].got; ref += Bt[i].got < Bt[i].n; }
    tally("items_moved", (uint64_t)items); tally("batches_refused_or_cut", (uint64_t)ref); tally("batches", nB);
    if (items > 2 * (int)cap && nB > 6) run_nontrivial();
    sample("ring %u (asked %u) %s/%s%s: %u batches, %d items moved, %d refused or cut", p2, usz, sp ? "sp" : "mp", sc ? "sc" : "mc", family ? " explicit" : "", nB, items, ref);
    if (mem) cs_free(mem); else rte_ring_destroy(R);
    CHECK(cs_heap_live() == 0, "leak", "%zu heap blocks left after destroying the ring", cs_heap_live());
}
static void run(void) { nH = 0; clk = 0; nextv = 1; nB = 0; R = 0; vi = vo = 0; cs_defaults(); cs_run(ch_p(1, 1500) ? vast : body); }
const dst_harness harness = { .property = "C03", .name = "ringbuf", .run = run,
  .rule = "one run = a ring of 2..32 slots, 1-3 rounds of 1-3 producers and 1-3 consumers doing single, fixed-size and best-effort batch transfers of 1..20 items under a seeded schedule (legal stale reads and spurious CAS failures where the language allows them), on a ring that, in 1 of 12 runs, has been made as old as 2^8..2^47 transfers; rarely one thread moving batches of up to 2^18 items through a ring that large; non-trivial: more items moved than twice the capacity in more than 6 batches; distinct by the hash of the whole event and schedule log" };
