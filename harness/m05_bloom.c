/* M05: bloom filters never forget a member, for any salt and history */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include "utils/bloom.h"
#define MAXK 120000
static uint64_t KEY[MAXK]; static uint32_t cnt[MAXK]; static unsigned nk; static uint64_t adds, maxadds;
enum { STD, SCALE, COUNT };
static int kind; static prng salts; static int saltmode;
static void entropy(void *p, size_t n)
{
    uint8_t *d = p;
    for (size_t i = 0; i < n; i++) d[i] = saltmode == 0 ? 0 : saltmode == 1 ? 0xff : (uint8_t)prng_next(&salts);
}
static Bloom *make(Bloom *store, uint64_t n, double e)
{
    if (store) return kind == COUNT ? Counting_bloom_init(store, n, e) : Standard_bloom_init(store, n, e, kind == SCALE);
    return kind == COUNT ? Counting_bloom_new(n, e) : Standard_bloom_new(n, e, kind == SCALE);
}
static uint64_t items(Bloom *b, int *filters)
{
    int keep = os_cfg.alloc; os_cfg.alloc = 0;      /* the description needs memory of its own */
    size_t z = 24000; char *buf = os_malloc(z); uint64_t sum = 0; int nf = 0;
    CHECK(Bloom_desc(b, buf, z) == buf, "desc", "the description is not in the buffer");
    for (char *p = buf; (p = strstr(p, " elem")); p += 5) {
        char *q = p; while (q > buf && q[-1] >= '0' && q[-1] <= '9') q--;
        CHECK(q < p, "desc", "no item count in \"%s\"", buf);
        sum += strtoull(q, 0, 10); nf++;
    }
    CHECK(nf, "desc", "no item count in \"%.200s\"", buf);
    os_cfg.alloc = keep; os_free(buf); if (filters) *filters = nf; return sum;
}
static void all_present(Bloom *b)
{
    for (unsigned i = 0; i < nk; i++) if (cnt[i]) CHECK(Bloom_find(b, KEY[i]), "forgotten", "key %u, added %u times more than removed, is reported absent", i, cnt[i]);
}
static void run(void)
{
    os_reset();
    static const double es[] = { 0.01, 0.9, 0.5, 0.1, 0.001, 1e-4, 1e-7 };
    kind = (int)ch(3); double e = es[ch(NELEM(es))]; uint64_t n = ch(4) ? ch(ch(2) ? 8 : 300) : 1000 + ch(1000);
    saltmode = (int)ch(5); salts.s = ch_seed(); os_entropy = entropy; os_cfg.entropy = ch(4) == 3; os_cfg.alloc = (int)ch(2);
    if (e < 1e-5 && n > 500) n = 500;
    prng g = { ch_seed() };
    int fp = n >= 1000; /* double hashing cannot reach low rates in small filters */
    if (fp && kind == SCALE && ch(2) && e > 5e-4) n = 500 + ch(500);
    int vast = fp && ch(300) == 299; if (vast) { n = kind == SCALE ? 20000 + ch(40000) : 66000 + ch(50000); }
    nk = fp ? (unsigned)(kind == SCALE ? (vast ? 66000 + ch(50000) : 1000 + ch(5000)) : n) : 1 + ch(ch(3) ? 60 : 1500);
    for (unsigned i = 0; i < nk; i++) { KEY[i] = prng_next(&g); cnt[i] = 0; }
    if (!fp && ch(2)) for (unsigned i = 0; i < nk; i++) KEY[i] = i < 4 ? (uint64_t)0 - (i & 1) : i;      /* keys with structure */
    if (nk > 2 && !fp && KEY[0] == 0) { KEY[1] = ~0ull; if (nk > 3) { KEY[2] = 2; KEY[3] = 3; } }
    adds = maxadds = 0;
    size_t base = os_heap_live(); int own = (int)ch(2);
    Bloom *store = own ? os_malloc(sizeof *store) : 0; if (own) memset(store, 0xa9, sizeof *store);
    /* a design that no memory holds */
    int vastly = ch(400) == 399; if (vastly) n = ch(2) ? (SIZE_MAX - ch(70)) >> ch(8) : (1ull << (56 + ch(8))) / (1 + ch(3)) + ch(3);
    Bloom *b = make(store, n, e);
    if (vastly) { CHECK(!b, "impossible", "a filter for %llu items is created", (unsigned long long)n); if (own) os_free(store); CHECK(os_heap_live() == base, "leak", "failed creation left %zu blocks", os_heap_live() - base); tally("impossible_designs", 1); run_nontrivial(); return; }
    if (!b) {
        CHECK(os_fired("alloc"), "spurious-failure", "creation failed without cause");
        if (own) os_free(store);
        CHECK(os_heap_live() == base, "leak", "failed creation left %zu blocks", os_heap_live() - base);
        tally("create_failed", 1); run_nontrivial(); return;
    }
    if (own) CHECK(b == store, "return", "initialisation returned another object");
    uint64_t s0 = (uint64_t)0; (void)s0;
    CHECK(items(b, 0) == 0, "count", "a new filter is not empty");
    for (unsigned i = 0; i < (nk < 100 ? nk : 100); i++) CHECK(!Bloom_find(b, KEY[i]), "phantom", "a new filter reports a key present");
    ev("kind %d n %llu e %g keys %u salts %d", kind, (unsigned long long)n, e, nk, saltmode);
    unsigned removed = 0, refused = 0, steps; int filters = 1;
    if (fp) {
        for (unsigned i = 0; i < nk; i++) { Bloom_probe(b, KEY[i]); cnt[i]++; adds++; }
        steps = nk;
        unsigned N = 20000, hit = 0; for (unsigned i = 0; i < N; i++) hit += Bloom_find(b, prng_next(&g)) != 0;
        double lim = (kind == SCALE ? 20 : 5) * e * N + 30;
        if (!os_fired("") && saltmode > 1) CHECK(hit <= lim, "false-positives", "%u of %u keys that were not added are reported present, requested %g", hit, N, e);
        tally("fp_probes", N);
    } else {
        steps = 20 + ch(ch(3) ? 300 : 6000);
        unsigned padd = 30 + ch(60), hot = ch(3) == 2 ? 1 + ch(4) : 0;
        for (unsigned s = 0; s < steps; s++) {
            uint64_t r = prng_next(&g); unsigned k = (unsigned)((r >> 20) % (hot && (r & 0x700) ? (hot < nk ? hot : nk) : nk)), op = (unsigned)(r % 100);
            if (op < padd) {
                unsigned rep = hot && (r >> 60) == 0 ? 1 + (unsigned)((r >> 50) % 300) : 1;
                for (unsigned q = 0; q < rep; q++) { Bloom_probe(b, KEY[k]); adds++; cnt[k]++; }
                if (adds > maxadds) maxadds = adds;
                CHECK(Bloom_find(b, KEY[k]), "forgotten", "a key just added is reported absent");
                evq(1, k, rep);
            } else if (op < padd + (100 - padd) / 2) {
                int was = Bloom_find(b, KEY[k]) != 0;
                if (cnt[k] && kind == COUNT) {
                    CHECK(Bloom_remove(b, KEY[k]), "remove", "removing a key that is present reports it absent"); cnt[k]--; adds--; removed++;
                    if (cnt[k]) CHECK(Bloom_find(b, KEY[k]), "forgotten", "a key is reported absent before it was removed as often as added");
                    evq(2, k, 0);
                } else if (!was || kind != COUNT) {
                    int q = Bloom_remove(b, KEY[k]);
                    if (kind == COUNT) CHECK(q == 0, "remove", "removing an absent key reports success");
                    CHECK((Bloom_find(b, KEY[k]) != 0) == was, "remove", "removing changed the answer for a key that was not to be removed"); refused++;
                    evq(3, k, 0);
                }
            } else if (op < 96) {
                int q = Bloom_find(b, KEY[k]) != 0; if (cnt[k]) CHECK(q, "forgotten", "key %u is reported absent", k);
                evq(4, k, (uint64_t)q);
            } else if (op == 96 || nk < 80) all_present(b);
            if (op >= 98) CHECK(items(b, &filters) == adds, "count", "the item count is %llu after %llu accepted additions", (unsigned long long)items(b, 0), (unsigned long long)adds);
        }
    }
    all_present(b);
    CHECK(items(b, &filters) == adds, "count", "the item count is %llu after %llu accepted additions", (unsigned long long)items(b, 0), (unsigned long long)adds);
    if (kind == COUNT && ch(2)) {              /* take everything out again */
        for (unsigned i = 0; i < nk; i++) while (cnt[i]) { CHECK(Bloom_remove(b, KEY[i]), "remove", "removing a key that is present reports it absent"); cnt[i]--; adds--; if (!(cnt[i] & 7)) if (nk < 100) all_present(b); }
        CHECK(items(b, 0) == 0, "count", "the item count is not 0 after everything was removed");
        /* no counter can have been at its limit */
        if (maxadds < 255 && !fp) for (unsigned i = 0; i < nk; i++) CHECK(!Bloom_find(b, KEY[i]), "not-removed", "key %u is reported present after everything was removed", i);
    }
    CHECK(Bloom_eq(b, b), "eq", "a filter differs from itself");
    if (own) Bloom_fini(b); else Bloom_delete(b);
    if (own) os_free(store);
    CHECK(os_heap_live() == base, "leak", "%zu blocks left", os_heap_live() - base);
    tally("operations", steps); tally("removals", removed); tally("absent_removals", refused); tally("filters", (uint64_t)filters); tally("refused_growth", os_fired("alloc"));
    cover(mix64(mix64((uint64_t)kind * 10 + (uint64_t)saltmode, n), mix64(adds * 64 + (uint64_t)filters, removed * 1000ull + refused)));
    if (steps > 20) run_nontrivial();
    sample("%s filter for %llu keys, rate %g: %u operations on %u keys, %u removals, %u of absent keys, %d filters at the end, %u failed allocations", kind == COUNT ? "counting" : kind == SCALE ? "scalable" : "standard", (unsigned long long)n, e, steps, nk, removed, refused, filters, os_fired("alloc"));
}
const dst_harness harness = { .property = "M05", .name = "bloom", .run = run,
  .rule = "one run = one standard, scalable or counting filter of any capacity (0..2000, rarely up to 116000) and error rate, in its own or the caller's (garbage-filled) storage, any salts and failing entropy or allocations, under 20..6000 seeded additions, removals and lookups against a counting model, or filled to capacity and probed with 20000 other keys; non-trivial: more than 20 operations or a failed creation; distinct by the hash of the whole event log" };
