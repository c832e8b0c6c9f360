/* M04: compact hash table under adversarial salts and histories */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include "utils/fast-ht.h"

#define MAXK 150000
static uint64_t K[MAXK]; static void *val[MAXK]; static uint8_t has[MAXK]; static unsigned nk, live, peak;
static uint64_t salts[4]; static unsigned saltmode, nsalt;
static void ent(void *p, size_t n)
{
    uint8_t *b = p; prng g = { salts[nsalt & 3] ^ nsalt };
    for (size_t i = 0; i < n; i++) b[i] = saltmode == 0 ? (uint8_t)prng_next(&g) : saltmode == 1 ? 0 : saltmode == 2 ? 0xff : (uint8_t)(salts[0] >> (8 * (i & 7)));
    nsalt++;
}
static int keycmp(const void *a, const void *b) { uint64_t x = *(const uint64_t*)a, y = *(const uint64_t*)b; return x < y ? -1 : x > y; }
static void find(ht *h, unsigned i)
{
    void *out = (void*)0x77; int r = ht_find(h, K[i], &out);
    CHECK(!!r == has[i], "find", "find says %d for a key that is %s", r, has[i] ? "present" : "absent");
    if (r) CHECK(out == val[i], "find", "find returned another value than the stored one");
    CHECK(!!ht_find(h, K[i], 0) == has[i], "find", "find without output disagrees");
}
static void run(void)
{
    os_reset(); os_low_fds(); os_entropy = ent; os_cfg.entropy = 0;
    saltmode = ch(6); nsalt = 0; for (int i = 0; i < 4; i++) salts[i] = ch_seed();
    unsigned fam = ch(7), big = ch(12) == 0; prng g = { ch_seed() };
    nk = big ? 500 + ch(5500) : 1 + ch(300); int vast = ch(1500) == 1499; if (vast) { nk = 66000 + ch(80000); big = 1; fam = ch(2); if (saltmode < 3 && saltmode) saltmode = 4; }
    for (unsigned i = 0; i < nk; i++) {
        uint64_t r = prng_next(&g), k;
        switch (fam) {
        case 0: k = i + 1; break;
        case 1: k = r; break;
        case 2: k = (uint64_t)(i + 1) << 8; break;              /* fingerprint byte 0 */
        case 3: k = ((uint64_t)(i + 1) << 8) | 0x80; break;     /* one fingerprint for all */
        case 4: k = (uint64_t)(i + 1) << 32; break;
        case 5: k = 1ull << (r & 63) ^ (i >> 4); break;
        default: k = r & 0xff00ff; break;
        }
        if (!k) k = ~0ull - i;
        K[i] = k;
    }
    qsort(K, nk, sizeof K[0], keycmp);
    unsigned w = 0; for (unsigned i = 0; i < nk; i++) if (!w || K[w - 1] != K[i]) K[w++] = K[i];
    nk = w; memset(has, 0, nk); memset(val, 0, nk * sizeof val[0]); live = peak = 0;
    static const uint32_t sz[] = { 1, 2, 0, 3, 4, 8, 16, 50, 128, 1000 }, mf[] = { 0, 1, 10, 50, 85, 100, 1000, 200 };
    uint32_t size = sz[ch(NELEM(sz))], maxfill = mf[ch(vast ? 5 : NELEM(mf))]; if (vast && maxfill < 50) maxfill = 0;
    size_t base = os_heap_live(); ht st, *h; int isnew = (int)ch(2);
    memset(&st, 0x5a, sizeof st);
    h = isnew ? ht_new(size, maxfill) : ht_init(&st, size, maxfill);
    CHECK(h && (isnew || h == &st), "return", "creation returned %p", (void*)h);
    ev("size %u maxfill %u family %u keys %u", size, maxfill, fam, nk);
    unsigned steps = big ? nk * 2 + ch(8000) : 10 + ch(900), removed = 0, refused = 0, hot = 1 + ch(nk);
    unsigned padd = 20 + ch(60), churn = ch(4) == 0, nullval = ch(3) == 0;
    for (unsigned s = 0; s < steps; s++) {
        uint64_t r = prng_next(&g); unsigned i = (unsigned)((r >> 8) % (churn ? hot : nk)), op = (unsigned)(r & 0xff) * 100 / 256;
        void *v = nullval && (r >> 40) % 8 == 0 ? 0 : (void*)(uintptr_t)((r >> 20) | 1), *out = (void*)0x77;
        if (s % 500 == 499) padd = 10 + (unsigned)(prng_next(&g) % 80);
        if (op < padd) {
            void *e = ht_probe(h, K[i], v);
            if (has[i]) { CHECK(e == val[i], "probe", "probe of a present key returned another value than the stored one"); refused++; }
            else { CHECK(!e, "probe", "probe of an absent key returned a value"); has[i] = 1; val[i] = v; if (++live > peak) peak = live; }
        } else if (op < padd + (100 - padd) / 2) {
            int x = ht_remove(h, K[i], (r >> 60) & 1 ? &out : 0);
            CHECK(!!x == has[i], "remove", "remove says %d for a key that is %s", x, has[i] ? "present" : "absent");
            if (x) { if ((r >> 60) & 1) CHECK(out == val[i], "remove", "remove returned another value than the stored one"); has[i] = 0; live--; removed++; }
        } else if (op < padd + (100 - padd) * 3 / 4) {
            int x = ht_replace(h, K[i], v);
            CHECK(!!x == has[i], "replace", "replace says %d for a key that is %s", x, has[i] ? "present" : "absent");
            if (x) val[i] = v;
        } else find(h, i);
        CHECK(h->nodes == live, "count", "the table counts %llu items, it holds %u", (unsigned long long)h->nodes, live);
        if (s % 8 == 0) find(h, (unsigned)(prng_next(&g) % nk));
    }
    for (unsigned i = 0; i < nk; i++) find(h, i);
    /* keys never stored */
    for (unsigned i = 0; i < 20; i++) { uint64_t k = prng_next(&g) | 1; if (!bsearch(&k, K, nk, sizeof k, keycmp)) CHECK(!ht_find(h, k, 0), "phantom", "a key that was never stored is found"); }
    uint64_t fillpct = maxfill ? maxfill : 85, buckets = size ? size : 128; while (buckets & (buckets - 1)) buckets++;
    uint64_t need = 4ull * peak * (100 / fillpct + 2); if (need > buckets) buckets = need;
    CHECK(os_heap_total() < 4096 + buckets * 64 + (uint64_t)(buckets < peak * 100ull ? buckets : peak * 100ull) * 600 + peak * 1024ull, "growth", "%zu bytes held by a table that never had more than %u items", os_heap_total(), peak);
    unsigned splits = h->splits;
    if (isnew) ht_del(h); else ht_fini(h);
    CHECK(os_heap_live() == base, "leak", "%zu blocks left after deleting the table", os_heap_live() - base);
    tally("operations", steps); tally("growths", splits); tally("removed", removed);
    cover(mix64(mix64(size, maxfill), mix64(fam * 1000 + peak, splits * 100000 + removed)));
    if (peak > 3 && removed) run_nontrivial();
    sample("size %u maxfill %u key family %u salt mode %u: %u operations, %u items at most, %u growths, %u removals, %u refused", size, maxfill, fam, saltmode, steps, peak, splits, removed, refused);
}
const dst_harness harness = { .property = "M04", .name = "fast-ht", .run = run,
  .rule = "one run = one table of any initial size and fill limit under a seeded history of 10..20000 (rarely 300000) probes, replacements, removals and finds over adversarial key families with chosen random salts; non-trivial: more than 3 items held and something removed; distinct by the hash of the whole event log" };
