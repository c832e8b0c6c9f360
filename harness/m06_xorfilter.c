/* M06: static xor filters contain every key they were built from */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include "utils/xorfilter.h"
#define MAXN 150000
static uint64_t key[MAXN]; static prng seeds; static int seedmode; static unsigned nseed, bad; static uint64_t fixed;
static void entropy(void *p, size_t n)
{
    uint8_t *d = p; nseed++;
    if (seedmode == 0 || nseed <= bad) { for (size_t i = 0; i < n; i++) d[i] = (uint8_t)(fixed >> (8 * (i & 7))); return; }
    if (seedmode == 1) fixed++, memcpy(d, &fixed, n < 8 ? n : 8); else for (size_t i = 0; i < n; i++) d[i] = (uint8_t)prng_next(&seeds);
}
static void run(void)
{
    os_reset(); os_low_fds(); os_entropy = entropy; seeds.s = ch_seed(); nseed = 0; bad = ch(3) ? 0 : ch(20); seedmode = ch(200) == 199 ? 0 : 1 + (int)ch(2);
    static const uint64_t fx[] = { 0, ~0ull, 1, 0x880355f21e6d1965ull * 8 }; fixed = ch(2) ? fx[ch(4)] : ch_seed();
    unsigned n = ch(3) ? 1 + ch(30) : ch(3) ? 1 + ch(300) : 1 + ch(4000); if (ch(2000) == 1999) n = 60000 + ch(80000); prng g = { ch_seed() }; unsigned ks = ch(4);
    if (ch(60) == 59) n = 0;
    for (unsigned i = 0; i < n; i++) key[i] = ks == 0 ? prng_next(&g) : ks == 1 ? i : ks == 2 ? (uint64_t)i << 32 : ~(uint64_t)i;
    int dup = 0; if (n > 1 && n < 40 && ch(2000) == 1999) { key[1] = key[0]; dup = 1; }
    if (seedmode == 0 && n > 12) n = 12;
    int w = (int)ch(2); os_cfg.alloc = ch(3) == 0; os_cfg.entropy = ch(4) == 3;
    size_t base = os_heap_live();
    uint64_t *k = os_malloc(n * sizeof *k); if (n) memcpy(k, key, n * sizeof *k);
    ev("n %u keys %u width %d seeds %d", n, ks, w ? 16 : 8, seedmode);
    Xorfilter *x = w ? Xorfilter_new16(k, n) : Xorfilter_new8(k, n);
    if (n) CHECK(!memcmp(k, key, n * sizeof *k), "input-changed", "the caller's keys were changed");
    os_free(k); os_cfg.alloc = 0; os_cfg.entropy = 0;
    if (!x) {
        CHECK(n == 0 || dup || seedmode == 0 || os_fired(""), "spurious-failure", "no filter for %u keys without cause", n);
        CHECK(os_heap_live() == base, "leak", "a failed construction left %ld blocks", (long)os_heap_live() - (long)base);
        tally("refused", 1); run_nontrivial(); cover(mix64(n, nseed * 8 + (unsigned)w)); return;
    }
    for (unsigned i = 0; i < n; i++) CHECK(Xorfilter_contains(x, key[i]), "forgotten", "key %u of %u is reported absent", i, n);
    unsigned N = ch(n >= 1500 ? 3 : 8) ? 200 : 40000, hit = 0; for (unsigned i = 0; i < N; i++) hit += Xorfilter_contains(x, mix64(0xabcdef ^ key[n ? i % n : 0], i)) != 0;
    if (N > 1000 && n >= 1500 && seedmode == 2) {    /* the rate is a claim about random seeds and about sets that are not tiny */
        double p = w ? 1 / 65536. : 1 / 256.;
        CHECK(hit <= 1.6 * p * N + 20, "false-positives", "%u of %u other keys are reported present", hit, N);
        tally("fp_probes", N);
    }
    double b = Xorfilter_bpe(x); if (n) CHECK(b >= (w ? 16 : 8) && b * n <= (w ? 16 : 8) * (1.3 * n + 40), "size", "%g bits for each of %u keys", b, n);
    Xorfilter_delete(x);
    CHECK(os_heap_live() == base, "leak", "%ld blocks left", (long)os_heap_live() - (long)base);
    tally("attempts", nseed); tally("built", 1); run_nontrivial();
    cover(mix64(mix64(n, ks * 2 + (unsigned)w), mix64(nseed, hit)));
    sample("%u-bit filter of %u keys after %u seeds, %u of %u others hit", w ? 16 : 8, n, nseed, hit, N);
}
const dst_harness harness = { .property = "M06", .name = "xorfilter", .run = run,
  .rule = "one run = one 8- or 16-bit filter built from 0..4000 (rarely 140000) keys of any structure, with any sequence of seeds (repeated, adversarial, random, failing) and failing allocations, then probed with its own and 200..40000 other keys; every run is non-trivial; distinct by the hash of the whole event log" };
