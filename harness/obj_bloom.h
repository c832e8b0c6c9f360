/* bloom filters as objects to be saved and loaded */
#include "utils/bloom.h"
static struct { int kind; uint64_t n, seed, kseed; double e; unsigned nkeys; } MD; static prng salt_g;
static void salt_entropy(void *p, size_t n) { uint8_t *d = p; while (n--) *d++ = (uint8_t)prng_next(&salt_g); }
static void obj_choose(void)
{
    static const double es[] = { 0.01, 0.5, 0.1, 0.001, 0.9 };
    MD.kind = (int)ch(3); MD.e = es[ch(NELEM(es))]; MD.n = ch(3) ? 1 + ch(60) : ch(3) ? ch(2) : 500 + ch(3000); if (ch(300) == 299) MD.n = 70000 + ch(400000); MD.seed = ch_seed(); MD.kseed = ch_seed(); MD.nkeys = ch(3) ? ch(40) : ch(400);
}
static void obj_more(void) { MD.nkeys += 1 + ch(100); }
static uint64_t obj_key(unsigned k) { return mix64(MD.kseed, k); }
static void *obj_build(void)
{
    os_entropy = salt_entropy; salt_g.s = MD.seed;
    Bloom *b = MD.kind == 2 ? Counting_bloom_new(MD.n, MD.e) : Standard_bloom_new(MD.n, MD.e, MD.kind == 1);
    if (!b) harness_error("cannot build");
    for (unsigned k = 0; k < MD.nkeys; k++) Bloom_probe(b, obj_key(k));
    return b;
}
static void obj_delete(void *o) { Bloom_delete(o); }
static int obj_save(void *o, const char *p) { return Bloom_marshal(o, p); }
static int obj_load(const char *p, int mapped, void **o) { return Bloom_unmarshal((Bloom**)o, p, mapped ? BLOOM_BITMAP_MMAP : 0); }
static int obj_any;      /* the objects need not be what the model says */
static int obj_same(void *a, void *b)
{
    char x[6000], y[6000];
    if (!Bloom_eq(a, b) || !Bloom_eq(b, a)) return 0;
    if (strcmp(Bloom_name(a), Bloom_name(b)) || ((Bloom*)a)->n != ((Bloom*)b)->n || ((Bloom*)a)->e != ((Bloom*)b)->e) return 0;
    Bloom_desc(a, x, sizeof x); Bloom_desc(b, y, sizeof y); if (strcmp(x, y)) return 0;
    for (unsigned k = 0; k < MD.nkeys + 60; k++) { uint64_t v = obj_key(k); int f = Bloom_find(a, v) != 0; if (f != (Bloom_find(b, v) != 0) || (!obj_any && k < MD.nkeys && !f)) return 0; }
    return 1;
}
static void obj_describe(char *b, size_t n) { snprintf(b, n, "%s filter for %llu keys at %g with %u", MD.kind == 2 ? "counting" : MD.kind ? "scalable" : "standard", (unsigned long long)MD.n, MD.e, MD.nkeys); }
