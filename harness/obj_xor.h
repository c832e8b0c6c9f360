/* xor filters as objects to be saved and loaded */
#include "utils/xorfilter.h"
static struct { int w; uint64_t seed, kseed; unsigned nkeys; } MD; static prng salt_g;
static void salt_entropy(void *p, size_t n) { uint8_t *d = p; while (n--) *d++ = (uint8_t)prng_next(&salt_g); }
static void obj_choose(void) { MD.w = (int)ch(2); MD.seed = ch_seed(); MD.kseed = ch_seed(); MD.nkeys = 1 + (ch(3) ? ch(40) : ch(3) ? ch(400) : ch(200) ? ch(3500) : 60000 + ch(60000)); }
static void obj_more(void) { MD.nkeys += 1 + ch(100); }
static uint64_t obj_key(unsigned k) { return mix64(MD.kseed, k); }
static void *obj_build(void)
{
    os_entropy = salt_entropy; salt_g.s = MD.seed;
    uint64_t *k = malloc(MD.nkeys * 8); for (unsigned i = 0; i < MD.nkeys; i++) k[i] = obj_key(i);
    Xorfilter *x = MD.w ? Xorfilter_new16(k, MD.nkeys) : Xorfilter_new8(k, MD.nkeys); free(k);
    if (!x) harness_error("cannot build"); return x;
}
static void obj_delete(void *o) { Xorfilter_delete(o); }
static int obj_save(void *o, const char *p) { return Xorfilter_marshal(o, p); }
static int obj_load(const char *p, int mapped, void **o) { return Xorfilter_unmarshal((Xorfilter**)o, p, mapped ? XORFILTER_MMAP : 0); }
static int obj_any;      /* the objects need not be what the model says */
static int obj_same(void *a, void *b)
{
    if (Xorfilter_bpe(a) != Xorfilter_bpe(b)) return 0;
    for (unsigned k = 0; k < MD.nkeys + 600; k++) { uint64_t v = obj_key(k); int f = Xorfilter_contains(a, v) != 0; if (f != (Xorfilter_contains(b, v) != 0) || (!obj_any && k < MD.nkeys && !f)) return 0; }
    return 1;
}
static void obj_describe(char *b, size_t n) { snprintf(b, n, "%d-bit xor filter of %u keys", MD.w ? 16 : 8, MD.nkeys); }
