/* D02: loading a bloom filter returns the saved filter or an error */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <sodium.h>
#include "obj_bloom.h"
static void obj_fixup_model(int x) { (void)x; }
static void *obj_build2(void) { __typeof__(MD) k = MD; if (ch(2)) obj_choose(); else { MD.seed++; MD.nkeys += ch(20); } void *o = obj_build(); MD = k; return o; }
static void resum(uint8_t *d, size_t n)     /* SHA256 over the data and its length, at the end */
{
    uint8_t l[8]; size_t z = n - 32; crypto_hash_sha256_state h; for (int i = 0; i < 8; i++) l[i] = (uint8_t)(z >> (56 - 8 * i));
    crypto_hash_sha256_init(&h); crypto_hash_sha256_update(&h, d, z); crypto_hash_sha256_update(&h, l, 8); crypto_hash_sha256_final(&h, d + z);
}
static void put64(uint8_t *d, uint64_t v) { for (int i = 0; i < 8; i++) d[i] = (uint8_t)(v >> (8 * i)); }
static void obj_alter(uint8_t *d, size_t *n)
{
    static const uint64_t odd[] = { 0, 1, ~0ull, 1ull << 63, 1ull << 32, 0x7fffffffffffffffull, 64, 40, 0xffffffffull, 128 };
    size_t z = *n, at; uint64_t v = ch(3) ? odd[ch(NELEM(odd))] + (ch(3) == 2 ? ch(64) : 0) : ch(3) ? ch(10000) : (uint64_t)z - ch(200);
    switch (ch(5)) {
    case 0: at = ch(8); d[at] = (uint8_t)v; break;                                             /* kind and so on */
    case 1: at = 8 + 8 * ch(3); put64(d + at, v); break;
    case 2: at = 64 + 4 * ch(8); if (at + 8 <= z) { if (ch(2)) put64(d + at, v); else for (int i = 0; i < 4; i++) d[at + i] = (uint8_t)(v >> (8 * i)); } break;                     /* directory */
    case 3: at = 64 + 64 * ch(4) + 8 * ch(8); if (at + 8 <= z - 32) put64(d + at, v); break;   /* per-filter headers */
    default: at = (size_t)ch((uint32_t)z); { size_t cut = at & ~63ul; if (cut > 200) { *n = cut + 32; z = *n; put64(d + 24, cut); } } break;
    }
    resum(d, *n);
}
static void obj_use(void *x) { for (unsigned k = 0; k < 40; k++) (void)Bloom_find(x, obj_key(k)); char y[6000]; if (ch(2)) Bloom_desc(x, y, sizeof y); }
static void obj_exercise(void *x, int mapped)
{
    if (mapped) return;       /* a mapped filter is for lookups */
    unsigned add = ch(3) ? ch(40) : ch(400);
    for (unsigned k = 0; k < add; k++) { uint64_t v = obj_key(MD.nkeys + 1000 + k); Bloom_probe(x, v); CHECK(Bloom_find(x, v), "forgotten", "a key added to a loaded filter is reported absent"); }
    for (unsigned k = 0; k < MD.nkeys; k++) CHECK(Bloom_find(x, obj_key(k)), "forgotten", "a loaded filter loses a key when others are added");
    if (MD.kind == 2) { unsigned k; for (k = 0; k < MD.nkeys; k++) CHECK(Bloom_remove(x, obj_key(k)), "remove", "a key can't be removed from a loaded filter"); }
}
#include "load.h"
const dst_harness harness = { .property = "D02", .name = "bloom-load", .run = load_run,
  .rule = "one run = one saved filter of any kind, loaded into memory or mapped: as saved, with failing calls and allocations, while another process replaces or removes it, after damage (truncation, extension, bit flips, zeroed sectors, tearing with another file, rubbish), or with altered fields under a matching checksum, against the saved object; every run is non-trivial; distinct by the hash of the whole event log" };
