/* D04: loading a xor filter returns the saved filter or an error */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <sodium.h>
#include "obj_xor.h"
static void obj_fixup_model(int x) { (void)x; }
static void *obj_build2(void) { __typeof__(MD) k = MD; if (ch(2)) obj_choose(); else { MD.seed++; MD.nkeys += ch(20); } void *o = obj_build(); MD = k; return o; }
static void put(uint8_t *d, uint64_t v, int n) { for (int i = 0; i < n; i++) d[i] = (uint8_t)(v >> (8 * i)); }
static void resum(uint8_t *d, size_t n)     /* SHA256 over the length of the file and its data, at the end */
{
    uint8_t l[8]; put(l, n, 8); crypto_hash_sha256_state h;
    crypto_hash_sha256_init(&h); crypto_hash_sha256_update(&h, l, 8); crypto_hash_sha256_update(&h, d, n - 32); crypto_hash_sha256_final(&h, d + n - 32);
}
static size_t nbuf_max(void) { return 1 << 17; }
static void obj_alter(uint8_t *d, size_t *n)
{
    static const uint64_t odd[] = { 0, 1, ~0ull, 1ull << 31, 0x55555556, 0xaaaaaaab, 3500000000u, 64 };
    uint64_t v = ch(2) ? odd[ch(NELEM(odd))] : ch(3) ? ch(20000) : (uint64_t)ch_seed();
    switch (ch(5)) {
    case 0: d[ch(8)] = (uint8_t)v; break;
    case 1: put(d + 16 + 4 * ch(2), v, 4); break;
    case 2: { uint32_t c = (uint32_t)v; double z = 32.0 + __builtin_ceil(1.23 * (double)c); put(d + 16, (uint64_t)((size_t)z / 3), 4); put(d + 20, c, 4); break; }      /* consistent size and count */
    case 3: put(d + 8, v, 8); break;
    default: { size_t z = ch((uint32_t)*n); if (z > 4128) *n = z; else if (ch(2)) *n = 4096 + 32 + ch(40); if (*n > nbuf_max()) *n = nbuf_max(); break; }
    }
    resum(d, *n);
}
static void obj_use(void *x) { for (unsigned k = 0; k < 200; k++) (void)Xorfilter_contains(x, obj_key(k)); }
static void obj_exercise(void *x, int mapped) { (void)mapped; for (unsigned k = 0; k < MD.nkeys; k++) CHECK(Xorfilter_contains(x, obj_key(k)), "forgotten", "a loaded filter reports a key absent"); }
#include "load.h"
const dst_harness harness = { .property = "D04", .name = "xor-load", .run = load_run,
  .rule = "one run = one saved filter of either width, loaded into memory or mapped: as saved, with failing calls and allocations, while another process replaces or removes it, after damage (truncation, extension, bit flips, zeroed sectors, tearing with another file, rubbish), or with altered fields under a matching checksum, against the saved object; every run is non-trivial; distinct by the hash of the whole event log" };
