/* M12: hashes fed in pieces (xxHash 32/64, SipHash-2-4) */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include "utils/xxhash.h"
#include "utils/siphash.h"
/* ---- the published functions, one byte string at a time ---- */
static uint64_t le(const unsigned char *p, unsigned n) { uint64_t v = 0; while (n--) v = v << 8 | p[n]; return v; }
static uint32_t r32(uint32_t x, unsigned k) { return x << k | x >> (32 - k); }
static uint64_t r64(uint64_t x, unsigned k) { return x << k | x >> (64 - k); }
enum { A1 = 2654435761u, A2 = 2246822519u, A3 = 3266489917u, A4 = 668265263u, A5 = 374761393u };
#define B1 11400714785074694791ull
#define B2 14029467366897019727ull
#define B3 1609587929392839161ull
#define B4 9650029242287828579ull
#define B5 2870177450012600261ull
static uint32_t ref32(const unsigned char *p, size_t n, uint32_t seed)
{
    const unsigned char *e = p + n; uint32_t h;
    if (n >= 16) { uint32_t v[4] = { seed + A1 + A2, seed + A2, seed, seed - A1 }; while (e - p >= 16) for (int i = 0; i < 4; i++, p += 4) v[i] = r32(v[i] + (uint32_t)le(p, 4) * A2, 13) * A1; h = r32(v[0], 1) + r32(v[1], 7) + r32(v[2], 12) + r32(v[3], 18); } else h = seed + A5;
    h += (uint32_t)n; for (; e - p >= 4; p += 4) h = r32(h + (uint32_t)le(p, 4) * A3, 17) * A4; for (; p < e; p++) h = r32(h + *p * A5, 11) * A1;
    h ^= h >> 15; h *= A2; h ^= h >> 13; h *= A3; return h ^ h >> 16;
}
static uint64_t rd(uint64_t a, uint64_t x) { return r64(a + x * B2, 31) * B1; }
static uint64_t ref64(const unsigned char *p, size_t n, uint64_t seed)
{
    const unsigned char *e = p + n; uint64_t h;
    if (n >= 32) { uint64_t v[4] = { seed + B1 + B2, seed + B2, seed, seed - B1 }; while (e - p >= 32) for (int i = 0; i < 4; i++, p += 8) v[i] = rd(v[i], le(p, 8)); h = r64(v[0], 1) + r64(v[1], 7) + r64(v[2], 12) + r64(v[3], 18); for (int i = 0; i < 4; i++) h = (h ^ rd(0, v[i])) * B1 + B4; } else h = seed + B5;
    h += n; for (; e - p >= 8; p += 8) h = r64(h ^ rd(0, le(p, 8)), 27) * B1 + B4; if (e - p >= 4) { h = r64(h ^ le(p, 4) * B1, 23) * B2 + B3; p += 4; } for (; p < e; p++) h = r64(h ^ *p * B5, 11) * B1;
    h ^= h >> 33; h *= B2; h ^= h >> 29; h *= B3; return h ^ h >> 32;
}
static void sround(uint64_t *v, int n) { while (n--) { v[0] += v[1]; v[1] = r64(v[1], 13) ^ v[0]; v[0] = r64(v[0], 32); v[2] += v[3]; v[3] = r64(v[3], 16) ^ v[2]; v[0] += v[3]; v[3] = r64(v[3], 21) ^ v[0]; v[2] += v[1]; v[1] = r64(v[1], 17) ^ v[2]; v[2] = r64(v[2], 32); } }
static uint64_t refsip(const unsigned char *p, size_t n, const uint64_t *k)
{
    uint64_t v[4] = { k[0] ^ 0x736f6d6570736575ull, k[1] ^ 0x646f72616e646f6dull, k[0] ^ 0x6c7967656e657261ull, k[1] ^ 0x7465646279746573ull }; size_t i = 0;
    for (; n - i >= 8; i += 8) { uint64_t m = le(p + i, 8); v[3] ^= m; sround(v, 2); v[0] ^= m; } uint64_t m = (uint64_t)n << 56 | le(p + i, (unsigned)(n - i)); v[3] ^= m; sround(v, 2); v[0] ^= m; v[2] ^= 0xff; sround(v, 4); return v[0] ^ v[1] ^ v[2] ^ v[3];
}
/* ---- */
enum { X32, X64, SIP, NK, M = 6, CAP = 1 << 14 };
static const char *name[] = { "xxh32", "xxh64", "siphash" };
typedef struct { int kind, live; uint64_t k[2]; void *st; siphash24_state *s; unsigned char *all; size_t n; } strm;
static strm s[M]; static unsigned char store[M][CAP];
static uint64_t seedval(void) { switch (ch(5)) { case 0: return 0; case 1: return ~0ull - ch(3); case 2: return 1ull << ch(64); default: return ch_seed(); } }
static uint64_t whole(strm *q) { return q->kind == X32 ? ref32(q->all, q->n, (uint32_t)q->k[0]) : q->kind == X64 ? ref64(q->all, q->n, q->k[0]) : refsip(q->all, q->n, q->k); }
static void reset(strm *q)
{
    q->n = 0; q->k[0] = seedval(); q->k[1] = seedval();
    if (q->kind == X32) CHECK(XXH32_reset(q->st, (unsigned)q->k[0]) == XXH_OK, "refused", "reset fails"); else if (q->kind == X64) CHECK(XXH64_reset(q->st, q->k[0]) == XXH_OK, "refused", "reset fails"); else siphash24_init(q->s, q->k);
}
static void drop(strm *q)
{
    q->live = 0; if (q->kind == SIP) { os_free(q->s); return; }
    size_t h = os_heap_live(); XXH_errorcode e = q->kind == X32 ? XXH32_freeState(q->st) : XXH64_freeState(q->st); CHECK(e == XXH_OK && os_heap_live() == h - 1, "leak", "freeing a state gives %d and leaves it allocated", e);
}
static uint64_t digest(strm *q)
{
    if (q->kind == X32) return XXH32_digest(q->st); if (q->kind == X64) return XXH64_digest(q->st);
    siphash24_state *c = os_malloc(sizeof *c); *c = *q->s; uint64_t h = siphash24_finish(c); os_free(c); return h;     /* finishing need not leave the state usable */
}
/* more than 4 GB of zeros, in any pieces: what a constant word adds to a lane is constant, so the lanes are simply stepped */
#include <sys/mman.h>
static void huge(void)
{
    static unsigned char *z; if (!z) z = mmap(0, (1ull << 32) + (1 << 20), PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (z == MAP_FAILED) harness_error("address space");
    dst_more_time(40); int k = (int)ch(2); uint64_t seed = seedval(), n = (1ull << 32) - 8 + ch(48), left = n, got, want; unsigned pieces = 0; int odd = (int)ch(2);
    if (k == X32) {
        XXH32_state_t *st = XXH32_createState(); XXH32_reset(st, (unsigned)seed); while (left) { uint64_t m = ch(3) ? left : ch(2) ? left / 2 + odd : ch(100); if (m > left) m = left; CHECK(XXH32_update(st, z + ch(16), m) == XXH_OK, "refused", "update with %llu bytes fails", (unsigned long long)m); left -= m; pieces++; } got = XXH32_digest(st); XXH32_freeState(st);
        uint32_t v[4] = { (uint32_t)seed + A1 + A2, (uint32_t)seed + A2, (uint32_t)seed, (uint32_t)seed - A1 }; for (uint64_t i = n / 16; i--; ) for (int j = 0; j < 4; j++) v[j] = r32(v[j], 13) * A1;
        uint32_t h = r32(v[0], 1) + r32(v[1], 7) + r32(v[2], 12) + r32(v[3], 18) + (uint32_t)n; for (unsigned i = n % 16 / 4; i--; ) h = r32(h, 17) * A4; for (unsigned i = n % 4; i--; ) h = r32(h, 11) * A1; h ^= h >> 15; h *= A2; h ^= h >> 13; h *= A3; want = h ^ h >> 16;
        if (ch(3) == 0) { got = XXH32(z, n, (unsigned)seed); pieces = 0; }
    } else {
        XXH64_state_t *st = XXH64_createState(); XXH64_reset(st, seed); while (left) { uint64_t m = ch(3) ? left : ch(2) ? left / 2 + odd : ch(100); if (m > left) m = left; CHECK(XXH64_update(st, z + ch(16), m) == XXH_OK, "refused", "update with %llu bytes fails", (unsigned long long)m); left -= m; pieces++; } got = XXH64_digest(st); XXH64_freeState(st);
        uint64_t v[4] = { seed + B1 + B2, seed + B2, seed, seed - B1 }; for (uint64_t i = n / 32; i--; ) for (int j = 0; j < 4; j++) v[j] = r64(v[j], 31) * B1;
        uint64_t h = r64(v[0], 1) + r64(v[1], 7) + r64(v[2], 12) + r64(v[3], 18); for (int i = 0; i < 4; i++) h = (h ^ rd(0, v[i])) * B1 + B4; h += n; for (unsigned i = n % 32 / 8; i--; ) h = r64(h, 27) * B1 + B4; if (n % 8 >= 4) h = r64(h, 23) * B2 + B3; for (unsigned i = n % 4; i--; ) h = r64(h, 11) * B1; h ^= h >> 33; h *= B2; h ^= h >> 29; h *= B3; want = h ^ h >> 32;
        if (ch(3) == 0) { got = XXH64(z, n, seed); pieces = 0; }
    }
    ev("%s of %llu zeros in %u pieces %016llx", name[k], (unsigned long long)n, pieces, (unsigned long long)got); CHECK(got == want, pieces ? "digest" : "whole", "%s of %llu zeros in %u pieces is %016llx, not %016llx", name[k], (unsigned long long)n, pieces, (unsigned long long)got, (unsigned long long)want);
    CHECK(os_heap_live() == 0, "leak", "%zu blocks are left", os_heap_live()); tally("over_4g", n >= 1ull << 32); tally("digests", 1); run_nontrivial(); cover(n); sample("%llu zeros in %u pieces", (unsigned long long)n, pieces);
}
static void run(void)
{
    if (ch(30000) == 29999) { os_reset(); huge(); return; }
    os_reset(); memset(s, 0, sizeof s); unsigned steps = 2 + ch(60), nup = 0, ndig = 0, nnomem = 0; int faulty = ch(3) == 2; prng g = { ch_seed() };
    for (unsigned i = 0; i < steps; i++) {
        unsigned w = ch(M), act = ch(10); strm *q = &s[w]; q->all = store[w];
        if (!q->live) {
            q->kind = (int)ch(NK); 
            if (q->kind == SIP) { q->s = os_malloc(sizeof *q->s); memset(q->s, ch(2) ? 0xa5 : 0, sizeof *q->s); }
            else { unsigned f0 = os_fired("alloc"); os_cfg.alloc = faulty; q->st = q->kind == X32 ? (void*)XXH32_createState() : (void*)XXH64_createState(); os_cfg.alloc = 0; int failed = os_fired("alloc") > f0; CHECK(!q->st == failed, q->st ? "error-hidden" : "spurious-null", "creating a state gives %s", q->st ? "one without memory" : "none"); if (!q->st) { nnomem++; continue; } if (ch(2)) memset(q->st, 0x5a, os_heap_size(q->st)); }
            q->live = 1; reset(q); ev("%s %u starts", name[q->kind], w); continue;
        }
        if (act < 6) {
            size_t n = ch(4) == 0 ? ch(4) : ch(3) ? ch(40) : ch(3) ? ch(300) : ch(5000); if (ch(4) == 3) { unsigned b = q->kind == X32 ? 16 : q->kind == X64 ? 32 : 8; n = (b - q->n % b) + b * ch(3) + ch(3) - 1; } if (q->n + n > CAP) n = CAP - q->n;
            unsigned off = ch(16); unsigned char *b = os_malloc(n + off + !(n + off)); for (size_t k = 0; k < n; k++) q->all[q->n + k] = b[off + k] = (unsigned char)prng_next(&g);
            if (q->kind == X32) CHECK(XXH32_update(q->st, b + off, n) == XXH_OK, "refused", "update with %zu bytes fails", n); else if (q->kind == X64) CHECK(XXH64_update(q->st, b + off, n) == XXH_OK, "refused", "update with %zu bytes fails", n); else siphash24_update(q->s, b + off, n);
            CHECK(!memcmp(b + off, q->all + q->n, n), "input", "the input is changed"); memset(b, 0xcc, n + off); os_free(b); q->n += n; nup++; ev("%s %u update %zu", name[q->kind], w, n); evq(1, w, n);
        } else if (act < 8) {
            uint64_t h = digest(q), r = whole(q); ndig++; ev("%s %u digest %zu %016llx", name[q->kind], w, q->n, (unsigned long long)h); evq(2, h, q->n);
            CHECK(h == r, "digest", "%s of %zu bytes in pieces is %016llx, not %016llx", name[q->kind], q->n, (unsigned long long)h, (unsigned long long)r); cover(mix64(mix64((uint64_t)q->kind, q->n < 100 ? q->n : 100 + q->n % 32), nup));
            CHECK(digest(q) == h, "digest", "%s of %zu bytes is different when asked again", name[q->kind], q->n);
        } else if (act == 8) {
            /* in one piece */
            unsigned off = ch(16); unsigned char *b = os_malloc(q->n + off + !(q->n + off)); memcpy(b + off, q->all, q->n); uint64_t h = q->kind == X32 ? XXH32(b + off, q->n, (unsigned)q->k[0]) : q->kind == X64 ? XXH64(b + off, q->n, q->k[0]) : siphash24(b + off, q->n, q->k), r = whole(q); os_free(b); evq(3, h, q->n);
            CHECK(h == r, "whole", "%s of %zu bytes at once is %016llx, not %016llx", name[q->kind], q->n, (unsigned long long)h, (unsigned long long)r);
            if (q->kind == X32) { XXH32_canonical_t c; XXH32_canonicalFromHash(&c, (unsigned)h); for (int k = 0; k < 4; k++) CHECK(c.digest[k] == (unsigned char)(h >> (24 - 8 * k)), "canonical", "the portable form is wrong"); CHECK(XXH32_hashFromCanonical(&c) == h, "canonical", "the portable form does not come back"); }
            if (q->kind == X64) { XXH64_canonical_t c; XXH64_canonicalFromHash(&c, h); for (int k = 0; k < 8; k++) CHECK(c.digest[k] == (unsigned char)(h >> (56 - 8 * k)), "canonical", "the portable form is wrong"); CHECK(XXH64_hashFromCanonical(&c) == h, "canonical", "the portable form does not come back"); }
        } else if (ch(3)) { reset(q); ev("%s %u starts again", name[q->kind], w); }
        else { drop(q); ev("%s %u ends", name[q->kind], w); }
    }
    for (unsigned w = 0; w < M; w++) if (s[w].live) { uint64_t h = digest(&s[w]); CHECK(h == whole(&s[w]), "digest", "%s of %zu bytes in pieces is wrong at the end", name[s[w].kind], s[w].n); evq(4, h, w); drop(&s[w]); }
    CHECK(os_heap_live() == 0, "leak", "%zu blocks are left", os_heap_live()); tally("updates", nup); tally("digests", ndig); tally("no_memory", nnomem); if (nup > 1) run_nontrivial(); sample("%u pieces, %u digests", nup, ndig);
}
const dst_harness harness = { .property = "M12", .name = "stream-hash", .run = run,
  .rule = "one run = up to 60 steps over up to six hash states of three kinds: creating (memory may run out), restarting, feeding 0 to 5000 bytes at any alignment, asking for the hash in between, hashing the whole at once, and dropping, in any interleaving; one run in 30000 = 4 GB of zeros, up to 8 bytes less or 40 bytes more, at once or in pieces; non-trivial if more than one piece is fed; distinct by the hash of the whole event log" };
