/* M09: bit sets (see m09_heap.cpp) */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <alloca.h>
#include "fast/bitset.h"
#define MAXB 1200
static void b_same(bitset *b, const uint8_t *m, size_t n, const char *op)
{
    for (size_t i = 0; i < n; i++) { CHECK(!bitset_isset(b, i) == !m[i], "content", "bit %zu of %zu is %d after %s", i, n, !m[i], op); CHECK(!bitset_value(b, i) == !m[i], "content", "value of bit %zu", i); }
}
static void __attribute__((noinline)) b_dup(bitset *x, const uint8_t *m, size_t n) { bitset *d = bitset_dup_alloca(x); b_same(d, m, n, "duplication on the stack"); if (n) { bitset_set(d, n - 1); bitset_clr(d, 0); } b_same(x, m, n, "a change of its duplicate"); }
/* more bits than a 16-bit number counts, and now and then more than a 32-bit number does (512 MB each, mostly never touched) */
static size_t pick(size_t n, const size_t *in, unsigned k) { switch (ch(4)) { case 0: return k ? in[ch(k)] : 0; case 1: return n - 1 - ch(200); case 2: { size_t b = 1ull << (10 + ch(24)); return b < n ? b - ch(2) : ch(64); } default: return (size_t)(ch_seed() % n); } }
void m09_vast(int more, unsigned *pops, unsigned *psz);
void m09_vast(int more, unsigned *pops, unsigned *psz)
{
    enum { K = 60 }; size_t n = more ? (1ull << 32) + 1 + ch(300) : 65000 + ch(200000), in[K], kp = 0; unsigned k = 0, cnt = 0; size_t words = (n + 63) / 64; if (more) dst_more_time(60);
    bitset *b = bitset_new(n), *d = 0; CHECK(b, "spurious-failure", "no bit set of %zu bits", n); 
    for (unsigned i = 0; i < 30; i++) { size_t x = pick(n, in, k); int clr = ch(4) == 0; if (clr) bitset_clr(b, x); else bitset_set(b, x); unsigned j = 0; while (j < k && in[j] != x) j++; if (clr) { if (j < k) in[j] = in[--k]; } else if (j == k) in[k++] = x; ++*pops; x = pick(n, in, k); for (j = 0; j < k && in[j] != x; j++) ; CHECK(!bitset_isset(b, x) == (j == k) && !bitset_value(b, x) == (j == k), "content", "bit %zu of %zu is %d", x, n, bitset_isset(b, x)); evq(x, clr, k); }
    if (ch(2)) { d = bitset_dup(b); CHECK(d, "spurious-failure", "no duplicate of %zu bits", n); bitset_del(b); b = d; }
    if (ch(2)) { d = bitset_new(n); CHECK(d, "spurious-failure", "no bit set of %zu bits", n); size_t x = pick(n, in, 0); bitset_set(d, x); unsigned j = 0; while (j < k && in[j] != x) j++; switch (ch(5)) { case 0: bitset_or(b, d); if (j == k) in[k++] = x; break; case 1: bitset_xor(b, d); if (j == k) in[k++] = x; else in[j] = in[--k]; break; case 2: bitset_andnot(b, d); if (j < k) in[j] = in[--k]; break; case 3: bitset_and(b, d); kp = j < k; if (kp) in[0] = x; k = (unsigned)kp; break; default: bitset_copy(d, b); bitset_del(b); b = d; d = 0; } if (d) bitset_del(d); ++*pops; }
    int inv = ch(2); if (inv) { bitset_not(b); ++*pops; }
    for (size_t w = 0; w < words; w++) cnt += (unsigned)__builtin_popcountll(inv ? ~b->w[w] : b->w[w]); CHECK(cnt == k, "content", "%u of %zu bits are %s, %u expected", cnt, n, inv ? "clear" : "set", k);
    for (unsigned j = 0; j < k; j++) CHECK(!bitset_isset(b, in[j]) == inv && !(b->w[in[j] / 64] >> in[j] % 64 & 1) == inv, "content", "bit %zu of %zu is wrong at the end", in[j], n);
    bitset_del(b); *psz = (unsigned)(n >> 3);
}
void m09_bits(unsigned n, unsigned *pops, unsigned *psz, unsigned *pref);
void m09_bits(unsigned n, unsigned *pops, unsigned *psz, unsigned *pref)
{
    static uint8_t m[3][MAXB + 64]; bitset *b[3] = { 0, 0, 0 }; size_t sz = ch(4) ? 1 + ch(200) : ch(MAXB), real = (sz + 63) / 64 * 64; memset(m, 0, sizeof m); prng g = { ch_seed() }; int onstack = (int)ch(3);
    os_cfg.alloc = ch(3) == 2;
    for (int k = 0; k < 3; k++) { if (onstack == k) { if (!k || ch(2)) b[k] = bitset_alloca(sz); else { b[k] = bitset_dup_alloca(b[0]); } }
        else { unsigned f = os_fired("alloc"); b[k] = bitset_new(sz); CHECK(b[k] || os_fired("alloc") > f, "spurious-failure", "no bit set of %zu bits", sz); if (!b[k]) { ++*pref; for (int j = 0; j < k; j++) if (j != onstack) bitset_del(b[j]); os_cfg.alloc = 0; return; } } b_same(b[k], m[k], sz, "creation"); }
    if (ch(10) == 9) { unsigned f = os_fired("alloc"); bitset *volatile x = bitset_new(1ull << (36 + ch(20))); CHECK(!x && os_fired("alloc") >= f, "impossible", "a bit set larger than memory"); ++*pref; }
    while (n--) {
        int k = (int)ch(3), o = (k + 1 + (int)ch(2)) % 3; bitset *x = b[k], *y = b[o]; size_t i = real ? prng_next(&g) % sz : 0; const char *op = "?"; unsigned w = ch(14); ++*pops; if (!sz && w < 5) w = 6;
        switch (w) {
        case 0: case 1: case 2: op = "set"; for (unsigned c = 1 + ch(8); c--; i = prng_next(&g) % sz) { bitset_set(x, i); m[k][i] = 1; } break;
        case 3: case 4: op = "clr"; bitset_clr(x, i); m[k][i] = 0; break;
        case 5: op = "or"; bitset_or(x, y); for (size_t j = 0; j < real; j++) m[k][j] |= m[o][j]; break;
        case 6: op = "and"; bitset_and(x, y); for (size_t j = 0; j < real; j++) m[k][j] &= m[o][j]; break;
        case 7: op = "xor"; bitset_xor(x, y); for (size_t j = 0; j < real; j++) m[k][j] ^= m[o][j]; break;
        case 8: op = "andnot"; bitset_andnot(x, y); for (size_t j = 0; j < real; j++) m[k][j] &= !m[o][j]; break;
        case 9: op = "not"; bitset_not(x); for (size_t j = 0; j < real; j++) m[k][j] = !m[k][j]; break;
        case 10: op = "copy"; bitset_copy(x, y); memcpy(m[k], m[o], MAXB + 64); break;
        case 11: case 12: { op = "dup"; b_dup(x, m[k], sz); unsigned f = os_fired("alloc"); bitset *volatile dd = bitset_dup(x), *d = dd; CHECK(d || os_fired("alloc") > f, "spurious-failure", "no duplicate of %zu bits", sz); if (!d) { ++*pref; break; } b_same(d, m[k], sz, op); if (sz) { bitset_set(d, i); bitset_clr(d, sz - 1 - i); } if (k != onstack && ch(2)) { bitset_del(x); b[k] = d; if (sz) { m[k][i] = 1; m[k][sz - 1 - i] = 0; } } else bitset_del(d); break; }
        default: op = "with itself"; if (ch(2)) { bitset_and(x, x); } else { bitset_xor(x, x); memset(m[k], 0, MAXB + 64); } break;
        }
        evq(w, i, (uint64_t)k); for (int j = 0; j < 3; j++) b_same(b[j], m[j], sz, op);
    }
    os_cfg.alloc = 0; *psz = (unsigned)sz; for (int j = 0; j < 3; j++) if (j != onstack) bitset_del(b[j]);
}
