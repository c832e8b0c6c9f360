/* I05: the small generators: streams that depend on the seed alone, or on the system's randomness */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include "utils/xorshift-rand.h"
#include "utils/xoroshiro.h"
#include "utils/romu-rand.h"
extern double frand(void);
typedef struct { int kind; uint64_t a, b; union { xs64star x; xs128plus p; xs1024star k; xoro128plus o; romu r; } s; uint64_t m[17]; unsigned mp; int model; uint64_t pre[6]; unsigned npre; uint64_t lastv; unsigned same, n; } gen;
enum { X64, X128, X1024, XORO, QUAD, TRIO, DUO, NK };
static const char *name[] = { "xs64star", "xs128plus", "xs1024star", "xoro128plus", "romu_quad", "romu_trio", "romu_duo" };
/* ---- the published generators ---- */
static uint64_t rot(uint64_t x, unsigned k) { return x << k | x >> (64 - k); }
static uint64_t sm(uint64_t *x) { uint64_t z = *x += 0x9E3779B97F4A7C15ull; z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9ull; z = (z ^ z >> 27) * 0x94D049BB133111EBull; return z ^ z >> 31; }
static uint64_t m64(uint64_t *m) { *m ^= *m >> 12; *m ^= *m << 25; *m ^= *m >> 27; return *m * 2685821657736338717ull; }

static uint64_t m128(uint64_t *m) { uint64_t a = m[0], b = m[1]; m[0] = b; a ^= a << 23; m[1] = a ^ b ^ a >> 18 ^ b >> 5; return m[1] + b; }
static void minit(gen *g)
{
    uint64_t s = g->a, t, u[2]; uint64_t *m = g->m;
    switch (g->kind) {
    case X64: m[0] = sm(&s); break;
    case X128: t = sm(&s); m[0] = m64(&t); m[1] = m64(&t); break;
    case X1024: t = sm(&s); u[0] = m64(&t); u[1] = m64(&t); for (int i = 0; i < 16; i++) m[i] = m128(u); g->mp = m128(u) & 15; break;
    case XORO: m[0] = s; m[1] = sm(&s); break;
    case QUAD: m[0] = g->a; m[1] = g->b; m[2] = ~g->a; m[3] = ~g->b; break;
    case TRIO: m[1] = g->a; m[2] = g->b; m[3] = ~g->a; break;
    default: m[1] = g->a; m[2] = ~g->a;
    }
}
#define RC 15241094284759029579ull
static uint64_t mnext(gen *g)
{
    uint64_t *m = g->m, w = m[0], x = m[1], y = m[2], z = m[3], r;
    switch (g->kind) {
    case X64: return m64(m);
    case X128: return m128(m);
    case X1024: { uint64_t s0 = m[g->mp], s1 = m[g->mp = (g->mp + 1) & 15]; s1 ^= s1 << 31; m[g->mp] = s1 ^ s0 ^ s1 >> 11 ^ s0 >> 30; return m[g->mp] * 1181783497276652981ull; }
    case XORO: r = w + x; x ^= w; m[0] = rot(w, 55) ^ x ^ x << 14; m[1] = rot(x, 36); return r;
    case QUAD: m[0] = RC * z; m[1] = z + rot(w, 52); m[2] = y - x; m[3] = rot(y + w, 19); return x;
    case TRIO: m[1] = RC * z; m[2] = rot(y - x, 12); m[3] = rot(z - y, 44); return x;
    default: m[1] = RC * y; m[2] = rot(y, 36) + rot(y, 15) - x; return x;
    }
}
static uint64_t next(gen *g)
{
    switch (g->kind) { case X64: return xs64star_u64(&g->s.x); case X128: return xs128plus_u64(&g->s.p); case X1024: return xs1024star_u64(&g->s.k); case XORO: return xoro128plus_u64(&g->s.o); case QUAD: return romu_quad(&g->s.r); case TRIO: return romu_trio(&g->s.r); default: return romu_duo(&g->s.r); }
}
static void init(gen *g)
{
    switch (g->kind) { case X64: xs64star_init(&g->s.x, g->a); break; case X128: xs128plus_init(&g->s.p, g->a); break; case X1024: xs1024star_init(&g->s.k, g->a); break; case XORO: xoro128plus_init(&g->s.o, g->a); break; case QUAD: romu_quad_init(&g->s.r, g->a, g->b); break; case TRIO: romu_trio_init(&g->s.r, g->a, g->b); break; default: romu_duo_init(&g->s.r, g->a); }
}
/* ---- the system's randomness: a stream that can be played again with one byte changed ---- */
static uint64_t eseed; static uint64_t epos, flip; static int emode;
static void entropy(void *p, size_t n) { for (size_t i = 0; i < n; i++, epos++) { uint64_t v = mix64(eseed, epos / 8) >> (epos % 8 * 8); unsigned char c = emode == 0 ? (unsigned char)v : emode == 1 ? (epos < 8 ? 0 : (unsigned char)v) : emode == 2 ? (epos % 16 < 8 ? 0 : (unsigned char)v) : (unsigned char)(epos % 8 ? 0 : v); ((unsigned char*)p)[i] = c ^ (epos == flip ? 0x40 : 0); } }
static jmp_buf jb; static int aborted; static void on_abort_(void) { aborted = 1; longjmp(jb, 1); } static void on_exit_(int c, int q) { (void)c; (void)q; on_abort_(); }
static uint64_t seedval(void) { switch (ch(7)) { case 0: return 0; case 1: return 1 + ch(8); case 2: return (uint64_t)0 - 1 - ch(8); case 3: return 0x61C8864680B583EBull - (ch(3) ? 0 : 1); case 4: return (uint64_t)1 << ch(64); default: { uint64_t v = ch_seed(); return v ? v : 1; } } }
static void poison(void) { volatile unsigned char z[2048]; prng g = { mix64(eseed, epos + 77) }; for (unsigned i = 0; i < sizeof z; i++) z[i] = (unsigned char)prng_next(&g); }
static void run(void)
{
    os_reset(); os_low_fds(); os_abort_hook = on_abort_; os_exit_hook = on_exit_; os_entropy = entropy; aborted = 0; eseed = ch_seed(); emode = ch(4) ? 0 : (int)ch(4); epos = 0; flip = UINT64_MAX;
    enum { M = 8 }; static gen g[M]; memset(g, 0, sizeof g); unsigned ng = 0, steps = 4 + ch(60), draws = 0, selfs = 0, frands = 0, frsame = 0; double frlast = 0; size_t heap = os_heap_live(); int faulty = ch(3) == 2;
    for (unsigned i = 0; i < steps && !aborted; i++) {
        unsigned act = ch(8);
        if (act < 2 || !ng) {
            unsigned w = ng < M ? ng++ : ch(M); gen *q = &g[w]; memset(q, 0, sizeof *q); q->kind = (int)ch(NK); q->a = seedval(); q->b = seedval(); int two = q->kind == QUAD || q->kind == TRIO; if (!two) q->b = 1;
            unsigned zeros = (q->a == 0) + (q->b == 0); memset(&q->s, ch(2) ? 0xa5 : 0, sizeof q->s); uint64_t b0 = os_entropy_bytes, p0 = epos; unsigned f0 = os_fired("getentropy"); if (zeros) poison();
            os_cfg.entropy = faulty; if (!setjmp(jb)) init(q); os_cfg.entropy = 0;
            ev("%s %u seeds %016llx %016llx%s%s", name[q->kind], w, (unsigned long long)q->a, (unsigned long long)q->b, os_fired("getentropy") > f0 ? " (no randomness)" : "", aborted ? " -> ended" : ""); evq(1, q->a, q->b);
            if (aborted) { CHECK(os_fired("getentropy") > f0, "ended", "%s: the process is ended without cause", name[q->kind]); ng--; break; }
            uint64_t got = os_entropy_bytes - b0;
            if (!zeros) { CHECK(got == 0, "seed-ignored", "%s takes %llu random bytes though it was given a seed", name[q->kind], (unsigned long long)got); minit(q); q->model = 1; if ((q->kind == X64 || q->kind == X128 || q->kind == X1024) && (uint64_t)(q->a + 0x9E3779B97F4A7C15ull) == 0) q->model = 0; }
            else {
                CHECK(got >= 8 * zeros, "unseeded", "%s starts with %llu random bytes for %u seeds", name[q->kind], (unsigned long long)got, zeros); selfs++;
                /* every byte taken matters, unless a seed of zero was passed over */
                if (!faulty && emode == 0) {
                    gen c[2]; uint64_t p1 = epos; unsigned at = ch((unsigned)(p1 - p0));
                    for (int k = 0; k < 2; k++) { c[k] = *q; memset(&c[k].s, 0x11 * k, sizeof c[k].s); epos = p0; flip = k ? p0 + at : UINT64_MAX; init(&c[k]); }
                    flip = UINT64_MAX; epos = p1; int diff = 0; for (int k = 0; k < 4; k++) { uint64_t x = next(&c[0]), y = next(&c[1]); diff |= x != y; }
                    CHECK(diff, "randomness-lost", "%s: byte %u of the randomness makes no difference", name[q->kind], at);
                }
            }
        } else if (act == 7) {
            uint64_t b0 = os_entropy_bytes; unsigned f0 = os_fired("getentropy"); double d = 0; os_cfg.entropy = faulty; if (!setjmp(jb)) d = frand(); os_cfg.entropy = 0; ev("frand %a", d); evq(3, (uint64_t)(d * 1e15), os_entropy_bytes - b0);
            if (aborted) { CHECK(os_fired("getentropy") > f0, "ended", "frand ends the process without cause"); break; }
            CHECK(d >= 0 && d < 1, "range", "frand returns %g", d);
            if (!frands) CHECK(os_entropy_bytes - b0 >= 8, "unseeded", "frand starts with %llu random bytes", (unsigned long long)(os_entropy_bytes - b0));
            frsame = frands && d == frlast ? frsame + 1 : 0; frlast = d; CHECK(frsame < 3, "stuck", "frand returns %g again and again", d); frands++;
        } else {
            gen *q = &g[ch(ng)]; unsigned n = 1 + ch(20); uint64_t e0 = os_entropy_bytes;
            for (unsigned k = 0; k < n; k++) {
                uint64_t v = next(q); draws++;
                if (q->model) { uint64_t w = mnext(q); CHECK(v == w, "stream", "%s, number %u from seeds %016llx %016llx is %016llx, not %016llx", name[q->kind], q->n, (unsigned long long)q->a, (unsigned long long)q->b, (unsigned long long)v, (unsigned long long)w); }
                q->same = q->n && v == q->lastv ? q->same + 1 : 0; q->lastv = v; q->n++; CHECK(q->same < 4, "stuck", "%s from seeds %016llx %016llx returns %016llx again and again", name[q->kind], (unsigned long long)q->a, (unsigned long long)q->b, (unsigned long long)v);
            }
            evq(2, q->lastv, n); CHECK(os_entropy_bytes == e0, "seed-ignored", "%s takes random bytes while it draws numbers", name[q->kind]);
        }
        CHECK(os_heap_live() == heap, "leak", "memory is left allocated");
    }
    uint64_t h = 0; for (unsigned i = 0; i < ng; i++) h = mix64(h, mix64((uint64_t)g[i].kind, g[i].lastv)); cover(h); tally("numbers", draws); tally("self_seeded", selfs); if (aborted) tally("ended_for_lack_of_randomness", 1); if (ng > 1 && draws) run_nontrivial(); sample("%u generators, %u numbers%s", ng, draws, aborted ? ", ended" : "");
}
const dst_harness harness = { .property = "I05", .name = "prng", .run = run,
  .rule = "one run = up to 60 steps: starting one of eight generators (seven kinds with given or left-out seeds, and frand) or drawing numbers from one of up to eight, in any interleaving, with randomness that fails, is zero, or is replayed with one bit changed; non-trivial if numbers are drawn and there are two generators; distinct by the hash of the whole event log" };
