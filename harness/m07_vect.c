/* M07: growable vectors and buffers against plain sequences */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include "fast/vect.h"
#include "fast/buf.h"
#define MAXN 3000
static prng rn; static uint32_t rnd(void) { return (uint32_t)(prng_next(&rn) >> 16); }
typedef uint8_t tiny; typedef uint64_t word; typedef struct { uint32_t a; char pad[20]; uint32_t b; } rec;
static tiny mk_tiny(uint64_t x) { return (tiny)x; } static word mk_word(uint64_t x) { return mix64(x, 1); } static rec mk_rec(uint64_t x) { rec r; memset(&r, 0, sizeof r); r.a = (uint32_t)x; snprintf(r.pad, sizeof r.pad, "%u", (unsigned)x); r.b = ~(uint32_t)x; return r; }
static uint64_t serial; static unsigned nops, maxlen, grown;
/* one vector type: operations on two vectors and two model sequences */
#define DEFINE(T)                                                                                                              \
VECT_TYPEDEF(v_##T, T); static v_##T V_##T[2]; static T M_##T[2][MAXN]; static unsigned L_##T[2];                              \
static int cmp_##T(const T *x, const T *y) { return memcmp(x, y, sizeof *x); }                                                 \
static int by_##T(const void *x, const void *y) { return memcmp(x, y, sizeof(T)); }                                            \
static void same_##T(const char *op)                                                                                           \
{                                                                                                                              \
    for (int k = 0; k < 2; k++) { v_##T *v = &V_##T[k]; CHECK(VECT_LEN(v) == L_##T[k], "length", "%u elements after %s, %u expected", (unsigned)VECT_LEN(v), op, L_##T[k]); \
        CHECK(VECT_CAPACITY(v) >= VECT_LEN(v), "capacity", "capacity %u for %u elements", (unsigned)VECT_CAPACITY(v), (unsigned)VECT_LEN(v)); \
        unsigned i = 0; T *p; VECT_FOR_EACH(v, p) { CHECK(i < L_##T[k] && !cmp_##T(p, &M_##T[k][i]), "content", "element %u of %u differs after %s", i, L_##T[k], op); i++; } CHECK(i == L_##T[k], "iteration", "the iteration visits %u of %u elements", i, L_##T[k]); \
        size_t j; i = 0; VECT_FOR_EACHi(v, j, p) { CHECK(j == i && p == &VECT_ELEM(v, i), "iteration", "index %u", i); i++; } CHECK(i == L_##T[k], "iteration", "the indexed iteration visits %u of %u elements", i, L_##T[k]); if (L_##T[k] > maxlen) maxlen = L_##T[k]; } \
}                                                                                                                              \
static void step_##T(unsigned op)                                                                                              \
{                                                                                                                              \
    int k = (int)ch(2); v_##T *v = &V_##T[k], *w = &V_##T[!k]; T *m = M_##T[k], *o = M_##T[!k]; unsigned *l = &L_##T[k], *x = &L_##T[!k]; T e = mk_##T(++serial); const char *nm = "?"; size_t c0 = VECT_CAPACITY(v); \
    switch (op) {                                                                                                              \
    case 0: case 1: case 2: case 3: { unsigned n = op < 2 ? 1 : 1 + ch(40); nm = "push back"; while (n-- && *l < MAXN - 1) { e = mk_##T(++serial); VECT_PUSH_BACK(v, e); m[(*l)++] = e; } break; }            \
    case 4: nm = "push front"; if (*l < MAXN - 1) { VECT_PUSH_FRONT(v, e); memmove(m + 1, m, *l * sizeof *m); m[0] = e; ++*l; } break; \
    case 5: nm = "pop back"; if (*l) { T g = VECT_POP_BACK(v); --*l; CHECK(!cmp_##T(&g, &m[*l]), "content", "the element popped from the end is another"); } break; \
    case 6: nm = "pop front"; if (*l) { T g = VECT_POP_FRONT(v); CHECK(!cmp_##T(&g, &m[0]), "content", "the element popped from the front is another"); --*l; memmove(m, m + 1, *l * sizeof *m); } break; \
    case 7: nm = "pop"; if (*l) { T g = VECT_TOP(v); CHECK(!cmp_##T(&g, &m[*l - 1]), "content", "the top is another element"); g = VECT_FIRST_ELEM(v); CHECK(!cmp_##T(&g, &m[0]), "content", "the first is another element"); VECT_POP(v); --*l; } break; \
    case 8: nm = "reserve"; { size_t n = ch(4) ? ch(100) : ch(3000); VECT_RESERVE(v, n); CHECK(VECT_CAPACITY(v) >= n, "capacity", "capacity %u, %u reserved", (unsigned)VECT_CAPACITY(v), (unsigned)n); } break; \
    case 9: nm = "ensure"; { unsigned n = 1 + ch(20); if (*l + n >= MAXN) break; VECT_ENSURE(v, n); while (n--) { e = mk_##T(++serial); VECT_GET_NEXT(v) = e; m[(*l)++] = e; } } break; \
    case 10: nm = "reset"; if (ch(3) == 0) { VECT_RESET(v); *l = 0; } break;                                                   \
    case 11: nm = "copy"; VECT_COPY(v, w); memcpy(m, o, *x * sizeof *m); *l = *x; break;                                      \
    case 12: nm = "append"; if (*l + *x < MAXN) { VECT_APPEND_VECT(v, w); memcpy(m + *l, o, *x * sizeof *m); *l += *x; } break; \
    case 13: nm = "swap"; { VECT_SWAP(v, w); static T t[MAXN]; memcpy(t, m, *l * sizeof *m); memcpy(m, o, *x * sizeof *m); memcpy(o, t, *l * sizeof *m); unsigned z = *l; *l = *x; *x = z; } break; \
    case 14: nm = "finish"; { unsigned n = ch(3) ? ch(20) : 0; VECT_FINI(v); CHECK(VECT_LEN(v) == 0 && VECT_CAPACITY(v) == 0, "finish", "a finished vector has %u elements", (unsigned)VECT_LEN(v)); if (ch(2)) { VECT_INIT(v, n); *l = 0; CHECK(VECT_CAPACITY(v) >= n, "capacity", "capacity %u, %u asked for", (unsigned)VECT_CAPACITY(v), n); } else { VECT_INIT_FROM(v, w); memcpy(m, o, *x * sizeof *m); *l = *x; nm = "init from"; } } break; \
    case 15: nm = "sort"; VECT_SORT(v, cmp_##T); qsort(m, *l, sizeof *m, by_##T); break;                                      \
    case 16: nm = "shuffle"; { VECT_SHUFFLE(v, rnd); static T s[MAXN], t[MAXN]; CHECK(VECT_LEN(v) == *l, "length", "shuffling changed the length"); memcpy(t, &VECT_ELEM(v, 0), *l * sizeof *m); memcpy(s, t, *l * sizeof *m); qsort(s, *l, sizeof *m, by_##T); qsort(m, *l, sizeof *m, by_##T); CHECK(!memcmp(s, m, *l * sizeof *m), "content", "shuffling %u elements lost or doubled one", *l); memcpy(m, t, *l * sizeof *m); } break; \
    case 17: nm = "sample"; { size_t n = ch(3) ? ch(30) : ch(200); int r = VECT_SAMPLE(v, w, n, rnd); CHECK((r != 0) == (n < *x), "result", "sampling %u of %u elements returned %d", (unsigned)n, *x, r); if (!r) break; CHECK(VECT_LEN(v) == n, "length", "a sample of %u elements instead of %u", (unsigned)VECT_LEN(v), (unsigned)n); \
        static char used[MAXN]; memset(used, 0, sizeof used); for (size_t i = 0; i < n; i++) { unsigned j = 0; for (; j < *x; j++) if (!used[j] && !cmp_##T(&VECT_ELEM(v, i), &o[j])) break; CHECK(j < *x, "content", "a sampled element is not among those sampled from, or taken twice"); used[j] = 1; m[i] = VECT_ELEM(v, i); } *l = (unsigned)n; } break; \
    case 18: nm = "random element"; if (*l) { T g = VECT_RAND_ELEM(v, rnd); unsigned j = 0; while (j < *l && cmp_##T(&g, &m[j])) j++; CHECK(j < *l, "content", "a random element is none of the vector's"); } break; \
    case 19: nm = "set"; if (*l) { unsigned i = ch(*l); VECT_ELEM(v, i) = e; m[i] = e; T g = VECT_LAST_ELEM(v); CHECK(!cmp_##T(&g, &m[*l - 1]), "content", "the last is another element"); } break;     \
    case 20: nm = "append itself"; if (*l * 2 < MAXN) { VECT_APPEND_VECT(v, v); memcpy(m + *l, m, *l * sizeof *m); *l *= 2; } break; \
    }                                                                                                                          \
    if (VECT_CAPACITY(v) > c0) grown++; nops++; ev("%s: %u %u", nm, L_##T[0], L_##T[1]); same_##T(nm);                          \
}                                                                                                                              \
static void all_##T(unsigned n) { for (int k = 0; k < 2; k++) { VECT_INIT(&V_##T[k], ch(20)); L_##T[k] = 0; } same_##T("start"); while (n--) step_##T(ch(21)); for (int k = 0; k < 2; k++) VECT_FINI(&V_##T[k]); CHECK(os_heap_live() == 0, "leak", "%u blocks left", (unsigned)os_heap_live()); }
DEFINE(tiny) DEFINE(word) DEFINE(rec)
static void buffer(unsigned n)
{
    static uint8_t m[60000], d[6000]; unsigned l = 0; fast_buf b; memset(&b, 0xa5, sizeof b); prng g = { ch_seed() };
    CHECK(fast_buf_init(&b, ch(3) ? ch(64) : 0) == &b && fast_buf_len(&b) == 0, "init", "a new buffer is not empty"); size_t c0 = fast_buf_cap(&b);
    while (n--) {
        unsigned op = ch(8), k = ch(3) ? ch(50) : ch(6000); if (l + k + 1 >= sizeof m) op = 6; size_t room = fast_buf_cap(&b);
        switch (op) {
        case 0: case 1: case 2: for (unsigned i = 0; i < k; i++) d[i] = (uint8_t)prng_next(&g); CHECK(fast_buf_append_buf(&b, d, k) == &b, "result", "append"); memcpy(m + l, d, k); l += k; break;
        case 3: case 4: for (unsigned i = 0; i < k && i < 300; i++) { uint8_t c = (uint8_t)prng_next(&g); fast_buf_append_byte(&b, c); m[l++] = c; } break;
        case 5: fast_buf_reserve(&b, k); CHECK(fast_buf_cap(&b) >= k, "capacity", "capacity %u, %u reserved", (unsigned)fast_buf_cap(&b), k); break;
        case 6: fast_buf_reset(&b); l = 0; break;
        case 7: fast_buf_grow(&b, k); CHECK(fast_buf_cap(&b) >= l + k, "capacity", "capacity %u for %u + %u", (unsigned)fast_buf_cap(&b), l, k); for (unsigned i = 0; i < k; i++) m[l + i] = fast_buf_ptr(&b)[l + i] = (uint8_t)prng_next(&g); CHECK(fast_buf_advance(&b, k) == &b, "result", "advance"); l += k; break;
        }
        (void)room; if (fast_buf_cap(&b) > c0) grown++; c0 = fast_buf_cap(&b); nops++; CHECK(fast_buf_len(&b) == l && fast_buf_cap(&b) >= l, "length", "%u bytes in a buffer of %u, %u expected", (unsigned)fast_buf_len(&b), (unsigned)fast_buf_cap(&b), l); CHECK(!memcmp(fast_buf_ptr(&b), m, l), "content", "the %u bytes in the buffer differ", l); evq(op, l, 0); if (l > maxlen) maxlen = l;
    }
    fast_buf_fini(&b); CHECK(os_heap_live() == 0, "leak", "%u blocks left", (unsigned)os_heap_live());
}
/* more elements than a 16-bit number counts */
static int cmpw(const word *a, const word *b) { return *a < *b ? -1 : *a > *b; }
static int byw(const void *a, const void *b) { return cmpw(a, b); }
static void vast(void)
{
    enum { N = 300000 }; static word m[2][N], t[N]; unsigned l[2] = { 0, 0 }, top = 0; v_word V[2]; VECT_INIT(&V[0], ch(2) ? ch(100000) : 0); VECT_INIT(&V[1], ch(20)); prng g = { ch_seed() };
    for (unsigned st = 10 + ch(8), i = 0; i < st; i++) {
        unsigned k = ch(2), n, op = i < 2 ? 0 : ch(13); v_word *v = &V[k], *w = &V[!k]; word *a = m[k], *b = m[!k], e = prng_next(&g); const char *nm = "?"; 
        switch (op) {
        case 0: case 1: nm = "push back"; n = ch(120000); while (n-- && l[k] < N) { e = prng_next(&g); VECT_PUSH_BACK(v, e); a[l[k]++] = e; } break;
        case 2: nm = "push front"; if (l[k] < N) { VECT_PUSH_FRONT(v, e); memmove(a + 1, a, l[k] * sizeof *a); a[0] = e; l[k]++; } break;
        case 3: nm = "pop front"; if (l[k]) { word x = VECT_POP_FRONT(v); CHECK(x == a[0], "content", "the element popped from the front is another"); l[k]--; memmove(a, a + 1, l[k] * sizeof *a); } break;
        case 4: nm = "pop back"; n = ch(1000); while (n-- && l[k]) { word x = VECT_POP_BACK(v); l[k]--; CHECK(x == a[l[k]], "content", "the element popped from the end is another"); } break;
        case 5: nm = "reserve"; n = ch(N); VECT_RESERVE(v, n); CHECK(VECT_CAPACITY(v) >= n, "capacity", "capacity %u, %u reserved", (unsigned)VECT_CAPACITY(v), n); break;
        case 6: nm = "ensure"; n = 1 + ch(70000); if (l[k] + n > N) break; VECT_ENSURE(v, n); while (n--) { e = prng_next(&g); VECT_GET_NEXT(v) = e; a[l[k]++] = e; } break;
        case 7: nm = "copy"; VECT_COPY(v, w); memcpy(a, b, l[!k] * sizeof *a); l[k] = l[!k]; break;
        case 8: nm = "append"; if (l[0] + l[1] <= N) { VECT_APPEND_VECT(v, w); memcpy(a + l[k], b, l[!k] * sizeof *a); l[k] += l[!k]; } break;
        case 9: nm = "sort"; VECT_SORT(v, cmpw); qsort(a, l[k], sizeof *a, byw); break;
        case 10: nm = "shuffle"; VECT_SHUFFLE(v, rnd); CHECK(VECT_LEN(v) == l[k], "length", "shuffling changed the length"); if (!l[k]) break; memcpy(t, &VECT_ELEM(v, 0), l[k] * sizeof *t); { unsigned moved = 0; for (unsigned j = 0; j < l[k]; j++) moved += t[j] != a[j]; if (l[k] > 60000 && i < 4) CHECK(moved > l[k] / 2, "unfair", "shuffling %u elements moves %u", l[k], moved); } qsort(t, l[k], sizeof *t, byw); qsort(a, l[k], sizeof *a, byw); CHECK(!memcmp(t, a, l[k] * sizeof *a), "content", "shuffling %u elements lost or doubled one", l[k]); memcpy(a, &VECT_ELEM(v, 0), l[k] * sizeof *a); break;
        case 11: nm = "sample"; { size_t z = ch(2) ? ch(90000) : ch(10); int rc = VECT_SAMPLE(v, w, z, rnd); CHECK((rc != 0) == (z < l[!k]), "result", "sampling %zu of %u elements returned %d", z, l[!k], rc); if (!rc) break; CHECK(VECT_LEN(v) == z, "length", "a sample of %u elements instead of %zu", (unsigned)VECT_LEN(v), z); l[k] = (unsigned)z; if (!z) break; memcpy(a, &VECT_ELEM(v, 0), z * sizeof *a); static word u[N]; memcpy(t, a, z * sizeof *t); memcpy(u, b, l[!k] * sizeof *u); qsort(t, z, sizeof *t, byw); qsort(u, l[!k], sizeof *u, byw); size_t y = 0; for (size_t x = 0; x < z; x++, y++) { while (y < l[!k] && u[y] < t[x]) y++; CHECK(y < l[!k] && u[y] == t[x], "content", "a sampled element is not among those sampled from, or taken twice"); } } break;
        default: nm = "finish"; VECT_FINI(v); VECT_INIT_FROM(v, w); memcpy(a, b, l[!k] * sizeof *a); l[k] = l[!k]; break;
        }
        nops++; evq(op, l[0], l[1]); ev("%s: %u %u", nm, l[0], l[1]); for (int j = 0; j < 2; j++) { if (l[j] > top) top = l[j]; CHECK(VECT_LEN(&V[j]) == l[j] && VECT_CAPACITY(&V[j]) >= l[j], "length", "%zu elements after %s, %u expected", (size_t)VECT_LEN(&V[j]), nm, l[j]); CHECK(!l[j] || !memcmp(&VECT_ELEM(&V[j], 0), m[j], l[j] * sizeof **m), "content", "one of %u elements differs after %s", l[j], nm); }
    }
    if (l[0] > 70000) { unsigned hi = 0; for (unsigned i = 0; i < 200; i++) { word x = VECT_RAND_ELEM(&V[0], rnd); unsigned j = 0; while (j < l[0] && m[0][j] != x) j++; CHECK(j < l[0], "content", "a random element is none of the vector's"); hi += j >= l[0] / 2; } unsigned same = 0; memcpy(t, m[0], l[0] * sizeof *t); qsort(t, l[0], sizeof *t, byw); for (unsigned j = 1; j < l[0]; j++) same += t[j] == t[j - 1]; if (!same) CHECK(hi > 30, "unfair", "%u of 200 random elements of %u are from the upper half", hi, l[0]); }
    VECT_FINI(&V[0]); VECT_FINI(&V[1]); maxlen = top; CHECK(os_heap_live() == 0, "leak", "%u blocks left", (unsigned)os_heap_live());
}
/* every order and every choice is equally likely: counts stay within 7 standard deviations */
static void fair(unsigned got, unsigned n, double p, const char *what, unsigned i)
{
    double d = (double)got - n * p, v = n * p * (1 - p); CHECK(d * d <= 49 * v, "unfair", "%s %u comes up %u times in %u, about %.0f expected", what, i, got, n, n * p);
}
static void uniform(void)
{
    v_word v, d; VECT_INIT(&v, 4); VECT_INIT(&d, 4); unsigned cnt[256] = { 0 }, n = 2400; 
    for (unsigned t = 0; t < n; t++) { VECT_RESET(&v); for (uint64_t i = 0; i < 4; i++) VECT_PUSH_BACK(&v, i); VECT_SHUFFLE(&v, rnd); cnt[VECT_ELEM(&v, 0) * 64 + VECT_ELEM(&v, 1) * 16 + VECT_ELEM(&v, 2) * 4 + VECT_ELEM(&v, 3)]++; }
    unsigned perms = 0; for (unsigned i = 0; i < 256; i++) { unsigned m = 1u << (i & 3) | 1u << (i >> 2 & 3) | 1u << (i >> 4 & 3) | 1u << (i >> 6); if (m == 15) { perms++; fair(cnt[i], n, 1 / 24., "order", i); } }
    unsigned N = 2 + ch(9), k = 1 + ch(N - 1); VECT_RESET(&v); for (uint64_t i = 0; i < N; i++) VECT_PUSH_BACK(&v, i); memset(cnt, 0, sizeof cnt);
    for (unsigned t = 0; t < n; t++) { VECT_RESET(&d); int r = VECT_SAMPLE(&d, &v, k, rnd); CHECK(r && VECT_LEN(&d) == k, "result", "no sample"); for (unsigned i = 0; i < k; i++) cnt[VECT_ELEM(&d, i) % 256]++; }
    for (unsigned i = 0; i < N; i++) fair(cnt[i], n, (double)k / N, "sampled element", i);
    memset(cnt, 0, sizeof cnt); for (unsigned t = 0; t < n; t++) cnt[VECT_RAND_ELEM(&v, rnd) % 256]++;
    for (unsigned i = 0; i < N; i++) fair(cnt[i], n, 1. / N, "random element", i);
    VECT_FINI(&v); VECT_FINI(&d); nops += 3 * n; maxlen = N; CHECK(os_heap_live() == 0, "leak", "%u blocks left", (unsigned)os_heap_live()); evq(N, k, cnt[0]);
}
static void run(void)
{
    os_reset(); nops = maxlen = grown = 0; serial = ch(1000); rn.s = ch_seed(); unsigned kind = ch(4), n = 5 + ch(60); if (ch(10) == 9) n += 200;
    if (ch(600) == 599) { vast(); tally("vast", 1); } else if (ch(200) == 199) { uniform(); tally("distributions", 1); } else if (kind == 0) all_tiny(n); else if (kind == 1) all_word(n); else if (kind == 2) all_rec(n); else buffer(n);
    tally("operations", nops); tally("growths", grown); run_nontrivial(); cover(mix64(mix64(kind, n), mix64(maxlen, serial))); sample("%s: %u operations, up to %u elements, grown %u times", kind == 0 ? "bytes" : kind == 1 ? "words" : kind == 2 ? "records" : "buffer", nops, maxlen, grown);
}
const dst_harness harness = { .property = "M07", .name = "vect", .run = run,
  .rule = "one run = up to 265 operations on two vectors of bytes, words or records (or on a byte buffer) of any initial capacity, each compared with a plain sequence; one run in 600 has vectors of up to 300000 elements; every run is non-trivial; distinct by the hash of the whole event log" };
