/* M02: arena allocator */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include "utils/arena.h"

#define MAXA 600
static struct { uint8_t *p; size_t n; uint8_t pat; } A[2][MAXA]; static unsigned na[2];
static void fill(int k, unsigned i) { for (size_t b = 0; b < A[k][i].n; b++) A[k][i].p[b] = (uint8_t)(A[k][i].pat + b * 3); }
static void check(int k, unsigned i)
{
    for (size_t b = 0; b < A[k][i].n; b++) CHECK(A[k][i].p[b] == (uint8_t)(A[k][i].pat + b * 3), "contents", "allocation %u of %zu bytes changed at byte %zu", i, A[k][i].n, b);
}
static size_t pick_size(prng *g, unsigned mode, size_t chunk)
{
    uint64_t r = prng_next(g), q = prng_next(g);
    switch (mode) {
    case 0: return r % 40;
    case 1: return r % 300;
    case 2: return r % 8 ? r % 24 : r % 3000;
    case 3: return q % 5 ? r % 64 : chunk - (chunk ? r % (chunk < 20 ? chunk : 20) : 0);
    default: {
        static const size_t huge[] = { SIZE_MAX, SIZE_MAX - 7, SIZE_MAX / 16, SIZE_MAX / 16 + 1, SIZE_MAX / 8, SIZE_MAX / 2, SIZE_MAX / 2 + 1, (size_t)1 << 60, ((size_t)1 << 60) + 3, SIZE_MAX - 40, (size_t)1 << 32, SIZE_MAX - 32 };
        return q % 12 == 0 ? huge[r % NELEM(huge)] - (q >> 32) % 3 : r % 100; }
    }
}
/* more allocations than a 16-bit number counts */
struct piece { uint8_t *p; unsigned n; };
static int byptr(const void *a, const void *b) { const struct piece *x = a, *y = b; return x->p < y->p ? -1 : x->p > y->p ? 1 : x->n < y->n ? -1 : x->n > y->n; }
static void vast(void)
{
    enum { N = 150000 }; static struct piece v[N]; static const size_t cs[] = { 4096, 0, 70000, 1 << 20, 1 << 23, 1, 64, 1000 }; unsigned n = ch(2) ? 65000 + ch(N - 65000) : ch(200), mode = n < 1000 ? 2 : ch(2); size_t base = os_heap_live(), c = cs[ch(n < 1000 ? 8 : 5)]; arena_t a; int rc = arena_new(&a, c); CHECK(rc == 0, "spurious-failure", "creating an arena failed with %d", rc);
    prng g = { ch_seed() };
    for (unsigned i = 0; i < n; i++) { uint64_t x = prng_next(&g); unsigned z = (unsigned)(mode == 2 ? (x % 4 ? x >> 9 & 0xff : 60000 + (x >> 9) % 300000) : mode ? x % 40 : 8); uint8_t *p; if (mode == 2 && x % 16 == 4) { char *s = os_malloc(z + 1); memset(s, 'a' + i % 26, z); s[z] = 0; p = (uint8_t *)arena_strdup(a, s); CHECK(p && !memcmp(p, s, z + 1), "strdup", "a duplicated string of %u differs", z); os_free(s); z++; } else p = arena_alloc(a, z); CHECK(p, "spurious-null", "%u bytes refused without cause", z); CHECK(!((uintptr_t)p & 7), "alignment", "an allocation is misaligned"); v[i].p = p; v[i].n = z; memset(p, (int)((uintptr_t)p >> 3 & 0xff), z); }
    qsort(v, n, sizeof *v, byptr); uint8_t *end = 0; for (unsigned i = 0; i < n; i++) if (v[i].n) { CHECK(v[i].p >= end, "overlap", "an allocation of %u bytes overlaps an earlier one", v[i].n); end = v[i].p + v[i].n; uint8_t w = (uint8_t)((uintptr_t)v[i].p >> 3); CHECK(v[i].p[0] == w && end[-1] == w && v[i].p[v[i].n / 2] == w, "contents", "an allocation of %u bytes changed", v[i].n); }
    arena_delete(a); CHECK(os_heap_live() == base, "leak", "%zu blocks left after deleting", os_heap_live() - base); tally("vast", 1); run_nontrivial(); evq(n, mode, c); cover(mix64(n, c)); sample("chunk %zu, %u allocations", c, n);
}
static void run(void)
{
    if (ch(1000) == 999) { os_reset(); vast(); return; }
    os_reset(); na[0] = na[1] = 0;
    unsigned narena = 1 + ch(2), mode = ch(5);
    arena_t ar[2]; size_t chunk[2]; size_t base = os_heap_live(), tot = os_heap_total();
    os_cfg.alloc = 1;
    for (unsigned k = 0; k < narena; k++) {
        static const size_t cs[] = { 64, 0, 1, 7, 100, 256, 1000, 4096, 33, SIZE_MAX, SIZE_MAX - 31, SIZE_MAX - 8, (size_t)1 << 40 };
        chunk[k] = cs[ch(ch(4) == 3 ? NELEM(cs) : 9)]; unsigned f = os_fired("");
        ar[k] = (arena_t)0x10;
        int r = arena_new(&ar[k], chunk[k]);
        if (r != 0) {
            CHECK(r < 0, "return-code", "creation failed with %d", r);
            CHECK(os_fired("") > f, "spurious-failure", "creating an arena failed with %d without cause", r);
            if (k == 1) arena_delete(ar[0]);
            CHECK(os_heap_live() == base, "leak", "failed creation left %zu blocks", os_heap_live() - base);
            tally("create_failed", 1); run_nontrivial(); return;
        }
        CHECK(ar[k], "return-code", "creation succeeded without an arena");
        ev("arena chunk %zu", chunk[k]);
    }
    struct memmgr mm; unsigned steps = 5 + ch(ch(3) ? 60 : MAXA - 10), refused = 0; prng g = { ch_seed() };
    if (mode == 4 && steps > 100) steps = 100;
    for (unsigned s = 0; s < steps; s++) {
        int k = (int)(prng_next(&g) % narena); unsigned how = prng_next(&g) % 8;
        size_t n = pick_size(&g, mode, chunk[k] < 100000 ? chunk[k] : 100);
        unsigned f = os_fired(""); size_t h = os_heap_live();
        uint8_t *p; static char str[64]; 
        if (how == 0 && n < 60) { memset(str, 'a' + (int)(s % 26), n); str[n] = 0; p = (uint8_t*)arena_strdup(ar[k], str); n++; if (p) CHECK(!strcmp((char*)p, str), "strdup", "a duplicated string differs"); }
        else if (how == 1) { arena_memmgr(&mm, ar[k]); p = mm.alloc(mm.context, n); }
        else p = arena_alloc(ar[k], n);
        if (!p) {
            refused++;
            CHECK(os_fired("") > f || n > ((size_t)1 << 27) || chunk[k] > ((size_t)1 << 27), "spurious-null", "%zu bytes refused without cause", n);
            CHECK(os_heap_live() == h, "leak", "a failing call kept memory");
            for (unsigned i = 0; i < na[k]; i += 1 + na[k] / 8) check(k, i);
            continue;
        }
        CHECK(n <= ((size_t)1 << 31) || os_heap_total() - tot >= n, "too-small", "%zu bytes were granted without memory for them", n);
        if (n > ((size_t)1 << 31)) violation("too-small", "%zu bytes were granted", n);
        CHECK(!((uintptr_t)p & 7), "alignment", "an allocation is misaligned (mod 8 = %u)", (unsigned)((uintptr_t)p & 7));
        for (int q = 0; q < (int)narena; q++) for (unsigned i = 0; i < na[q]; i++) if (n && A[q][i].n)
            CHECK(p >= A[q][i].p + A[q][i].n || A[q][i].p >= p + n, "overlap", "an allocation of %zu bytes overlaps an earlier one of %zu", n, A[q][i].n);
        A[k][na[k]].p = p; A[k][na[k]].n = n; A[k][na[k]].pat = (uint8_t)prng_next(&g); fill(k, na[k]); na[k]++;
        if (na[k] >= MAXA) break;
    }
    faults_off();
    for (unsigned k = 0; k < narena; k++) if (chunk[k] < ((size_t)1 << 27)) {
        uint8_t *p = arena_alloc(ar[k], 24); CHECK(p, "unusable", "the arena does not recover after memory ran out");
        A[k][na[k]].p = p; A[k][na[k]].n = 24; A[k][na[k]].pat = 1; fill(k, na[k]); na[k]++;
    }
    for (unsigned k = 0; k < narena; k++) {
        for (unsigned q = k; q < narena; q++) for (unsigned i = 0; i < na[q]; i++) check((int)q, i);
        arena_delete(ar[k]);
    }
    CHECK(os_heap_live() == base, "leak", "%zu blocks left after deleting", os_heap_live() - base);
    tally("allocations", na[0] + na[1]); tally("refused", refused);
    cover(run_hash());
    if (na[0] > 3) run_nontrivial();
    sample("%u arenas (chunk %zu), %u allocations, %u refused, %u allocation faults", narena, chunk[0], na[0] + na[1], refused, os_fired(""));
}
const dst_harness harness = { .property = "M02", .name = "arena", .run = run,
  .rule = "one run = one or two interleaved arenas of any chunk size under a seeded history of allocations (direct, string copies, through the memory-manager adapter, sizes from 0 to SIZE_MAX; one run in 1000: up to 150000 allocations, or sizes beyond 65536) with a failing system allocator; non-trivial: more than 3 allocations held or a failed creation; distinct by the hash of the whole event log" };
