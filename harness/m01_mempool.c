/* M01: fixed-size pool allocator */
#include "os.h"
#include <sys/mman.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <limits.h>
#include "utils/mempool.h"

#define MAXB 700
static struct { uint8_t *p; uint8_t pat; } B[MAXB]; static unsigned nb;
static unsigned bsz, tr_calls, tr_fail, tr_live; static int use_traits; static uint8_t dirt;
/* the caller's memory manager: dirty memory, may run out */
static void *tr_alloc(void *c, size_t n)
{
    CHECK(c == &bsz, "context", "the memory manager was called with a wrong context");
    tr_calls++;
    if (n > (1u << 26) || os_fault("alloc")) { tr_fail++; return 0; }
    void *p = os_malloc(n); memset(p, dirt, n); tr_live++; return p;
}
static void tr_free(void *c, void *p)
{
    CHECK(c == &bsz, "context", "the memory manager was called with a wrong context");
    if (!p) return;
    CHECK(os_heap_owns(p), "bad-free", "the pool returned memory it did not take, or twice");
    tr_live--; os_free(p);
}
static void fillb(unsigned i) { uint8_t *p = B[i].p; for (unsigned k = 0; k < bsz; k++) p[k] = (uint8_t)(B[i].pat + k); }
static void checkb(unsigned i)
{
    uint8_t *p = B[i].p;
    for (unsigned k = 0; k < bsz; k++) CHECK(p[k] == (uint8_t)(B[i].pat + k), "contents", "a live block's contents changed at byte %u of %u", k, bsz);
}
extern void m01_cxx_run(void);
/* more blocks than a 16-bit number counts */
static int byptr(const void *a, const void *b) { uintptr_t x = *(const uintptr_t *)a, y = *(const uintptr_t *)b; return x < y ? -1 : x > y; }
static void vast(void)
{
    enum { N = 160000 }; static uint8_t *v[N]; static uintptr_t t[N]; unsigned n = 0, want, max, size, kind = ch(2), limit, top; struct mempool st; prng g = { ch_seed() }; size_t base = os_heap_live(); uint8_t *mem = 0; int rc; size_t msz = 0; memset(&st, 0x5a, sizeof st); dst_more_time(40);
    if (kind == 0) { size = 1 + ch(40); max = ch(2) ? 0 : 65000 + ch(80000); want = max ? max : 65000 + ch(80000); rc = mempool_init(&st, 0, size, max, ch(2) ? 300 + ch(70000) : 0); }
    else { size = 8 + ch(40); max = 0; msz = (size_t)(65000 + ch(80000)) * ((size + 15) & ~15u); mem = os_malloc(msz); rc = mempool_init_from_mem(&st, size, mem, msz); want = N; }
    CHECK(rc == 0, "spurious-failure", "a pool of %u byte blocks is refused (%d)", size, rc); limit = mempool_total_blocks(&st); if (kind) { CHECK(limit > 0 && (uint64_t)limit * size <= msz && ((uint64_t)limit + 2) * (mempool_block_size(&st) + 8) + 1024 > msz, "limit", "%u blocks of %u bytes in %zu bytes", limit, size, msz); want = limit; } else CHECK(limit == max, "limit", "pool of %u blocks says its limit is %u", max, limit);
    size_t h0 = os_heap_live(); unsigned rounds = 1 + ch(3);
    for (unsigned z = 0; z <= rounds; z++) {
        while (n < want && n < N) { uint8_t *p = mempool_alloc(&st); CHECK(p, "spurious-null", "nothing returned with %u of %u blocks live and memory available", n, want); CHECK(!((uintptr_t)p & 7), "alignment", "block at an odd address (mod 8 = %u)", (unsigned)((uintptr_t)p & 7)); p[size - 1] = (uint8_t)(n >> 3); p[0] = (uint8_t)n; if (size >= 8) memcpy(p, &n, 4); v[n++] = p; }
        if (!z) { top = (unsigned)os_heap_live(); if (kind) CHECK(os_heap_live() == h0, "os-memory", "a pool over caller memory took memory from the system"); } else CHECK(os_heap_live() == top, "not-reused", "more memory was taken although blocks were given back");
        if (limit && want == limit && n == want) CHECK(!mempool_alloc(&st), "over-limit", "more than %u blocks handed out", limit);
        for (unsigned i = 0; i < n; i++) t[i] = (uintptr_t)v[i]; qsort(t, n, sizeof *t, byptr); for (unsigned i = 1; i < n; i++) CHECK(t[i] - t[i - 1] >= size, "overlap", "a block overlaps a live one"); if (kind) CHECK(!n || (t[0] >= (uintptr_t)mem && t[n - 1] + size <= (uintptr_t)mem + msz), "outside", "a block is outside the memory given");
        for (unsigned i = 0; i < n; i++) { unsigned w = i; if (size >= 8) memcpy(&w, v[i], 4); CHECK(w == i && (size < 8 || v[i][size - 1] == (uint8_t)(size == 8 ? v[i][7] : v[i][size - 1])), "contents", "block %u of %u has changed", i, n); }
        evq(n, z, size); if (z == rounds) break; unsigned drop = ch(2) ? ch(n + 1) : n; while (drop--) { unsigned i = (unsigned)(prng_next(&g) % n); uint8_t *p = v[i]; v[i] = v[--n]; if (size >= 8 && i < n) memcpy(v[i], &i, 4); mempool_free(&st, p); }
    }
    mempool_fini(&st); if (mem) os_free(mem); CHECK(os_heap_live() == base, "leak", "%zu blocks left after destroying the pool", os_heap_live() - base); tally("vast", 1); run_nontrivial(); cover(mix64(n, kind)); sample("vast kind %u, %u byte blocks, %u live", kind, size, n);
}
/* chunks beyond 4 GB: only the pages touched exist */
static struct { uint8_t *p; size_t n; } W[8]; static unsigned nw;
static void *w_alloc(void *c, size_t n) { (void)c; if (nw == 8) return 0; uint8_t *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return 0; W[nw].p = p; W[nw++].n = n; return p; }
static void w_free(void *c, void *p) { (void)c; for (unsigned i = 0; i < nw; i++) if (W[i].p == p) { munmap(p, W[i].n); W[i] = W[--nw]; return; } CHECK(0, "bad-free", "memory is given back that was not obtained"); }
static void wide(void)
{
    struct memmgr tr = { .alloc = w_alloc, .free = w_free }; struct mempool st; nw = 0; memset(&st, 0x5a, sizeof st); uint8_t *v[24]; unsigned n = 0, k = 14 + ch(8), size = (1u << k) + 8 * ch(3) - 8 * ch(2), units = (unsigned)(((1ull << (32 + ch(3))) >> k) + ch(4)), max = ch(2) ? units : 0;
    int rc = mempool_init(&st, &tr, size, max, units); if (rc < 0 && !nw) { run_nontrivial(); tally("no_wide", 1); return; } CHECK(rc == 0, "spurious-failure", "a pool of %u blocks of %u bytes is refused (%d)", units, size, rc);
    for (unsigned s = 0; s < 40; s++) {
        if (n == 24 || (n && ch(3) == 0)) { unsigned i = ch(n); mempool_free(&st, v[i]); v[i] = v[--n]; continue; }
        uint8_t *p = mempool_alloc(&st); CHECK(p, "spurious-null", "nothing returned with %u of %u blocks live", n, units); unsigned in = 0; for (unsigned i = 0; i < nw; i++) in |= p >= W[i].p && p + size <= W[i].p + W[i].n;
        CHECK(in, "outside", "a block is outside the memory obtained (%u blocks of %u bytes)", units, size); for (unsigned i = 0; i < n; i++) CHECK(p + size <= v[i] || v[i] + size <= p, "overlap", "a block overlaps a live one"); p[0] = p[size - 1] = (uint8_t)s; v[n++] = p;
    }
    evq(n, size, units); mempool_fini(&st); CHECK(nw == 0, "leak", "%u chunks left after destroying the pool", nw); tally("wide", 1); run_nontrivial(); cover(mix64(size, units)); sample("%u blocks of %u bytes", units, size);
}
static void run(void)
{
    if (ch(500) == 499) { os_reset(); os_cfg.alloc = 0; wide(); return; }
    if (ch(3000) == 2999) { os_reset(); os_cfg.alloc = 0; vast(); return; }
    os_reset(); os_cfg.alloc = 0;
    if (ch(8) == 1) { m01_cxx_run(); return; }
    nb = 0; tr_calls = tr_fail = tr_live = 0; dirt = (uint8_t)ch(3) * 0x55; 
    unsigned kind = ch(5);              /* 0 init, 1 new, 2 init_from_mem, 3 new_from_mem, 4 init on a stacked pool */
    static const unsigned ms[] = { 0, 1, 2, 3, 5, 7, 50, 300 }, mu[] = { 0, 1, 2, 5, 33 };
    bsz = ch(4) ? ch(40) : ch(3) ? ch(400) : 0; if (bsz == 0 && ch(12) == 1) bsz = UINT_MAX - ch(20);
    unsigned huge = bsz > 100000;
    unsigned max = ms[ch(NELEM(ms))], units = mu[ch(NELEM(mu))];
    if (huge) { max = 1 + ch(3); }
    if (!max && !units && bsz > 64) bsz %= 64;
    struct mempool st, inner, *a = 0; struct memmgr tr = { .alloc = tr_alloc, .free = tr_free, .context = &bsz }, stk;
    uint8_t *buf = 0; unsigned inner_max = 0; int r;
    memset(&st, 0x5a, sizeof st); memset(&inner, 0xa5, sizeof inner);
    use_traits = (int)ch(2);
    int faulty = ch(3) == 0;
    size_t base = os_heap_live();
    if (kind == 4) {
        unsigned a8 = (bsz < 16 ? 16 : (bsz + 7) & ~7u), u = max ? max : units ? units : 4096;
        if (huge || u * a8 > 200000) { kind = 0; }
        else {
            inner_max = ch(2) ? 1 + ch(5) : 0;
            if (faulty) os_cfg.alloc = 1;
            r = mempool_init(&inner, use_traits ? &tr : 0, 64 + u * a8 + ch(100), inner_max, 1 + ch(4));
            if (r != 0) {
                CHECK(r < 0, "return-code", "creation failed with %d", r);
                CHECK(os_fired("alloc"), "spurious-failure", "creating a pool failed with %d without cause", r);
                CHECK(os_heap_live() == base, "leak", "failed creation left %zu blocks", os_heap_live() - base);
                tally("create_failed", 1); run_nontrivial(); return;
            }
            mempool_make_memmgr(&stk, &inner);
        }
    }
    if (faulty) os_cfg.alloc = 1;
    size_t base2 = os_heap_live(); unsigned memsz = 0, f0 = os_fired("alloc");
    struct mempool *out = (struct mempool*)0x10;
    switch (kind) {
    case 0: a = &st; r = mempool_init(a, use_traits ? &tr : 0, bsz, max, units); break;
    case 1: r = mempool_new(&out, use_traits ? &tr : 0, bsz, max, units); a = out; break;
    case 4: a = &st; r = mempool_init(a, &stk, bsz, max, units); break;
    default: {
        static const unsigned sz[] = { 200, 40, 400, 1000, 4000, 16 };
        unsigned off = ch(9); memsz = ch(sz[ch(NELEM(sz))]);
        buf = os_malloc(off + memsz); memset(buf, 0x3c, off + memsz); base2 = os_heap_live();
        if (kind == 2) { a = &st; r = mempool_init_from_mem(a, bsz, buf + off, memsz); }
        else { r = mempool_new_from_mem(&out, bsz, buf + off, memsz); a = out; }
        CHECK(os_heap_live() == base2, "os-memory", "a pool over caller memory took %zu blocks from the system", os_heap_live() - base2);
        uint64_t a8 = bsz < 16 ? 16 : ((uint64_t)bsz + 7) & ~7ull;
        if (r == 0) CHECK((uint64_t)a8 <= memsz && bsz <= memsz, "too-small", "a %u byte zone was accepted for %u byte blocks", memsz, bsz);
        else {
            CHECK(r < 0, "return-code", "creation failed with %d", r);
            /* generous: bookkeeping of at most 256 bytes may be needed */
            CHECK(memsz < (uint64_t)a8 + 256, "spurious-failure", "a zone of %u bytes was refused for %u byte blocks (%d)", memsz, bsz, r);
        }
        break; }
    }
    ev("create kind %u bsz %u max %u units %u -> %d", kind, bsz, max, units, r);
    if (r != 0) {
        CHECK(r < 0, "return-code", "creation failed with %d", r);
        if (kind != 2 && kind != 3) CHECK(os_fired("alloc") > f0 || huge || inner_max, "spurious-failure", "creating a pool failed with %d without cause", r);
        CHECK(os_heap_live() == base2, "leak", "failed creation left %zu blocks", os_heap_live() - base2);
        if (kind == 4) { mempool_fini(&inner); }
        if (buf) os_free(buf);
        CHECK(os_heap_live() == base, "leak", "%zu blocks left after finishing", os_heap_live() - base);
        tally("create_failed", 1); if (!huge) run_nontrivial();
        return;
    }
    unsigned limit = kind == 2 || kind == 3 ? mempool_total_blocks(a) : max;
    CHECK(mempool_total_blocks(a) == limit, "limit", "pool of %u blocks says its limit is %u", limit, mempool_total_blocks(a));
    if (kind == 2 || kind == 3) CHECK(limit > 0, "limit", "a pool over caller memory has no limit");
    CHECK(mempool_block_size(a) >= bsz, "block-size", "blocks of %u bytes for a request of %u", mempool_block_size(a), bsz);
    unsigned steps = 20 + ch(ch(2) ? 900 : 80), maxlive = 0, nulls = 0, returned = 0, grown = 0;   /* returned: blocks given back and not handed out again */
    unsigned bias = 30 + ch(60); prng g = { ch_seed() };
    for (unsigned s = 0; s < steps; s++) {
        if (s % 64 == 63) bias = 20 + (unsigned)(prng_next(&g) % 75);
        int doalloc = prng_next(&g) % 100 < bias;
        if (doalloc && nb < MAXB) {
            size_t h = os_heap_live(); unsigned f = os_fired("alloc"), c0 = tr_calls;
            uint8_t *p = mempool_alloc(a);
            unsigned ff = os_fired("alloc") - f;
            if (!p) {
                nulls++;
                CHECK((limit && nb == limit) || ff || (kind == 4 && inner_max), "spurious-null", "nothing returned with %u of %u blocks live and memory available", nb, limit);
                CHECK(!returned, "not-reused", "nothing returned although %u blocks were given back", returned);
                CHECK(os_heap_live() == h, "leak", "a failing call kept memory");
                continue;
            }
            CHECK(!limit || nb < limit, "over-limit", "block number %u handed out by a pool limited to %u", nb + 1, limit);
            CHECK(!((uintptr_t)p & 7), "alignment", "block at an odd address (mod 8 = %u)", (unsigned)((uintptr_t)p & 7));
            for (unsigned i = 0; i < nb; i++) CHECK(p >= B[i].p + (bsz ? bsz : 1) || B[i].p >= p + (bsz ? bsz : 1), "overlap", "a block overlaps a live one");
            CHECK(!returned || (os_heap_live() == h && tr_calls == c0), "not-reused", "more memory was taken although %u blocks were given back", returned);
            if (os_heap_live() != h) { grown++; CHECK(!limit, "over-limit", "a limited pool took more memory"); }
            if (kind == 2 || kind == 3) CHECK(os_heap_live() == h, "os-memory", "a pool over caller memory took memory from the system");
            if (returned) returned--;
            B[nb].p = p; B[nb].pat = (uint8_t)prng_next(&g); fillb(nb); nb++; if (nb > maxlive) maxlive = nb;
        } else if (nb) {
            unsigned i = prng_next(&g) % nb; if (prng_next(&g) % 3 == 0) i = nb - 1;
            checkb(i);
            uint8_t *p = B[i].p; B[i] = B[--nb];
            mempool_free(a, p); returned++;
        }
        if (s % 16 == 0 && nb) checkb(prng_next(&g) % nb);
    }
    os_cfg.alloc = 0; use_traits = 0; faults_off();
    /* memory is back: the limit must be reachable */
    if (limit && limit <= MAXB && !(kind == 4 && inner_max)) {
        while (nb < limit) {
            uint8_t *p = mempool_alloc(a);
            CHECK(p, "spurious-null", "only %u of %u blocks can be had", nb, limit);
            for (unsigned i = 0; i < nb; i++) CHECK(p >= B[i].p + (bsz ? bsz : 1) || B[i].p >= p + (bsz ? bsz : 1), "overlap", "a block overlaps a live one");
            B[nb].p = p; B[nb].pat = (uint8_t)nb; fillb(nb); nb++;
        }
        CHECK(!mempool_alloc(a), "over-limit", "more than %u blocks handed out", limit);
    } else if (nb < MAXB && !(kind == 4 && inner_max)) {
        uint8_t *p = mempool_alloc(a); CHECK(p, "unusable", "the pool does not recover after memory ran out");
        B[nb].p = p; B[nb].pat = 9; fillb(nb); nb++;
    }
    for (unsigned i = 0; i < nb; i++) checkb(i);
    if (kind == 1 || kind == 3) mempool_delete(a); else mempool_fini(a);
    if (kind == 4) { mempool_fini(&inner); }
    CHECK(tr_live == 0, "leak", "%u blocks of the caller's memory manager not returned", tr_live);
    if (buf) os_free(buf);
    CHECK(os_heap_live() == base, "leak", "%zu blocks left after destroying the pool", os_heap_live() - base);
    tally("blocks", maxlive); tally("growth", grown); tally("refused", nulls);
    cover(mix64(kind * 1000 + limit, mix64(bsz, maxlive + (nulls ? 1000000 : 0))));
    if (maxlive > 3) run_nontrivial();
    sample("kind %u, %u byte blocks, limit %u, %u live at most, grown %u times, %u refusals, %u allocation faults", kind, bsz, limit, maxlive, grown, nulls, os_fired("alloc"));
}
const dst_harness harness = { .property = "M01", .name = "mempool", .run = run,
  .rule = "one run = one pool (created by init/new, over caller memory, stacked on another pool, or the C++ pool of objects with throwing constructors; system or caller's memory manager; any block size, limit and granularity) (one run in 3000: up to 145000 blocks) under a seeded history of allocations and returns with failing lower-level allocations; non-trivial: more than 3 blocks live at once or a failed creation; distinct by the hash of the whole event log" };
