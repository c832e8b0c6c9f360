/* M01: the C++ pool of objects on top of the fixed-size pool (see m01_mempool.c) */
#include "os.h"
#include <string.h>
#include <utility>
#include <new>
#include "utils/mempool.h"
extern "C" void m01_cxx_run(void);
static unsigned ctors, dtors, thrown;
struct oops { };
template <unsigned N> struct obj {
    uint8_t b[N]; 
    obj(uint8_t a, uint8_t step, bool bad) { if (bad) { thrown++; throw oops(); } ctors++; for (unsigned i = 0; i < N; i++) b[i] = (uint8_t)(a + i * step); }
    ~obj() { dtors++; }
};
template <> struct obj<8> {
    uint64_t v;
    obj(uint8_t a, uint8_t step, bool bad) { if (bad) { thrown++; throw oops(); } ctors++; v = a * 256u + step; }
    ~obj() { dtors++; }
};
template <unsigned N> static bool same(const obj<N> *o, uint8_t a, uint8_t s) { for (unsigned i = 0; i < N; i++) if (o->b[i] != (uint8_t)(a + i * s)) return false; return true; }
template <> bool same<8>(const obj<8> *o, uint8_t a, uint8_t s) { return o->v == a * 256u + s; }
template <unsigned N> static void go()
{
    typedef obj<N> T; typedef putils::Mempool<T> P;
    static struct { T *p; uint8_t a, s; } L[200]; unsigned n = 0;
    size_t base = os_heap_live(); ctors = dtors = thrown = 0;
    unsigned max = ch(3) ? 1 + ch(40) : 0, units = ch(20); bool zone = ch(3) == 0;
    unsigned zs = 100 + ch(3000); void *z = 0; if (zone) { z = os_malloc(zs); memset(z, 0x5c, zs); }
    size_t zb = os_heap_live(); bool faulty = ch(3) == 0; unsigned f0 = os_fired("alloc");
    P *p = 0; alignas(P) static uint8_t mem[sizeof(P)]; memset(mem, 0xa7, sizeof mem);
    if (faulty) os_cfg.alloc = 1;
    try { p = zone ? new((void*)mem) P(z, zs) : new((void*)mem) P((int)max, (int)units); }
    catch (const std::bad_alloc &) {
        os_cfg.alloc = 0;
        CHECK(zone ? zs < (N < 16 ? 16 : N) + 300 : os_fired("alloc") > f0, "spurious-failure", "creating a pool failed without cause");
        CHECK(os_heap_live() == zb, "leak", "failed creation left %zu blocks", os_heap_live() - zb);
        if (z) os_free(z);
        tally("create_failed", 1); return;
    }
    unsigned limit = p->Totalblocks();
    CHECK(zone ? limit > 0 && (uint64_t)limit * N <= zs : limit == max, "limit", "pool of %u blocks says its limit is %u", max, limit);
    CHECK(p->Blocksize() >= N, "block-size", "blocks of %u bytes for %u byte objects", p->Blocksize(), N);
    unsigned steps = 20 + ch(200), maxlive = 0, nulls = 0, bias = 35 + ch(50); prng g = { ch_seed() }; bool drain = false;
    for (unsigned s = 0; ; s++) {
        if (s == steps) { os_cfg.alloc = 0; faults_off(); }
        bool last = s >= steps;
        if (last && !drain && (n >= 200 || !limit)) drain = true;       /* then: fill to the limit, and take everything back */
        if (last && drain && !n) break;
        bool add = last ? !drain : prng_next(&g) % 100 < bias;
        if (add && n < 200) {
            uint8_t a = (uint8_t)prng_next(&g), st = (uint8_t)prng_next(&g); bool bad = !last && prng_next(&g) % 8 == 0;
            unsigned c0 = ctors, t0 = thrown, f = os_fired("alloc"); T *o = 0; int how = 0;
            try { o = p->Alloc(a, st, bad); } catch (const std::bad_alloc &) { how = 1; } catch (const oops &) { how = 2; }
            if (how == 1) {
                nulls++;
                CHECK(thrown == t0 && ctors == c0, "constructed", "an object was constructed although no block could be had");
                CHECK((limit && n == limit) || os_fired("alloc") > f, "spurious-null", "nothing returned with %u of %u objects live and memory available", n, limit);
                if (last) drain = true;
                continue;
            }
            CHECK(!limit || n < limit, "over-limit", "object number %u handed out by a pool limited to %u", n + 1, limit);
            if (bad) { CHECK(how == 2, "exception", "the constructor's exception was lost"); continue; }
            CHECK(!how && o && ctors == c0 + 1, "constructed", "%u objects constructed by one allocation", ctors - c0);
            CHECK(!((uintptr_t)o & 7), "alignment", "object at an odd address");
            for (unsigned i = 0; i < n; i++) CHECK(o + 1 <= L[i].p || L[i].p + 1 <= o, "overlap", "an object overlaps a live one");
            L[n].p = o; L[n].a = a; L[n].s = st; n++; if (n > maxlive) maxlive = n;
        } else if (n) {
            unsigned i = (unsigned)(prng_next(&g) % n), d0 = dtors;
            CHECK(same(L[i].p, L[i].a, L[i].s), "contents", "a live object's contents changed");
            T *o = L[i].p; L[i] = L[--n];
            p->Free(o);
            CHECK(dtors == d0 + 1, "destroyed", "%u objects destroyed by one release", dtors - d0);
        }
    }
    CHECK(!limit || maxlive <= limit, "over-limit", "%u objects live in a pool limited to %u", maxlive, limit);
    if (limit && limit <= 200) CHECK(maxlive == limit, "spurious-null", "only %u of %u objects can be had", maxlive, limit);
    p->~P();
    if (z) os_free(z);
    CHECK(os_heap_live() == base, "leak", "%zu blocks left after destroying the pool", os_heap_live() - base);
    tally("objects", maxlive); tally("refused", nulls); tally("constructor_throws", thrown); if (thrown) fault_note("constructor_throw");
    cover(mix64(77000 + N, mix64(limit, maxlive + (nulls ? 1000000 : 0) + (zone ? 2000000 : 0))));
    if (maxlive > 3) run_nontrivial();
    sample("C++ pool of %u byte objects, limit %u, %u live at most, %u refusals, %u constructors threw, %u allocation faults", N, limit, maxlive, nulls, thrown, os_fired("alloc") - f0);
}
void m01_cxx_run(void)
{
    switch (ch(5)) { case 0: go<1>(); break; case 1: go<8>(); break; case 2: go<16>(); break; case 3: go<33>(); break; default: go<200>(); break; }
}
