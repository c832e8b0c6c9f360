/* M09: binary heap and bit sets against sorted and plain sets */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
template <class T> static void swap(T *h, int i, int j) { T t = h[i]; h[i] = h[j]; h[j] = t; }
#include "utils/minheap.h"
static unsigned nops, longest, refused;
struct node { uint32_t key, id; };
struct less_node { static bool lt(const node &a, const node &b) { return a.key < b.key; } static bool gt(const node &a, const node &b) { return a.key > b.key; } };
struct less_int { static bool lt(const int &a, const int &b) { return a < b; } static bool gt(const int &a, const int &b) { return a > b; } };
static uint32_t key(const node &x) { return x.key; } static uint32_t key(const int &x) { return (uint32_t)x; }
static void mk(node &x, uint32_t k, uint32_t id) { x.key = k; x.id = id; } static void mk(int &x, uint32_t k, uint32_t) { x = (int)k; }
#define MAXH 700
template <class T, class C> static void heaps(unsigned n)
{
    static T m[MAXH]; unsigned l = 0, cap = ch(8) ? ch(40) : ch(MAXH - 1), range = ch(3) ? 1 + ch(50) : 1000000, id = 0; 
    T *h = (T *)os_malloc(cap * sizeof(T) + 1); unsigned init = ch(3) ? 0 : ch(cap + 1);
    for (unsigned i = 0; i < init; i++) { mk(h[i], ch(range), ++id); m[l++] = h[i]; } 
    minheap<T, C> q(h, (int)init, (int)cap); bool drain = false;
    while (n || drain) {
        if (n) n--; unsigned op = drain ? 4 : ch(10); T it; memset(&it, 0xee, sizeof it); const char *nm; nops++;
        CHECK(q.heapsize() == (int)l, "length", "a heap of %d elements, %u expected", q.heapsize(), l);
        if (op < 4) { nm = "insert"; T x; mk(x, ch(range), ++id); bool r = q.insert(x); CHECK(r == (l < cap), "full", "adding to a heap with %u of %u elements returned %d", l, cap, r); if (r) m[l++] = x; }
        else if (op < 6) {
            nm = "removemin"; bool r = q.removemin(it); CHECK(r == (l > 0), "empty", "taking from a heap of %u elements returned %d", l, r); if (!r) { drain = false; continue; }
            unsigned best = MAXH; for (unsigned i = 0; i < l; i++) if (!memcmp(&m[i], &it, sizeof it)) best = i; CHECK(best < MAXH, "content", "an element is taken that was not in the heap"); for (unsigned i = 0; i < l; i++) CHECK(key(m[i]) >= key(it), "order", "key %u is taken while %u is in the heap", key(it), key(m[i])); m[best] = m[--l];
        } else if (op < 9) {
            nm = "remove"; int pos = ch(8) == 7 ? (int)ch(2000) - 1000 : l ? (int)(ch(3) ? ch(l) : l - 1) : 0; T was; memset(&was, 0, sizeof was); bool ok = pos >= 0 && pos < (int)l; if (ok) was = h[pos];
            bool r = q.remove(pos, it); CHECK(r == ok, "result", "removing position %d of %u returned %d", pos, l, r); if (r) { CHECK(!memcmp(&was, &it, sizeof it), "content", "another element than that at the position is removed"); unsigned k = 0; while (k < l && memcmp(&m[k], &it, sizeof it)) k++; CHECK(k < l, "content", "an element is removed that was not in the heap"); m[k] = m[--l]; }
        } else { nm = "drain"; if (ch(3) == 0) drain = true; }
        evq(op, l, key(it)); (void)nm; if (l > longest) longest = l;
    }
    /* whatever is left comes out in order */
    T prev, it; mk(prev, 0, 0); unsigned got = 0; while (q.removemin(it)) { CHECK(key(it) >= key(prev), "order", "key %u comes out after %u", key(it), key(prev)); unsigned k = 0; while (k < l && memcmp(&m[k], &it, sizeof it)) k++; CHECK(k < l, "content", "an element comes out that was not in the heap"); m[k] = m[--l]; prev = it; got++; CHECK(got <= MAXH, "length", "the heap never gets empty"); }
    CHECK(l == 0, "lost", "%u elements never come out", l); os_free(h);
}
extern "C" void m09_bits(unsigned n, unsigned *nops, unsigned *size, unsigned *refused);
extern "C" void m09_vast(int more, unsigned *nops, unsigned *size);
/* more elements than a 16-bit number counts */
static int by_int(const void *a, const void *b) { int x = *(const int *)a, y = *(const int *)b; return x < y ? -1 : x > y; }
static void vast()
{
    enum { N = 200000 }; static int m[N]; unsigned l = 0, cap = 65000 + ch(N - 65000), init = ch(2) ? 0 : ch(cap), want = cap - ch(3), range = ch(3) ? 0x7fffffff : 100; prng g = { ch_seed() }; int *h = (int *)os_malloc(cap * sizeof *h);
    for (unsigned i = 0; i < init; i++) m[l++] = h[i] = (int)(prng_next(&g) % range); minheap<int, less_int> q(h, (int)init, (int)cap);
    int shape = (int)ch(3); while (l < want) { int x = shape == 0 ? (int)l : shape == 1 ? (int)(N - l) : (int)(prng_next(&g) % range); CHECK(q.insert(x), "full", "adding to a heap with %u of %u elements failed", l, cap); m[l++] = x; } if (l == cap) CHECK(!q.insert(1), "full", "adding to a heap with %u of %u elements worked", l, cap);
    for (unsigned i = ch(50); i--; ) { int it, pos = (int)ch(l), was = h[pos]; CHECK(q.remove(pos, it) && it == was, "result", "removing position %d of %u", pos, l); l--; h[l] = was; unsigned k = 0; while (m[k] != was) k++; m[k] = m[l]; }
    CHECK(q.heapsize() == (int)l, "length", "a heap of %d elements, %u expected", q.heapsize(), l); qsort(m, l, sizeof *m, by_int); nops += l; longest = l; evq(l, (uint64_t)m[0], (uint64_t)shape);
    for (unsigned i = 0; i < l; i++) { int it; CHECK(q.removemin(it), "empty", "a heap of %u elements is empty after %u", l, i); CHECK(it == m[i], "order", "element %u of %u comes out as %d instead of %d", i, l, it, m[i]); } int it; CHECK(!q.removemin(it), "empty", "more elements come out than went in"); os_free(h);
}
static void run(void)
{
    os_reset(); nops = longest = refused = 0; unsigned kind = ch(3), n = 3 + ch(60); if (ch(10) == 9) n += 500;
    if (ch(3000) == 2999) { tally("vast", 1); if (kind) vast(); else m09_vast(ch(30) == 29, &nops, &longest); } else if (kind == 0) heaps<node, less_node>(n); else if (kind == 1) heaps<int, less_int>(n); else m09_bits(n < 100 ? n : 100, &nops, &longest, &refused);
    CHECK(os_heap_live() == 0, "leak", "%u blocks left", (unsigned)os_heap_live());
    tally("operations", nops); tally("refused", refused); run_nontrivial(); cover(mix64(run_hash(), kind)); sample("%s: %u operations, up to %u elements", kind == 0 ? "heap of records" : kind == 1 ? "heap of integers" : "bit sets", nops, longest);
}
extern "C" const dst_harness harness;
const dst_harness harness = { .property = "M09", .name = "heap", .run = run,
  .rule = "one run = up to 563 operations on a heap over an array of exactly its capacity, or on three bit sets of one size (on the heap or the stack, with failing allocations), each compared with a multiset or array of booleans; one run in 3000 has a heap of up to 200000 elements or a set of up to 265000 bits, one in 270000 a set of more than 2^32 bits; every run is non-trivial; distinct by the hash of the whole event log" };
