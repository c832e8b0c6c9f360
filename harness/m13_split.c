/* M13: splitting strings into freshly allocated or given arrays */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include "utils/strutils.h"
typedef struct { char *str, **v; int n; unsigned off[4000], len[4000]; char *orig; } live;
static int isd(const char *tok, char c) { return c && strchr(tok, c); }
static int isw(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int model(const char *s, size_t n, const char *tok, int sqz, unsigned *off, unsigned *len)
{
    int k = 0; size_t a = 0, e = n;
    if (sqz) {
        while (e && isw(s[e - 1])) e--; while (a < e && isw(s[a])) a++;
        size_t b = a; while (b < e) { size_t q = b; while (q < e && !isd(tok, s[q])) q++; off[k] = (unsigned)b; len[k++] = (unsigned)(q - b); while (q < e && isd(tok, s[q])) q++; b = q; }
        if (k == 1 && !len[0]) k = 0;      /* nothing but delimiters: the last part is left out if it is empty */
        return k;
    }
    size_t b = 0; for (size_t i = 0; i < n; i++) if (isd(tok, s[i])) { off[k] = (unsigned)b; len[k++] = (unsigned)(i - b); b = i + 1; }
    if (b < n) { off[k] = (unsigned)b; len[k++] = (unsigned)(n - b); }
    return k;
}
static void same(live *L) { for (int i = 0; i < L->n; i++) { CHECK(L->v[i] >= L->str && L->v[i] <= L->str + strlen(L->orig), "outside", "part %d lies outside the string", i); CHECK(strlen(L->v[i]) == L->len[i] && !memcmp(L->v[i], L->orig + L->off[i], L->len[i]), "part", "part %d of %d of '%.60s' is '%.40s', not '%.*s'", i, L->n, L->orig, L->v[i], (int)(L->len[i] > 40 ? 40 : L->len[i]), L->orig + L->off[i]); } }
/* more parts than a 16-bit number holds */
static void vast(void)
{
    enum { N = 300000 }; static unsigned off[N + 1], len[N + 1]; size_t n = 60000 + ch(N - 60000); prng g = { ch_seed() }; const char *tok = ch(2) ? "," : ", \t"; size_t tl = strlen(tok); int sqz = (int)ch(2), dense = (int)ch(3), give = (int)ch(2), cnt = -77;
    char *s = os_malloc(n + 1), *o = os_malloc(n + 1); for (size_t k = 0; k < n; k++) { uint64_t v = prng_next(&g); s[k] = (v & 255) < (dense == 0 ? 3u : dense == 1 ? 128u : 250u) ? tok[(v >> 8) % tl] : (char)('a' + (v >> 8) % 26); } s[n] = 0; memcpy(o, s, n + 1);
    int want = model(o, n, tok, sqz, off, len); char **v; size_t heap = os_heap_live();
    if (give) { v = os_malloc(((size_t)want + 1) * sizeof *v); if (ch(3) == 0 && want > 1) { int r = strsplit_quick(v, want - 1, s, tok, sqz); CHECK(r < 0, "overrun", "%d parts in %d slots of %d", r, want - 1, want); memcpy(s, o, n + 1); } cnt = strsplit_quick(v, want + (int)ch(2), s, tok, sqz); } else { v = strsplit(&cnt, s, tok, sqz); CHECK(v, "spurious-failure", "splitting fails though there is memory"); }
    CHECK(os_heap_live() == heap + 1 && os_heap_owns(v), "leak", "a split leaves %ld blocks", (long)(os_heap_live() - heap)); CHECK(cnt == want, "count", "%d parts instead of %d", cnt, want); ev("split %zu bytes%s -> %d of %d", n, sqz ? " squeezed" : "", cnt, want);
    for (int i = 0; i < want; i++) { CHECK(v[i] >= s && v[i] <= s + n, "outside", "part %d lies outside the string", i); CHECK(strlen(v[i]) == len[i] && !memcmp(v[i], o + off[i], len[i]), "part", "part %d of %d is '%.40s', not '%.*s'", i, want, v[i], (int)(len[i] > 40 ? 40 : len[i]), o + off[i]); }
    os_free(v); os_free(s); os_free(o); CHECK(os_heap_live() == 0, "leak", "%zu blocks are left", os_heap_live()); tally("splits", 1); tally("over_65536_parts", want > 65536); run_nontrivial(); cover(mix64((uint64_t)want, n)); sample("%zu bytes split into %d parts", n, want);
}
static void run(void)
{
    if (ch(1000) == 999) { os_reset(); vast(); return; }
    os_reset(); static live L[4]; unsigned nl = 0, steps = 1 + ch(12), nsplit = 0, nomem = 0, nshort = 0; int faulty = ch(2); prng g = { ch_seed() };
    static const char *toks[] = { ",", " ", " \t", ",;", ":/", "", "abcdefghijklmnopqrstuvwxyz", "\xff\x80,", "\n,", "|\x01\x3f\x40\x7f" };
    for (unsigned i = 0; i < steps; i++) {
        if (nl && (ch(4) == 0 || nl == 4)) { unsigned k = ch(nl); same(&L[k]); os_free(L[k].v); os_free(L[k].str); os_free(L[k].orig); L[k] = L[--nl]; ev("drop"); continue; }
        const char *tok = toks[ch(10)]; size_t tl = strlen(tok), n = ch(4) == 0 ? ch(4) : ch(3) ? ch(60) : ch(2) ? 100 + ch(60) : ch(3900); unsigned dens = ch(4); int sqz = (int)ch(2); unsigned alnum = ch(3);
        char *s = os_malloc(n + 1), *o = os_malloc(n + 1);
        for (size_t k = 0; k < n; k++) { uint64_t v = prng_next(&g); unsigned p = (unsigned)(v & 0xff); char c = tl && p < (dens == 0 ? 10u : dens == 1 ? 60u : dens == 2 ? 128u : 240u) ? tok[(v >> 8) % tl] : p < 250 ? (alnum ? "abcXYZ0129"[(v >> 8) % 10] : (char)(1 + (v >> 8) % 255)) : ' '; s[k] = c; }
        s[n] = 0; memcpy(o, s, n + 1);
        live *q = &L[nl]; q->str = s; q->orig = o; int want = model(o, n, tok, sqz, q->off, q->len), cnt = -77; char *tk = os_malloc(tl + 1); memcpy(tk, tok, tl + 1); size_t heap = os_heap_live(); nsplit++;
        if (ch(3)) {
            unsigned f0 = os_fired("alloc"); os_cfg.alloc = faulty; int *pc = ch(8) ? &cnt : 0; char **v = strsplit(pc, s, tk, sqz); os_cfg.alloc = 0; int failed = os_fired("alloc") > f0;
            ev("split %zu bytes at %zu delimiters%s -> %s %d of %d", n, tl, sqz ? " squeezed" : "", v ? "parts" : failed ? "no memory" : "none", cnt, want); evq(1, n, (uint64_t)cnt);
            if (!v) { CHECK(failed, "spurious-failure", "splitting fails though there is memory"); CHECK(os_heap_live() == heap, "leak", "a failed split leaves memory allocated"); nomem++; os_free(s); os_free(o); }
            else {
                CHECK(!failed, "error-hidden", "an allocation failed but the split succeeds"); CHECK(os_heap_live() == heap + 1 && os_heap_owns(v), "leak", "a split leaves %ld blocks", (long)(os_heap_live() - heap)); if (pc) CHECK(cnt == want, "count", "%d parts of '%.60s' instead of %d", cnt, o, want);
                q->n = want; q->v = v; same(q); nl++;
            }
        } else {
            unsigned z = ch(3) ? (unsigned)want + ch(3) : ch((unsigned)want + 1); if (z && !ch(4)) z--; char **v = os_malloc(z * sizeof *v + (z == 0)); memset(v, 0x5a, z * sizeof *v); int r = strsplit_quick(v, (int)z, s, tk, sqz);
            ev("split %zu bytes into %u slots%s -> %d of %d", n, z, sqz ? " squeezed" : "", r, want); evq(2, n, (uint64_t)r); CHECK(os_heap_live() == heap + 1 && os_heap_owns(v), "leak", "splitting into a given array leaves %ld blocks", (long)(os_heap_live() - heap - 1));
            if (z < (unsigned)want) { CHECK(r < 0, "overrun", "%d parts in %u slots of %d", r, z, want); nshort++; os_free(v); os_free(s); os_free(o); }
            else { CHECK(r == want, "count", "%d parts of '%.60s' instead of %d", r, o, want); q->n = want; q->v = v; same(q); nl++; }
        }
        CHECK(!strcmp(tk, tok), "input", "the delimiters are changed"); os_free(tk); cover(mix64(mix64((uint64_t)want, n), (uint64_t)sqz)); for (unsigned k = 0; k < nl; k++) same(&L[k]);
    }
    while (nl--) { os_free(L[nl].v); os_free(L[nl].str); os_free(L[nl].orig); }
    CHECK(os_heap_live() == 0, "leak", "%zu blocks are left", os_heap_live()); tally("splits", nsplit); tally("no_memory", nomem); tally("too_small", nshort); if (nsplit > 1) run_nontrivial(); sample("%u splits", nsplit);
}
const dst_harness harness = { .property = "M13", .name = "split", .run = run,
  .rule = "one run = up to twelve splits of strings of 0 to 3900 bytes, squeezed or not, at any of ten sets of delimiters, into a fresh array (any allocation may fail) or a given one (which may be too small), the results being kept and looked at again later; one run in 1000 = one split of 60000 to 300000 bytes into up to as many parts; non-trivial if there is more than one; distinct by the hash of the whole event log" };
