/* M11: messages packed by one side and unpacked by another, delivered whole, cut short, extended or damaged */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdint.h>
#include <errno.h>
#include "utils/pack.h"
#define MAXI 6
#define MAXB 20000
typedef struct { char t; unsigned mode, n, sz; uint8_t v[2400]; char *s; unsigned sl; } item;   /* mode 0 one value, 1 fixed count, 2 counted */
static item it[MAXI]; static unsigned ni; static int big; static char fmt[200];
static uint8_t want[MAXB]; static unsigned nw; static prng rn; static char str[MAXI][700];
static void put(uint64_t v, unsigned sz) { for (unsigned i = 0; i < sz; i++) want[nw++] = (uint8_t)(v >> 8 * (big ? sz - 1 - i : i)); }
static uint64_t get(const uint8_t *p, unsigned sz) { uint64_t v = 0; for (unsigned i = 0; i < sz; i++) v |= (uint64_t)p[i] << 8 * (big ? sz - 1 - i : i); return v; }
static uint64_t elem(const item *x, unsigned i) { uint64_t v = 0; memcpy(&v, x->v + i * x->sz, x->sz); return v; }
static unsigned size_of(char c) { switch (c) { case 'b': case 'B': return 1; case 's': case 'S': return 2; case 'i': case 'I': case 'f': return 4; case 'l': case 'L': case 'd': case 'D': return 8; } return 0; }
static int isstr(char c) { return c == 'z' || c == 'Z'; } static int isflt(char c) { return c == 'f' || c == 'd' || c == 'D'; }
/* the message: types, counts, values, and the bytes they stand for */
static void generate(void)
{
    static const char types[] = "bBsSiIlLfdDxzZ"; ni = 1 + ch(MAXI); unsigned e = ch(3); big = e == 2; char *f = fmt; f += sprintf(f, "%s", e == 0 ? "" : e == 1 ? "<" : ">"); nw = 0;
    for (unsigned k = 0; k < ni; k++) {
        item *x = &it[k]; x->t = types[ch(14)]; x->mode = ch(3); x->sz = size_of(x->t); unsigned most = ch(5) ? 8 : 300; x->n = x->mode == 0 ? 1 : x->mode == 1 ? 2 + ch(most) : ch(most); if (isstr(x->t) && x->mode == 1) x->n = 1 + ch(most);
        for (unsigned i = 0; i < ch(3); i++) *f++ = " \t\n"[ch(3)];
        if (x->mode == 2) { *f++ = '*'; for (unsigned i = 0; i < ch(3); i++) *f++ = ' '; put(x->n, 4); } else if (x->mode == 1 || (ch(4) == 3 && !isstr(x->t))) f += sprintf(f, ch(4) ? "%u" : "%05u", x->n);
        *f++ = x->t; *f = 0;
        if (x->sz) { for (unsigned i = 0; i < x->n; i++) { uint64_t v = prng_next(&rn) ^ prng_next(&rn) << 31; if (!(prng_next(&rn) & 7)) v = ~0ull; if (isflt(x->t) && x->mode == 0) { double d = (double)(int64_t)v / 4096; float g = (float)d; v = 0; if (x->sz == 4) memcpy(&v, &g, 4); else memcpy(&v, &d, 8); } memcpy(x->v + i * x->sz, &v, x->sz); put(elem(x, i), x->sz); } }
        else if (x->t == 'x') for (unsigned i = 0; i < x->n; i++) put(0, 1);
        else { x->sl = ch(3) ? ch(20) : ch(600); x->s = str[k]; for (unsigned i = 0; i < x->sl; i++) { char c = (char)(prng_next(&rn) >> 11); x->s[i] = c ? c : '*'; } x->s[x->sl] = 0; if (ch(9) == 8) { x->s = 0; x->sl = 0; } unsigned n = x->mode == 0 ? x->sl + 1 : x->n; x->n = n; for (unsigned i = 0; i < n; i++) put(i < x->sl ? (uint8_t)x->s[i] : 0, 1); }
    }
    if (ch(4) == 3) *f++ = ' '; *f = 0;
}
static ssize_t call(int un, uint8_t *b, size_t n, const char *f, uint64_t *a, double *d)
{   /* x86-64: whole numbers and floating point arguments are passed in separate sequences */
    ssize_t (*fn)(uint8_t *, size_t, const char *, ...) = un ? Unpack : Pack;
    return fn(b, n, f, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]);
}
static unsigned npacked, nrefused, ndamaged, nnomem, nbad;
static void pack(void)
{
    uint64_t a[13] = { 0 }; double d[8] = { 0 }; unsigned na = 0, nd = 0;
    for (unsigned k = 0; k < ni; k++) {
        item *x = &it[k]; if (x->mode == 2) a[na++] = x->n | (ch(2) ? 0xdead00000000ull : 0); if (x->t == 'x') continue;
        if (isstr(x->t)) a[na++] = (uintptr_t)x->s;
        else if (x->mode == 0) { uint64_t v = elem(x, 0); if (isflt(x->t)) { if (x->sz == 4) { float g; memcpy(&g, &v, 4); d[nd++] = g; } else memcpy(&d[nd++], &v, 8); } else a[na++] = v | (x->sz < 8 && ch(2) ? ~0ull << 8 * x->sz : 0); }
        else { uint8_t *p = os_malloc(x->n * x->sz); memcpy(p, x->v, x->n * x->sz); a[na++] = (uintptr_t)p; }
    }
    unsigned room = ch(3) ? nw + (ch(2) ? ch(20) : 0) : ch(nw + 1); uint8_t *b = os_malloc(room ? room : 1); memset(b, 0xa5, room);
    ssize_t r = call(0, b, room, fmt, a, d);
    if (room < nw) { CHECK(r == -ENOSPC, "no-room", "packing %u bytes into %u with \"%s\" gave %ld", nw, room, fmt, (long)r); nrefused++; }
    else { CHECK(r == (ssize_t)nw, r < 0 ? "spurious-failure" : "length", "packing with \"%s\" gave %ld instead of %u", fmt, (long)r, nw); for (unsigned i = 0; i < nw; i++) CHECK(b[i] == want[i], "content", "byte %u of %u packed with \"%s\" is %02x instead of %02x", i, nw, fmt, b[i], want[i]); for (unsigned i = nw; i < room; i++) CHECK(b[i] == 0xa5, "overrun", "byte %u past the message was changed", i - nw); npacked++; }
    os_free(b); na = 0; for (unsigned k = 0; k < ni; k++) { item *x = &it[k]; if (x->mode == 2) na++; if (x->t == 'x') continue; if (!isstr(x->t) && x->mode) os_free((void *)(uintptr_t)a[na++]); else if (isstr(x->t) || !isflt(x->t)) na++; }
    evq((uint64_t)r, nw, room);
}
static void unpack(void)
{
    static uint8_t net[MAXB + 64]; unsigned n = nw; memcpy(net, want, nw); unsigned harm = ch(5);
    if (harm == 1) n = ch(nw + 1); if (harm == 2) for (unsigned i = ch(16); i; i--) net[n++] = (uint8_t)prng_next(&rn); if (harm >= 3) for (unsigned i = 1 + ch(3); i && n; i--) { unsigned at = ch(n); net[at] = ch(2) ? (uint8_t)prng_next(&rn) : (uint8_t)(net[at] ^ 1u << ch(8)); } if (harm == 4) { unsigned at = 0; for (unsigned k = 0; k < ni; k++) { if (it[k].mode == 2) { if (ch(2)) { uint32_t v = ch(2) ? (uint32_t)prng_next(&rn) : (uint32_t)(get(net + at, 4) + (ch(2) ? 1 : ~0u)); if (ch(8) == 0) v = 0xffffffffu >> ch(4); for (unsigned i = 0; i < 4; i++) net[at + i] = (uint8_t)(v >> 8 * (big ? 3 - i : i)); } at += 4; } at += it[k].n * (it[k].sz ? it[k].sz : 1); if (at + 4 > n) break; } }
    /* what a correct receiver makes of it */
    unsigned at = 0; int expect = 0; struct { unsigned off, n; uint32_t cnt; int done; } m[MAXI]; memset(m, 0, sizeof m);
    for (unsigned k = 0; k < ni && !expect; k++) {
        item *x = &it[k]; unsigned sz = x->sz ? x->sz : 1; uint64_t c = x->mode == 1 ? x->n : 1;
        if (x->mode == 2) { if (n - at < 4) { expect = -ENOSPC; break; } c = m[k].cnt = (uint32_t)get(net + at, 4); at += 4; }
        if (isstr(x->t) && x->mode == 0) { c = 0; while (at + c < n && net[at + c]) c++; if (at + c == n) { expect = -EINVAL; break; } c++; }
        if (c * sz > n - at) { expect = -ENOSPC; break; } m[k].off = at; m[k].n = (unsigned)c; m[k].done = 1; at += (unsigned)(c * sz);
    }
    uint64_t a[13] = { 0 }; double d[8] = { 0 }; unsigned na = 0; void *out[MAXI]; uint32_t *cnt[MAXI]; void *arr[MAXI]; size_t heap = os_heap_live(); int null = ch(60) == 59 ? (int)ch(ni) : -1;
    if (null >= 0 && it[null].t == 'x' && it[null].mode != 2) null = -1;
    for (unsigned k = 0; k < ni; k++) { item *x = &it[k]; out[k] = arr[k] = 0; cnt[k] = 0; if (x->mode == 2) { cnt[k] = os_malloc(4); *cnt[k] = 0; a[na++] = null == (int)k && (x->t == 'x' || ch(2)) ? 0 : (uintptr_t)cnt[k]; } if (x->t == 'x') continue; if (isstr(x->t) || x->mode == 2) a[na++] = (uintptr_t)&out[k]; else { arr[k] = os_malloc(x->n * x->sz); memset(arr[k], 0x5a, x->n * x->sz); a[na++] = (uintptr_t)arr[k]; } if (null == (int)k && !(x->mode == 2 && !a[na - 2])) a[na - 1] = 0; }
    uint8_t *b = os_malloc(n ? n : 1); memcpy(b, net, n); unsigned f0 = os_fired("alloc"); os_cfg.alloc = ch(3) == 0; ssize_t r = call(1, b, n, fmt, a, d); os_cfg.alloc = 0; int fired = os_fired("alloc") > f0; 
    CHECK(!memcmp(b, net, n), "content", "unpacking changed the message"); os_free(b); evq((uint64_t)r, n, (uint64_t)expect);
    if (null >= 0) CHECK(r < 0, "null", "a missing pointer for item %d of \"%s\" gave %ld", null, fmt, (long)r);
    else if (r == -ENOMEM) { CHECK(fired, "spurious-failure", "no memory, though no allocation failed"); nnomem++; }
    else if (expect) { CHECK(r == expect, r < 0 ? "error-code" : "error-hidden", "unpacking %u bytes with \"%s\" gave %ld instead of %d", n, fmt, (long)r, expect); nrefused++; }
    else {
        CHECK(!fired, "error-hidden", "an allocation failed but \"%s\" gave %ld", fmt, (long)r); CHECK(r == (ssize_t)at, r < 0 ? "spurious-failure" : "length", "unpacking with \"%s\" gave %ld instead of %u", fmt, (long)r, at);
        for (unsigned k = 0; k < ni; k++) {
            item *x = &it[k]; if (x->mode == 2) CHECK(*cnt[k] == m[k].cnt, "count", "count %u instead of %u for item %u of \"%s\"", *cnt[k], m[k].cnt, k, fmt); if (x->t == 'x') continue;
            if (isstr(x->t)) { char *s = out[k]; if (x->mode == 2 && !m[k].n) { CHECK(!s || !*s, "content", "an empty string is not empty"); continue; } CHECK(s != 0, "content", "no string"); CHECK(!memcmp(s, net + m[k].off, m[k].n), "content", "string %u of \"%s\" differs", k, fmt); CHECK(!s[m[k].n], "terminator", "string %u of \"%s\" is not terminated", k, fmt); continue; }
            uint8_t *p = x->mode == 2 ? out[k] : arr[k]; for (unsigned i = 0; i < m[k].n; i++) { uint64_t v = 0; memcpy(&v, p + i * x->sz, x->sz); CHECK(v == get(net + m[k].off + i * x->sz, x->sz), "content", "element %u of item %u of \"%s\" is %llx", i, k, fmt, (unsigned long long)v); }
        }
        if (harm > 1) ndamaged++;
    }
    for (unsigned k = 0; k < ni; k++) { if (out[k]) os_free(out[k]); if (cnt[k]) os_free(cnt[k]); if (arr[k]) os_free(arr[k]); }
    CHECK(os_heap_live() == heap, "leak", "%ld blocks left after \"%s\"", (long)os_heap_live() - (long)heap, fmt);
}
/* templates that are wrong */
static void bad(void)
{
    static const char *const pre[] = { "", "<", "> ", "I ", "<2S ", "x " }; char f[100], *p = f; int expect = 0; p += sprintf(p, "%s", pre[ch(6)]); 
    switch (ch(8)) {
    case 0: { char c; do c = (char)(1 + ch(255)); while (strchr("bBsSiIlLfdDxzZ*0123456789 \t\n\v\f\r", c) || (p == f && (c == '<' || c == '>'))); *p++ = c; *p = 0; expect = -ENOENT; break; }
    case 1: strcpy(p, "**I"); break;
    case 2: strcpy(p, "*"); break;
    case 3: strcpy(p, "*3I"); expect = -EINVAL; break;
    case 4: sprintf(p, "%u", 1 + ch(4000)); break;
    case 5: { static const char *const n[] = { "4294967296", "99999999999", "4611686018427387905", "9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551620", "99999999999999999999999", "18446744073709551600" }; sprintf(p, "%s%c", n[ch(9)], "bsiLZxD"[ch(7)]); expect = -E2BIG; break; }
    case 6: sprintf(p, "%u%c", 4294967295u - ch(3), "bsiLZx"[ch(6)]); expect = -ENOSPC; break;
    default: sprintf(p, "%u%c", 1000 + ch(100000), "bsiLZx"[ch(6)]); expect = -ENOSPC; break;
    }
    uint64_t a[13]; double d[8] = { 0 }; static uint64_t cell[13][8]; int un = (int)ch(2); size_t heap = os_heap_live(); memset(cell, 0, sizeof cell); for (int i = 0; i < 13; i++) a[i] = (uintptr_t)cell[i]; unsigned n = 64; uint8_t *b = os_malloc(n); memset(b, 0, n);
    if (!un && strchr(f, '*')) for (char *q = f, i = 0; *q && i < 13; q++) { if (*q == '*') { a[(int)i] = ch(3); } if (strchr("*IS", *q)) i++; }
    ssize_t r = call(un, b, n, f, a, d); CHECK(r < 0 && (!expect || r == expect), "template", "%s with \"%s\" gave %ld", un ? "unpacking" : "packing", f, (long)r); os_free(b); evq((uint64_t)r, (uint64_t)un, 0); nbad++;
    CHECK(os_heap_live() == heap, "leak", "%ld blocks left after \"%s\"", (long)os_heap_live() - (long)heap, f);
}
static void run(void)
{
    os_reset(); os_low_fds(); npacked = nrefused = ndamaged = nnomem = nbad = 0; rn.s = ch_seed(); unsigned n = 1 + ch(8);
    for (unsigned i = 0; i < n; i++) { if (ch(8) == 7) { bad(); continue; } generate(); ev("%s", fmt); unsigned t = 1 + ch(3); pack(); while (t--) unpack(); }
    CHECK(os_heap_live() == 0, "leak", "%u blocks left", (unsigned)os_heap_live());
    tally("packed", npacked); tally("refused", nrefused); tally("damaged", ndamaged); tally("no_memory", nnomem); tally("bad_templates", nbad); run_nontrivial(); cover(mix64(run_hash(), n)); sample("%u messages packed, last \"%s\" of %u bytes, %u refused, %u damaged, %u without memory, %u bad templates", npacked, fmt, nw, nrefused, ndamaged, nnomem, nbad);
}
const dst_harness harness = { .property = "M11", .name = "pack", .run = run,
  .rule = "one run = up to 8 messages of 1..6 items of any type and count, packed into buffers that suffice or not, then delivered whole, cut short, extended or damaged (also in their counts) up to three times each and unpacked, with failing allocations; and wrong templates; every run is non-trivial; distinct by the hash of the whole event log" };
