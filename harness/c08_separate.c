/* C08: separate objects in separate threads (and identifiers in separate processes) never interfere */
#include "thr.h"
#include "proc.h"
#include <sys/types.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "utils/utils.h"
#include "utils/strutils.h"
#include "utils/gstring.h"
#include "utils/pack.h"
#include "utils/hexdump.h"
#include "utils/uuid.h"
#include "utils/ulid.h"
#include "utils/base64.h"
#include "utils/parse-ip.h"
#include "utils/siphash.h"
#include "utils/xxhash.h"
#include "utils/hashfunc.h"
#include "utils/mempool.h"
#include "utils/arena.h"
#include "utils/hashtab.h"
#include "utils/fast-ht.h"
#include "utils/bloom.h"
#include "utils/xorfilter.h"
#include "utils/romu-rand.h"
#include "utils/xoroshiro.h"
#include "utils/xorshift-rand.h"
#include "zlib/zbuf.h"
extern ssize_t uuid2str(char *out, size_t outsz, uint8_t *uuid);
extern const char *lib_dirname(char *, size_t, const char *) __asm__("dirname");
extern const char *sockaddr_to_string(char *buf, size_t bufsize, const struct sockaddr *);

#define WSZ 2048
typedef struct { prng g; uint8_t *w; uint64_t d; } job_t;      /* d: digest of everything the library returned */
static unsigned rn(job_t *j, unsigned n) { return (unsigned)((prng_next(&j->g) >> 33) % n); }
static uint64_t r64(job_t *j) { return prng_next(&j->g); }
static void add(job_t *j, uint64_t x) { j->d = mix64(j->d, x); }
static void addb(job_t *j, const void *p, size_t n) { const uint8_t *b = p; uint64_t h = n; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull; add(j, h); }
static void adds(job_t *j, const char *s) { size_t n = 0; if (s) while (s[n]) n++; addb(j, s, n); }
static size_t word(job_t *j, char *p, unsigned max, const char *al) { unsigned n = rn(j, max), k = 0, m = 0; while (al[m]) m++; for (; k < n; k++) p[k] = al[rn(j, m)]; p[n] = 0; return n; }
static void bytes(job_t *j, uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = (uint8_t)r64(j); }

static void s_idtext(job_t *j)
{
    uint8_t *id = j->w, *b = j->w + 64; char *t = (char*)j->w + 128; bytes(j, id, 16);
    add(j, (uint64_t)uuid_tostring(t, 64, id)); adds(j, t); add(j, (uint64_t)uuid_fromstring(b, 16, t)); addb(j, b, 16);
    add(j, (uint64_t)uuid2str(t, 64, id)); adds(j, t);
    add(j, (uint64_t)ulid_tostring(t, 64, id)); adds(j, t); add(j, (uint64_t)ulid_fromstring(b, 16, t)); addb(j, b, 16);
}
static const char *find(void *c, const char *k) { job_t *j = c; adds(j, k); return k[0] == 'n' ? 0 : "value"; }
static void s_gstr(job_t *j)
{
    gstr a, b; char *s = (char*)j->w; word(j, s, 20, "abc ${}\\\"'\t"); if (!gstr_init_from(&a, s) || !gstr_init(&b, 1 + rn(j, 20))) return;
    for (int k = 0; k < 6; k++) {
        word(j, s, 30, "abcdn\\\"'$ {}\n");
        switch (rn(j, 8)) { case 0: gstr_append_str(&a, s); break; case 1: gstr_append_ch(&b, s[0] ? s[0] : 'x'); gstr_append(&a, &b); break; case 2: gstr_chop(&a); break; case 3: gstr_trim(&a); break; case 4: gstr_copy(&b, &a); break;
            case 5: gstr_escape(&b, "ab", '\\'); break; case 6: if (b.len && !memchr(b.str, 0, b.len) && b.str[b.len - 1] != '\\') gstr_unescape(&b, '\\'); break; case 7: gstr_append_str(&a, "-${name}-$(x)"); gstr_varexp(&a, find, j); break; }
        adds(j, a.str); adds(j, b.str);
    }
    gstr_fini(&a); gstr_fini(&b);
}
static void s_pack(job_t *j)
{
    uint32_t *v = (uint32_t*)(void*)(j->w + 512), o[4]; uint16_t h; uint64_t l; char *z = 0, *s = (char*)j->w + 600; for (int k = 0; k < 4; k++) v[k] = (uint32_t)r64(j);
    word(j, s, 20, "abcdef"); int be = (int)rn(j, 2);
    ssize_t n = Pack(j->w, 256, be ? "> S 4I L Z" : "< S 4I L Z", (int)(h = (uint16_t)r64(j)), v, l = r64(j), s); add(j, (uint64_t)n); if (n > 0) addb(j, j->w, (size_t)n);
    h = 0; l = 0; memset(o, 0, sizeof o); n = Unpack(j->w, (size_t)(n > 0 ? n : 0), be ? "> S 4I L Z" : "< S 4I L Z", &h, o, &l, &z); add(j, (uint64_t)n); add(j, h); add(j, l); addb(j, o, sizeof o); adds(j, z); if (z) free(z);
}
static void s_split(job_t *j)
{
    char *s = (char*)j->w, *v[40]; int n; static const char *al = "ab, ;\"\t";
    word(j, s, 40, al); n = strsplit_quick(v, 40, s, rn(j, 2) ? ",;" : ", ", (int)rn(j, 2)); add(j, (uint64_t)n); for (int k = 0; k < n; k++) adds(j, v[k]);
    word(j, s, 60, al); n = 0; char **x = strsplit(&n, s, ",;", (int)rn(j, 2)); if (x) { for (int k = 0; k < n; k++) adds(j, x[k]); free(x); }
    word(j, s, 40, "ab,\""); n = strsplit_csv(v, 40, s, ","); add(j, (uint64_t)n); for (int k = 0; k < n; k++) adds(j, v[k]);
    word(j, s, 40, "ab \"'\\"); n = strsplitargs(v, 40, s); add(j, (uint64_t)n); for (int k = 0; k < n; k++) adds(j, v[k]);
    word(j, s, 20, "  ab\t"); adds(j, strtrim(s)); word(j, s + 1, 8, "ab'\""); s[0] = '"'; strcat(s, "\""); char *r = 0; add(j, (uint64_t)strunquote(s, &r)); adds(j, r);
}
static void s_number(job_t *j)
{
    char *s = (char*)j->w, *t = s + 300; uint64_t x = 0; uint32_t a = 0, m = 0;
    unsigned n = 1 + rn(j, 9); for (unsigned k = 0; k < n; k++) s[k] = (char)('0' + rn(j, 10)); s[n] = "kMGTb\0"[rn(j, 6)]; s[n + 1] = 0; add(j, (uint64_t)strtosize(s, 10, &x)); add(j, x);
    const char *e = s; add(j, (uint64_t)strtou64(s, &e, 10, &x)); add(j, x); add(j, (uint64_t)(e - s));
    adds(j, humanize_size(t, 64, r64(j) >> rn(j, 60))); adds(j, str_ipv4(t, 64, (uint32_t)r64(j))); add(j, (uint64_t)parse_ipv4(&a, t)); add(j, a);
    strcat(t, "/23"); add(j, (uint64_t)parse_ipv4_and_mask(&a, &m, t)); add(j, a); add(j, m); add(j, (uint64_t)mask_to_cidr4(m, &a)); add(j, a);
    word(j, s, 20, "0123456789abcdef"); add(j, (uint64_t)str2hex((uint8_t*)t, 64, s));
    struct sockaddr_in6 s6 = { .sin6_family = AF_INET6 }; bytes(j, (uint8_t*)&s6.sin6_addr, 16); adds(j, sockaddr_to_string(t, 128, (struct sockaddr*)&s6));
    struct sockaddr_in s4 = { .sin_family = AF_INET }; s4.sin_addr.s_addr = (uint32_t)r64(j); adds(j, sockaddr_to_string(t, 128, (struct sockaddr*)&s4));
    word(j, s, 30, "abc/."); adds(j, lib_dirname(t, 64, s)); add(j, (uint64_t)strcopy(t, 1 + rn(j, 20), s)); adds(j, t);
}
static void s_base64(job_t *j)
{
    base64_encode_state e; base64_decode_state d; unsigned n = 4 + rn(j, 60), k = rn(j, n); bytes(j, j->w, n); char *o = (char*)j->w + 256, *q = (char*)j->w + 600;
    base64_encode_init(&e); int l = base64_encode_block(&e, (char*)j->w, (int)k, o); l += base64_encode_block(&e, (char*)j->w + k, (int)(n - k), o + l); l += base64_encode_finish(&e, o + l); if (l < 0 || l > 300) return; addb(j, o, (size_t)l);
    base64_decode_init(&d); int m = base64_decode_block(&d, o, l / 2, q); m += base64_decode_block(&d, o + l / 2, l - l / 2, q + m); if (m >= 0 && m < 300) addb(j, q, (size_t)m);
}
static int out(void *c, const char *b, size_t n) { addb(c, b, n); return 0; }
static void s_hexdump(job_t *j) { hex_dumper d; bytes(j, j->w, 64); hex_dump_init(&d, out, j, 0); hex_dump_write(&d, j->w, rn(j, 24)); hex_dump_write(&d, j->w + 5, rn(j, 40)); hex_dump_close(&d); }
static void s_readline(job_t *j)
{
    char *s = (char*)j->w; size_t n = word(j, s, 60, "abcdef\n\r\n"); s[n++] = 'z'; FILE *f = fmemopen(s, n, "r"); if (!f) return; uint8_t *b = j->w + 512;
    if (rn(j, 2)) { for (int k = 0; k < 70; k++) { int r = freadline(f, b, 12); add(j, (uint64_t)r); if (r > 0) addb(j, b, (size_t)r); if (feof(f)) break; } }
    else { gstr g; if (gstr_init(&g, 4)) { for (int k = 0; k < 70; k++) { add(j, (uint64_t)gstr_readline(&g, f, "\n")); adds(j, g.str); if (feof(f)) break; } gstr_fini(&g); } }
    fclose(f);
}
static void s_hash(job_t *j)
{
    unsigned n = rn(j, 90), at = 0; bytes(j, j->w, n); uint64_t k[2] = { r64(j), r64(j) }; siphash24_state s; siphash24_init(&s, k); XXH64_state_t *x = XXH64_createState(); XXH32_state_t *y = XXH32_createState(); if (!x || !y) return;
    XXH64_reset(x, k[0]); XXH32_reset(y, (unsigned)k[0]); while (at < n) { unsigned c = 1 + rn(j, n - at); siphash24_update(&s, j->w + at, c); XXH64_update(x, j->w + at, c); XXH32_update(y, j->w + at, c); at += c; }
    add(j, siphash24_finish(&s)); add(j, XXH64_digest(x)); add(j, XXH32_digest(y)); XXH64_freeState(x); XXH32_freeState(y);
    add(j, siphash24(j->w, n, k)); add(j, fasthash64(j->w, n, k[1])); add(j, city_hash(j->w, n, k[0])); add(j, murmur3_hash_32(j->w, n, (uint32_t)k[0])); uint_128_t m = murmur3_hash64_128(j->w, n, (uint32_t)k[1]); addb(j, &m, sizeof m);
    m = city_hash_128(j->w, n, m); addb(j, &m, sizeof m); add(j, hsieh_hash(j->w, n, 7)); add(j, fnv_hash64(j->w, n, k[0])); add(j, yorrike_hash32(j->w, n, 5));
}
static void s_mempool(job_t *j)
{
    mempool *p = 0; unsigned max = rn(j, 2) ? 0 : 1 + rn(j, 8), bs = 16 + rn(j, 40); if (mempool_new(&p, 0, bs, max, 1 + rn(j, 4)) < 0) return; void *a[12]; unsigned n = 0; uint64_t tag[12];
    for (int k = 0; k < 20; k++) { if (n && rn(j, 3) == 0) { unsigned i = rn(j, n); add(j, *(uint64_t*)a[i] == tag[i]); mempool_free(p, a[i]); a[i] = a[--n]; tag[i] = tag[n]; } else if (n < 12) { void *b = mempool_alloc(p); add(j, !!b); if (b) { a[n] = b; *(uint64_t*)b = tag[n] = r64(j); n++; } } }
    for (unsigned i = 0; i < n; i++) add(j, *(uint64_t*)a[i] == tag[i]); add(j, mempool_total_blocks(p)); mempool_delete(p);
}
static void s_arena(job_t *j)
{
    arena_t a; if (arena_new(&a, 64 + rn(j, 200)) < 0) return; uint8_t *p[12]; unsigned z[12]; unsigned n = 1 + rn(j, 12);
    for (unsigned i = 0; i < n; i++) { z[i] = 1 + rn(j, 60); p[i] = arena_alloc(a, z[i]); add(j, !!p[i]); if (p[i]) memset(p[i], (int)i + 1, z[i]); }
    for (unsigned i = 0; i < n; i++) if (p[i]) for (unsigned k = 0; k < z[i]; k++) add(j, p[i][k]); arena_delete(a);
}
typedef struct { uint64_t k, v; } it_t;
static uint32_t hh(const void *p) { return (uint32_t)(((const it_t*)p)->k * 2654435761u); }
static int hcmp(const void *a, const void *b) { uint64_t x = ((const it_t*)a)->k, y = ((const it_t*)b)->k; return x < y ? -1 : x > y; }
static void s_hashtab(job_t *j)
{
    static const hash_table_policy Z; hash_table_policy pol = Z; memmgr_init_default(&pol.mem); pol.hash = hh; pol.cmp = hcmp; pol.logsize = 2; pol.fillmax = 60; hash_table_t t; if (hash_table_new(&t, &pol) < 0) return;
    it_t *x = (it_t*)(void*)j->w; for (int k = 0; k < 24; k++) { x[k].k = 1 + rn(j, 10); x[k].v = r64(j); void *r = 0; it_t q = { .k = 1 + rn(j, 10) };
        switch (rn(j, 4)) { case 0: add(j, (uint64_t)hash_table_insert(t, &x[k])); break; case 1: r = hash_table_probe(t, &x[k]); add(j, r ? ((it_t*)r)->v : 0); break; case 2: add(j, (uint64_t)hash_table_remove(t, &q, &r)); break; case 3: add(j, (uint64_t)hash_table_lookup(t, &q, &r)); add(j, r ? ((it_t*)r)->v : 0); break; } }
    hash_table_iter_t it; if (hash_table_iter_new(&it, t, 1) >= 0) { for (int r = hash_table_iter_first(it); r; r = hash_table_iter_next(it)) { it_t *q = hash_table_iter_item(it); if (!q) break; add(j, q->k); } hash_table_iter_delete(it); }
    hash_table_delete(t);
}
static void s_ht(job_t *j)
{
    ht *h = ht_new(2, 80); if (!h) return; for (int k = 0; k < 24; k++) { uint64_t key = 1 + rn(j, 12); void *v = 0; switch (rn(j, 3)) { case 0: add(j, (uint64_t)(uintptr_t)ht_probe(h, key, (void*)(uintptr_t)(100 + k))); break; case 1: add(j, (uint64_t)ht_remove(h, key, &v)); break; case 2: add(j, (uint64_t)ht_find(h, key, &v)); add(j, (uint64_t)(uintptr_t)v); break; } }
    add(j, h->nodes); ht_del(h);
}
static void s_bloom(job_t *j)
{
    int c = (int)rn(j, 3); Bloom *b = c == 0 ? Counting_bloom_new(8, 0.01) : Standard_bloom_new(8, 0.01, c - 1); if (!b) return; uint64_t k[12]; unsigned n = 1 + rn(j, 12);
    for (unsigned i = 0; i < n; i++) Bloom_probe(b, k[i] = r64(j)); for (unsigned i = 0; i < n; i++) add(j, !!Bloom_find(b, k[i])); Bloom_delete(b);
}
static void s_xor(job_t *j)
{
    uint64_t k[12]; unsigned n = 1 + rn(j, 12); for (unsigned i = 0; i < n; i++) k[i] = r64(j); Xorfilter *x = rn(j, 2) ? Xorfilter_new8(k, n) : Xorfilter_new16(k, n); if (!x) return; for (unsigned i = 0; i < n; i++) add(j, !!Xorfilter_contains(x, k[i])); Xorfilter_delete(x);
}
static void s_prng(job_t *j)
{
    romu r, q; xoro128plus x; xs64star a; xs128plus b; xs1024star c; uint64_t s = r64(j) | 1; romu_quad_init(&r, s, s + 2); romu_duo_init(&q, s); xoro128plus_init(&x, s); xs64star_init(&a, s); xs128plus_init(&b, s); xs1024star_init(&c, s);
    for (int k = 0; k < 5; k++) { add(j, romu_quad(&r)); add(j, romu_duo(&q)); add(j, xoro128plus_u64(&x)); add(j, xs64star_u64(&a)); add(j, xs128plus_u64(&b)); add(j, xs1024star_u64(&c)); }
}
typedef struct { uint8_t *b; unsigned n; } sink_t;
static int sink(void *o, void *p, int n) { sink_t *s = o; if (n < 0 || s->n + (unsigned)n > 700) return 0; memcpy(s->b + s->n, p, (size_t)n); s->n += (unsigned)n; return n; }
static void s_zbuf(job_t *j)
{
    z_buf_context z; sink_t o = { j->w + 512, 0 }, p = { j->w + 1212, 0 }; uint8_t *in = j->w, *buf = j->w + 300; unsigned n = 1 + rn(j, 250), k = rn(j, n); for (unsigned i = 0; i < n; i++) in[i] = (uint8_t)('a' + rn(j, 4));
    z_buf_context_init(&z, buf, 100, sink, &o); if (z_buf_compress_init(&z, 1, 9) != Z_OK) return; add(j, (uint64_t)z_buf_compress(&z, in, (int)k)); add(j, (uint64_t)z_buf_compress(&z, in + k, (int)(n - k))); add(j, (uint64_t)z_buf_compress_end(&z)); addb(j, o.b, o.n);
    z_buf_context_init(&z, buf, 100, sink, &p); if (z_buf_uncompress_init(&z, 9) != Z_OK) return; z_buf_uncompress(&z, o.b, (int)o.n); add(j, (uint64_t)z_buf_uncompress_end(&z)); addb(j, p.b, p.n);
}
static const struct { const char *name; void (*f)(job_t *); int w; } S[] = { { "identifier text", s_idtext, 3 }, { "string", s_gstr, 3 }, { "packing", s_pack, 3 }, { "splitting", s_split, 3 }, { "numbers and addresses", s_number, 3 }, { "base64", s_base64, 2 }, { "hex dump", s_hexdump, 2 },
    { "line reading", s_readline, 2 }, { "hashes", s_hash, 2 }, { "pool", s_mempool, 2 }, { "arena", s_arena, 2 }, { "hash table", s_hashtab, 2 }, { "compact table", s_ht, 2 }, { "bloom filter", s_bloom, 2 }, { "xor filter", s_xor, 1 }, { "generators", s_prng, 2 }, { "compression", s_zbuf, 1 } };
#define NS (sizeof S / sizeof *S)
static unsigned pick(unsigned same) { if (same) return same - 1; unsigned t = 0; for (unsigned i = 0; i < NS; i++) t += (unsigned)S[i].w; unsigned x = ch(t), i = 0; while (x >= (unsigned)S[i].w) x -= (unsigned)S[i++].w; return i; }

/* identifiers of all threads of all processes */
#define MAXID 512
typedef struct { uint8_t id[16]; uint8_t p, t, kind; } rec;
static rec ids[MAXID]; static unsigned nid; static uint64_t entseq, entseed; static int np, failing, inid[PR_LT], failed[PR_LT]; static pid_t nextpid;
static int entropy(void *b, size_t n) { if (failing && inid[pr_lt()] && fault("getentropy")) { failed[pr_lt()] = 1; errno = ENOSYS; return -1; } prng p = { mix64(entseed, ++entseq) }; for (size_t i = 0; i < n; i++) ((uint8_t*)b)[i] = (uint8_t)(prng_next(&p) >> 24); return 0; }
static uint64_t ms(void) { return (dst_sim_ns + 1700000000ull * 1000000000ull) / 1000000; }
static void ident(void)
{
    uint8_t *b = cs_calloc(32); int kind = (int)ch(2), lt = pr_lt(); failed[lt] = 0; inid[lt] = 1; BAR; uint64_t t0 = ms(); int r = kind ? ulid_generate(b, 16) : uuid_generate(b, 16); uint64_t t1 = ms(); BAR; inid[lt] = 0;
    if (failed[lt]) { CHECK(r < 0, "non-random", "no randomness, yet an identifier is returned"); cs_free(b); return; }
    CHECK(r == 16, "generate", "generation fails with %d with nothing wrong", r);
    if (kind) { uint64_t t = 0; for (int k = 0; k < 6; k++) t = t << 8 | b[k]; CHECK(t >= t0 && t <= t1, "time", "the identifier carries a time at which it was not generated"); }
    else CHECK(b[6] >> 4 == 4 && b[8] >> 6 == 2, "marks", "version or variant are wrong");
    for (unsigned k = 0; k < nid; k++) if (ids[k].kind == kind) { unsigned eq = 0; for (int i = kind ? 6 : 0; i < 16; i++) eq += ids[k].id[i] == b[i]; CHECK(eq < 9, "duplicate", "process %d thread %d got %u bytes that process %u thread %u had got", pr_cur(), lt, eq, ids[k].p, ids[k].t); }
    if (nid < MAXID) { memcpy(ids[nid].id, b, 16); ids[nid].p = (uint8_t)pr_cur(); ids[nid].t = (uint8_t)lt; ids[nid].kind = (uint8_t)kind; nid++; } cs_free(b);
}
static void fork_here(void)
{
    int raw = ch(4) == 3, c = pr_fork(pr_lt(), raw, nextpid); if (c < 0) return; nextpid++; np = c + 1; fault_note(raw ? "fork-without-handlers" : "fork"); ev("process %d thread %d forks process %d", pr_cur(), pr_lt(), c);
}
/* one thread: up to 3 jobs, or identifiers */
#define MJ 3
typedef struct { unsigned n, what[MJ]; uint64_t seed[MJ], want[MJ], got[MJ]; unsigned ids; } plan;
static plan P_[4]; static unsigned ndone; static uint64_t mixk;
static uint64_t once(unsigned what, uint64_t seed) { job_t j = { .g = { seed }, .w = cs_calloc(WSZ), .d = 1 }; S[what].f(&j); cs_free(j.w); return j.d; }
static void *worker(void *a)
{
    int lt = (int)(intptr_t)a & 0xff, i = (int)(intptr_t)a >> 8; pr_thread(lt, 0); plan *p = &P_[i];
    for (unsigned k = 0; k < p->n; k++) { uint64_t d = once(p->what[k], p->seed[k]); BAR; p->got[k] = d; ndone++; }
    for (unsigned k = 0; k < p->ids; k++) { if (ch(6) == 5) fork_here(); ident(); }
    return 0;
}
static void body(void)
{
    unsigned phases = 1 + ch(3); int forks = ch(3) == 2; nextpid = 1001; np = 1;
    for (unsigned f = 0; f < phases; f++) {
        int p = (int)ch((uint32_t)np); pr_switch(p); unsigned nt = 2 + ch(3), same = ch(2) ? 1 + pick(0) : 0, two = ch(4) == 3 ? 1 + pick(0) : 0; pthread_t h[4];
        for (unsigned i = 0; i < nt; i++) {
            plan *q = &P_[i]; memset(q, 0, sizeof *q); if (forks ? ch(4) : ch(6) == 5) q->ids = 1 + ch(5); else q->n = 1 + ch(MJ);
            for (unsigned k = 0; k < q->n; k++) { q->what[k] = pick(k & 1 && two ? two : same); q->seed[k] = ch_seed(); mixk = mix64(mixk, q->what[k]); }
        }
        failing = 0; int early = ch(2);       /* the undisturbed results: before, or (what is set up lazily is then set up by several at once) after */
        if (early) for (unsigned i = 0; i < nt; i++) for (unsigned k = 0; k < P_[i].n; k++) P_[i].want[k] = once(P_[i].what[k], P_[i].seed[k]);
        failing = ch(3) == 2; ev("process %d runs %u threads", p, nt);
        for (unsigned i = 0; i < nt; i++) pthread_create(&h[i], 0, worker, (void*)(intptr_t)((int)i | (int)i << 8));
        for (unsigned i = 0; i < nt; i++) pthread_join(h[i], 0);
        failing = 0;
        for (unsigned i = 0; i < nt; i++) for (unsigned k = 0; k < P_[i].n; k++) {
            if (!early) P_[i].want[k] = once(P_[i].what[k], P_[i].seed[k]);
            ev("%s %llx", S[P_[i].what[k]].name, (unsigned long long)P_[i].got[k]);
            CHECK(P_[i].got[k] == P_[i].want[k], "interference", "%s in thread %u gives another result than when nothing else runs", S[P_[i].what[k]].name, i);
        }
    }
}
static void run(void)
{
    nid = ndone = 0; entseq = 0; mixk = 0; failing = 0; memset(failed, 0, sizeof failed); memset(inid, 0, sizeof inid); memset(P_, 0, sizeof P_);
    cs_defaults(); cs_cfg.statics = 1; cs_cfg.weak = 0; cs_cfg.plain_points = ch(4) != 0; cs_cfg.step_fair = 150000; cs_cfg.step_max = 3000000;
    pr_reset(); entseed = ch_seed() | 1; pr_entropy = entropy; cs_run(body);
    if (ndone + nid) run_nontrivial(); tally("objects", ndone); tally("identifiers", nid); tally("processes", (uint64_t)np); cover(mix64(mixk, nid * 16 + (unsigned)np));
    sample("%u objects used, %u identifiers, %d process(es)", ndone, nid, np);
}
const dst_harness harness = { .property = "C08", .name = "separate", .run = run, .rule = "one run = 1 to 3 rounds of 2 to 4 threads, each using 1 to 3 objects of its own (the same kind in all of them in half of the rounds) or generating identifiers, with forks and failing randomness; distinct by the hash of the whole event log"  };
