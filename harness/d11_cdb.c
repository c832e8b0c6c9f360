/* D11: reading constant databases */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include "cdb_reader.h"
#define MAXK 400
#define BASE 2048u
static const uint64_t M = 0x880355f21e6d1965ULL, SEED = 0x2de9ce7b97d9569fULL, X = 0x2127599bf4325c37ULL;
static uint64_t inv(uint64_t a) { uint64_t x = a; for (int i = 0; i < 6; i++) x *= 2 - a * x; return x; }
static uint64_t mx(uint64_t h) { h ^= h >> 23; h *= X; return h ^ h >> 47; }
static uint64_t unmx(uint64_t h) { h ^= h >> 47; h *= inv(X); h ^= h >> 23 ^ h >> 46; return h; }
static uint64_t w64(const uint8_t *p, size_t n) { uint64_t v = 0; for (size_t i = 0; i < n; i++) v |= (uint64_t)p[i] << (8 * i); return v; }
static uint64_t partial(const uint8_t *k, size_t len, size_t words) { uint64_t h = SEED ^ (len * M); for (size_t i = 0; i < words; i++) { h ^= mx(w64(k + 8 * i, 8)); h *= M; } return h; }
/* the hash the format prescribes (fasthash, folded) */
static uint32_t hash(const uint8_t *k, size_t len)
{
    uint64_t h = partial(k, len, len / 8); if (len & 7) { h ^= mx(w64(k + (len & ~7ul), len & 7)); h *= M; } h = mx(h); return (uint32_t)(h - (h >> 32));
}
/* a key of len (a multiple of 8) bytes with the given hash */
static void solve(uint8_t *k, size_t len, uint32_t want, prng *g)
{
    for (size_t i = 0; i + 8 < len; i++) k[i] = (uint8_t)prng_next(g);
    uint64_t hi = (uint32_t)prng_next(g), t = hi << 32 | (uint32_t)(want + (uint32_t)hi), v = unmx((unmx(t) * inv(M)) ^ partial(k, len, len / 8 - 1));
    for (int i = 0; i < 8; i++) k[len - 8 + (size_t)i] = (uint8_t)(v >> (8 * i)); if (hash(k, len) != want) harness_error("hash inversion");
}
typedef struct { uint8_t *k; uint32_t kl; uint8_t *v; uint32_t vl; uint32_t h, off; } rec;
static rec R[MAXK]; static unsigned nr; static uint8_t pool[1 << 20]; static size_t used;
static uint8_t *img; static size_t n; static uint8_t buf[3 << 20];
static uint8_t *take(size_t z) { uint8_t *p = pool + used; used += z; if (used > sizeof pool) harness_error("pool"); return p; }
static void put32(size_t at, uint32_t v) { for (int i = 0; i < 4; i++) img[at + (size_t)i] = (uint8_t)(v >> (8 * i)); }
static const rec *lookup(const uint8_t *k, size_t kl) { for (unsigned i = 0; i < nr; i++) if (R[i].kl == kl && !memcmp(R[i].k, k, kl)) return &R[i]; return 0; }
static unsigned collisions, dups;
static void choose(void)
{
    prng g = { ch_seed() }; nr = 0; used = 0; collisions = dups = 0; unsigned want = ch(8) == 7 ? ch(MAXK) : ch(60), style = ch(4); uint32_t h0 = 0;
    while (nr < want) {
        rec *r = &R[nr]; unsigned x = (unsigned)(prng_next(&g) >> 20);
        if (nr && style && x % 4 < style) {      /* same hash, same bucket, or the same key again */
            const rec *o = &R[(x >> 4) % nr]; h0 = o->h; if (x % 16 == 1) h0 ^= 0x100u << ((x >> 8) % 24); else if (x % 16 == 2) h0 = (h0 & 255) | (uint32_t)prng_next(&g) << 8;
            if (x % 32 == 7) { r->k = o->k; r->kl = o->kl; dups++; } else { r->kl = 8 * (1 + (x >> 10) % 3); r->k = take(r->kl); solve(r->k, r->kl, h0, &g); if (h0 == o->h) collisions++; }
        } else { r->kl = (x & 1) ? (x >> 3) % 24 : (x & 2) ? (x >> 3) % 300 : 1 + (x >> 3) % 3; r->k = take(r->kl); for (unsigned i = 0; i < r->kl; i++) r->k[i] = (uint8_t)prng_next(&g); }
        r->h = hash(r->k, r->kl); if (!r->h) continue;
        x = (unsigned)(prng_next(&g) >> 20); r->vl = x % 5 == 0 ? 0 : x % 5 == 1 ? (x >> 3) % 2000 : (x >> 3) % 60; r->v = take(r->vl); for (unsigned i = 0; i < r->vl; i++) r->v[i] = (uint8_t)prng_next(&g);
        nr++;
    }
}
static void build(void)
{
    img = buf; memset(img, 0, BASE); n = BASE; int first = (int)ch(2), gaps = (int)ch(2); unsigned load = ch(4); prng g = { ch_seed() };
    for (int pass = 0; pass < 2; pass++) {
        if (pass == first) for (unsigned i = 0; i < nr; i++) { rec *r = &R[i]; if (gaps) { memset(img + n, 0xee, 7); n += prng_next(&g) % 8; } r->off = (uint32_t)n; put32(n, r->kl); put32(n + 4, r->vl); memcpy(img + n + 8, r->k, r->kl); memcpy(img + n + 8 + r->kl, r->v, r->vl); n += 8ul + r->kl + r->vl; }
        else for (unsigned b = 0; b < 256; b++) {
            unsigned c = 0, l; for (unsigned i = 0; i < nr; i++) c += (R[i].h & 255) == b; l = load == 0 ? 2 * c : load == 1 ? c : load == 2 ? c + 1 : c + (unsigned)(prng_next(&g) % 9); if (gaps) n += prng_next(&g) % 8;
            put32(8 * b, (uint32_t)n); put32(8 * b + 4, l); memset(img + n, 0, 8ul * l); n += 8ul * l;
        }
    }
    for (unsigned i = 0; i < nr; i++) { unsigned b = R[i].h & 255; uint32_t o = (uint32_t)w64(img + 8 * b, 4), l = (uint32_t)w64(img + 8 * b + 4, 4), s = (R[i].h >> 8) % l; while (w64(img + o + 8 * s, 4)) s = (s + 1) % l; put32(o + 8 * s, R[i].h); put32(o + 8 * s + 4, R[i].off); }
}
static unsigned asked, found; static size_t nmax;
static void ask(CDB *db, const uint8_t *k, size_t kl, int exact)
{
    void *p = (void *)0x55; uint8_t *c = os_malloc(kl ? kl : 1); memcpy(c, k, kl); ssize_t r = cdb_find(db, &p, c, kl); asked++; evq(kl, (uint64_t)r, 1);
    if (r >= 0) { CHECK((size_t)r <= nmax && p != (void *)0x55, "result", "a value of %zd bytes in a file of %zu", r, n); volatile uint8_t s = 0; for (ssize_t i = -(ssize_t)kl; i < r; i++) s ^= ((uint8_t *)p)[i]; CHECK(!memcmp((uint8_t *)p - kl, c, kl), "wrong-key", "the value returned belongs to another key"); found++; }
    if (exact) {
        const rec *o = lookup(c, kl);
        if (o) { CHECK(r >= 0, "lost", "a stored key of %zu bytes is not found (%zd)", kl, r); CHECK(r == (ssize_t)o->vl && !memcmp(p, o->v, o->vl), "wrong-value", "a value of %zd bytes instead of the %u stored", r, o->vl); }
        else CHECK(r == -ENOENT, "phantom", "looking for a key that is not stored returned %zd", r);
    }
    os_free(c);
}
static void queries(CDB *db, int exact)
{
    prng g = { ch_seed() }; uint8_t k[400];
    for (unsigned i = 0; i < nr; i++) ask(db, R[i].k, R[i].kl, exact);
    for (unsigned i = 0; i < 20; i++) {
        unsigned l, x = (unsigned)(prng_next(&g) >> 20); const rec *o = nr ? &R[x % nr] : 0;
        switch ((x >> 12) % 5) {
        case 0: l = (x >> 16) % 40; for (unsigned j = 0; j < l; j++) k[j] = (uint8_t)prng_next(&g); break;
        case 1: if (!o) continue; l = 8 * (1 + (x >> 16) % 3); solve(k, l, o->h, &g); break;                     /* the hash of a stored key */
        case 2: if (!o || !o->kl) continue; l = o->kl; memcpy(k, o->k, l); k[(x >> 16) % l] ^= (uint8_t)(1u << (x >> 25) % 8); break;
        case 3: if (!o) continue; l = o->kl; memcpy(k, o->k, l); k[l++] = (uint8_t)(x >> 16); break;
        default: if (!o || !o->kl) continue; l = o->kl - 1; memcpy(k, o->k, l); break;
        }
        ask(db, k, l, exact);
    }
}
static void damage(void)
{
    prng g = { ch_seed() }; unsigned k = 1 + ch(3);
    while (k--) switch (ch(7)) {
    case 0: n = ch(4) ? BASE + (n > BASE ? ch((uint32_t)(n - BASE)) : 0) : ch(BASE); ev("truncated to %zu", n); break;
    case 1: { unsigned i = ch(256); if (nr && ch(4)) i = R[ch(nr)].h & 255; uint32_t v = ch(3) == 0 ? 0xffffffffu - ch(40) : ch(3) ? (uint32_t)n - ch(64) : ch_seed() & 0xffffffffu; if (n >= BASE) put32(8 * i + 4 * ch(2), v); ev("index %u changed to %u", i, v); break; }
    case 2: case 3: { if (!nr) break; const rec *r = &R[ch(nr)]; unsigned b = r->h & 255; uint64_t o = w64(img + 8 * b, 4), l = w64(img + 8 * b + 4, 4); if (n < BASE) break; for (uint64_t s = 0; s < l && o + 8 * s + 8 <= n; s++) if (w64(img + o + 8 * s, 4) == r->h) { uint32_t v = ch(3) == 0 ? 0xffffffffu - ch(40) : ch(3) ? (uint32_t)n - ch(64) : ch((uint32_t)n); put32(o + 8 * s + 4, v); ev("record offset changed to %u", v); if (ch(2)) break; } break; }
    case 4: { if (!nr) break; const rec *r = &R[ch(nr)]; if ((size_t)r->off + 8 > n) break; uint32_t v = ch(3) == 0 ? 0xffffffffu - ch(40) : ch(3) ? r->kl + ch(300) : (uint32_t)n - ch(64); put32(r->off + 4 * (ch(3) != 0), v); ev("record length changed to %u", v); break; }
    case 5: { unsigned z = 1 + ch(30); while (z-- && n) img[prng_next(&g) % n] ^= (uint8_t)(1u << prng_next(&g) % 8); ev("bits flipped"); break; }
    default: { if (!n) break; size_t a = ch((uint32_t)n), z = 1 + ch(600); for (size_t i = a; i < a + z && i < n; i++) img[i] = 0; ev("%zu bytes zeroed at %zu", z, a); break; }
    }
}
/* databases of many gigabytes: offsets use all of their 32 bits, tables and values reach beyond them; only what is written takes memory */
static void vast(void)
{
    os_reset(); os_low_fds(); os_mkdir("/d", 0755); asked = found = 0; prng g = { ch_seed() }; enum { R0 = 8 }; static struct { uint8_t k[64], head[64], tail[64]; uint32_t kl, vl, h; uint64_t off; } q[R0]; static struct { uint64_t off; uint32_t len; } tab[256]; memset(tab, 0, sizeof tab);
    unsigned k = 1 + ch(R0), no = 0, ord[R0 * 2], nt = 0; int jumped = 0, cut; uint64_t at = BASE, size;
    for (unsigned i = 0; i < k; i++) {
        q[i].kl = 8 * (1 + ch(4)); uint32_t h = (uint32_t)prng_next(&g); if (i && ch(3)) h = ch(2) ? q[ch(i)].h : (q[ch(i)].h & 255) | (h & ~255u); if (!h) h = 1; solve(q[i].k, q[i].kl, h, &g); for (unsigned j = 0; j < i; j++) if (q[j].kl == q[i].kl && !memcmp(q[j].k, q[i].k, q[i].kl)) { discard(); return; }
        q[i].h = h; q[i].vl = ch(3) ? ch(3000) : 100000000 + ch(1000); for (int j = 0; j < 64; j++) { q[i].head[j] = (uint8_t)prng_next(&g); q[i].tail[j] = (uint8_t)prng_next(&g); } ord[no++] = i; tab[h & 255].len++;
    }
    for (unsigned b = 0; b < 256; b++) if (tab[b].len) { ord[no++] = 1000 + b; nt++; switch (ch(5)) { case 0: break; case 1: tab[b].len *= 2; break; case 2: tab[b].len += ch(70000); break; case 3: tab[b].len = (1u << 24) + 1 + ch(100); break; default: tab[b].len += (1u << 16) + ch(3); } }
    for (unsigned i = no; i > 1; i--) { unsigned j = ch(i), t = ord[i - 1]; ord[i - 1] = ord[j]; ord[j] = t; }
    for (unsigned i = 0; i < no; i++) {
        int last = i + 1 == no; if (!jumped && ch(3) == 0) { at = (1ull << 31) - ch(200); jumped = 1; } if (last) { if (ch(3)) at = 0xffffffffull - ch(200); if (ord[i] < 1000 && ch(2)) q[ord[i]].vl = ch(2) ? 0xffffffffu - ch(64) : (1u << 31) - 32 + ch(64); } else at += ch(20); if (at > 0xffffffffull) { discard(); return; }
        if (ord[i] < 1000) { q[ord[i]].off = at; at += 8ull + q[ord[i]].kl + q[ord[i]].vl; } else { tab[ord[i] - 1000].off = at; at += 8ull * tab[ord[i] - 1000].len; }
    }
    size = at + (ch(3) ? 0 : ch(100)); img = os_sparse("/d/f", size); if (!img) harness_error("sparse");
    for (unsigned b = 0; b < 256; b++) { put32(8 * b, (uint32_t)tab[b].off); put32(8 * b + 4, tab[b].len); }
    for (unsigned i = 0; i < k; i++) {
        uint64_t o = q[i].off, v = o + 8 + q[i].kl; put32(o, q[i].kl); put32(o + 4, q[i].vl); memcpy(img + o + 8, q[i].k, q[i].kl); unsigned m = q[i].vl < 64 ? q[i].vl : 64; memcpy(img + v + q[i].vl - m, q[i].tail, m); memcpy(img + v, q[i].head, m);
        unsigned b = q[i].h & 255; uint32_t s = (q[i].h >> 8) % tab[b].len; while (w64(img + tab[b].off + 8ull * s, 4)) s = (s + 1) % tab[b].len; put32(tab[b].off + 8ull * s, q[i].h); put32(tab[b].off + 8ull * s + 4, (uint32_t)o);
    }
    cut = ch(4) == 3; if (cut) { uint64_t z = ch(2) ? size - 1 - ch(100) : BASE + ch_seed() % (size - BASE); img = os_sparse_cut("/d/f", z); size = z; }
    ev("%u records in a file of %llu bytes%s", k, (unsigned long long)size, cut ? ", cut" : ""); CDB db; memset(&db, 0x5a, sizeof db); int rc = cdb_read_init(&db, "/d/f"); CHECK(rc == 0, "spurious-failure", "opening a file of %llu bytes failed with %d", (unsigned long long)size, rc);
    for (unsigned i = 0; i < k + 6; i++) {
        uint8_t key[64]; uint32_t kl; int known = i < k; const unsigned w = known ? i : ch(k); kl = q[w].kl; if (known) memcpy(key, q[w].k, kl); else solve(key, kl = 8 * (1 + ch(4)), q[w].h, &g);
        if (!known) { unsigned j = 0; while (j < k && (q[j].kl != kl || memcmp(q[j].k, key, kl))) j++; if (j < k) continue; }
        void *p = (void *)0x55; uint8_t *c = os_malloc(kl); memcpy(c, key, kl); ssize_t n1 = cdb_find(&db, &p, c, kl); asked++; evq(i, (uint64_t)n1, kl);
        if (n1 >= 0) {
            found++; CHECK(known && (uint64_t)n1 == q[w].vl, known ? "wrong-value" : "phantom", "a value of %zd bytes, %u stored", n1, q[w].vl); unsigned m = n1 < 64 ? (unsigned)n1 : 64; CHECK(!memcmp((uint8_t *)p - kl, key, kl), "wrong-key", "the value returned belongs to another key"); uint8_t *e = (uint8_t *)p + n1 - m;
            if (m == 64 && n1 >= 128) CHECK(!memcmp(p, q[w].head, m) && !memcmp(e, q[w].tail, m), "wrong-value", "the value of %zd bytes is another", n1); else CHECK(!memcmp(p, q[w].head, m), "wrong-value", "the value of %zd bytes is another", n1);
        } else if (cut) CHECK(n1 == -EINVAL || n1 == -ENOENT, "result", "looking in a truncated file gives %zd", n1);
        else CHECK(n1 == -ENOENT && !known, "lost", "a stored key of %u bytes at %llu is not found (%zd)", kl, (unsigned long long)q[w].off, n1);
        os_free(c);
    }
    tally("lookups", asked); tally("found", found); tally("vast", 1); run_nontrivial(); cover(mix64(run_hash(), k)); sample("%u records in %llu bytes, %u lookups, %u found", k, (unsigned long long)size, asked, found); CHECK(os_heap_live() == 0, "leak", "%u blocks left", (unsigned)os_heap_live());
}
/* another process replaces the file while it is opened */
static unsigned sw_at, sw_seen;
static void swap_call(const char *call) { if (++sw_seen != sw_at) return; os_hook = 0; os_mv("/d/g", "/d/f"); ev("before %s: another process replaces the file", call); fault_note("other-process"); }
static void run(void)
{
    os_hook = 0; if (ch(100) == 99) { vast(); return; }
    os_reset(); os_low_fds(); asked = found = 0; os_mkdir("/d", 0755); choose(); build(); unsigned mode = ch(5); const char *path = "/d/f"; size_t full = n;
    int swap = 0; if (mode == 4) { swap = 1 + (int)ch(2); mode = 1; os_put("/d/g", img, n, 0644); sw_at = 1 + ch(5); sw_seen = 0; }
    if (mode == 1) { damage(); tally("damaged", 1); }
    nmax = swap && full > n ? full : n; os_put("/d/f", img, n, 0644); if (swap == 2) { os_mv("/d/f", "/d/h"); os_mv("/d/g", "/d/f"); os_mv("/d/h", "/d/g"); }
    if (mode == 0 && ch(20) == 19) path = ch(2) ? "/d" : "/d/absent";
    ev("%u records, %u same hash, %u repeated, %zu bytes", nr, collisions, dups, n);
    unsigned fds = os_open_fds(), maps = os_live_maps(); CDB db; memset(&db, 0x5a, sizeof db); os_cfg.io = mode >= 2; if (swap) os_hook = swap_call; int r = cdb_read_init(&db, path); os_hook = 0; os_cfg.io = 0; ev("init -> %d", r);
    if (r == 0) {
        CHECK(!strcmp(path, "/d/f") && (n >= BASE || swap), "phantom", "something that is no database was opened");
        CHECK(os_live_maps() == maps + 1 && os_open_fds() <= fds + 1, "leak", "opening leaves %u mappings and %u descriptors", os_live_maps() - maps, os_open_fds() - fds);
        queries(&db, mode != 1); CHECK(os_heap_live() == 0, "leak", "%u blocks left", (unsigned)os_heap_live());
    } else {
        CHECK(r < 0, "return-code", "opening returned %d", r); CHECK(os_live_maps() == maps && os_open_fds() == fds, "leak", "failing to open leaves %u mappings and %u descriptors", os_live_maps() - maps, os_open_fds() - fds);
        if (n < BASE || strcmp(path, "/d/f")) CHECK(r == (n < BASE && !strcmp(path, "/d/f") ? -EINVAL : strcmp(path, "/d") ? -ENOENT : r) || os_fired(""), "return-code", "opening returned %d", r);
        else CHECK(os_fired(""), "spurious-failure", "opening failed with %d without cause", r);
        tally("failed_opens", 1);
    }
    tally("lookups", asked); tally("found", found); tally("same_hash", collisions); if (nr || mode) run_nontrivial(); cover(mix64(run_hash(), nr)); sample("%u records (%u of the same hash) in %zu of %zu bytes, %s -> %d, %u lookups, %u found", nr, collisions, n, full, mode == 1 ? "damaged" : mode ? "with failing calls" : "as written", r, asked, found);
}
const dst_harness harness = { .property = "D11", .name = "cdb", .run = run,
  .rule = "one run = a database of up to 400 records (colliding hashes, repeated keys, any table load and layout), opened as written, with failing calls, or after damage, while another process replaces an intact file by a damaged one or the other way round, then every stored key and 20 others looked up and compared with what was stored; one run in 100 = up to 8 records in a sparse file of up to 8 GB, whole or truncated; a run with records is non-trivial; distinct by the hash of the whole event log" };
