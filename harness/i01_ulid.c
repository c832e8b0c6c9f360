/* I01: ULIDs */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include "utils/ulid.h"
static const char B32[] = "0123456789ABCDEFGHJKMNPQRSTVWXYZ";
static uint8_t pool[256]; static unsigned npool; static int flipbit; static prng er;
static void ent(void *p, size_t n) { uint8_t *b = p; for (size_t k = 0; k < n; k++) { uint8_t x = (uint8_t)prng_next(&er); if (npool < 256) pool[npool] = x; if (flipbit >= 0 && npool == (unsigned)flipbit / 8) x ^= (uint8_t)(1 << flipbit % 8); npool++; b[k] = x; } }
static void enc(const uint8_t *id, char *s) { /* 128 bits, most significant first, two zero bits in front */ for (int k = 0; k < 26; k++) { int v = 0; for (int b = 0; b < 5; b++) { int pos = k * 5 + b - 2; v = v * 2 + (pos < 0 ? 0 : id[pos / 8] >> (7 - pos % 8) & 1); } s[k] = B32[v]; } s[26] = 0; }
static int val(char c) { if (c >= 'a' && c <= 'z') c = (char)(c - 32); const char *p = c ? strchr(B32, c) : 0; return p ? (int)(p - B32) : -1; }
static int dec(const char *s, uint8_t *id) { if (strlen(s) != 26) return 0; for (int k = 0; k < 26; k++) if (val(s[k]) < 0) return 0; if (val(s[0]) > 7) return 0; memset(id, 0, 16); for (int k = 0; k < 26; k++) for (int b = 0; b < 5; b++) { int pos = k * 5 + b - 2; if (pos >= 0 && (val(s[k]) >> (4 - b) & 1)) id[pos / 8] |= (uint8_t)(1 << (7 - pos % 8)); } return 1; }
#define MX 40
static struct { uint8_t id[16]; char s[27]; uint64_t ms; } g[MX]; static unsigned n;
/* generate into a block of exactly bsiz bytes */
static int gen(size_t bsiz, uint8_t *out) { uint8_t *b = os_malloc(bsiz); for (size_t k = 0; k < bsiz; k++) b[k] = (uint8_t)(k * 37 + 1); int r = ulid_generate(b, bsiz); if (bsiz >= 16) memcpy(out, b, 16); for (size_t k = 16; k < bsiz; k++) CHECK(b[k] == (uint8_t)(k * 37 + 1), "overrun", "byte %zu of the buffer was written", k); os_free(b); return r; }
static void text(const uint8_t *id, char *s)
{
    char ref[27]; size_t sz = ch(4) ? 27 : 27 + ch(20); char *t = os_malloc(sz); memset(t, 1, sz); uint8_t *in = os_malloc(16); memcpy(in, id, 16); int r = ulid_tostring(t, sz, in); CHECK(!memcmp(in, id, 16), "input-changed", "ulid_tostring changes its input"); os_free(in); enc(id, ref);
    CHECK(r > 0, "tostring", "ulid_tostring -> %d", r); CHECK(!memcmp(t, ref, 27), "text", "the text is %.26s, not %s", t, ref); for (size_t k = 27; k < sz; k++) CHECK(t[k] == 1, "overrun", "ulid_tostring wrote byte %zu", k); memcpy(s, t, 27); os_free(t);
}
static void parse(const char *s, const uint8_t *want, int valid)
{
    size_t sz = ch(4) ? 16 : 16 + ch(10); uint8_t *b = os_malloc(sz); memset(b, 0x5b, sz); char *in = os_malloc(strlen(s) + 1); strcpy(in, s); int r = ulid_fromstring(b, sz, in); CHECK(!strcmp(in, s), "input-changed", "ulid_fromstring changes its input"); os_free(in);
    for (size_t k = 16; k < sz; k++) CHECK(b[k] == 0x5b, "overrun", "ulid_fromstring wrote byte %zu", k);
    if (valid) CHECK(r == 16 && !memcmp(b, want, 16), "round-trip", "%s converts to another identifier (%d)", s, r); else CHECK(r < 0, "accepted", "'%.40s' is accepted", s); os_free(b);
}
static void run(void)
{
    os_reset(); os_low_fds(); n = 0; flipbit = -1; os_entropy = ent; er = (prng){ ch_seed() }; npool = 0; size_t heap = os_heap_live();
    static const uint64_t starts[] = { 1700000000000ull, 0, 255, 65535, 0xffffff, 0xffffffffull, 0x100000000ull - 3, 0xffffffffffull, (1ull << 48) - 50000, 1 };
    uint64_t ms = starts[ch(10)] + (ch(2) ? ch(5000) : 0); unsigned ops = 2 + ch(12), fails = 0; int ef = ch(3) == 2, cf = ch(4) == 3; int flipped = 0;
    for (unsigned o = 0; o < ops; o++) {
        switch (ch(6)) { case 0: break; case 1: ms++; break; case 2: ms += 1 + ch(300); break; case 3: ms += 1ull << ch(40); break; case 4: { uint64_t d = 1 + ch(1000); ms = ms > d ? ms - d : 0; break; } case 5: { static const uint64_t d[] = { 86400000, 3600000, 256, 65536, 1ull << 24, 1ull << 32 }; uint64_t x = d[ch(6)]; if (ch(2)) ms += x; else ms = ms > x ? ms - x : 0; } }
        ms &= (1ull << 48) - 1; os_now_sec = ms / 1000; os_now_ns = ms % 1000 * 1000000 + ch(990000);
        if (ch(10) == 9) { size_t b = ch(16); uint8_t *q = os_malloc(b + 1); memset(q, 7, b + 1); int r = ulid_generate(q, b); CHECK(r < 0, "accepted", "a buffer of %zu bytes is accepted", b); for (size_t k = 0; k <= b; k++) CHECK(q[k] == 7, "overrun", "a too small buffer was written"); os_free(q); continue; }
        uint8_t id[16]; npool = 0; unsigned f0 = os_fired("getentropy"), c0 = os_fired("clock"); os_cfg.entropy = ef; os_cfg.clockf = cf; int r = gen(ch(4) ? 16 : 16 + ch(17), id); os_cfg.entropy = os_cfg.clockf = 0;
        ev("generate at %llu -> %d", (unsigned long long)ms, r);
        unsigned ff = os_fired("getentropy") - f0, fc = os_fired("clock") - c0;
        if (ff || fc) { CHECK(r < 0, "guessable", "%s failed and an identifier is returned", ff ? "the randomness" : "the clock"); fails++; continue; }
        CHECK(r == 16, "generate", "ulid_generate -> %d", r);
        uint64_t t = 0; for (int k = 0; k < 6; k++) t = t << 8 | id[k]; CHECK(t == ms, "timestamp", "the timestamp is %llu, the clock says %llu", (unsigned long long)t, (unsigned long long)ms);
        if (n < MX) { memcpy(g[n].id, id, 16); text(id, g[n].s); g[n].ms = ms; parse(g[n].s, id, 1); n++; }
        if (!flipped && ch(3) == 2) { /* all its randomness matters */
            flipped = 1; prng save = er; unsigned used = npool; int changes = 0; uint64_t s0 = ch_seed(); uint64_t nns = os_now_ns;
            uint8_t a[16], b[16]; er = (prng){ s0 }; npool = 0; flipbit = -1; gen(16, a); used = npool; for (unsigned k = 0; k < used * 8 && k < 2048; k++) { er = (prng){ s0 }; npool = 0; flipbit = (int)k; os_now_ns = nns; gen(16, b); if (memcmp(a, b, 16)) changes++; CHECK(!memcmp(a, b, 6), "timestamp", "the timestamp depends on randomness"); } flipbit = -1; er = save;
            CHECK(changes >= 80, "guessable", "only %d random bits reach the identifier", changes);
        }
    }
    for (unsigned a = 0; a < n; a++) for (unsigned b = 0; b < n; b++) if (a != b) {
        int c = memcmp(g[a].id, g[b].id, 16), s = strcmp(g[a].s, g[b].s); CHECK(c, "duplicate", "two identifiers are equal");
        if (g[a].ms < g[b].ms) CHECK(c < 0 && s < 0, "order", "the identifier of %llu does not come before that of %llu", (unsigned long long)g[a].ms, (unsigned long long)g[b].ms);
        CHECK((c < 0) == (s < 0), "text-order", "text and bytes are ordered differently");
    }
    /* any bytes, any text */
    for (unsigned k = 0; k < 3; k++) { uint8_t id[16]; char s[27]; for (int j = 0; j < 16; j++) { unsigned x = ch(4); id[j] = x == 0 ? 0 : x == 1 ? 0xff : (uint8_t)ch(256); } text(id, s); parse(s, id, 1); }
    for (unsigned k = 0; k < 4; k++) {
        char s[64]; unsigned len = ch(3) ? 26 : ch(40); for (unsigned j = 0; j < len; j++) s[j] = B32[ch(32)]; s[len] = 0; if (len && ch(2)) s[0] = B32[ch(8)]; unsigned bad = ch(4); for (unsigned j = 0; j < bad && len; j++) s[ch(len)] = (char)(ch(3) ? "ILOU-_ ilou@[`{/:~"[ch(18)] : (int)(1 + ch(255))); if (ch(4) == 3) for (unsigned j = 0; j < len; j++) if (s[j] >= 'A' && s[j] <= 'Z' && ch(2)) s[j] = (char)(s[j] + 32);
        uint8_t id[16]; int v = dec(s, id); ev("parse %s valid %d", s, v); parse(s, id, v); tally(v ? "valid text" : "invalid text", 1);
    }
    { uint8_t z[16] = { 0 }; unsigned sz = ch(27); char *t = os_malloc(sz + 1); memset(t, 3, sz + 1); CHECK(ulid_tostring(t, sz, z) < 0, "accepted", "%u bytes for the text are accepted", sz); for (unsigned k = 0; k <= sz; k++) CHECK(t[k] == 3, "overrun", "a too small buffer was written"); os_free(t); uint8_t *b = os_malloc(16); CHECK(ulid_fromstring(b, ch(16), "00000000000000000000000000") < 0, "accepted", "a too small buffer is accepted"); os_free(b); }
    CHECK(os_heap_live() == heap && os_open_fds() == 0, "leak", "something is left over");
    tally("identifiers", n); tally("refused", fails); run_nontrivial(); cover(mix64(n * 64 + fails, ms)); sample("%u identifiers, %u refused, last clock %llu ms", n, fails, (unsigned long long)ms);
}
const dst_harness harness = { .property = "I01", .name = "ulid", .run = run,
  .rule = "one run = up to 13 generations under a clock that stands, advances, jumps (also backwards) anywhere in its 48 bits, with failing clock and randomness, a bit-by-bit test of the randomness used, then arbitrary identifiers and texts converted; distinct by the hash of the whole event log" };
