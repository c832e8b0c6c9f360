/* I02: random UUIDs */
#include "os.h"
#include <string.h>
#include <strings.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <sys/types.h>
#include "utils/uuid.h"
extern ssize_t uuid2str(char *out, size_t outsz, uint8_t *uuid);
static unsigned npool; static int flipbit, mode; static prng er;
static void ent(void *p, size_t n) { uint8_t *b = p; for (size_t k = 0; k < n; k++) { uint8_t x = mode == 1 ? 0 : mode == 2 ? 0xff : (uint8_t)prng_next(&er); if (flipbit >= 0 && npool == (unsigned)flipbit / 8) x ^= (uint8_t)(1 << flipbit % 8); npool++; b[k] = x; } }
static void ref(const uint8_t *id, char *s) { for (int k = 0; k < 16; k++) { s += sprintf(s, "%02X", id[k]); if (k == 3 || k == 5 || k == 7 || k == 9) *s++ = '-'; } *s = 0; }
static int gen(size_t bsiz, uint8_t *out) { uint8_t *b = os_malloc(bsiz); for (size_t k = 0; k < bsiz; k++) b[k] = (uint8_t)(k * 37 + 1); npool = 0; int r = uuid_generate(b, bsiz); memcpy(out, b, 16); for (size_t k = 16; k < bsiz; k++) CHECK(b[k] == (uint8_t)(k * 37 + 1), "overrun", "byte %zu of the buffer was written", k); os_free(b); return r; }
static void marks(const uint8_t *id) { CHECK(id[6] >> 4 == 4, "version", "the version is %d", id[6] >> 4); CHECK(id[8] >> 6 == 2, "variant", "the variant bits are %d", id[8] >> 6); }
static void parse(const char *s, const uint8_t *want, int valid)
{
    size_t sz = ch(4) ? 16 : 16 + ch(10); uint8_t *b = os_malloc(sz); memset(b, 0x5b, sz); char *in = os_malloc(strlen(s) + 1); strcpy(in, s); int r = uuid_fromstring(b, sz, in); CHECK(!strcmp(in, s), "input-changed", "the text was changed"); os_free(in);
    for (size_t k = 16; k < sz; k++) CHECK(b[k] == 0x5b, "overrun", "uuid_fromstring wrote byte %zu", k);
    if (valid == 1) CHECK(r == 16 && !memcmp(b, want, 16), "round-trip", "%s converts to another identifier (%d)", s, r); else if (!valid) CHECK(r < 0, "accepted", "'%.40s' is accepted", s); else CHECK(r < 0 || r == 16, "result", "uuid_fromstring -> %d", r); os_free(b);
}
static void text(const uint8_t *id, int which)
{
    char want[40]; ref(id, want); size_t sz = ch(4) ? 37 : 37 + ch(20); char *t = os_malloc(sz); memset(t, 1, sz); uint8_t *in = os_malloc(16); memcpy(in, id, 16);
    int r = which ? (int)uuid2str(t, sz, in) : uuid_tostring(t, sz, in); CHECK(!memcmp(in, id, 16), "input-changed", "the identifier was changed"); os_free(in);
    CHECK(r > 0 && t[36] == 0 && !strcasecmp(t, want), "text", "the text is %.36s, not %s", t, want); for (size_t k = 37; k < sz; k++) CHECK(t[k] == 1, "overrun", "byte %zu was written", k); if (!which) parse(t, id, 1); os_free(t);
    sz = ch(37); t = os_malloc(sz + 1); memset(t, 3, sz + 1); r = which ? (int)uuid2str(t, sz, (uint8_t *)(uintptr_t)id) : uuid_tostring(t, sz, id); CHECK(r < 0, "accepted", "%zu bytes for the text are accepted", sz); for (unsigned k = 0; k <= sz; k++) CHECK(t[k] == 3, "overrun", "a too small buffer was written"); os_free(t);
}
static void run(void)
{
    os_reset(); os_low_fds(); flipbit = -1; mode = 0; os_entropy = ent; er = (prng){ ch_seed() }; size_t heap = os_heap_live(); unsigned ops = 2 + ch(10), fails = 0, made = 0; int ef = ch(3) == 2; uint8_t all[16][16];
    for (unsigned o = 0; o < ops; o++) {
        if (ch(8) == 7) { size_t b = ch(16); uint8_t *q = os_malloc(b + 1); memset(q, 7, b + 1); CHECK(uuid_generate(q, b) < 0, "accepted", "a buffer of %zu bytes is accepted", b); for (size_t k = 0; k <= b; k++) CHECK(q[k] == 7, "overrun", "a too small buffer was written"); os_free(q); continue; }
        uint8_t id[16]; unsigned f0 = os_fired("getentropy"); os_cfg.entropy = ef; int r = gen(ch(4) ? 16 : 16 + ch(17), id); os_cfg.entropy = 0; ev("generate -> %d", r);
        if (os_fired("getentropy") > f0) { CHECK(r < 0, "non-random", "no randomness, yet an identifier is returned"); fails++; continue; }
        CHECK(r == 16, "generate", "uuid_generate -> %d", r); marks(id); for (unsigned k = 0; k < made; k++) CHECK(memcmp(all[k], id, 16), "duplicate", "two identifiers are equal"); memcpy(all[made++], id, 16); text(id, (int)ch(2));
    }
    { uint8_t a[16], b[16]; mode = (int)ch(3); uint64_t s0 = ch_seed(); er = (prng){ s0 }; if (gen(16, a) != 16) violation("generate", "fails with nothing wrong"); marks(a); unsigned used = npool, changes = 0; uint8_t both[16] = { 0 };
      for (unsigned k = 0; k < used * 8 && k < 2048; k++) { er = (prng){ s0 }; flipbit = (int)k; gen(16, b); flipbit = -1; if (memcmp(a, b, 16)) changes++; for (int j = 0; j < 16; j++) both[j] |= a[j] ^ b[j]; }
      flipbit = -1; mode = 0; CHECK(changes >= 122, "non-random", "only %u random bits reach the identifier", changes); unsigned bits = 0; for (int j = 0; j < 16; j++) bits += (unsigned)__builtin_popcount(both[j]); CHECK(bits == 122, "non-random", "%u bits of the identifier vary", bits); }
    for (unsigned k = 0; k < 3; k++) { uint8_t id[16]; for (int j = 0; j < 16; j++) { unsigned x = ch(4); id[j] = x == 0 ? 0 : x == 1 ? 0xff : (uint8_t)ch(256); } text(id, (int)ch(2)); }
    for (unsigned k = 0; k < 4; k++) { /* texts: canonical ones with a defect */
        uint8_t id[16]; for (int j = 0; j < 16; j++) id[j] = (uint8_t)ch(256); char s[80]; ref(id, s); int valid = 1; unsigned w = ch(6);
        if (w == 0) for (char *p = s; *p; p++) if (*p >= 'A' && ch(2)) *p = (char)(*p + 32);
        if (w == 1) { s[ch(36)] = "gGxX /:@`z~\x80\xff\n"[ch(14)]; valid = 0; }
        if (w == 2) { s[ch(36)] = 0; valid = 0; }
        if (w == 3) { strcat(s, "0"); valid = 0; }
        if (w == 4) { unsigned nd = 1 + ch(4); for (unsigned j = 0; j < nd; j++) { char *d = strchr(s, '-'); *d = "0123456789abcdefABCDEF"[ch(22)]; } valid = 0; }
        if (w == 5) { unsigned p = ch(36); if (s[p] != '-') { s[p] = '-'; valid = 0; } }
        ev("parse %s valid %d", s, valid); parse(s, id, valid); tally(valid ? "valid text" : "invalid text", 1);
    }
    { uint8_t *b = os_malloc(16); CHECK(uuid_fromstring(b, ch(16), "00000000-0000-0000-0000-000000000000") < 0, "accepted", "a too small buffer is accepted"); os_free(b); }
    CHECK(os_heap_live() == heap && os_open_fds() == 0, "leak", "something is left over"); tally("identifiers", made); tally("refused", fails); run_nontrivial(); cover(mix64(made * 64 + fails, ef)); sample("%u identifiers, %u refused", made, fails);
}
const dst_harness harness = { .property = "I02", .name = "uuid", .run = run,
  .rule = "one run = up to 11 identifiers generated with randomness that may fail, a bit-by-bit test that all randomness reaches the identifier, then arbitrary identifiers and texts (valid, cut, lengthened, wrong characters or dashes) converted in exactly sized buffers; distinct by the hash of the whole event log" };
