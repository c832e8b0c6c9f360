// I04: readers of the system's random device
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <new>
#include <exception>
#include "syserror.h"
#include "utils/random.h"
#include "utils/sysrand.h"
extern "C" { void *sys_randbytes(void *, int); unsigned long sys_randlong(); int posix_getentropy(void *, size_t); }
namespace putils {      // the parts of the base class this repository does not contain
__attribute__((weak)) randgen::~randgen() {}
__attribute__((weak)) double randgen::generate_float() { return 0; }
__attribute__((weak)) int randgen::generate_int() { return 0; }
__attribute__((weak)) bool randgen::generate_bool() { return false; }
__attribute__((weak)) unsigned char randgen::generate_byte() { return 0; }
__attribute__((weak)) void *randgen::generate_bits(void *b, size_t) { return b; }
}
using namespace putils;
#define SMAX (6u << 20)
static uint8_t S[SMAX], used[SMAX / 8 + 1], buf[(1 << 20) + 80]; static size_t spos; static uint64_t seed;
static void source(void *p, size_t n) { if (spos + n > SMAX) discard(); memcpy(p, S + spos, n); spos += n; }
static int eof;              // the device is a file that ends
static size_t eoflen;
struct R { sys_rand *r; size_t at; };
static R obj[3];
static unsigned nok, nfail; static uint64_t total;
static int overlap(size_t a, size_t n) { for (size_t i = a; i < a + n; i++) if (used[i >> 3] >> (i & 7) & 1) return 1; return 0; }
static void mark(size_t a, size_t n) { for (size_t i = a; i < a + n; i++) used[i >> 3] |= (uint8_t)(1 << (i & 7)); }
// the bytes in buf were handed out: they are the system's, in order, and nobody had them before
static void given(const uint8_t *b, size_t n, const char *who)
{
    total += n;
    if (eof || !n) return;
    size_t a = spos - n;
    if (spos >= n && !memcmp(S + a, b, n)) { if (n >= 8) { CHECK(!overlap(a, n), "reused", "%s: %zu bytes were handed out before", who, n); mark(a, n); } return; }
    if (n < 8) { if (spos) for (a = 0; a + n <= spos; a++) if (!memcmp(S + a, b, n)) return; violation("wrong-bytes", "%s: %zu bytes do not come from the random source", who, n); }
    for (a = 0; a + n <= spos; ) { const uint8_t *q = (const uint8_t *)memmem(S + a, spos - a, b, n); if (!q) break; a = (size_t)(q - S); if (!overlap(a, n)) { mark(a, n); return; } a++; }
    violation("wrong-bytes", "%s: the %zu bytes do not come from the random source, in order and each once", who, n);
}
static size_t size_(void) { static const size_t z[] = { 0, 1, 2, 8, 16, 255, 256, 257, 4096, 65536, 1 << 20 }; return ch(3) ? z[ch(11)] : ch(1000); }
static int io; 
static void on(void) { os_cfg.io = io; os_cfg.shortio = 1; }
static void off(void) { os_cfg.io = 0; os_cfg.shortio = 0; }
static void verdict(int failed, unsigned f0, size_t n, size_t avail, const char *who)
{
    unsigned hard = os_fired("open") + os_fired("read") + os_fired("zero_read");
    if (failed) { nfail++; ev("%s %zu: failure", who, n); CHECK(hard != f0 || (eof && avail < n), "spurious-failure", "%s of %zu bytes fails without cause", who, n); }
    else { nok++; ev("%s %zu", who, n); CHECK(!eof || avail >= n, "short-success", "%s: %zu bytes wanted, %zu there were, and success is reported", who, n, avail); }
}
static void run(void)
{
    os_reset(); os_low_fds(); memset(obj, 0, sizeof obj); spos = 0; total = nok = nfail = 0; seed = ch_seed();
    eof = ch(4) == 3; if (os_type("/dev/urandom") == OS_NONE) { os_mkdir("/dev", 0755); os_mknod("/dev/urandom", OS_CHR, 0x109); }
    prng g = { seed }; size_t fill = eof ? 1 : SMAX;
    static uint64_t filled; if (!eof && filled != seed + 1) { for (size_t i = 0; i < SMAX; i += 8) { uint64_t v = prng_next(&g); memcpy(S + i, &v, 8); } filled = seed + 1; } (void)fill;
    memset(used, 0, sizeof used); os_entropy = source;
    if (eof) { static uint8_t z[70000]; eoflen = ch(4) ? ch(600) : ch(70000); for (size_t i = 0; i < eoflen; i++) z[i] = (uint8_t)prng_next(&g); os_rm("/dev/urandom"); os_put("/dev/urandom", z, eoflen, 0644); }
    size_t flen; const uint8_t *fd_ = (const uint8_t *)os_content("/dev/urandom", &flen);
    io = (int)ch(2); unsigned ops = 1 + ch(20); size_t at_b = 0, at_l = 0, at_e = 0; int lost_b = 0, lost_l = 0, lost_e = 0;
    static int lost[3]; memset(lost, 0, sizeof lost);
    unsigned fds0 = os_open_fds(), objs = 0;
    for (unsigned i = 0; i < ops; i++) {
        unsigned f0 = os_fired("open") + os_fired("read") + os_fired("zero_read"); int k = (int)ch(3), failed = 0; uint8_t pat = (uint8_t)(i * 37 + 11);
        size_t n = size_(); memset(buf, pat, n + 80);
        switch (ch(7)) {
        case 0: case 1: {       // C interface
            void *r = 0; on(); try { r = sys_randbytes(buf, (int)n); } catch (const sys_exception &e) { failed = 1; CHECK(e.errcode() != 0 && strlen(e.what()) < 1024, "reason", "a failure without a reason"); } catch (...) { failed = 1; } off();
            verdict(failed, f0, n, lost_b ? SIZE_MAX : flen - at_b, "sys_randbytes");
            if (!failed) { CHECK(r == buf, "return", "sys_randbytes returns another address"); given(buf, n, "sys_randbytes"); if (eof && !lost_b) CHECK(!memcmp(buf, fd_ + at_b, n), "wrong-bytes", "sys_randbytes: not the next %zu bytes of the source", n); at_b += n; } else { lost_b = 1; if (eof) i = ops; }
            break; }
        case 2: { unsigned long v = 0; on(); try { v = sys_randlong(); } catch (...) { failed = 1; } off(); n = sizeof v;
            verdict(failed, f0, n, lost_l ? SIZE_MAX : flen - at_l, "sys_randlong");
            if (!failed) { given((uint8_t *)&v, n, "sys_randlong"); if (eof && !lost_l) CHECK(!memcmp(&v, fd_ + at_l, n), "wrong-bytes", "sys_randlong: not the next bytes of the source"); at_l += n; } else { lost_l = 1; if (eof) i = ops; }
            break; }
        case 3: {               // getentropy for systems without one
            errno = 0; on(); int r = posix_getentropy(buf, n); int e = errno; off(); failed = r != 0;
            CHECK(r == 0 || r == -1, "return", "getentropy returns %d", r); if (failed) CHECK(e > 0, "reason", "getentropy fails without a reason");
            if (failed && lost_e) { nfail++; break; }
            verdict(failed, f0, n, lost_e ? SIZE_MAX : flen - at_e, "getentropy");
            if (!failed) { given(buf, n, "getentropy"); if (eof && !lost_e) CHECK(!memcmp(buf, fd_ + at_e, n), "wrong-bytes", "getentropy: not the next bytes of the source"); at_e += n; } else { lost_e = 1; if (eof) i = ops; }
            break; }
        case 4: case 5:
            if (!obj[k].r) { sys_rand *o = 0; on(); try { o = new sys_rand; } catch (const std::exception &) { failed = 1; } off(); verdict(failed, f0, 0, 1, "open"); if (!failed) { obj[k].r = o; obj[k].at = 0; lost[k] = 0; objs++; } break; }
            else { void *r = 0; int lng = ch(4) == 3; unsigned long v = 0; if (lng) n = sizeof v;
                on(); try { if (lng) { v = obj[k].r->generate_long(); memcpy(buf, &v, n); memset(buf + n, pat, 64); r = buf; } else r = obj[k].r->generate_bits(buf, n); } catch (const std::exception &) { failed = 1; } off();
                verdict(failed, f0, n, lost[k] ? SIZE_MAX : flen - obj[k].at, "generate_bits");
                if (!failed) { CHECK(r == buf, "return", "generate_bits returns another address"); given(buf, n, "generate_bits"); if (eof && !lost[k]) CHECK(!memcmp(buf, fd_ + obj[k].at, n), "wrong-bytes", "generate_bits: not the next bytes of the source"); obj[k].at += n; } else { lost[k] = 1; if (eof) i = ops; } }
            break;
        default: if (obj[k].r) { ev("close %d", k); delete obj[k].r; obj[k].r = 0; objs--; } }
        for (size_t z = n; z < n + 64; z++) CHECK(failed || buf[z] == pat, "overrun", "a request for %zu bytes changes byte %zu", n, z);
    }
    for (int k = 0; k < 3; k++) if (obj[k].r) { delete obj[k].r; obj[k].r = 0; objs--; }
    CHECK(os_open_fds() <= fds0 + 3, "leak-fd", "%u descriptors are open at the end", os_open_fds() - fds0);
    tally("ok", nok); tally("failures", nfail); tally("bytes", total);
    if (nok + nfail) run_nontrivial();
    cover(mix64(total, nok * 64 + nfail)); sample("%u requests served, %u failed, %llu bytes%s", nok, nfail, (unsigned long long)total, eof ? ", source that ends" : "");
}
extern "C" const dst_harness harness; const dst_harness harness = { .property = "I04", .name = "sysrand", .run = run,
  .rule = "one run = up to 20 requests of 0 bytes to 1 MB through the C functions, reader objects and the getentropy replacement, with short, interrupted, failing and ended reads and failing opens; non-trivial when a request was served or refused; distinct by the hash of the whole event log" };
