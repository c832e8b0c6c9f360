/* D10: streaming compression */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <zlib.h>
#include "zlib/zbuf.h"
#define MAXP 200000
#define MAXS 260000
static uint8_t pay[MAXP], str[MAXS], out[MAXP + 70000], obuf[9000]; static size_t npay, nstr, nout, maxout; static uint8_t *dst; static unsigned osz;
static int smode, refuse_at, perm, refused, calls; static unsigned rec;
static void *za(void *o, unsigned n, unsigned s) { (void)o; if (os_cfg.alloc && os_fault("alloc")) return 0; int a = os_cfg.alloc; os_cfg.alloc = 0; void *p = os_malloc((size_t)n * s); os_cfg.alloc = a; return p; }
static void zf(void *o, void *p) { (void)o; os_free(p); }
static int sink(void *o, void *b, int len)
{
    CHECK(o == &nout, "cookie", "the callback got another cookie"); calls++;
    CHECK((uint8_t*)b >= obuf && len > 0 && (uint8_t*)b + len <= obuf + osz, "offer", "the callback is offered %d bytes at %ld of a buffer of %u", len, (long)((uint8_t*)b - obuf), osz);
    if (perm && refused) return refused < 0 ? -1 : 0;
    if (refuse_at >= 0 && calls > refuse_at) { refuse_at = -1; refused = ch(2) ? 1 : -1; evq(77, (unsigned)len, 0); fault_note("sink_refuses"); return refused < 0 ? -1 - (int)ch(3) : 0; }
    int n = smode == 0 ? len : smode == 1 ? 1 : smode == 2 ? 1 + (int)ch((uint32_t)len) : len > (int)rec ? len - len % (int)rec : len;
    if (nout + (size_t)n > maxout) violation("too-much", "more than %u bytes came out", (unsigned)maxout);
    memcpy(dst + nout, b, (size_t)n); nout += (size_t)n; return n;
}
static void context(z_buf_context *z) { z_buf_context_init(z, obuf, osz, sink, &nout); z_buf_context_set_allocator(z, za, zf, 0); }
static void sinkmode(void) { smode = osz > 600 ? (int[]){ 0, 2, 3, 0 }[ch(4)] : (int)ch(4); rec = 1 + ch(osz); refuse_at = ch(4) ? -1 : (int)ch(osz < 50 ? 200 : 12); perm = (int)ch(2); refused = 0; calls = 0; nout = 0; }
static unsigned piece(size_t left, unsigned style) { unsigned n = style == 0 ? (unsigned)left : style == 1 ? 1 + ch(16) : style == 2 ? 1 + ch(5000) : 1; return n > left ? (unsigned)left : n; }
static void run(void)
{
    os_reset(); os_low_fds(); prng g = { ch_seed() }; unsigned shape = ch(5); npay = ch(4) ? ch(3000) : ch(6) ? ch(40000) : ch(MAXP); if (ch(30) == 29) npay = 0;
    for (size_t i = 0; i < npay; i++) pay[i] = (uint8_t)(shape == 0 ? 'a' : shape == 1 ? prng_next(&g) : shape == 2 ? "the quick brown fox "[i % 20] : shape == 3 ? (prng_next(&g) & 15) + (i >> 12) : i & 1024 ? 0 : prng_next(&g));
    osz = ch(3) == 0 ? 1 + ch(40) : ch(2) ? 1 + ch(1500) : 4096 + ch(4000); if (npay > 40000 && osz < 200) osz += 200;
    size_t base = os_heap_live(); unsigned st = npay > 20000 ? (ch(2) ? 0 : 2) : ch(4); if (npay > 3000 && st == 3) st = 1;
    if (npay > 20000 && osz < 512 && st == 1) st = 2;
    int lev = (int)ch(12) - 1, wb = (int[]){ 15, 9, 10, 12, 0, 20, -9, 4 }[ch(8)], useful = ch(3) != 2; int incomplete = 0, nret = 0;
    ev("%u bytes, shape %u, buffer %u, level %d, window %d", (unsigned)npay, shape, osz, lev, wb);
    if (useful) {       /* compress with the code under test */
        sinkmode(); dst = str; maxout = MAXS; z_buf_context z; context(&z); os_cfg.alloc = ch(3) == 2;
        int r = z_buf_compress_init(&z, lev, wb); os_cfg.alloc = 0;
        if (r != Z_OK) { CHECK(os_fired("alloc"), "spurious-failure", "compression does not start: %d", r); CHECK(os_heap_live() == base, "leak", "%ld blocks left", (long)os_heap_live() - (long)base); tally("no_memory", 1); run_nontrivial(); return; }
        CHECK(!os_fired("alloc"), "unreported", "lack of memory went unreported");
        for (size_t p = 0; p < npay && !incomplete; ) {
            unsigned n = piece(npay - p, st); static uint8_t in[MAXP]; memcpy(in, pay + p, n); int rb = refused; r = z_buf_compress(&z, in, (int)n);
            if (refused != rb || (refused && perm)) {
                if (refused != rb) CHECK(r != Z_OK, "unreported", "the sink took nothing and compressing returned %d", r);
                if (perm) { if (r != Z_OK) { incomplete = 1; break; } }
                else { nret++; refused = 0; r = z_buf_compress(&z, 0, 0); CHECK(r == Z_OK, "retry", "once the sink takes data again, going on returns %d", r); }
            } else CHECK(r == Z_OK, "spurious-failure", "compressing returned %d", r);
            memset(in, 0x5a, n); p += n;
        }
        int rb = refused; r = z_buf_compress_end(&z); evq(1, (uint64_t)r, nout);
        if (refused && (refused != rb || perm)) { CHECK(r != Z_OK, "unreported", "the sink took nothing and finishing returned %d", r); incomplete = 1; }
        else CHECK(r == Z_OK, "spurious-failure", "finishing returned %d", r);
        CHECK(os_heap_live() == base, "leak", "compression leaves %ld blocks", (long)os_heap_live() - (long)base);
        nstr = nout;
        if (!incomplete) {
            uLongf l = sizeof out; int e = uncompress(out, &l, str, nstr);
            CHECK(e == Z_OK && l == npay && !memcmp(out, pay, l), "roundtrip", "what came out does not decompress to what went in (%d, %u of %u bytes)", e, (unsigned)l, (unsigned)npay);
        } else tally("refusals", 1);
    }
    if (!useful || incomplete) {    /* a stream made by zlib itself */
        z_stream z; memset(&z, 0, sizeof z); int strat = ch(3) ? Z_DEFAULT_STRATEGY : 1 + (int)ch(4); if (deflateInit2(&z, (int)ch(10), Z_DEFLATED, 9 + (int)ch(7), 1 + (int)ch(9), strat)) harness_error("deflate");
        z.next_out = str; z.avail_out = MAXS; size_t p = 0; unsigned parts = 1 + ch(5);
        for (unsigned k = 0; k < parts; k++) { size_t n = k + 1 == parts ? npay - p : (npay - p) / (parts - k); z.next_in = pay + p; z.avail_in = (uInt)n; p += n; deflate(&z, k + 1 == parts ? Z_FINISH : (int[]){ Z_NO_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_BLOCK }[ch(4)]); }
        nstr = MAXS - z.avail_out; deflateEnd(&z);
    }
    /* now the other way round */
    unsigned harm = ch(6); size_t feed = nstr; int damaged = 0;
    if (harm == 5 && nstr) { for (unsigned k = 1 + (ch(4) == 3 ? ch(5) : 0); k; k--) { size_t at = (size_t)(prng_next(&g) % nstr); uint8_t x = (uint8_t)(1u << ch(8)); str[at] ^= x; } damaged = 1; fault_note("corrupt"); }
    else if (harm == 4 && nstr > 1) { feed = 1 + (size_t)(prng_next(&g) % (nstr - 1)); fault_note("truncate"); }
    else if (harm == 3) { unsigned k = 1 + ch(20); for (unsigned i = 0; i < k && nstr + i < MAXS; i++) str[nstr + i] = (uint8_t)prng_next(&g); if (nstr + k < MAXS) { feed = nstr + k; } }
    sinkmode(); dst = out; maxout = damaged ? sizeof out - 60000 : npay; if (damaged) smode = 0; z_buf_context z; context(&z); os_cfg.alloc = ch(3) == 2; int f0 = (int)os_fired("alloc");
    int r = z_buf_uncompress_init(&z, (int[]){ 15, 0, -1, 16 }[ch(4)]);
    if (r != Z_OK) { CHECK((int)os_fired("alloc") > f0, "spurious-failure", "decompression does not start: %d", r); os_cfg.alloc = 0; CHECK(os_heap_live() == base, "leak", "%ld blocks left", (long)os_heap_live() - (long)base); run_nontrivial(); return; }
    size_t p = 0; int bad = 0, ended = 0, toomuch = 0; st = feed > 20000 ? (ch(2) ? 0 : 2) : ch(4); if (feed > 3000 && st == 3) st = 1;
    while (p < feed && !bad && !ended) {
        unsigned n = piece(feed - p, st); int rb = refused; r = z_buf_uncompress(&z, str + p, (int)n); p += n; if (nout > maxout) toomuch = 1;
        if (refused != rb) { CHECK(r != Z_OK && r != Z_STREAM_END, "unreported", "the sink took nothing and decompressing returned %d", r); bad = 2; }
        else if (r == Z_STREAM_END) ended = 1;
        else if (r != Z_OK) { CHECK(damaged || (int)os_fired("alloc") > f0, "spurious-failure", "decompressing byte %u of %u returned %d", (unsigned)p, (unsigned)feed, r); bad = 1; }
        if (!ended && !bad) CHECK((int)os_fired("alloc") == f0, "unreported", "lack of memory went unreported");
    }
    int rb = refused; if (!perm) refused = rb = 0; r = z_buf_uncompress_end(&z); os_cfg.alloc = 0; evq(2, (uint64_t)r, nout); (void)toomuch;
    CHECK(os_heap_live() == base, "leak", "decompression leaves %ld blocks", (long)os_heap_live() - (long)base);
    int whole = nout == npay && !memcmp(out, pay, npay), nomem = (int)os_fired("alloc") > f0;
    if (refused && refused != rb) CHECK(r != Z_OK, "unreported", "the sink took nothing and finishing returned %d", r);
    if (r == Z_OK) CHECK(whole && (feed >= nstr || damaged), bad == 1 ? "unreported" : damaged ? "damage-accepted" : feed < nstr ? "truncation-accepted" : "roundtrip", "decompression succeeds with %u of %u bytes", (unsigned)nout, (unsigned)npay);
    else CHECK(damaged || feed < nstr || nomem || refused || (bad == 2 && p < nstr), "spurious-failure", "finishing returned %d", r);
    if (!damaged) CHECK(nout <= npay && !memcmp(out, pay, nout), "content", "the %u bytes delivered are not the beginning of the data", (unsigned)nout);
    if (ended && !damaged) CHECK(feed >= nstr && p >= nstr, "early-end", "the end of the stream is announced after %u of %u bytes", (unsigned)p, (unsigned)nstr);
    if (bad == 2 && !perm && p >= nstr && !damaged && !nomem && !refused) CHECK(r == Z_OK, "spurious-failure", "finishing after the sink recovered returned %d", r);
    tally("bytes", npay); tally("sink_calls", (unsigned)calls); tally("retries", (unsigned)nret); run_nontrivial();
    cover(mix64(mix64(npay, osz * 8 + (unsigned)smode), mix64(feed, nstr) ^ (unsigned)calls)); sample("%u bytes through a buffer of %u, stream of %u, fed %u, %s, result %d", (unsigned)npay, osz, (unsigned)nstr, (unsigned)feed, harm == 5 ? "damaged" : harm == 4 ? "truncated" : "intact", r);
}
const dst_harness harness = { .property = "D10", .name = "zbuf", .run = run,
  .rule = "one run = one payload of up to 200 kB compressed and decompressed in pieces of any size through an output buffer of any size into a sink that takes all, some, single bytes, whole records or nothing, with streams also made by zlib, damaged, truncated or followed by other data, and failing allocations; every run is non-trivial; distinct by the hash of the whole event log" };
