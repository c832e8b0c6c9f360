/* D07: reading lines */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <fcntl.h>
#include "utils/utils.h"
#include "utils/strutils.h"
#define MAXB 400000
static uint8_t data[MAXB], buf[MAXB + 64]; static char fbuf[8192];
int sim_fclose(FILE *f);
static void run(void)
{
    os_reset(); os_low_fds(); static FILE *f; size_t n = 0, p = 0; prng g = { ch_seed() };
    unsigned shape = ch(5), lines = ch(30), maxl = ch(4) ? 1 + ch(40) : ch(3000); size_t room = 6000; int big = ch(300) == 299; if (big) { room = MAXB; maxl = 60000 + ch(120000); } int term = ch(5) != 0;
    for (unsigned i = 0; i < lines && n < room - 10; i++) {
        unsigned L = ch(5) == 0 ? 0 : (unsigned)(prng_next(&g) % (maxl + 1)); if (n + L > room - 10) L = (unsigned)(room - 10 - n);
        for (unsigned k = 0; k < L; k++) { uint8_t c = (uint8_t)(shape == 0 ? 'a' + k % 26 : prng_next(&g) >> 20); if (shape == 1 && !(prng_next(&g) & 7)) c = 0xff; if (shape == 2 && c < 40) c = 0; if ((c == '\n' || c == '\r') && shape != 3) c = 'x'; data[n++] = c; }
        if (i + 1 == lines && !term) break;
        switch (ch(4)) { case 0: data[n++] = '\n'; break; case 1: data[n++] = '\r'; data[n++] = '\n'; break; case 2: data[n++] = '\r'; break; default: data[n++] = '\n'; }
    }
    os_put("/t", data, n, 0644); os_durable_point();
    int fd = os_fd_open("/t", O_RDONLY); f = os_fdopen(fd, "r"); if (!f) harness_error("stream");
    switch (big ? 2 + ch(2) : ch(4)) { case 0: setvbuf(f, 0, _IONBF, 0); break; case 1: setvbuf(f, fbuf, _IOFBF, 1 + ch(16)); break; case 2: setvbuf(f, fbuf, _IOFBF, 4096); break; default: break; }
    os_cfg.shortio = ch(2); os_cfg.io = ch(2); unsigned bs0 = ch(4) ? 1 + ch(50) : ch(6) ? 4096 : 1 + ch(3); int vary = ch(4) == 3; if (big) { bs0 = 60000 + ch(MAXB - 60000); vary = 0; } unsigned nl = 0, nlong = 0, failed = 0; size_t heap = os_heap_live();
    ev("%u bytes %u lines", (unsigned)n, lines);
    for (unsigned it = 0; it < 12000; it++) {
        int bs = (int)(vary ? (ch(20) == 19 ? -1 + (int)ch(2) : 1 + (int)ch(60)) : bs0); memset(buf, 0xa5, (size_t)(bs > 0 ? bs : 0) + 40);
        unsigned f0 = os_fired(""); uint64_t sr = os_fired("short_read"); errno = ch(2) ? 0 : EAGAIN; int eof = p == n;
        int rc = freadline(f, buf + 16, bs);
        int hard = (os_fired("") - f0) - (unsigned)(os_fired("short_read") - sr) > 0;
        evq((uint64_t)rc, p, (uint64_t)bs);
        for (int k = 0; k < 16; k++) CHECK(buf[k] == 0xa5, "overrun", "wrote before a buffer of %d", bs);
        for (int k = 0; k < 16; k++) CHECK(buf[16 + (bs > 0 ? bs : 0) + k] == 0xa5, "overrun", "wrote %d past a buffer of %d", k, bs);
        if (hard) { CHECK(rc < 0 && rc != -ENOSPC, "error-hidden", "a read error at byte %u came back as %d", (unsigned)p, rc); failed = 1; break; }
        if (bs <= 0) { CHECK(rc < 0, "no-room", "a buffer of %d was filled (%d)", bs, rc); continue; }
        if (eof) { CHECK(rc == 0 && feof(f), "past-end", "after the last line the result is %d, not end of file", rc); CHECK(!buf[16], "past-end", "text at end of file"); int r2 = freadline(f, buf + 16, bs); if (!(os_cfg.io || os_cfg.shortio)) CHECK(r2 == 0, "past-end", "end of file is followed by %d", r2); break; }
        size_t q = p; while (q < n && data[q] != '\n' && data[q] != '\r') q++;
        size_t L = q - p;
        if (L >= (size_t)bs) {
            CHECK(rc == -ENOSPC, "long-line", "a line of %u in a buffer of %d gave %d", (unsigned)L, bs, rc);
            CHECK(!memcmp(buf + 16, data + p, (size_t)bs - 1) && !buf[16 + bs - 1], "long-line", "a long line is not cut off cleanly");
            p += (size_t)bs - 1; nlong++; if (bs == 1) { vary = 1; } continue;
        }
        CHECK(rc == (int)L, rc < 0 ? "spurious-error" : rc == 0 ? "lost-line" : "wrong-length", "a line of %u in a buffer of %d gave %d (byte %u of %u)", (unsigned)L, bs, rc, (unsigned)p, (unsigned)n);
        CHECK(!memcmp(buf + 16, data + p, L) && !buf[16 + L], "content", "line at byte %u is not what the stream holds", (unsigned)p);
        if (L == 0 && q < n && !(data[q] == '\r' && q + 1 == n)) CHECK(!feof(f), "empty-as-eof", "an empty line looks like end of file");
        p = q; if (p < n) { if (data[p] == '\r' && p + 1 < n && data[p + 1] == '\n') p++; p++; } nl++;
        if (p == n && q == n && ch(2)) vary = 0;
    }
    CHECK(failed || p == n, "no-end", "reading did not end");
    os_cfg.io = os_cfg.shortio = 0; CHECK(os_heap_live() == heap, "leak", "%ld blocks left", (long)os_heap_live() - (long)heap); sim_fclose(f);
    tally("lines", nl); tally("cut", nlong); tally("read_errors", failed); if (nl + nlong + failed) run_nontrivial();
    cover(mix64(mix64(n, nl), mix64(nlong, failed * 8 + shape) ^ os_steps)); sample("%u bytes in %u lines, buffer %d, %u cut, %s", (unsigned)n, nl, vary ? 0 : (int)bs0, nlong, failed ? "read error" : "to the end");
}
const dst_harness harness = { .property = "D07", .name = "readline", .run = run,
  .rule = "one run = one stream of 0..6000 bytes (one in 300: up to 400000, with lines beyond 65536) (any bytes, LF, CR and CR-LF endings, with or without a last terminator) read to its end through stdio buffers of any size with short reads and read errors into line buffers of fixed or varying size; non-trivial when a line was read or an error reported; distinct by the hash of the whole event log" };
