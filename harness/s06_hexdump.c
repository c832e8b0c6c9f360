/* S06: hex dumps to a file or through a function of the caller's */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <ctype.h>
#include "utils/hexdump.h"
int sim_fclose(FILE*), sim_fflush(FILE*);
static char text[3 << 20]; static size_t ntext; static unsigned calls, failat; static int failwith; static void *ctxseen;
static int writer(void *ctx, const char *b, size_t n) { ctxseen = ctx; if (++calls == failat) { fault_note("writer"); return failwith; } CHECK(calls < failat || !failat, "after-failure", "the writer is called again after it failed"); CHECK(n <= sizeof text - ntext, "output-size", "%zu more bytes after %zu", n, (size_t)ntext); memcpy(text + ntext, b, n); ntext += n; return 0; }
/* read a dump back: the lines for n bytes whose first has the given offset; returns what is left */
static const char *parse(const char *t, const char *end, const unsigned char *d, size_t n, uint64_t off)
{
    for (size_t at = 0; at < n; at += 16) {
        size_t m = n - at < 16 ? n - at : 16; const char *nl = memchr(t, '\n', (size_t)(end - t)); CHECK(nl, "line", "the dump of %zu bytes stops at byte %zu", n, at);
        uint64_t o = 0; const char *p = t; while (p < nl && isxdigit((unsigned char)*p)) o = o << 4 | (uint64_t)(*p <= '9' ? *p - '0' : (*p | 32) - 'a' + 10), p++;
        CHECK(p > t && o == off + at, "offset", "a line starts with '%.*s' where %llx is expected", (int)(nl - t > 20 ? 20 : nl - t), t, (unsigned long long)(off + at));
        CHECK(p < nl && *p == ' ', "line", "no space after the offset");
        for (size_t k = 0; k < m; k++) { while (p < nl && *p == ' ') p++; char w[3]; snprintf(w, 3, "%02x", d[at + k]); CHECK(nl - p > 2 && !memcmp(p, w, 2) && p[2] == ' ', "byte", "byte %zu of %zu is shown as '%.2s', not %s", at + k, n, nl - p >= 2 ? p : "", w); p += 2; }
        while (p < nl && *p == ' ') p++; CHECK(nl - p == (long)m + 2 && *p == '|' && nl[-1] == '|', "line", "the text of a line of %zu bytes is not between bars", m);
        for (size_t k = 0; k < m; k++) { unsigned char c = d[at + k]; CHECK(p[1 + k] == (c >= 32 && c < 127 ? (char)c : '.'), "text", "byte %02x appears as '%c'", c, p[1 + k]); }
        t = nl + 1;
    }
    return t;
}
static unsigned char *data(size_t *n) { prng g = { ch_seed() }; size_t z = *n = ch(4) == 0 ? ch(3) : ch(3) ? ch(70) : ch(3) ? 16 * ch(20) : ch(60) ? ch(6000) : 65000 + ch(6000); int kind = (int)ch(3); unsigned char *b = os_malloc(z ? z : 1); for (size_t i = 0; i < z; i++) { uint64_t v = prng_next(&g); b[i] = (unsigned char)(kind == 0 ? v : kind == 1 ? 32 + v % 96 : "\x7f\x80 ~\x1f|\n\xff"[v & 7]); } return b; }
/* more than 4 GB: the writer stops it long before the end */
#include <sys/mman.h>
static void huge(void)
{
    static unsigned char *z; if (!z) z = mmap(0, (1ull << 32) + (1 << 20), PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (z == MAP_FAILED) harness_error("address space");
    hex_dumper *d = os_malloc(sizeof *d); memset(d, 0xa5, sizeof *d); ntext = 0; calls = 0; failat = 8 + ch(60); failwith = -1 - (int)ch(133); size_t n = (1ull << (ch(2) ? 31 : 32)) + ch(70);
    hex_dump_init(d, writer, 0, HEX_DUMP_OFFSET); int r = hex_dump_write(d, z, n); CHECK(calls == failat && r == failwith, "error-hidden", "the writer fails with %d in its call %u of a dump of %zu bytes, the dump gives %d after %u", failwith, failat, n, r, calls);
    hex_dump_close(d); os_free(d); evq(n, calls, (uint64_t)r); tally("failed", 1); CHECK(os_heap_live() == 0, "leak", "%zu blocks are left", os_heap_live()); run_nontrivial(); sample("a dump of %zu bytes cut short", n);
}
static void run(void)
{
    if (ch(1000) == 999) { os_reset(); huge(); return; }
    os_reset(); unsigned rounds = 1 + ch(4), done = 0, failed = 0;
    for (unsigned i = 0; i < rounds; i++) {
        if (ch(2)) {            /* through a function */
            hex_dumper *d = os_malloc(sizeof *d); memset(d, 0xa5, sizeof *d); int ptr = (int)ch(2); ntext = 0; calls = 0; unsigned nw = 1 + ch(4); failat = ch(3) == 2 ? 1 + ch(20) : 0; failwith = -1 - (int)ch(ch(2) ? 133 : 100000); int local; ctxseen = 0;
            hex_dump_init(d, writer, ch(5) ? &local : 0, ptr ? HEX_DUMP_PTR : HEX_DUMP_OFFSET); struct { unsigned char *b; size_t n; } in[5]; unsigned k; int r = 0; void *want = d->ctx;
            for (k = 0; k < nw && !r; k++) { in[k].b = data(&in[k].n); r = hex_dump_write(d, in[k].b, in[k].n); if (calls) CHECK(ctxseen == want, "context", "the writer gets another context"); if (calls && failat && calls == failat) CHECK(r == failwith, "error-hidden", "the writer failed with %d, the dump gives %d", failwith, r); else CHECK(r == 0, "spurious-failure", "a dump gives %d though the writer did not fail", r); }
            if (!r) CHECK(hex_dump_close(d) == 0, "spurious-failure", "closing fails"); else hex_dump_close(d);
            const char *t = text; if (!r) { for (unsigned j = 0; j < k; j++) t = parse(t, text + ntext, in[j].b, in[j].n, ptr ? (uintptr_t)in[j].b : 0); CHECK(t == text + ntext, "line", "more is written than the bytes"); done++; } else failed++;
            ev("dump through a function: %u writes, %u calls -> %d", k, calls, r); evq(1, calls, (uint64_t)r); size_t tot = 0; for (unsigned j = 0; j < k; j++) tot += in[j].n, os_free(in[j].b); os_free(d); cover(mix64(tot, (uint64_t)(r != 0) * 2 + (uint64_t)ptr));
        } else {                /* to a file */
            os_put("/f", "", 0, 0644); os_fd_set(5, "/f", 1); FILE *fp = os_fdopen(5, "w"); static char vb[5000]; unsigned mode = ch(4); if (mode == 0) setvbuf(fp, 0, _IONBF, 0); else if (mode == 1) setvbuf(fp, vb, _IOLBF, 1 + ch(4999)); else if (mode == 2) setvbuf(fp, vb, _IOFBF, 1 + ch(4999));
            unsigned nw = 1 + ch(3); struct { unsigned char *b; size_t n; } in[4]; int bad = 0, faulty = ch(3) == 2; unsigned k; int r = 0;
            for (k = 0; k < nw && !bad; k++) {
                in[k].b = data(&in[k].n); unsigned f0 = os_fired(""); os_cfg.io = os_cfg.shortio = faulty; r = fhexdump(fp, in[k].b, in[k].n); os_cfg.io = os_cfg.shortio = 0; int err = ferror(fp) != 0;
                if (err) { CHECK(r < 0 && r > -4096, "error-hidden", "writing failed but fhexdump gives %d", r); bad = 1; } else CHECK(r == 0, "spurious-failure", "fhexdump gives %d%s", r, os_fired("") > f0 ? " though nothing was lost" : "");
            }
            os_cfg.io = os_cfg.shortio = faulty; int c = sim_fclose(fp); os_cfg.io = os_cfg.shortio = 0; ev("dump to a file: %u writes -> %d, close %d", k, r, c); evq(2, (uint64_t)r, (uint64_t)c); size_t z; const char *t = os_content("/f", &z), *e = t + z;
            if (!bad && !c) { for (unsigned j = 0; j < k; j++) t = parse(t, e, in[j].b, in[j].n, 0); CHECK(t == e, "line", "more is written than the bytes"); done++; } else failed++;
            size_t tot = 0; for (unsigned j = 0; j < k; j++) tot += in[j].n, os_free(in[j].b); os_rm("/f"); cover(mix64(tot, 8 + (uint64_t)bad));
        }
    }
    CHECK(os_heap_live() == 0, "leak", "%zu blocks are left", os_heap_live()); tally("dumps", done); tally("failed", failed); if (rounds > 1) run_nontrivial(); sample("%u dumps, %u failed", done, failed);
}
const dst_harness harness = { .property = "S06", .name = "hexdump", .run = run,
  .rule = "one run = up to four dumps of one to four buffers of 0 to 6000 bytes each (or, one in many, 65000 to 71000), through a function that fails at some call or to a file with any buffering whose writes fail or are cut short; the text is read back; one run in 1000 = a dump of 2 or 4 GB whose writer fails; non-trivial if there is more than one dump; distinct by the hash of the whole event log" };
