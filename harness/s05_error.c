/* S05: diagnostics (error, warn, die) and the allocator that never fails */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <stdio.h>
#include <wchar.h>
#include <errno.h>
#include "error.h"
#include "utils/memmgr.h"
static char want[400000]; static unsigned nwant;            /* what both streams, in this order, must have shown */
static jmp_buf jb; static int code, ended;
static void on_exit_(int c, int quick) { (void)quick; code = c; ended = 1; longjmp(jb, 1); }
static void add(const char *s, size_t n) { if (nwant + n > sizeof want) harness_error("too much text"); memcpy(want + nwant, s, n); nwant += (unsigned)n; }
static unsigned seen[2];                                    /* how much of the files has been compared */
static const char *newtext(const char *path, unsigned *n, unsigned k) { size_t z; const char *p = os_content(path, &z); *n = (unsigned)z - seen[k]; return p + seen[k]; }
/* generate a message: m is the text fmt and its argument come to */
static char m[9000], a[9000]; static unsigned nm;
static void message(const char **fmt, int *kind)
{
    static const char al[] = "abc XYZ%:[]\t\x80\xff\"'\\1234567890"; prng g = { ch_seed() };
    unsigned n = ch(6) == 0 ? 0 : ch(5) < 3 ? ch(60) : ch(3) ? 2030 + ch(30) : ch(8000);
    for (unsigned i = 0; i < n; i++) a[i] = ch(400) == 399 ? '\n' : al[prng_next(&g) % (sizeof al - 1)];
    if (n && a[n - 1] == '\n') a[n - 1] = 'q'; if (n > 1 && ch(3) == 2) a[n - 1] = '\n', a[n - 2] = 'r'; else if (n == 1 && ch(3) == 2) a[0] = '\n';
    a[n] = 0; *kind = (int)ch(5);
    switch (*kind) {
    case 0: *fmt = "%s"; nm = (unsigned)snprintf(m, sizeof m, "%s", a); break;
    case 1: *fmt = "<%d|%s"; nm = (unsigned)snprintf(m, sizeof m, "<%d|%s", -17, a); break;
    case 2: *fmt = "%.*s"; nm = (unsigned)snprintf(m, sizeof m, "%.*s", (int)(n / 2), a); if (nm && m[nm - 1] == '\n') { m[nm-1] = 0; nm--; a[n / 2 - 1] = 0; } break;
    case 3: for (unsigned i = 0; i < n; i++) if (a[i] == '%') a[i] = 'p'; *fmt = a; nm = n; memcpy(m, a, n + 1); break;
    default: *fmt = "%s%ls"; nm = (unsigned)snprintf(m, sizeof m, "%s", a); break;       /* the wide text cannot be converted: formatting fails */
    }
}
#define FAKE L"\x7fffff01"
enum { ERROR, WARN, DIE };
static void call(int what, int st, int err, const char *fmt, int kind)
{
    unsigned h = nm / 2;
#define V(...) do { if (what == ERROR) error(st, err, __VA_ARGS__); else if (what == WARN) warn(__VA_ARGS__); else die(__VA_ARGS__); } while (0)
    if (kind == 0) V(fmt, a); else if (kind == 1) V(fmt, -17, a); else if (kind == 2) { (void)h; V(fmt, (int)nm, a); } else if (kind == 3) V(fmt, 0); else V(fmt, a, FAKE);
}
static void run(void)
{
    os_reset(); os_exit_hook = on_exit_; nwant = 0; seen[0] = seen[1] = 0; ended = 0;
    int same = (int)ch(2); unsigned printed = 0; os_put("/out", "", 0, 0644); os_put("/err", "", 0, 0644); const char *ep = same ? "/out" : "/err"; unsigned ek = same ? 0 : 1;
    os_fd_set(1, "/out", 1 | 02000); os_fd_set(2, ep, 1 | 02000); sim_stdout = os_fdopen(1, "w"); sim_stderr = os_fdopen(2, "w");
    static char ob[5000], eb[5000]; setvbuf(sim_stdout, ob, ch(3) ? _IOFBF : _IOLBF, 1 + ch(4999)); if (ch(2)) setvbuf(sim_stderr, 0, _IONBF, 0); else setvbuf(sim_stderr, eb, ch(2) ? _IOFBF : _IOLBF, 1 + ch(4999));
    static const char *names[] = { 0, "prog", "", "a b%s%n", "/usr/bin/some-program" }; program_name = names[ch(5)];
    int faulty = ch(4) == 3; unsigned n = 1 + ch(12); size_t heap = os_heap_live(); memmgr mm; int havemm = (int)ch(3), broken = 0; void *blk[20]; unsigned nb = 0;
    if (havemm == 1) memmgr_init_xmalloc(&mm); else if (havemm == 2) memmgr_init_default(&mm);
    ev("%s program %s%s", same ? "one file for both streams" : "two files", program_name ? program_name : "-", faulty ? " (failing writes)" : "");
    for (unsigned i = 0; i < n && !ended; i++) {
        unsigned act = ch(havemm ? 6 : 4);
        if (act == 0) {         /* ordinary output, still in the buffer */
            char t[64]; int k = snprintf(t, sizeof t, "output %u.%s", i, ch(2) ? "\n" : ""); fputs(t, sim_stdout); printed += (unsigned)k; if (same) add(t, (size_t)k); ev("print %d", k); continue;
        }
        if (act == 5) {         /* give a block back */
            if (!nb) { mm.free(mm.context, 0); continue; }
            unsigned k = ch(nb); mm.free(mm.context, blk[k]); blk[k] = blk[--nb]; continue;
        }
        unsigned wf = os_fired("");
        if (act == 4) {
            if (nb == 20) continue; size_t z = ch(3000); os_cfg.alloc = ch(2); os_cfg.io = os_cfg.shortio = faulty; unsigned al = os_fired("alloc"); void *p = 0;
            if (!setjmp(jb)) p = mm.alloc(mm.context, z);
            os_cfg.alloc = os_cfg.io = os_cfg.shortio = 0; int failed = os_fired("alloc") > al; ev("alloc %zu %s", z, ended ? "exit" : p ? "ok" : "none"); evq(3, z, (uint64_t)ended);
            if (os_fired("") - os_fired("alloc") > wf - al) broken = 1;
            if (ended) {
                CHECK(havemm == 1, "exit", "the ordinary allocator ended the process"); CHECK(failed, "exit", "the process was ended though there is memory"); CHECK(code == 1, "status", "lack of memory ends the process with %d", code);
                if (!broken) { unsigned k; const char *t = newtext(ep, &k, ek); CHECK(k && t[k - 1] == '\n', "line", "the message about lack of memory is not a line"); char z_[24]; snprintf(z_, sizeof z_, "%zu", z); char buf[4096]; unsigned b0 = k > 4000 ? k - 4000 : 0; memcpy(buf, t + b0, k - b0); buf[k - b0] = 0; CHECK(strstr(buf, z_), "text", "the message does not tell how much was wanted"); }
                tally("out_of_memory_exits", 1);
                break;
            }
            if (havemm == 1) CHECK(p, "null", "the allocator that never fails returned nothing");
            if (p) { CHECK(os_heap_owns(p) && os_heap_size(p) >= z, "block", "not a block of %zu bytes", z); memset(p, 0x5a, z); blk[nb++] = p; } else CHECK(failed, "spurious-null", "no memory though there is some");
            continue;
        }
        int what = act == 1 ? ERROR : act == 2 ? WARN : ch(3) ? ERROR : DIE, kind; const char *fmt; message(&fmt, &kind);
        int st = what != ERROR ? 0 : ch(4) < 3 ? 0 : ch(2) ? 1 : (int)ch(300) - 20, err = what != ERROR || !ch(3) ? 0 : ch(4) < 3 ? 1 + (int)ch(133) : ch(2) ? -1 - (int)ch(133) : 100000 + (int)ch(1000);
        unsigned text0, w0 = nwant; (void)w0;
        if (program_name) { add(program_name, strlen(program_name)); add(": ", 2); }
        text0 = nwant; size_t len = nm; if (len && m[len - 1] == '\n') len--; add(m, len);
        char tail[300] = "\n"; int e = err < 0 ? -err : err; if (e) snprintf(tail, sizeof tail, ": %s [%d]\n", strerror(e), e);
        os_cfg.io = os_cfg.shortio = faulty; errno = 0;
        if (!setjmp(jb)) call(what, st, err, fmt, kind);
        os_cfg.io = os_cfg.shortio = 0;
        ev("%s status %d errno %d message %u (form %d) -> %s %d", what == ERROR ? "error" : what == WARN ? "warn" : "die", st, err, nm, kind, ended ? "exit" : "returned", ended ? code : 0); evq(4, (uint64_t)what, (uint64_t)nm);
        int must = what == DIE ? 1 : st;
        CHECK(ended == (must != 0), "status", must ? "the process goes on" : "the process was ended"); if (ended) CHECK(code == must, "status", "the process ended with %d, not %d", code, must);
        if (os_fired("") > wf) broken = 1;
        if (broken) { tally("failed_writes", 1); nwant = 0; continue; }
        unsigned k; const char *t = newtext(ep, &k, ek);
        /* whole: prefix, text (long ones may be cut off), reason, newline */
        size_t tl = strlen(tail); CHECK(k >= 1 && t[k - 1] == '\n', "line", "the diagnostic does not end with a newline (%u bytes)", nm);
        CHECK(k >= text0 && !memcmp(t, want, text0), "before", "what was printed before, or the program's name, does not come first");
        CHECK(k - text0 >= tl && !memcmp(t + k - tl, tail, tl), "reason", "the reason is not at the end: want '%s'", tail);
        unsigned shown = k - text0 - (unsigned)tl;
        if (kind == 4) CHECK(shown <= len + 1 && !memcmp(t + text0, m, shown < len ? shown : len), "text", "something else than the message is shown when it cannot be formatted");
        else {
            CHECK(shown <= len && !memcmp(t + text0, m, shown), "text", "%u bytes are shown of a message of %u, or they differ", shown, (unsigned)len);
            CHECK(shown == len || (len >= 2000 && shown >= 2000), "cut", "%u bytes are shown of a message of %u", shown, (unsigned)len);
        }
        cover(mix64(mix64((uint64_t)what * 8 + (uint64_t)kind, nm > 2040 && nm < 2052 ? nm : nm > 2000 ? 2000 : nm ? 1 : 0), mix64((uint64_t)(e > 0) * 2 + (uint64_t)(st != 0), (uint64_t)same))); if (len > 2040) tally("long_messages", 1); if (!len) tally("empty_messages", 1);
        seen[ek] += k; nwant = 0;
        if (!same) { unsigned q; newtext("/out", &q, 0); CHECK(q == printed, "before", "%u of %u bytes of ordinary output are out when the diagnostic is", q, printed); }
    }
    for (unsigned i = 0; i < nb && !ended; i++) mm.free(mm.context, blk[i]);
    if (!ended) CHECK(os_heap_live() == heap, "leak", "%zu blocks are left", os_heap_live() - heap);
    if (n > 1) run_nontrivial(); tally("calls", n);
    FILE *o = sim_stdout, *e = sim_stderr; int sim_fclose(FILE*); sim_fclose(o); sim_fclose(e); sim_stdout = sim_stderr = 0; program_name = 0;
    sample("%u calls, %s", n, ended ? "ended" : "returned");
}
const dst_harness harness = { .property = "S05", .name = "diagnostics", .run = run,
  .rule = "one run = up to 12 calls of error, warn and die with messages of 0 to 8000 bytes in five forms (one of which cannot be formatted), error numbers and exit statuses of any kind, mixed with ordinary output still in its buffer and with allocations that fail, standard output and error being the same file or two, with any buffering and failing or short writes; non-trivial if there is more than one call; distinct by the hash of the whole event log" };
