/* S03: progress bar */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <inttypes.h>
#include "utils/progbar.h"
#include "utils/strutils.h"
static char out[70000]; static unsigned nout;
static long tty_write(const void *b, size_t n) { CHECK(n <= sizeof out - nout, "output-size", "%zu bytes are written", n); memcpy(out + nout, b, n); nout += (unsigned)n; return (long)n; }
#define CLR "\x1B[2K\r"
static char last[600]; static int drawn, barw;
static unsigned __int128 mul(uint64_t a, uint64_t b) { return (unsigned __int128)a * b; }
static void num(char *b, size_t n, uint64_t v, int human) { if (human) humanize_size(b, n, v); else snprintf(b, n, "%" PRIu64, v); }
/* does the text show cur of total? */
static void shows(const char *t, uint64_t cur, uint64_t total, int human)
{
    char c[64], z[64], w[64]; num(w, sizeof w, cur, human); const char *p = t; while (*p == ' ') p++;
    if (!total) {
        const char *e = strstr(p, "..."); CHECK(e, "text", "no progress text in '%s'", t); size_t n = (size_t)(e - p); while (n && p[n - 1] == ' ') n--;
        CHECK(n == strlen(w) && !memcmp(p, w, n), "count", "'%s' is shown for %" PRIu64, t, cur); return;
    }
    const char *s = strchr(p, '/'), *o = strchr(p, '['), *e = strchr(p, ']'); CHECK(s && o && e && s < o && o < e, "text", "no bar in '%s'", t);
    size_t n = (size_t)(s - p); while (n && p[n - 1] == ' ') n--; snprintf(c, sizeof c, "%.*s", (int)n, p); CHECK(!strcmp(c, w), "count", "'%s' is shown for %" PRIu64, t, cur);
    s++; while (*s == ' ') s++; n = (size_t)(o - s); while (n && s[n - 1] == ' ') n--; snprintf(c, sizeof c, "%.*s", (int)n, s); num(z, sizeof z, total, human); CHECK(!strcmp(c, z), "count", "'%s' is shown for a total of %" PRIu64, t, total);
    unsigned f = 0, b = 0; const char *q = o + 1; char fc = *q; for (; q < e && *q == 'o'; q++) f++; for (; q < e && *q == '.'; q++) b++; (void)fc;
    CHECK(q == e, "bar", "the bar in '%s' is not filled from the left", t); int wd = (int)(f + b); CHECK(wd >= 1 && (barw < 0 || wd == barw), "bar", "the bar is %d cells, %d before", wd, barw); barw = wd;
    char *x; unsigned long pct = strtoul(e + 1, &x, 10); CHECK(x > e + 1 && *x == '%' && !x[1], "text", "no percentage at the end of '%s'", t); CHECK(pct <= 100, "percent", "%lu%% is shown", pct);
    uint64_t real = cur >= total ? 100 : (uint64_t)(mul(cur, 100) / total); uint64_t slack = total > (UINT64_MAX / 128);
    CHECK(pct <= real && pct + slack >= real, "percent", "%lu%% is shown for %" PRIu64 " of %" PRIu64 " (%" PRIu64 "%%)", pct, cur, total, real);
    /* filled cells match the percentage, give or take one cell */
    long want = (long)(real * (uint64_t)wd / 100); CHECK((long)f >= want - 1 && (long)f <= want + 1, "bar", "%u of %d cells are filled at %lu%%", f, wd, pct);
    if (real == 100) CHECK((int)f == wd, "bar", "%u of %d cells are filled at the end", f, wd);
    if (cur == 0 && real == 0) CHECK(f == 0, "bar", "%u cells are filled at the start", f);
}
static void run(void)
{
    os_reset(); os_mkdir("/dev", 0755); os_mknod("/dev/tty", OS_CHR, 0x500); os_put("/f", "", 0, 0644); os_tty.write = tty_write; nout = 0; drawn = 0; last[0] = 0; barw = -1;
    os_tty.cols = ch(3) ? (int)ch(110) : ch(2) ? (int)ch(4) : 65535 - (int)ch(65536); if (ch(8) == 7) os_tty.winsz_fail = 1;
    int kind = ch(8) < 6 ? 0 : 1 + (int)ch(3), T, fd; static const int fds[] = { 5, 0, 1, 2, 63 }; fd = T = fds[ch(NELEM(fds))]; if (kind == 0) os_fd_set(T, "/dev/tty", 1 + (int)ch(2)); else if (kind == 1) os_fd_set(T, "/f", 1); else fd = kind == 2 ? -1 : 77;
    uint64_t total = ch(6) == 5 ? 0 : ch(3) == 0 ? 1 + ch(200) : ch(2) ? 1 + (ch_seed() >> ch(64)) : UINT64_MAX - ch(200); unsigned flags = ch(2) ? P_HUMAN : 0; int human = flags != 0;
    progress p; memset(&p, 0xa5, sizeof p); int lvl = ch(4) == 3; os_cfg.io = lvl;
    int r = progressbar_init(&p, fd, total, flags); CHECK(r == 0, "init", "the start returned %d", r); CHECK(!nout, "early", "something is drawn at the start");
    unsigned n = 1 + ch(40), style = ch(4), redraws = 0; uint64_t cur = 0; int fresh = 1; unsigned reuse = 0;
    ev("columns %d%s kind %d total %" PRIu64 " flags %u", os_tty.cols, os_tty.winsz_fail ? " unknown" : "", kind, total, flags);
    for (unsigned i = 0; i < n; i++) {
        uint64_t inc = style == 0 ? total / n + ch(3) : style == 1 ? ch(3) : style == 2 ? ch_seed() >> ch(64) : ch(5) == 0 ? 0 : ch(4) ? ch(1000) : total - ch(2) * (total / 2);
        int fin = ch(25) == 24; unsigned b = nout, wf = os_fired("write");
        if (fin) {
            int clr = (int)ch(3) - 1, nl = (int)ch(3) - 1; progressbar_finish(&p, clr, nl); char w[16]; snprintf(w, sizeof w, "%s%s", clr > 0 ? CLR : "", nl > 0 ? "\n" : "");
            if (kind == 0 && !os_fired("write")) CHECK(nout - b == strlen(w) && !memcmp(out + b, w, strlen(w)), "finish", "finishing with clear %d and newline %d wrote %u bytes", clr, nl, nout - b);
            cur = 0; fresh = 1; last[0] = 0; reuse++; if (kind == 0) { evq(5, (uint64_t)clr, (uint64_t)nl); continue; }
        } else {
            progressbar_update(&p, inc); cur = inc > UINT64_MAX - cur ? UINT64_MAX : cur + inc;
            if (os_fired("write")) { if (os_fired("write") > wf) fresh = 1; tally("failed_writes", 1); continue; }
        }
        if (kind) { CHECK(!nout, "not-a-terminal", "%u bytes are written though the output is no terminal", nout); continue; }
        const char *t = out + b; unsigned m = nout - b;
        if (m) {
            if (m >= strlen(CLR) && !memcmp(t, CLR, strlen(CLR))) { t += strlen(CLR); m -= (unsigned)strlen(CLR); } else CHECK(!drawn || reuse, "not-cleared", "text is drawn without clearing the line");
            CHECK(m && m < sizeof last, "text", "%u bytes of text", m); char now[600]; memcpy(now, t, m); now[m] = 0; for (unsigned k = 0; k < m; k++) CHECK((unsigned char)now[k] >= 0x20 && now[k] != 0x7f, "text", "control character %d in the text", now[k]);
            CHECK(strcmp(now, last), "needless-redraw", "the same text is drawn again"); memcpy(last, now, m + 1); drawn = 1; redraws++; fresh = 0;
        } else CHECK(!fresh || os_fired("write"), "not-drawn", "nothing is drawn by the first update");
        shows(last, cur, total, human); evq(cur, nout, 0);
    }
    os_cfg.io = 0; CHECK(!os_fd_isopen(77), "fd", "a descriptor appeared"); if (fd == T) CHECK(os_fd_isopen(T), "fd", "the caller's descriptor is closed");
    CHECK(os_heap_live() == 0, "leak", "%u blocks left", (unsigned)os_heap_live());
    tally("updates", n); tally("redraws", redraws); run_nontrivial(); cover(mix64(mix64((uint64_t)os_tty.cols, total), mix64(cur, nout))); sample("%d columns%s, total %" PRIu64 ", %u updates, %u redraws: %s", os_tty.cols, os_tty.winsz_fail ? " (unknown)" : "", total, n, redraws, last);
}
const dst_harness harness = { .property = "S03", .name = "progbar", .run = run,
  .rule = "one run = one progress display on a terminal of 0 to 65535 columns (or unknown size), a file, or no descriptor, with any total and up to 40 increments of any size up to 64 bits, restarts and failing writes; every run is non-trivial; distinct by the hash of the whole event log" };
