/* S01: reading a password */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include "utils/readpass.h"
int sim_fileno(FILE *f);
#define NL 12
typedef struct { char s[5000]; unsigned n; int term; } line;       /* term: 0 end of input, 1 \n, 2 \r\n */
static line src[2][NL]; static unsigned nl[2];                      /* 0: standard input, 1: terminal */
static unsigned tl, tp, treads, gone; static struct termios orig;   /* terminal: current line, position */
static char log_[20000]; static unsigned nlog; static int prompts_at_read;
static unsigned raw(const line *l, char *o) { memcpy(o, l->s, l->n); unsigned n = l->n; if (l->term == 2) o[n++] = '\r'; if (l->term) o[n++] = '\n'; return n; }
static unsigned count(const char *n) { unsigned c = 0; log_[nlog] = 0; for (char *p = log_; (p = strstr(p, n)); p += strlen(n)) c++; return c; }
static long tty_read(void *b, size_t n)
{
    CHECK(!(os_tty.tio.c_lflag & ECHO), "echo", "the terminal is read with echo on"); treads++;
    struct termios t = os_tty.tio; t.c_lflag |= (orig.c_lflag & ECHO); t.c_lflag = (t.c_lflag & ~(tcflag_t)ECHONL) | (orig.c_lflag & ECHONL);
    CHECK(!memcmp(&t, &orig, sizeof t), "settings", "settings other than echo are changed while reading");
    if (!tp) prompts_at_read++;
    static char o[6000]; if (tl >= nl[1]) { gone++; return 0; }
    unsigned m = raw(&src[1][tl], o) - tp; if (m > n) m = (unsigned)n; memcpy(b, o + tp, m); tp += m;
    if (tp >= raw(&src[1][tl], o)) { tp = 0; tl++; }
    return m;
}
static long tty_write(const void *b, size_t n) { for (size_t i = 0; i < n && nlog < sizeof log_ - 1; i++) log_[nlog++] = ((const char*)b)[i]; return (long)n; }
static void gen(int w)
{
    nl[w] = 1 + ch(NL); static const char al[] = "XYZWVUQKJ \t%s~\x80\xff\x01";
    for (unsigned i = 0; i < nl[w]; i++) {
        line *l = &src[w][i]; unsigned k = ch(7);
        if (i && k < 3) { *l = src[w][i - 1]; if (ch(6) == 5 && l->n) { unsigned at = ch(l->n); l->s[at] = 'z'; } }
        else { l->n = k == 6 && ch(3) == 2 ? 2040 + ch(12) : k == 5 && ch(3) == 2 ? ch(5000) : k == 4 ? 0 : ch(24); prng g = { ch_seed() }; for (unsigned j = 0; j < l->n; j++) l->s[j] = al[prng_next(&g) % (sizeof al - 1)]; l->term = 1; if (l->n && l->s[l->n - 1] == '\r') l->s[l->n - 1] = 'X'; }
        if (ch(5) == 4) l->term = ch(2) ? 2 : 1;
        if (l->term == 0) l->term = 1;
        if (i + 1 == nl[w] && ch(3) == 2 && l->n) l->term = 0;
        if (i + 1 == nl[w] && !l->n && !l->term) l->term = 1;
    }
}
typedef struct { int ok[3]; unsigned n; int mism, eof, longl; unsigned used[3]; } model;   /* allowed results */
static int sure_same(const line *a, const line *b) { return a->n == b->n && !memcmp(a->s, b->s, a->n) && a->term == b->term; }
static int text_same(const line *a, const line *b) { return a->n == b->n && !memcmp(a->s, b->s, a->n); }
static void expect(model *m, int w, unsigned at, int conf)
{
    memset(m, 0, sizeof *m); unsigned i = at;
    for (int t = 0; t < 3; t++) {
        if (i >= nl[w]) { m->eof = 1; return; }
        line *a = &src[w][i++]; if (a->n + 2 > 2047) m->longl = 1;
        if (!conf) { m->ok[m->n] = (int)(a - src[w]); m->used[m->n++] = i; return; }
        if (i >= nl[w]) { m->eof = 1; return; }
        line *b = &src[w][i++]; if (b->n + 2 > 2047) m->longl = 1;
        if (text_same(a, b)) { m->ok[m->n] = (int)(a - src[w]); m->used[m->n++] = i; if (sure_same(a, b)) return; }
    }
    m->mism = 1;
}
static void run(void)
{
    os_reset(); os_mkdir("/dev", 0755); gen(0); gen(1); nlog = tl = tp = treads = gone = 0; prompts_at_read = 0;
    int havetty = ch(4) != 3, intty = ch(3) == 2, errtty = (int)ch(2);
    if (havetty) os_mknod("/dev/tty", OS_CHR, 0x500); if (havetty && ch(6) == 5) { os_tty.get_fail = 99; havetty = 0; }
    os_mknod("/console", OS_CHR, 0x500); static char o[80000]; unsigned n = 0; for (unsigned i = 0; i < nl[0]; i++) n += raw(&src[0][i], o + n);
    os_put("/in", o, n, 0644); os_put("/err", "", 0, 0644); if (os_tty.get_fail == 99) intty = errtty = 0;
    os_fd_set(0, intty ? "/console" : "/in", 0); os_fd_set(2, errtty ? "/console" : "/err", 1); sim_stdin = os_fdopen(0, "r"); sim_stderr = os_fdopen(2, "w"); setvbuf(sim_stderr, 0, _IONBF, 0);
    os_tty.read = tty_read; os_tty.write = tty_write; { prng g = { ch_seed() }; os_tty.tio.c_lflag = (tcflag_t)prng_next(&g) | (ch(4) ? ECHO : 0); os_tty.tio.c_iflag = (tcflag_t)prng_next(&g); os_tty.tio.c_oflag = (tcflag_t)prng_next(&g); os_tty.tio.c_cc[VMIN] = (cc_t)prng_next(&g); } orig = os_tty.tio;
    unsigned at[2] = { 0, 0 }, calls = 1 + ch(3), done = 0; char desc[100] = ""; unsigned unretok = 0;
    for (unsigned c = 0; c < calls; c++) {
        int devtty = (int)ch(2), conf = (int)ch(2); size_t base = os_heap_live(); unsigned fds = os_open_fds(), fl = os_live_files(); model m;
        char *pw = 0; int level = (int)ch(4); unsigned fo = os_fired("open"), fall = os_fired(""), fset = os_fired("tcsetattr"), fal = os_fired("alloc"), r0 = (unsigned)prompts_at_read, lg0 = nlog, c1 = count("Secret word"), c2 = count("Once more");
        os_cfg.io = level == 3; os_cfg.alloc = level >= 2; os_cfg.shortio = level == 3;
        int r = portable_readpass(&pw, "Secret word", conf ? "Once more" : 0, devtty);
        os_cfg.io = os_cfg.alloc = os_cfg.shortio = 0; int fell = os_fired("open") > fo || os_fired("alloc") > fal;
        /* which source may have been used */
        int viatty = devtty && havetty, w0 = viatty || intty, usetty = w0; if (viatty && fell && !intty) usetty = treads ? ((unsigned)prompts_at_read > r0) : 0;
        int src_ = usetty ? 1 : 0; expect(&m, src_, at[src_], conf); int faulty = os_fired("") - os_fired("short_read") > 0 && os_fired("") > fall;
        ev("call %u: devtty %d confirm %d tty %d -> %d%s", c, devtty, conf, usetty, r, faulty ? " (faults)" : ""); evq(3, (uint64_t)r, m.n);
        snprintf(desc + strlen(desc), sizeof desc - strlen(desc), " %s%s=%d", usetty ? "tty" : "file", conf ? "+confirm" : "", r);
        CHECK(os_fired("tcsetattr") > fset || !memcmp(&os_tty.tio, &orig, sizeof orig), "terminal-left-changed", "the terminal's settings are not restored (result %d, lflag %x instead of %x)", r, os_tty.tio.c_lflag, orig.c_lflag);
        CHECK(os_fd_isopen(0) && os_fd_isopen(2) && sim_fileno(sim_stdin) == 0, "stdin-closed", "the standard streams are closed");
        if (!os_fired("close")) CHECK(os_open_fds() == fds, "leak", "%u descriptors open, %u before", os_open_fds(), fds);
        CHECK(os_live_files() == fl, "leak", "a stream is left open");
        int hit = -1;
        if (r == 0) {
            CHECK(pw, "no-password", "success without a password"); CHECK(os_heap_owns(pw), "result", "the password is not an allocated string");
            for (unsigned k = 0; k < m.n && hit < 0; k++) { line *l = &src[src_][m.ok[k]]; if (strlen(pw) == l->n && !memcmp(pw, l->s, l->n)) hit = (int)k; }
            if (hit < 0) violation(m.n ? "wrong-password" : m.eof ? "eof-accepted" : "mismatch-accepted", "the password returned (%u characters) is not what was entered%s", (unsigned)strlen(pw), m.n ? "" : m.eof ? " (the input ended)" : " (the entries differ)");
            CHECK(os_fired("alloc") - fal <= (unsigned)devtty, "unreported", "lack of memory is not reported");
            os_free(pw); at[src_] = m.used[hit]; if (usetty) { tl = at[1]; tp = 0; } 
        } else {
            CHECK(r < 0, "code", "positive result %d", r);
            int excused = faulty || m.eof || m.longl || (m.mism && r == -EINVAL);
            CHECK(excused, "spurious-failure", "failure %d though a password was entered%s", r, m.mism ? " (after three mismatches)" : "");
        }
        CHECK(os_heap_live() == base, "leak", "%ld blocks left", (long)os_heap_live() - (long)base);
        if (!errtty) { size_t z; const char *e = os_content("/err", &z); nlog = z < sizeof log_ - 1 ? (unsigned)z : (unsigned)sizeof log_ - 1; memcpy(log_, e, nlog); }
        log_[nlog] = 0;
        if (!faulty) {
            unsigned p1 = count("Secret word") - c1, p2 = count("Once more") - c2;
            if (!usetty) CHECK(!p1 && !p2, "prompt", "prompts are shown though no terminal is read");
            else if (!m.longl && !m.eof && r == 0 && m.n == 1) { unsigned lines = at[1] - (unsigned)0; (void)lines; unsigned pairs = hit >= 0 ? (unsigned)p1 : 0; CHECK(p1 >= 1 && p1 <= 3 && (conf ? p2 == p1 : p2 == 0) && pairs, "prompt", "%u prompts and %u confirmation prompts", p1, p2); }
            else CHECK(p1 >= 1 && p1 <= 3 && p2 <= p1, "prompt", "%u prompts and %u confirmation prompts", p1, p2);
            if (r == -EINVAL && m.mism && usetty) CHECK(p1 == 3 && p2 == 3, "tries", "gave up after %u tries", p1);
        }
        for (unsigned k = 0; k < nl[src_]; k++) if (src[src_][k].n >= 6) { char t[7]; memcpy(t, src[src_][k].s, 6); t[6] = 0; CHECK(!strstr(log_ + (lg0 < nlog ? lg0 : 0), t), "shown", "the password is shown"); }
        done++; if (r == 0) unretok++;
        if (r || m.longl || hit < 0 || m.n > 1 || os_fired("")) break;
    }
    (void)gone; fclose(sim_stdin); fclose(sim_stderr); sim_stdin = sim_stderr = 0;
    tally("calls", done); tally("passwords", unretok); tally("terminal_reads", treads); run_nontrivial();
    cover(mix64(mix64(nl[0], nl[1]), mix64(treads, nlog) ^ n)); sample("%s%s%s", havetty ? "/dev/tty" : "no /dev/tty", intty ? ", stdin a terminal:" : ":", desc);
}
const dst_harness harness = { .property = "S01", .name = "readpass", .run = run,
  .rule = "one run = one to three password prompts with or without confirmation, read from /dev/tty or standard input (terminal or file) holding up to 12 lines (equal, different, empty, over-long, CRLF, without newline, ending early), with failing or interrupted opens, reads, writes, terminal calls and allocations; every run is non-trivial; distinct by the hash of the whole event log" };
