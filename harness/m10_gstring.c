/* M10: growable strings against plain texts */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include "utils/gstring.h"
#define NG 3
#define MAXT 40000
int sim_fclose(FILE *f);
typedef struct { char s[MAXT]; unsigned n; } text;
static gstr G[NG]; static text M[NG], T, X; static prng rn; static unsigned nops, nfail, longest, nlines, cutoff;
static int wantfail; static unsigned f0;
static void on(void) { os_cfg.alloc = wantfail; f0 = os_fired(""); }
static int off(void) { os_cfg.alloc = 0; return os_fired("") > f0; }
static void refused(const char *op, int fired) { CHECK(fired, "spurious-failure", "%s failed although memory was there", op); nfail++; }
static void same(int k, const char *op)
{
    gstr *g = &G[k]; text *m = &M[k]; size_t n = gstr_len(g); CHECK(n == m->n, "length", "%u characters after %s, %u expected", (unsigned)n, op, m->n);
    char *s = gstr_str(g); CHECK(s && gstr_cap(g) > n, "capacity", "capacity %u for %u characters", (unsigned)gstr_cap(g), (unsigned)n);
    CHECK(!memcmp(s, m->s, n), "content", "the text differs after %s", op); CHECK(!s[n] && strlen(s) == n, "terminator", "the text is not terminated after %s", op);
    CHECK((gstr_str)(g) == s && (gstr_len)(g) == n, "access", "the accessors differ"); CHECK((char)gstr_lastch(g) == (n ? m->s[n - 1] : 0) && gstr_firstch(g) == (n ? m->s[0] : 0), "access", "first or last character");
    m->s[n] = 0; CHECK(gstr_eq_str(g, m->s), "compare", "the text does not compare equal to itself"); if (n > longest) longest = (unsigned)n;
}
static void all(const char *op) { for (int k = 0; k < NG; k++) same(k, op); CHECK(!!gstr_eq(&G[0], &G[1]) == (M[0].n == M[1].n && !memcmp(M[0].s, M[1].s, M[0].n)), "compare", "comparing two strings"); }
static char letter(unsigned kind) { uint64_t r = prng_next(&rn) >> 13; switch (kind) { case 0: return (char)('a' + r % 26); case 1: return (char)(1 + r % 255); case 2: return "ab \t\n\r\v\f\\|'\"$0179x{}"[r % 20]; default: return " \t\na"[r % 4]; } }
static void gen(text *t, unsigned n) { unsigned kind = ch(4); t->n = 0; while (t->n < n) { char c = letter(kind); t->s[t->n++] = c ? c : 'z'; } t->s[n] = 0; }
static unsigned some(void) { return ch(3) ? ch(20) : ch(3) ? ch(200) : ch(8) ? 60 + ch(10) : ch(2000); }
/* escaping */
static const char plain[] = "abfnrtv"; static const char mean[] = "\a\b\f\n\r\t\v";
static void escape(int k, text *m)
{
    char set[20]; unsigned ns = 0, e = (unsigned char)"\\|%^~!"[ch(6)], want = ch(12); int odd = (int)ch(3);
    while (ns < want) { uint64_t r = prng_next(&rn) >> 9; char c = odd ? (char)(odd == 1 ? 33 + r % 94 : 1 + r % 255) : mean[r % 7]; if ((unsigned char)c == e || !c) continue; set[ns++] = c; }
    set[ns] = 0; text before = *m; if (before.n * 5 + 1 >= MAXT) return;
    on(); gstr *r = gstr_escape(&G[k], set, (int)e); int fired = off();
    if (!r) { refused("escaping", fired); return; }
    CHECK(r == &G[k], "result", "escaping returned another string"); size_t n = gstr_len(&G[k]), i = 0, j = 0; const char *s = gstr_str(&G[k]);
    for (i = j = 0; i < before.n; i++) {                 /* what escaping leaves alone, doubles, or names */
        unsigned char c = (unsigned char)before.s[i]; int in = strchr(set, c) != 0; const char *z = strchr(mean, c);
        if (c == e) { CHECK(j + 1 < n && (unsigned char)s[j] == e && (unsigned char)s[j + 1] == e, "escape", "the escape character is not doubled"); j += 2; }
        else if (!in) { CHECK(j < n && (unsigned char)s[j] == c, "escape", "character %u changed though it is not to be escaped", c); j++; }
        else { CHECK(j < n && (unsigned char)s[j] == e, "escape", "character %u is not escaped", c); j++; if (z) { CHECK(j < n && s[j] == plain[z - mean], "escape", "character %u is called %c", c, s[j]); j++; } else { int v = 0; for (unsigned d = 0; d < 4; d++, j++) { CHECK(j < n && s[j] >= '0' && s[j] <= '7', "escape", "character %u is not escaped as a number", c); v = v * 8 + s[j] - '0'; } CHECK(v == c, "escape", "character %u is escaped as %d", c, v); } }
    }
    CHECK(j == n, "escape", "%u characters of the escaped text come from nowhere", (unsigned)(n - j));
    memcpy(m->s, s, n + 1); m->n = (unsigned)n; all("escape");
    r = gstr_unescape(&G[k], (int)e); CHECK(r == &G[k], "result", "unescaping returned another string"); *m = before;
    same(k, "escape and unescape");
}
static void unescape(int k, text *m)
{
    char e = "\\|%^~!"[ch(6)]; T.n = m->n = 0; unsigned pieces = ch(30); int open = 0;
    while (pieces--) {
        char b[12]; int v = 0; unsigned w = ch(9), z; b[0] = 0;
        switch (w) {
        case 0: case 1: v = ch(2) ? letter(ch(3)) : "0123456789abcdefABCDEF"[ch(22)]; if (v == e || !v) v = '.'; if (open && (open == 1 ? v >= '0' && v <= '7' : open == 2 ? isdigit(v & 255) : isxdigit(v & 255))) v = '-'; snprintf(b, sizeof b, "%c", v); break;
        case 2: snprintf(b, sizeof b, "%c%c", e, e); v = e; break;
        case 3: z = ch(7); snprintf(b, sizeof b, "%c%c", e, plain[z]); v = mean[z]; break;
        case 4: snprintf(b, sizeof b, "%c%c", e, "eE"[ch(2)]); v = 033; break;
        case 5: v = (int)(1 + ch(255)); snprintf(b, sizeof b, "%c0%0*o", e, (int)(1 + ch(3)), v); break;
        case 6: v = (int)(1 + ch(255)); snprintf(b, sizeof b, "%c%d", e, v); break;
        case 7: v = (int)(1 + ch(255)); snprintf(b, sizeof b, ch(2) ? "%cx%0*x" : "%cx%0*X", e, (int)(1 + ch(2)), v); break;
        default: { static const char oth[] = "?-_+cdghijklmopqsuwyzABCDFGZ"; v = oth[ch(sizeof oth - 1)]; snprintf(b, sizeof b, "%c%c", e, v); break; }
        }
        open = w == 5 && strlen(b) < 5 ? 1 : w == 6 && strlen(b) < 4 ? 2 : w == 7 && strlen(b) < 4 ? 3 : 0; for (char *p = b; *p; p++) T.s[T.n++] = *p; M[k].s[m->n++] = (char)v;
    }
    if (ch(6) == 5) { T.s[T.n++] = e; m->s[m->n++] = e; }
    T.s[T.n] = 0; gstr_truncate(&G[k], 0); if (gstr_append_str(&G[k], T.s) == (size_t)-1) violation("append", "appending failed without cause");
    CHECK(gstr_unescape(&G[k], e) == &G[k], "result", "unescaping returned another string"); same(k, "unescape");
}
/* expanding variables */
static int magic; static char keys[8][80], vals[8][400]; static unsigned nkeys, nlook;
static const char *find(void *ck, const char *key) { CHECK(ck == &magic, "callback", "the cookie is lost"); nlook++; for (unsigned i = 0; i < nkeys; i++) if (!strcmp(keys[i], key)) return vals[i]; return 0; }
static void expand(int k, text *m)
{
    nkeys = 1 + ch(6); int fail = 0; T.n = 0; X.n = 0; char b[100];
    for (unsigned i = 0; i < nkeys; i++) { unsigned L = 1 + (ch(4) ? ch(8) : ch(70)); for (unsigned j = 0; j < L; j++) { char c = letter(0); if (ch(8) == 0) c = (char)('0' + ch(10)); if (i & 1 && j && ch(6) == 0) c = " +/=,;\t"[ch(7)]; keys[i][j] = c; } keys[i][L] = 0; L = ch(4) ? ch(20) : ch(390); for (unsigned j = 0; j < L; j++) { char c = letter(1); vals[i][j] = c ? c : 'y'; } vals[i][L] = 0; }
    for (unsigned i = 0; i < nkeys; i++) for (unsigned j = 0; j < i; j++) if (!strcmp(keys[i], keys[j])) strcpy(vals[i], vals[j]);
    unsigned pieces = ch(20);
    for (unsigned p = 0; p < pieces && !fail; p++) {
        unsigned i = ch(nkeys), w = ch(pieces > 3 ? 40 : 12); 
        if (w == 6) { fail = -ENOENT; snprintf(b, sizeof b, ch(2) ? "$nosuchname " : "${no such name}"); }
        else if (w == 7) { fail = -EINVAL; static const char *bad[] = { "${", "${abc", "$ ", "${}", "$/", "$" }; snprintf(b, sizeof b, "%s", bad[ch(p + 1 == pieces ? 6 : 1)]); if (strcmp(b, "$ ") && strcmp(b, "${}") && strcmp(b, "$/")) { for (char *q = b; *q; q++) T.s[T.n++] = *q; break; } }
        else if (w == 8) { snprintf(b, sizeof b, "\\$"); X.s[X.n++] = '$'; }
        else if (w & 1) { int simple = !(i & 1); for (char *q = keys[i]; *q; q++) if (!isalnum((unsigned char)*q)) simple = 0; unsigned z = ch(3); if (simple && z) snprintf(b, sizeof b, "$%s%s", keys[i], z == 1 ? " " : "/"); else snprintf(b, sizeof b, "${%s}", keys[i]), z = 0; memcpy(X.s + X.n, vals[i], strlen(vals[i])); X.n += (unsigned)strlen(vals[i]); if (z) X.s[X.n++] = z == 1 ? ' ' : '/'; }
        else { unsigned L = ch(30), j = 0; for (; j < L; j++) { char c = letter(ch(8) ? 0 : 1); if (!c || c == '$' || (j + 1 == L && c == '\\')) c = '.'; b[j] = c; X.s[X.n++] = c; } b[j] = 0; }
        for (char *q = b; *q; q++) T.s[T.n++] = *q;
    }
    T.s[T.n] = 0; gstr_truncate(&G[k], 0); if (gstr_append_str(&G[k], T.s) == (size_t)-1) violation("append", "appending failed without cause"); *m = T; same(k, "append");
    on(); int rc = gstr_varexp(&G[k], find, &magic); int fired = off();
    if (rc == -ENOMEM) { refused("expanding", fired); m->n = 0; same(k, "a failed expansion"); return; }
    CHECK(rc == fail, rc ? "spurious-failure" : "error-hidden", "expanding <%.60s> gave %d instead of %d", T.s, rc, fail); if (fail) m->n = 0; else *m = X; same(k, "expansion");
}
/* lines */
static void lines(int k, text *m)
{
    static char data[MAXT / 2], fbuf[4096]; unsigned n = 0, nl = ch(12), p = 0; char tok[8]; unsigned nt = ch(4); const char *pool = ch(3) ? "\n\r;:" : "\n\377\200\1"; for (unsigned i = 0; i < nt; i++) tok[i] = pool[ch(4)]; tok[nt] = 0; if (!nt && ch(2)) strcpy(tok, "\n");
    size_t cap = gstr_cap(&G[k]);
    for (unsigned i = 0; i < nl; i++) { unsigned L = ch(4) == 0 ? (unsigned)(cap - 2 + ch(4)) : some(); if (n + L + 2 > sizeof data) break; unsigned kind = ch(2); for (unsigned j = 0; j < L; j++) { char c = letter(kind); if (!c || strchr(pool, c)) c = 'q'; data[n++] = c; } if (i + 1 < nl || ch(3)) { data[n++] = *tok ? tok[ch((unsigned)strlen(tok))] : pool[0]; } }
    os_put("/t", data, n, 0644); os_durable_point(); int fd = os_fd_open("/t", O_RDONLY); FILE *f = os_fdopen(fd, "r"); if (!f) harness_error("stream");
    switch (ch(3)) { case 0: setvbuf(f, 0, _IONBF, 0); break; case 1: setvbuf(f, fbuf, _IOFBF, 1 + ch(40)); break; default: setvbuf(f, fbuf, _IOFBF, 4096); break; }
    int io = (int)ch(4) == 0; os_cfg.shortio = (int)ch(2);
    for (unsigned it = 0; it < 40; it++) {
        uint64_t sr = os_fired("short_read"); os_cfg.io = io; on(); int rc = gstr_readline(&G[k], f, tok); int fired = off(); os_cfg.io = 0; int hard = fired && os_fired("") - f0 > os_fired("short_read") - sr;
        unsigned q = p; while (q < n && !strchr(tok, data[q])) q++; while (*tok == 0 && q < n) q = n;
        if (rc < 0) { refused("reading a line", hard); size_t l = gstr_len(&G[k]); CHECK(l <= q - p && strlen(gstr_str(&G[k])) == l && !memcmp(gstr_str(&G[k]), data + p, l), "content", "after a failure the string holds %u characters that are no part of the line", (unsigned)l); cutoff++; break; }
        CHECK(!ferror(f), "error-hidden", "a read error was taken for the end of the file");
        CHECK(rc == (int)(q - p), "line-length", "a line of %u came back with length %d", q - p, rc); m->n = q - p; memcpy(m->s, data + p, q - p); same(k, "reading a line"); nlines++;
        if (q == n) { CHECK(feof(f), "end-of-file", "the end of the file is not recognised"); if (p == n) break; p = q; } else { CHECK(!feof(f), "end-of-file", "end of the file too early"); p = q + 1; }
    }
    os_cfg.shortio = 0; sim_fclose(f); size_t l = gstr_len(&G[k]); m->n = (unsigned)l; memcpy(m->s, gstr_str(&G[k]), l);
}
static void step(void)
{
    int k = (int)ch(NG), o = (int)ch(NG); gstr *g = &G[k], *h = &G[o]; text *m = &M[k], *w = &M[o]; const char *nm = "?"; unsigned op = ch(20); int fired; if (m->n > MAXT / 6) op = 6;
    switch (op) {
    case 0: case 1: { nm = "append a string"; gen(&T, some()); on(); size_t r = gstr_append_str(g, T.s); fired = off(); if (r == (size_t)-1) { refused(nm, fired); break; } memcpy(m->s + m->n, T.s, T.n); m->n += T.n; CHECK(r == m->n, "result", "appending returned %u instead of %u", (unsigned)r, m->n); break; }
    case 2: case 3: { nm = "append a character"; unsigned n = 1 + ch(70), kind = ch(4); while (n--) { char c = letter(kind); if (!c) c = 'z'; on(); int r = gstr_append_ch(g, c); fired = off(); if (r < 0) { refused(nm, fired); break; } m->s[m->n++] = c; CHECK(r == (int)m->n, "result", "appending returned %d instead of %u", r, m->n); } break; }
    case 4: { nm = o == k ? "append to itself" : "append"; on(); int r = gstr_append(g, h); fired = off(); if (r < 0) { refused(nm, fired); break; } unsigned n = w->n; memcpy(m->s + m->n, w->s, n); m->n += n; CHECK(r == (int)m->n, "result", "appending returned %d instead of %u", r, m->n); break; }
    case 5: { nm = "copy"; on(); gstr *r = gstr_copy(g, h); fired = off(); if (!r) { refused(nm, fired); break; } CHECK(r == g, "result", "copying returned another string"); if (k != o) *m = *w; break; }
    case 6: { nm = "truncate"; unsigned n = ch(3) ? ch(m->n + 1) : m->n + ch(100); if (m->n > MAXT / 6) n = ch(200); int r = gstr_truncate(g, n); if (n < m->n) m->n = n; CHECK(r == (int)m->n, "result", "truncating to %u returned %d", n, r); break; }
    case 7: nm = "reset"; if (ch(4) == 0) { gstr_reset(g); m->n = 0; } break;
    case 8: { nm = "chop"; if (ch(3)) { static const char *e[] = { "\n", "\r\n", "\r", "\n\r", "\n\n" }; const char *s = e[ch(5)]; if (gstr_append_str(g, s) == (size_t)-1) violation("append", "appending failed without cause"); strcpy(m->s + m->n, s); m->n += (unsigned)strlen(s); } unsigned n = m->n; if (m->n && m->s[m->n - 1] == '\n') m->n--; if (m->n && m->s[m->n - 1] == '\r') m->n--; int r = gstr_chop(g); CHECK(n == m->n || r, "result", "chopping a line ending returned false"); break; }
    case 9: { nm = "chop if"; char set[8]; unsigned ns = ch(7); for (unsigned i = 0; i < ns; i++) { set[i] = m->n && ch(3) == 0 ? m->s[m->n - 1] : letter(ch(4)); if (!set[i]) set[i] = 'q'; } set[ns] = 0; int in = m->n && strchr(set, m->s[m->n - 1]); char c = m->n ? m->s[m->n - 1] : 0; int r = gstr_chop_if(g, set); if (in) { m->n--; CHECK((char)r == c, "result", "the chopped character is another"); } else if (!m->n) CHECK(!r, "result", "an empty string was chopped"); break; }
    case 10: { nm = "trim"; unsigned a = 0; while (a < m->n && isspace((unsigned char)m->s[a])) a++; unsigned b = m->n; while (b > a && isspace((unsigned char)m->s[b - 1])) b--; memmove(m->s, m->s + a, b - a); m->n = b - a; CHECK(gstr_trim(g) == g, "result", "trimming returned another string"); break; }
    case 11: { nm = "unquote"; if (ch(3)) { gen(&T, ch(3) ? ch(20) : 0); char q = "'\""[ch(2)], z = ch(5) ? q : "'\"x"[ch(3)]; if (T.n == 0 && ch(3) == 0) { T.s[0] = q; T.s[1] = 0; T.n = 1; } else { memmove(T.s + 1, T.s, T.n); T.s[0] = q; T.n++; T.s[T.n++] = z; T.s[T.n] = 0; } gstr_truncate(g, 0); if (gstr_append_str(g, T.s) == (size_t)-1) violation("append", "appending failed without cause"); *m = T; }
        int q = m->n ? m->s[0] : 0, want = q != '"' && q != '\'' ? 0 : m->n >= 2 && m->s[m->n - 1] == q ? q : -1; int r = gstr_unquote(g); CHECK(want < 0 ? r < 0 : r == want, "unquote", "unquoting returned %d instead of %d", r, want); if (want > 0) { memmove(m->s, m->s + 1, m->n - 2); m->n -= 2; } break; }
    case 12: case 13: nm = "escape"; escape(k, m); break;
    case 14: nm = "unescape"; unescape(k, m); break;
    case 15: case 16: nm = "expand"; expand(k, m); break;
    case 17: case 18: nm = "read lines"; lines(k, m); break;
    case 19: { nm = "new"; unsigned how = ch(4); if (how == 3) { if (o == k) break; } if (ch(2)) gstr_fini(g); else { char *s = gstr_finalize(g); CHECK(s && !memcmp(s, m->s, m->n) && !s[m->n], "content", "the string handed over differs"); os_free(s); } 
        gstr *r = 0; unsigned sz = ch(3) ? ch(200) : 0; gen(&T, some()); for (unsigned t = 0; t < 3 && !r; t++) { if (t == 2) wantfail = 0; memset(g, 0xa5, sizeof *g); on(); r = how == 0 ? gstr_init(g, sz) : how == 1 ? gstr_init_from(g, T.s) : how == 2 ? gstr_init_from(g, 0) : gstr_dup(g, h); fired = off(); if (!r) { refused("making a string", fired); if (ch(2)) gstr_fini(g); } }
        CHECK(r == g, "result", "making a string returned another"); if (how == 0 || how == 2) m->n = 0; else if (how == 1) *m = T; else *m = *w; if (how == 0) CHECK(gstr_cap(g) > sz, "capacity", "capacity %u, %u asked for", (unsigned)gstr_cap(g), sz); break; }
    }
    nops++; all(nm); ev("%s %d %d: %u %u %u", nm, k, o, M[0].n, M[1].n, M[2].n); 
}
/* texts longer than a 16-bit number counts */
static void vast(void)
{
    enum { N = 400000 }; static char a[2 * N + 9], t[N + 9], data[N + 9]; unsigned n = 0, p = 0, dn = 0, top = 0; gstr *g = &G[0], *h = &G[1]; const char *nm = "?"; if (ch(2)) gstr_init(g, ch(N)); else gstr_init(g, 0); gstr_init(h, 10);
    for (unsigned i = 2 + ch(6); i--; ) { unsigned L = ch(2) ? ch(1000) : 60000 + ch(100000); if (dn + L + 1 >= N) break; while (L--) data[dn++] = (char)('A' + prng_next(&rn) % 26); data[dn++] = '\n'; }
    os_put("/t", data, dn, 0644); os_durable_point(); int fd = os_fd_open("/t", O_RDONLY); FILE *f = os_fdopen(fd, "r"); if (!f) harness_error("stream");
    for (unsigned st = 6 + ch(16), i = 0; i < st; i++) {
        unsigned L = ch(2) ? ch(3000) : 60000 + ch(80000), op = i ? ch(11) : 0; if (n + L > N) { L = ch(100); if (op == 2) op = 3; }
        switch (op) {
        case 0: { nm = "append a string"; for (unsigned j = 0; j < L; j++) t[j] = (char)('a' + prng_next(&rn) % 26); t[L] = 0; if (n + L > N) break; size_t x = gstr_append_str(g, t); memcpy(a + n, t, L); n += L; CHECK(x == n, "result", "appending returned %zu instead of %u", x, n); break; }
        case 1: nm = "append a character"; for (unsigned j = 0; j < L && n < N; j++) { char c = (char)('a' + j % 26); a[n++] = c; int x = gstr_append_ch(g, c); CHECK(x == (int)n, "result", "appending returned %d instead of %u", x, n); } break;
        case 2: if (2 * n > N) break; nm = "append to itself"; { int x = gstr_append(g, g); memcpy(a + n, a, n); n *= 2; CHECK(x == (int)n, "result", "appending returned %d instead of %u", x, n); } break;
        case 3: nm = "truncate"; if (n > L / 2) n -= L / 2; CHECK(gstr_truncate(g, n) == (int)n, "result", "truncating to %u", n); break;
        case 4: nm = "copy"; CHECK(gstr_copy(h, g) == h && gstr_len(h) == n && !memcmp(gstr_str(h), a, n + 1), "content", "the copy of %u characters differs", n); CHECK(gstr_eq(g, h), "compare", "a string differs from its copy"); if (n) { gstr_truncate(h, n - 1); CHECK(!gstr_eq(g, h), "compare", "a string equals its beginning"); } break;
        case 5: { nm = "hand over"; char *s = gstr_finalize(g); CHECK(s && !memcmp(s, a, n) && !s[n], "content", "the string handed over differs"); CHECK(gstr_init_from(g, s) == g, "result", "no string"); os_free(s); break; }
        case 6: { nm = "trim"; unsigned b = ch(2) ? ch(70000) : ch(10), e = ch(2) ? ch(70000) : ch(10); if (n + b + e > N) break; memset(t, ' ', b); memcpy(t + b, a, n); memset(t + b + n, '\t', e); t[b + n + e] = 0; gstr_truncate(g, 0); if (gstr_append_str(g, t) == (size_t)-1) violation("append", "appending failed without cause"); CHECK(gstr_trim(g) == g, "result", "trimming returned another string"); break; }
        case 7: { nm = "escape"; if (5 * n > N) break; CHECK(gstr_escape(g, "abcxyz", '\\') == g, "result", "escaping returned another string"); unsigned k = 0; for (unsigned j = 0; j < n; j++) k += strchr("abcxyz", a[j]) ? 5 : 1; CHECK(gstr_len(g) == k, "length", "%u characters escaped are %u, %u expected", n, (unsigned)gstr_len(g), k); CHECK(gstr_unescape(g, '\\') == g, "result", "unescaping returned another string"); nm = "escape and unescape"; break; }
        case 8: nm = "unquote"; if (n + 2 > N) break; t[0] = '"'; memcpy(t + 1, a, n); t[n + 1] = '"'; t[n + 2] = 0; gstr_truncate(g, 0); if (gstr_append_str(g, t) == (size_t)-1) violation("append", "appending failed without cause"); CHECK(gstr_unquote(g) == '"', "unquote", "unquoting %u characters", n); break;
        default: nm = "read a line"; { int x = gstr_readline(g, f, "\n"); unsigned q = p; while (q < dn && data[q] != '\n') q++; CHECK(x == (int)(q - p), "line-length", "a line of %u came back with length %d", q - p, x); n = q - p; memcpy(a, data + p, n); p = q < dn ? q + 1 : q; nlines++; break; }
        }
        a[n] = 0; nops++; ev("%s: %u", nm, n); evq(op, n, 0); if (n > top) top = n; CHECK(gstr_len(g) == n && gstr_cap(g) > n, "length", "%zu characters (capacity %zu) after %s, %u expected", (size_t)gstr_len(g), (size_t)gstr_cap(g), nm, n); CHECK(!memcmp(gstr_str(g), a, n + 1), "content", "the text of %u characters differs after %s", n, nm); CHECK(gstr_eq_str(g, a), "compare", "the text does not compare equal to itself");
    }
    sim_fclose(f); gstr_fini(g); gstr_fini(h); longest = top; CHECK(os_heap_live() == 0, "leak", "%u blocks left", (unsigned)os_heap_live()); tally("vast", 1); tally("operations", nops); run_nontrivial(); cover(mix64(top, nops)); sample("%u operations on a string of up to %u characters", nops, top);
}
static void run(void)
{
    if (ch(800) == 799) { os_reset(); nops = nfail = longest = nlines = cutoff = nlook = 0; rn.s = ch_seed(); wantfail = 0; vast(); return; }
    os_reset(); nops = nfail = longest = nlines = cutoff = nlook = 0; rn.s = ch_seed(); wantfail = 0; int wf = (int)ch(2);
    for (int k = 0; k < NG; k++) { M[k].n = 0; unsigned sz = ch(3) ? ch(100) : ch(4); CHECK(gstr_init(&G[k], sz) == &G[k], "result", "no string"); CHECK(gstr_cap(&G[k]) > sz, "capacity", "capacity %u, %u asked for", (unsigned)gstr_cap(&G[k]), sz); } all("start");
    if (ch(60) == 59) { gstr x; memset(&x, 0xa5, sizeof x); size_t z = (SIZE_MAX - ch(3)) >> ch(8); CHECK(!gstr_init(&x, z), "impossible", "a string with room for %zu characters is made", z); if (ch(2)) gstr_fini(&x); }      /* no memory holds it */
    unsigned n = 1 + ch(50); for (unsigned i = 0; i < n; i++) { wantfail = wf; step(); }
    for (int k = 0; k < NG; k++) gstr_fini(&G[k]); CHECK(os_heap_live() == 0, "leak", "%u blocks left", (unsigned)os_heap_live());
    tally("operations", nops); tally("lines", nlines); tally("refused", nfail); tally("lookups", nlook); run_nontrivial(); cover(mix64(mix64(nops, longest), mix64(nfail, nlines * 64 + cutoff))); sample("%u operations on 3 strings, up to %u characters, %u lines read, %u lookups, %u refused", nops, longest, nlines, nlook, nfail);
}
const dst_harness harness = { .property = "M10", .name = "gstring", .run = run,
  .rule = "one run = up to 50 operations (appending, copying, trimming, quoting, escaping, expanding variables, reading lines from a simulated stream) on three strings, each compared with a plain text (one run in 800 with texts of up to 400000 characters), with failing allocations, read errors and short reads; every run is non-trivial; distinct by the hash of the whole event log" };
