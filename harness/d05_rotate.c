/* D05: log rotation */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <limits.h>
#include "utils/rotatefile.h"
#define MAXG 130
typedef struct { uint64_t f, g[MAXG]; } set;      /* contents by name; 0: no such file, ~0: a directory */
static char path[PATH_MAX + 64], dir[PATH_MAX], *base; static uint64_t tok; static int N; static uint64_t others; static unsigned nother;
static const char *gname(int i) { static char b[PATH_MAX + 64]; snprintf(b, sizeof b, "%s.%d", path, i); return b; }
static uint64_t put(const char *name, size_t size)
{
    static uint8_t b[(2 << 20) + 16]; tok++; memset(b, 0, 16); memcpy(b, &tok, 8); if (os_put(name, b, size, 0600) < 0) harness_error("put"); return size < 8 ? 0 : tok;
}
static void huge(const char *name, size_t size) { tok++; if (os_type(name) != OS_NONE) os_rm(name); uint8_t *p = os_sparse(name, size); if (!p) harness_error("sparse"); memcpy(p, &tok, 8); }
static uint64_t val(const char *name)
{
    if (strlen(name) >= PATH_MAX) return 0;
    int t = os_type(name); if (t == OS_NONE) return 0; if (t == OS_DIR) return ~0ull;
    size_t n; const void *p = os_content(name, &n); if (!p || n < 8) return 1; uint64_t v; memcpy(&v, p, 8); return v;
}
/* reads the state; anything that is not the file or a generation must be as it was */
static void look(set *s)
{
    static char nm[400][256]; unsigned n = os_list(dir, nm, 400); uint64_t h = 0; unsigned k = 0; char full[PATH_MAX + 300];
    memset(s, 0, sizeof *s);
    for (unsigned i = 0; i < n; i++) {
        snprintf(full, sizeof full, "%s/%s", dir, nm[i]); size_t bl = strlen(base);
        if (!strcmp(nm[i], base)) { s->f = val(full); continue; }
        if (!strncmp(nm[i], base, bl) && nm[i][bl] == '.') {
            char *e, *q = nm[i] + bl + 1; long g = strtol(q, &e, 10);
            if (*q >= '0' && *q <= '9' && !*e && g < MAXG && (*q != '0' || !q[1])) { s->g[g] = val(full); continue; }
        }
        h += mix64(val(full), mix64(strlen(nm[i]), (uint64_t)nm[i][0] | (uint64_t)nm[i][strlen(nm[i]) - 1] << 8)); k++;
    }
    if (!others && !nother) { others = h; nother = k; return; }
    CHECK(h == others && k == nother, "unrelated", "files that are no generations of %.40s changed (%u now, %u before)", base, k, nother);
}
static unsigned kept(const set *s, uint64_t *v) { unsigned n = 0; if (s->f) v[n++] = s->f; for (int i = 0; i < N; i++) if (s->g[i]) v[n++] = s->g[i]; return n; }
static void survive(const set *a, const set *b, const char *how)
{
    uint64_t x[MAXG + 1], y[MAXG + 1]; unsigned n = kept(a, x), m = kept(b, y), full = 1;
    for (int i = 0; i < N; i++) if (!a->g[i]) full = 0;
    unsigned need = full && a->f ? n - 1 : n;
    CHECK(m >= need && m <= n, "lost", "%s: %u of %u kept files remain", how, m, n);
    for (unsigned i = 0; i < m; i++) CHECK(x[i] == y[i], "order", "%s: place %u of the kept files has changed", how, i);
    for (int i = N; i < MAXG; i++) CHECK(!b->g[i] || b->g[i] == a->g[i], "window", "%s: a file moved to generation %d of %d", how, i, N);
}
static void run(void)
{
    os_reset(); os_low_fds(); static set a, b; static unsigned rounds, r, nrot, nfail, ncrash, ndrop, nhuge; static int mode, lng, dirs, top; static size_t heap;
    nhuge = nrot = nfail = ncrash = ndrop = 0; tok = 1000; others = 0; nother = 0;
    N = ch(12) ? 1 + (int)ch(6) : 1 + (int)ch(20); mode = (int)ch(4); lng = ch(12) == 11; rounds = 1 + ch(6); dirs = ch(10) == 9;
    if (lng) {      /* a path so long that the names of generations may not fit */
        char *p = dir; while (p - dir < 3900) { p += sprintf(p, "/"); memset(p, 'a' + (p - dir) % 26, 199); p += 199; }
        *p = 0; os_mkdir(dir, 0700); size_t want = PATH_MAX - 1 - ch(6);
        base = path + sprintf(path, "%s/", dir); while (strlen(path) < want) strcat(path, "n");
    } else { strcpy(dir, ch(2) ? "/var/log" : "/var"); os_mkdir(dir, 0700); base = path + sprintf(path, "%s/", dir); strcpy(base, ch(3) ? "f" : ch(2) ? "f.1" : "a long.name"); }
    char other[PATH_MAX + 300]; static const char *sfx[] = { ".", ".x", ".01", ".-1", "1", ".1.gz", ".1 ", ".0x1" };
    for (unsigned i = 0; i < 8; i++) if (ch(2)) { snprintf(other, sizeof other, "%s%s", path, sfx[i]); if (strlen(other) < PATH_MAX) put(other, 8); }
    snprintf(other, sizeof other, "%s/.keep", dir); put(other, 8);
    if (!lng && ch(2)) { snprintf(other, sizeof other, "%s/g.0", dir); put(other, 9); }
    top = lng ? 12 : ch(8) ? N + (int)ch(4) : N + 99; unsigned dens = ch(5);
    for (int i = 0; i < top; i++) { const char *g = gname(i); if (strlen(g) < PATH_MAX && (dens == 0 ? i < N : dens == 1 ? 0 : ch(dens) != 0)) { if (dirs && ch(8) == 7) os_mkdir(g, 0700); else put(g, 8 + ch(100)); } }
    if (dirs && ch(4) == 3) os_mkdir(path, 0700);
    look(&a); os_durable_point(); heap = os_heap_live();
    ev("keep %d rounds %u mode %d path %u dirs %d", N, rounds, mode, (unsigned)strlen(path), dirs);
    for (r = 0; r < rounds; r++) {
        static int bysize; static uint64_t lim; static size_t sz;
        bysize = ch(8) == 7; lim = 0; sz = 8 + ch(200);
        if (bysize) { static const uint64_t L[] = { 0, 1, 2, 0x100000000ull, 1ull << 44, ~0ull, (1ull << 44) + 1 }; lim = L[ch(7)]; if (ch(4) == 3) { static const size_t S[] = { 1 << 20, (1 << 20) + 1, (1 << 20) - 1, 2 << 20, (2 << 20) + 1 }; sz = S[ch(5)]; } }
        if (os_type(path) != OS_DIR && ch(6)) { if (bysize && !(mode & 2) && ch(3) == 2) { nhuge++; static const uint64_t Z[] = { 1ull << 31, 1ull << 32, (1ull << 32) + (1 << 20), 5ull << 30, 3ull << 31, 1ull << 36, (1ull << 36) + (1 << 20), 1ull << 42 }; sz = Z[ch(8)] + ch(3) - 1; huge(path, sz); lim = (sz >> 20) + ch(4) - 2; if (ch(3) == 0) lim = ch(3); } else put(path, sz); }
        look(&a); if (!(mode & 2 ? 0 : nhuge)) os_durable_point();
        static int should; size_t fsz = 0; if (os_type(path) == OS_REG) os_content(path, &fsz); should = a.f && (!bysize || (fsz >> 20) > lim || ((fsz >> 20) == lim && (fsz & 0xfffff)));
        static unsigned f0, fr, fu; f0 = os_fired(""); fr = os_fired("rename") + os_fired("stat"); fu = os_fired("unlink");
        os_cfg.io = mode & 1; os_cfg.crash = mode & 2;
        if (setjmp(os_crash_jmp)) {
            os_cfg.io = os_cfg.crash = 0; ncrash++; os_crash_apply();
            look(&b); survive(&a, &b, "after a stop"); ev("stopped"); continue;
        }
        int rc = bysize ? rotate_filename_by_size(path, N, lim, 0) : rotate_filename(path, N, 0);
        os_cfg.io = os_cfg.crash = 0;
        ev("rotate -> %d", rc); look(&b);
        CHECK(rc <= 0, "result", "rotation returned %d", rc);
        CHECK(os_open_fds() == 0 && os_heap_live() == heap, "leak", "rotation leaves %u descriptors and %ld blocks", os_open_fds(), (long)os_heap_live() - (long)heap);
        if (rc < 0) {
            nfail++;
            int dirty = 0; if (a.f == ~0ull) dirty = 1; for (int i = 0; i < MAXG; i++) if (a.g[i] == ~0ull) dirty = 1;
            CHECK(os_fired("") != f0 || dirty || lng, "spurious-failure", "rotation fails with %d without cause", rc);
            survive(&a, &b, "after a failed rotation"); continue;
        }
        CHECK(os_fired("rename") + os_fired("stat") == fr, "unreported", "a step failed but the rotation reports success");
        CHECK(os_fired("unlink") == fu, "unreported", "an old copy could not be removed but the rotation reports success");
        if (!should) { CHECK(!memcmp(&a, &b, sizeof a), "moved", "%s, yet generations changed", a.f ? "the file is not over the limit" : "there is no file to rotate"); continue; }
        nrot++; static set w; memset(&w, 0, sizeof w); int g = 0; while (g < N - 1 && a.g[g]) g++;
        if (a.g[g]) ndrop++;
        for (int i = 0; i < N; i++) w.g[i] = i > g ? a.g[i] : i ? a.g[i - 1] : a.f;
        for (int i = 0; i < N; i++) CHECK(b.g[i] == w.g[i], b.g[i] ? "misplaced" : "lost", "after rotation generation %d of %d is not what it should be (first free was %d)", i, N, g);
        CHECK(!b.f, "not-rotated", "the file is still there");
        for (int i = N; i < N + 100 && i < MAXG; i++) CHECK(!b.g[i], "not-removed", "generation %d is still there, %d are kept", i, N);
    }
    tally("rotations", nrot); tally("failed", nfail); tally("stops", ncrash); tally("dropped", ndrop); tally("over_2g", nhuge);
    if (nrot + nfail + ncrash) run_nontrivial();
    cover(mix64(mix64((unsigned)N * 8 + dens, rounds * 4 + (unsigned)mode), mix64(nrot * 16 + nfail, ncrash * 64 + ndrop)) ^ mix64(os_tree_hash(dir), os_steps));
    sample("%u rotations keeping %d, %u failed, %u stopped midway, %u oldest dropped", nrot, N, nfail, ncrash, ndrop);
}
const dst_harness harness = { .property = "D05", .name = "rotate", .run = run,
  .rule = "one run = 1..6 rotations (unconditional or by size) of one path with 1..20 kept generations over any initial set of generations, unrelated neighbours and directories in the way (files by size: also of 2 GB to 4 TB), with failing system calls and machine stops at any of them; a run is non-trivial when some rotation happened, failed or stopped; distinct by the hash of the whole event log" };
