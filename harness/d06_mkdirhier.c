/* D06: recursive directory creation */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <limits.h>
#include "utils/mkdirhier.h"
int sim_chdir(const char *);
#define MAXN 400
typedef struct { uint64_t ino; int type, mode; int mine; } node;
static node nd[MAXN]; static unsigned nn; static char path[3 * PATH_MAX], full[4 * PATH_MAX]; static unsigned end[600], nend; static int actor, actorfile, acted; static size_t plen;
static node *known(uint64_t ino) { for (unsigned i = 0; i < nn; i++) if (nd[i].ino == ino) return &nd[i]; return 0; }
static void add1(void *c, const char *p, int type) { (void)type; struct stat s; os_lstat(p, &s); if (known(s.st_ino)) return; if (nn == MAXN) violation("outside", "more than %u new directories", MAXN); nd[nn++] = (node){ s.st_ino, (int)(s.st_mode & S_IFMT), (int)(s.st_mode & 07777), c != 0 }; }
static unsigned seen;
static int want;
static const char *prefix(unsigned k, int resolve) { static char b[4 * PATH_MAX]; size_t n = (size_t)(full[0] ? 0 : 0) + end[k]; memcpy(b, full, n); strcpy(b + n, resolve ? "/." : ""); return b; }
/* 0 missing, 1 directory, 2 something else (or nothing that can be reached) */
static int at(unsigned k)
{
    if (end[k] >= PATH_MAX - 3) { return 2; }
    if (os_type(prefix(k, 1)) == OS_DIR) return 1;
    return os_type(prefix(k, 0)) == OS_NONE ? 0 : 2;
}
static void check1(void *c, const char *p, int type)
{
    struct stat s; (void)c; (void)type; os_lstat(p, &s); node *n = known(s.st_ino); 
    if (n) { seen++; CHECK(n->type == (int)(s.st_mode & S_IFMT) && n->mode == (int)(s.st_mode & 07777), "changed", "%.60s was changed", p); return; }
    CHECK(S_ISDIR(s.st_mode), "created", "%.60s was created and is no directory", p);
    int ok = 0; for (unsigned k = 0; k < nend; k++) if (end[k] < PATH_MAX - 3 && os_ino(prefix(k, 1)) == s.st_ino) ok = 1;
    CHECK(ok, "outside", "%.60s was created, which is no part of %.60s", p, path);
    CHECK((int)(s.st_mode & 07777) == want, "mode", "%.60s was created with mode %o, not %o", p, (unsigned)s.st_mode & 07777, (unsigned)want);
}
static void hook(const char *call)
{
    (void)call; if (!actor || ch(4)) return;
    unsigned k = ch(nend), type = actorfile && ch(4) == 3; if (k && at(k - 1) != 1) { unsigned j = 0; while (j < nend && at(j) == 1) j++; if (j == nend) return; k = j; }
    if (k >= nend || at(k) != 0 || (k && at(k - 1) != 1)) return;
    const char *q = prefix(k, 0); if (strrchr(q, '/') && strlen(strrchr(q, '/') + 1) > 255) return;
    if (type) os_put(q, "x", 1, 0600); else os_mkdir(q, 0700);
    struct stat s; if (os_lstat(q, &s)) return; add1(&nn, q, 0); acted++; ev("someone makes %s %.80s", type ? "file" : "directory", q);
}
static void run(void)
{
    os_reset(); os_low_fds(); nn = 0; acted = 0; actor = ch(2); actorfile = ch(3) == 2; os_cfg.root = ch(3) != 2; int io = ch(3) == 2;
    static const char *cwds[] = { "/", "/w", "/w/a" }; const char *cwd = cwds[ch(3)];
    os_mkdir("/w/a", 0755); os_mkdir("/w/b/c", 0755); os_mkdir("/x", 0755); os_put("/w/f", "f", 1, 0644); os_put("/w/a/f", "f", 1, 0644);
    os_symlink("/x", "/w/l"); os_symlink("gone", "/w/d"); os_symlink("b/c", "/w/r"); os_symlink("o", "/w/o"); os_symlink("/w", "/x/up"); if (!os_cfg.root && ch(2)) os_chmod("/w/b", 0500);
    if (sim_chdir(cwd)) harness_error("cwd");
    static const char *cs[] = { "a", "b", "c", "w", "new", "x", ".", "..", "l", "r", "f", "d", "o", "up", "n2", "..." };
    char *p = path; *p = 0; unsigned nc = 1 + ch(6), lng = ch(40); int abs_ = ch(2);
    if (abs_) *p++ = '/', *p = 0; while (abs_ && ch(6) == 5) *p++ = '/', *p = 0;
    if (lng == 39) nc = 20 + ch(6);
    for (unsigned i = 0; i < nc; i++) {
        if (lng == 39 || (lng == 38 && ch(3) == 2)) { unsigned n = lng == 39 ? 190 : 253 + ch(5); memset(p, 'k' + (int)(i % 5), n); p += n; if (lng == 39 && i == nc - 1 && p - path < PATH_MAX + 3) while (p - path < PATH_MAX - 4 + (int)ch(6)) *p++ = 'z'; }
        else p += sprintf(p, "%s", cs[ch(16)]);
        if (i + 1 < nc || ch(4) == 3) { *p++ = '/'; while (ch(5) == 4) *p++ = '/'; }
        *p = 0;
    }
    if (ch(60) == 59) { p = path; *p = 0; }
    plen = strlen(path);
    strcpy(full, abs_ ? "" : cwd); if (!abs_) strcat(full, "/"); size_t off = strlen(full); strcat(full, path);
    nend = 0; for (size_t i = off; full[i]; ) { while (full[i] == '/') i++; if (!full[i]) break; while (full[i] && full[i] != '/') i++; if (nend < 600) end[nend++] = (unsigned)i; }
    static const int ms[] = { 0755, 0700, 0777, 0711, 0750, 0, 0555, 02775 }; int mode = ms[ch(8)]; want = mode & ~os_umask_now();
    os_walk("/", add1, 0); unsigned had = nn; size_t heap = os_heap_live(); unsigned fds = os_open_fds();
    ev("mkdirhier %.200s mode %o in %s root %d", path, (unsigned)mode, cwd, os_cfg.root);
    os_cfg.io = io; os_hook = nend ? hook : 0;
    int rc = mkdirhier(path, (mode_t)mode);
    os_cfg.io = 0; os_hook = 0; ev("-> %d", rc);
    CHECK(rc <= 0 && rc > -200, "result", "the result is %d", rc);
    seen = 0; os_walk("/", check1, 0); CHECK(seen == nn, "removed", "something is no longer there"); (void)had;
    CHECK(os_heap_live() == heap && os_open_fds() == fds, "leak", "%ld blocks, %u descriptors left", (long)os_heap_live() - (long)heap, os_open_fds());
    int isdir = plen == 0 ? 0 : plen >= PATH_MAX ? 0 : nend ? (strlen(full) < PATH_MAX - 3 ? at(nend - 1) == 1 : -1) : 1;
    if (rc == 0) CHECK(isdir, "false-success", "success, but %.100s is no directory", path);
    else if (!os_fired("")) {
        CHECK(isdir != 1 || (!os_cfg.root && rc == -EACCES), "false-failure", "fails with %d although %.100s is a directory", rc, path);
        int why = plen == 0 || plen >= PATH_MAX || isdir < 0; int allmine = 1;
        for (unsigned k = 0; k < nend && !why; k++) { int t = at(k); if (t == 2) why = 1; if (t == 0) { unsigned b = k ? end[k - 1] : (unsigned)off; const char *c = full + b; while (*c == '/') c++; if (full + end[k] - c > 255) why = 1; break; } }
        (void)allmine; if (!os_cfg.root && rc == -EACCES) why = 1;
        CHECK(why, "spurious-failure", "fails with %d, yet nothing is in the way of %.100s", rc, path);
    }
    if (rc == 0 && (os_cfg.root || mode == 0755)) { uint64_t h = os_tree_hash("/"); int r2 = mkdirhier(path, 0777); CHECK(r2 == 0 && os_tree_hash("/") == h, "not-idempotent", "the second call returns %d%s", r2, os_tree_hash("/") == h ? "" : " and changes something"); }
    tally(rc ? "refused" : "made", 1); tally("meanwhile", (unsigned)acted); run_nontrivial();
    cover(mix64(mix64((unsigned)rc, nend * 16 + (unsigned)acted), os_tree_hash("/"))); sample("%.80s in %s -> %d, %d made by others, %u faults", path, cwd, rc, acted, os_fired(""));
}
const dst_harness harness = { .property = "D06", .name = "mkdirhier", .run = run,
  .rule = "one run = one path (1..26 components, any slashes, dots, links, files, overlong names) created in one tree from one working directory, with another process creating components at any system call and failing system calls, then created again; every run is non-trivial; distinct by the hash of the whole event log" };
