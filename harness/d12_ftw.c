/* D12: calling a function for every entry of a file tree */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <ftw.h>
#define MAXE 400
typedef struct { char path[500]; int type, mode, parent; unsigned seen, flag; } ent;
static ent E[MAXE]; static unsigned ne, calls, stopat, f0; static int stopval, stopped, stoperr, isrootlink; static unsigned gone, dnr, ns; static char rootarg[500]; static const char *realroot;
static void add(void *c, const char *p, int type) { (void)c; struct stat s; if (ne >= MAXE) discard(); ent *e = &E[ne]; snprintf(e->path, sizeof e->path, "%s", p); e->type = type; os_lstat(p, &s); e->mode = (int)(s.st_mode & 07777); e->seen = 0; e->flag = 99; e->parent = -1; for (unsigned i = 0; i < ne; i++) { size_t l = strlen(E[i].path); if (!strncmp(E[i].path, p, l) && p[l] == '/' && !strchr(p + l + 1, '/')) e->parent = (int)i; } ne++; }
static int find(const char *p)
{
    char q[600]; size_t l = strlen(rootarg); if (strncmp(p, rootarg, l)) return -1; const char *s = p + l; while (*s == '/') s++; snprintf(q, sizeof q, "%s%s%s", realroot, *s ? "/" : "", s);
    for (unsigned i = 0; i < ne; i++) if (!strcmp(E[i].path, q)) return (int)i; return -1;
}
static int visible(const ent *e) { return os_cfg.root || e->parent < 0 || (E[e->parent].mode & 0100); }
static int visit(const char *p, const struct stat *st, int flag)
{
    calls++; CHECK(!stopped, "called-again", "the function is called after it asked to stop"); ev("%s %d", p, flag);
    int k = find(p), faulted = os_fired("") > f0; char why[600]; snprintf(why, sizeof why, "%.400s", p);
    if (!ne) { CHECK(flag == FTW_NS && !strcmp(p, rootarg), "phantom", "%s is reported as %d, nothing is there", p, flag); ns++; goto out; }
    CHECK(k >= 0, "phantom", "%s is reported, no such entry exists", why); ent *e = &E[k];
    if (flag == FTW_DNR) { CHECK(e->type == OS_DIR && e->seen == 1 && e->flag == FTW_D, "repeated", "%s is reported as unreadable out of turn", why); CHECK(faulted || (!os_cfg.root && !(e->mode & 0400)), "wrong-flag", "%s is reported as unreadable", why); e->flag = FTW_DNR; dnr++; for (unsigned i = 0; i < ne; i++) CHECK(E[i].parent != k || !E[i].seen, "order", "%s is reported as unreadable after its contents", why); goto out; }
    CHECK(!e->seen, "repeated", "%s is reported twice", why); e->seen = 1; e->flag = (unsigned)flag;
    if (e->parent >= 0) { CHECK(E[e->parent].seen && E[e->parent].flag == FTW_D, "order", "%s is reported before the directory it is in", why);
        /* nothing else may have come between a directory and the end of its contents */
        for (unsigned i = 0; i < ne; i++) if (E[i].seen == 2 && (int)i == e->parent) violation("order", "%s is reported after its directory was left", why); }
    if (flag == FTW_NS) { CHECK(faulted || !visible(e), "wrong-flag", "%s is reported as not to be examined", why); ns++; goto out; }
    if (!(flag == FTW_F && e->parent < 0 && isrootlink)) { int want = e->type == OS_DIR ? FTW_D : e->type == OS_LNK ? FTW_SL : FTW_F; CHECK(flag == want, "wrong-flag", "%s is reported as %d instead of %d", why, flag, want); }
    struct stat s; memset(&s, 0, sizeof s); os_lstat(e->path, &s); CHECK(st && st->st_ino == s.st_ino && st->st_mode == s.st_mode && st->st_size == s.st_size, "wrong-stat", "the metadata given for %s is not its own", why);
    struct stat a; memset(&a, 0, sizeof a); if (os_at_cwd(p, e->parent < 0, &a) == 0) CHECK(a.st_ino == s.st_ino, "wrong-path", "the path %s leads elsewhere", why);
    if (e->type == OS_REG && gone && ch(4) == 0) { os_rm(e->path); ev("removed"); }
out:
    /* a directory is left for good once something outside it is reported */
    if (k >= 0) for (unsigned i = 0; i < ne; i++) if (E[i].seen == 1 && E[i].type == OS_DIR) { size_t l = strlen(E[i].path); if (strncmp(E[i].path, E[k].path, l) || (E[k].path[l] && E[k].path[l] != '/')) E[i].seen = 2; }
    if (calls == stopat) { stopped = 1; errno = stoperr = 77 + (int)ch(3); return stopval; }
    if (ch(3) == 0) errno = 55;
    return 0;
}
static void grow(const char *dir, int depth, unsigned *left)
{
    unsigned n = ch(depth > 4 ? 3 : 7); char p[480];
    for (unsigned i = 0; i < n && *left; i++) {
        unsigned t = ch(10); int l = snprintf(p, sizeof p, "%s/%c%u%.*s", dir, "ab.-"[ch(4)], i, ch(40) == 39 ? 150 : 0, "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); if (l > 400) continue; --*left;
        if (t < 4 && depth < 9) { os_mkdir(p, 0755); grow(p, depth + 1, left); if (!os_cfg.root && ch(5) == 4) os_chmod(p, (int)ch(8) << 6); }
        else if (t == 4) os_symlink(ch(3) == 0 ? "." : ch(2) ? "/nowhere" : "/o", p); else if (t == 5) os_mknod(p, OS_FIFO, 0); else { char d[40]; unsigned z = ch(40); memset(d, 'd', z); os_put(p, d, z, 0644); }
    }
}
static void run(void)
{
    os_reset(); os_low_fds(); ne = calls = stopped = dnr = ns = 0; isrootlink = 0; os_cfg.root = ch(4) != 3; int io = ch(3) == 2, al = ch(4) == 3; unsigned left = ch(12) == 11 ? 250 : ch(50); gone = ch(4) == 3;
    os_mkdir("/w/t", 0755); os_mkdir("/o", 0755); os_put("/o/secret", "s", 1, 0644); os_symlink("t", "/w/l"); os_symlink("absent", "/w/dead"); os_put("/w/f", "f", 1, 0644); grow("/w/t", 0, &left);
    unsigned how = ch(12); realroot = how == 9 ? "/w/f" : how == 10 ? "/none" : how == 11 ? "/none" : "/w/t"; if (how == 8) isrootlink = 1;
    static const char *const arg[] = { "/w/t", "t", "/w/t", "./t", "/w/t", "../w/t", "t", "/w/t", "/w/l", "/w/f", "dead", "nothing" };
    snprintf(rootarg, sizeof rootarg, "%s", arg[how]); { int sim_chdir(const char *); os_cfg.io = 0; int rt = os_cfg.root; os_cfg.root = 1; sim_chdir("/w"); os_cfg.root = rt; }
    if (how < 10) os_walk(realroot, add, 0); int top = 0; for (unsigned i = 0; i < ne; i++) top |= !strcmp(E[i].path, realroot);
    if (how < 10 && !top) { add(0, realroot, os_type(realroot)); for (unsigned i = 0; i + 1 < ne; i++) if (E[i].parent < 0) { size_t l = strlen(realroot); if (!strncmp(E[i].path, realroot, l) && E[i].path[l] == '/' && !strchr(E[i].path + l + 1, '/')) E[i].parent = (int)ne - 1; } }
    if (how < 10) os_lstat(realroot, &(struct stat){ 0 });
    stopat = ch(4) == 3 ? 1 + ch(ne + 1) : 0; stopval = ch(2) ? -1 - (int)ch(3) : 1 + (int)ch(100);
    uint64_t cwd = os_cwd_ino(); size_t h = os_heap_live(); unsigned fds = os_open_fds(); ev("%s, %u entries, root %d, stop %u", rootarg, ne, os_cfg.root, stopat); f0 = os_fired("");
    os_cfg.io = io; os_cfg.alloc = al; errno = 0; int r = ftw(rootarg, visit, 1 + (int)ch(20)); int e = errno; os_cfg.io = os_cfg.alloc = 0; int faulted = os_fired("") > f0; ev("-> %d (%d)", r, r ? e : 0);
    CHECK(os_heap_live() == h, "leak", "%ld blocks left", (long)os_heap_live() - (long)h); CHECK(os_open_fds() == fds, "leak-fd", "%d descriptors left", (int)os_open_fds() - (int)fds); CHECK(os_cwd_ino() == cwd, "cwd", "the working directory has changed");
    if (stopped) { CHECK(r == stopval, "result", "the function returned %d, the walk %d", stopval, r); if (!faulted) CHECK(e == stoperr, "errno", "errno %d of the function became %d", stoperr, e); }
    else if (r) { CHECK(r == -1, "result", "the walk returned %d", r); CHECK(faulted, "spurious-failure", "the walk failed with errno %d without cause", e); CHECK(e && e != 55, "errno", "the walk failed with errno %d", e); tally("failed_walks", 1); }
    else { 
        if (!ne) CHECK(calls == 1 || faulted, "dropped", "nothing is reported for %s", rootarg);
        for (unsigned i = 0; i < ne; i++) { ent *p = E[i].parent < 0 ? 0 : &E[E[i].parent]; if (E[i].seen || (p && (!p->seen || p->flag != FTW_D))) continue; violation("dropped", "the walk succeeds without reporting %s", E[i].path); }
    }
    tally("entries", calls); tally("unreadable", dnr); tally("not_examined", ns); if (calls > 1 || faulted) run_nontrivial(); cover(mix64(run_hash(), calls)); sample("%s: %u of %u entries reported, %u unreadable, %u not examined%s, %s -> %d", rootarg, calls, ne, dnr, ns, stopped ? ", stopped" : "", faulted ? "with failing calls" : "plain", r);
}
const dst_harness harness = { .property = "D12", .name = "ftw", .run = run,
  .rule = "one run = one walk over a tree of up to 250 entries of all types and modes, as root or not, with failing file operations and allocations, a function that stops it anywhere or removes files, against the list of entries; a run reporting more than one entry or with a fault is non-trivial; distinct by the hash of the whole event log" };
