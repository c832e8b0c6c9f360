/* D09: walking a file tree */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <limits.h>
#include <fcntl.h>
#include "fts.h"
int sim_chdir(const char *);
#define MAXC 64
typedef struct { char name[256]; uint64_t ino; int type, mode, ftype, fmode; uint64_t fino; long size; int unstable, seen, skip, follow; } kid;
typedef struct {
    FTSENT *p; uint64_t ino; uint64_t dev; int unknown, moved, root, viasym, noread, nosearch, built, skip, cross; unsigned n, f0, fbuilt, reported, a0; int marks; kid *k;
    char last[256]; char *path; int readfault;
} frame;
static frame st[160]; static int sp; static FTS *fts; static int options, sorted; static unsigned acts, dirmoves, reported, quiet0;
static char roots[6][300]; static char *args[8]; static unsigned nroots, rootsseen; static char *order[8];
/* an error code the system can give */
#define ERRC(e) ((e) > 0 && (e) <= 133)
static FTSENT *pending; static int pendinstr; static int deep; static uint64_t outside[16]; static unsigned nout; static int escapes_ok, usedfollow;
static unsigned chmods; static uint64_t tag; static int anyorder;
/* ---- the world ---- */
static char paths[200][600]; static int ptype[200]; static unsigned np;
static void add1(void *c, const char *p, int type) { (void)c; if (np < 200 && strlen(p) < 600) { strcpy(paths[np], p); ptype[np++] = type; } }
static void base(const char *p, char *dir, char *name) { const char *s = strrchr(p, '/'); size_t n = (size_t)(s - p); memcpy(dir, p, n); dir[n] = 0; if (!n) strcpy(dir, "/"); strcpy(name, s + 1); }
/* the entry p is about to change */
static void touch(const char *p, int chm)
{
    char d[700], n[300]; struct stat s; base(p, d, n); uint64_t di = os_ino(d), i = os_ino(p); int isdir = 0; memset(&s, 0, sizeof s); if (!os_lstat(p, &s)) isdir = S_ISDIR(s.st_mode) || S_ISLNK(s.st_mode);
    if (isdir) dirmoves++;
    if (chm) chmods++;
    for (int k = 0; k < sp; k++) {
        frame *f = &st[k];
        if (f->ino == di) for (unsigned j = 0; j < f->n; j++) if (!strcmp(f->k[j].name, n)) f->k[j].unstable = 1;
        if (i && f->ino == i) { f->moved = 1; if (chm) f->unknown = 1; }
        if (isdir && ((fts && (fts->fts_options & FTS_NOCHDIR)) || f->viasym)) f->unknown = f->moved = 1;
    }
    /* too deep to name what is in there: everything below may be different */
    if (deep && isdir) for (int k = 0; k < sp; k++) { st[k].unknown = st[k].moved = 1; for (unsigned j = 0; j < st[k].n; j++) st[k].k[j].unstable = 1; }
    /* contents of a directory that goes away */
    if (isdir && !chm) {
        np = 0; os_walk(p, add1, 0);
        for (unsigned q = 0; q < np; q++) { char d2[700], n2[300]; base(paths[q], d2, n2); uint64_t di2 = os_ino(d2), i2 = os_ino(paths[q]); for (int k = 0; k < sp; k++) { if (st[k].ino == i2) st[k].moved = 1; if (st[k].ino == di2) for (unsigned j = 0; j < st[k].n; j++) if (!strcmp(st[k].k[j].name, n2)) st[k].k[j].unstable = 2; } }
    }
}
static unsigned serial; static unsigned maxacts; static int inhook;
static void act(void)
{
    np = 0; os_walk("/t", add1, 0); if (!np) return;
    unsigned w = ch(np); char p[700], q[900], d[700], n[300];
    if (sp && ch(2)) { /* something the walk is in the middle of */
        uint64_t i = st[ch((uint32_t)sp)].ino; for (unsigned k = 0; k < np; k++) if (os_ino(paths[k]) == i) { w = k; break; }
    }
    strcpy(p, paths[w]); int type = ptype[w]; base(p, d, n); if (!strcmp(p, "/t")) return;
    switch (ch(10)) {
    case 0: touch(p, 0); os_rm(p); ev("someone removes %.80s", p); break;
    case 1: snprintf(q, sizeof q, "%s/n%u", d, ++serial); touch(p, 0); touch(q, 0); os_mv(p, q); ev("someone renames %.80s to %.80s", p, q); break;
    case 2: { unsigned j = ch(np); if (ptype[j] != OS_DIR) return; size_t l = strlen(p); if (!strncmp(paths[j], p, l) && (paths[j][l] == '/' || !paths[j][l])) return; snprintf(q, sizeof q, "%.590s/m%u", paths[j], ++serial); if (strlen(q) > 590) return; touch(p, 0); touch(q, 0); os_mv(p, q); ev("someone moves %.80s to %.80s", p, q); break; }
    case 3: snprintf(q, sizeof q, "/o/Om%u", ++serial); touch(p, 0); os_mv(p, q); ev("someone moves %.80s out to %.80s", p, q); break;
    case 4: touch(p, 0); snprintf(q, sizeof q, "/o/Or%u", ++serial); os_mv(p, q); os_symlink(ch(2) ? "/o/Od" : "/o", p); ev("someone replaces %.80s by a link", p); dirmoves++; break;
    case 5: if (type != OS_DIR) return; touch(p, 0); snprintf(q, sizeof q, "/o/Or%u", ++serial); os_mv(p, q); if (ch(2)) os_mknod(p, OS_FIFO, 0); else os_put(p, "zz", 2, 0644); ev("someone replaces %.80s by a file", p); break;
    case 6: if (type != OS_DIR) return; touch(p, 0); snprintf(q, sizeof q, "/o/Or%u", ++serial); os_mv(p, q); os_mkdir(p, 0755); snprintf(q, sizeof q, "%s/x%u", p, serial); os_put(q, "q", 1, 0644); ev("someone replaces %.80s by another directory", p); break;
    case 7: if (type != OS_DIR) return; snprintf(q, sizeof q, "%s/c%u", p, ++serial); if (strlen(q) > 590) return; if (ch(2)) os_put(q, "c", 1, 0644); else os_mkdir(q, 0755); ev("someone creates %.80s", q); break;
    case 8: if (os_cfg.root) return; touch(p, 1); os_chmod(p, ch(2) ? 0 : 0700); dirmoves++; ev("someone changes the mode of %.80s", p); break;
    case 9: if (type == OS_DIR) return; touch(p, 0); os_rm(p); if (ch(2)) os_put(p, "new", 3, 0600); else { os_mkdir(p, 0755); snprintf(q, sizeof q, "%s/y%u", p, ++serial); os_put(q, "q", 1, 0644); } ev("someone replaces %.80s", p); break;
    }
    acts++;
}
static void hook(const char *c) { (void)c; if (inhook || acts >= maxacts || ch(12)) return; inhook = 1; act(); inhook = 0; }
/* ---- frames ---- */
static int nochdir(void) { return (fts->fts_options & FTS_NOCHDIR) != 0; }
static char names[MAXC + 2][256];
static kid oldk[MAXC]; static unsigned nold, oldf0; static int had;
static void capture(frame *f, FTSENT *p)
{
    struct stat s, s2; f->n = 0; f->unknown = 0; f->moved = 0; f->noread = f->nosearch = 0; f->built = 0; f->reported = 0; f->f0 = os_fired(""); f->last[0] = 0; f->skip = 0; f->readfault = 0; f->cross = 0; f->fbuilt = 0; f->a0 = acts; f->marks = 0;
    f->ino = p->fts_ino; f->dev = p->fts_dev;
    if (os_at_cwd(p->fts_accpath, 1, &s) || s.st_ino != p->fts_ino || (chmods && (nochdir() || f->viasym))) { f->unknown = f->moved = 1; return; }
    if (!S_ISDIR(s.st_mode)) violation("not-a-directory", "%.60s is reported as a directory", p->fts_path);
    if (!os_cfg.root) { f->noread = !(s.st_mode & 0400); f->nosearch = !(s.st_mode & 0100); }
    f->cross = (options & FTS_XDEV) && s.st_dev != fts->fts_dev;
    unsigned n = os_list_at_cwd(p->fts_accpath, names, MAXC); if (n >= MAXC) harness_error("directory too large");
    if (!f->k) f->k = malloc(MAXC * sizeof(kid));
    for (unsigned j = 0; j < n; j++) {
        kid *k = &f->k[j]; memset(k, 0, sizeof *k); strcpy(k->name, names[j]); for (unsigned o = 0; o < nold; o++) if (!strcmp(oldk[o].name, k->name)) { k->skip = oldk[o].skip; k->follow = oldk[o].follow; } char *q; if (asprintf(&q, "%s/%s", p->fts_accpath, names[j]) < 0) abort();
        if (os_at_cwd(q, 0, &s)) { if (strlen(q) < PATH_MAX - 1) harness_error("cannot look at %s", q); k->unstable = 1; free(q); continue; } k->ino = s.st_ino; k->type = (int)(s.st_mode & S_IFMT); k->mode = (int)(s.st_mode & 07777); k->size = s.st_size; k->ftype = k->type; k->fino = k->ino; k->fmode = k->mode;
        if (S_ISLNK(s.st_mode)) { if (os_at_cwd(q, 1, &s2)) k->ftype = 0; else k->ftype = (int)(s2.st_mode & S_IFMT), k->fino = s2.st_ino, k->fmode = (int)(s2.st_mode & 07777); }
        free(q);
    }
    f->n = n;
}
static kid *kidof(frame *f, const char *name) { for (unsigned j = 0; j < f->n; j++) if (!strcmp(f->k[j].name, name)) return &f->k[j]; return 0; }
/* is this what must be said about this (unchanged) entry? followed: a link given to FTS_FOLLOW or a logical walk */
static void judge(frame *f, kid *k, FTSENT *p, int followed, int listed)
{
    unsigned faults = os_fired("") - f->f0; int t = followed ? k->ftype : k->type; int info = p->fts_info; const char *n = p->fts_name;
    int lnk = k->type == S_IFLNK; if (lnk && followed && acts) return; /* its target may have moved */
    if (info == FTS_NS) { CHECK(ERRC(p->fts_errno), "no-errno", "%.60s: FTS_NS without an error code", n); CHECK(faults || f->nosearch || f->unknown || (chmods && p->fts_errno == EACCES) || (nochdir() && strlen(p->fts_path) >= PATH_MAX - 1) || f->moved, "false-NS", "%.60s, which is there and unchanged, is reported as impossible to stat (%d)", n, p->fts_errno); return; }
    if (info == FTS_NSOK) { CHECK((options & FTS_NOSTAT) || listed == 2, "nsok", "%.60s: FTS_NSOK although stat information was wanted", n); CHECK(t != S_IFDIR || f->nosearch || listed == 2 || faults, "directory-missed", "the directory %.60s is not recognised as one", n); return; }
    if (info == FTS_ERR) { CHECK(faults && ERRC(p->fts_errno), "false-ERR", "%.60s is reported with FTS_ERR (%d)", n, p->fts_errno); return; }
    if (f->nosearch && info != FTS_NS) return;
    switch (t) {
    case S_IFDIR: {
        int cyc = 0; uint64_t i = k->fino; for (FTSENT *a = p->fts_parent; a && a->fts_level >= 0; a = a->fts_parent) if (a->fts_ino == i) cyc = 1;
        CHECK(info == (cyc ? FTS_DC : FTS_D) || (followed && lnk && (faults || !os_cfg.root) && info == FTS_SLNONE), "wrong-info", "the directory %.60s is reported as %d", n, info);
        if (info == FTS_DC) CHECK(p->fts_cycle && p->fts_cycle->fts_ino == i, "wrong-cycle", "the cycle at %.60s points to the wrong directory", n);
        break; }
    case S_IFREG: CHECK(info == FTS_F || (followed && lnk && (faults || !os_cfg.root) && info == FTS_SLNONE), "wrong-info", "the file %.60s is reported as %d", n, info); break;
    case S_IFLNK: CHECK(info == FTS_SL, "wrong-info", "the link %.60s is reported as %d", n, info); break;
    case 0: CHECK(info == FTS_SLNONE, "wrong-info", "the dangling link %.60s is reported as %d", n, info); break;
    default: CHECK(info == FTS_DEFAULT || (followed && lnk && (faults || !os_cfg.root) && info == FTS_SLNONE), "wrong-info", "the special file %.60s is reported as %d", n, info);
    }
    if (!(options & FTS_NOSTAT) && info != FTS_SLNONE) {
        uint64_t i = followed ? k->fino : k->ino; int m = followed ? k->fmode : k->mode;
        CHECK(p->fts_statp && p->fts_statp->st_ino == i && (int)(p->fts_statp->st_mode & S_IFMT) == t && (int)(p->fts_statp->st_mode & 07777) == m, "metadata", "%.60s: the metadata is not that of this entry", n);
        if (t == S_IFREG && !lnk) CHECK(p->fts_statp->st_size == k->size, "metadata", "%.60s: size %ld, not %ld", n, (long)p->fts_statp->st_size, k->size);
    }
}
static void no_escape(FTSENT *p)
{
    if (!strcmp(p->fts_name, "..") || escapes_ok || usedfollow || (options & FTS_LOGICAL) || nochdir()) return;
    CHECK(p->fts_name[0] != 'O', "escaped", "%.80s/%.60s is not in the tree", p->fts_path, p->fts_name);
    if (!(options & FTS_NOSTAT) && p->fts_info != FTS_NS && p->fts_info != FTS_NSOK) for (unsigned k = 0; k < nout; k++) CHECK(p->fts_statp->st_ino != outside[k], "escaped", "%.80s reports something outside the tree", p->fts_path);
}
static void finish(frame *f, FTSENT *p)
{
    unsigned faults = os_fired("") - f->f0;
    if (p->fts_info == FTS_DNR) {
        CHECK(ERRC(p->fts_errno), "no-errno", "FTS_DNR without an error code"); CHECK(!f->reported, "late-DNR", "%.60s is unreadable after %u entries", p->fts_path, f->reported);
        CHECK(faults || f->noread || f->unknown || f->moved || (chmods && p->fts_errno == EACCES) || (nochdir() && strlen(p->fts_path) >= PATH_MAX - 1), "false-DNR", "%.60s, which is there and readable, is reported as unreadable (%d)", p->fts_path, p->fts_errno); return;
    }
    if (p->fts_info == FTS_ERR) { CHECK(ERRC(p->fts_errno), "no-errno", "FTS_ERR without an error code"); CHECK(faults || f->nosearch || f->unknown || f->moved || (chmods && p->fts_errno == EACCES), "false-ERR", "%.60s ends in an error (%d)", p->fts_path, p->fts_errno); return; }
    CHECK(p->fts_info == FTS_DP, "wrong-info", "%.60s is reported as %d after its contents", p->fts_path, p->fts_info);
    if (f->skip) { CHECK(!f->reported, "skipped", "the contents of %.60s, which was to be skipped, are reported", p->fts_path); return; }
    if (f->cross) { CHECK(!f->reported, "crossed", "the contents of %.60s, on another file system, are reported", p->fts_path); return; }
    if (f->unknown) return;
    CHECK(!f->noread, "unreadable-read", "%.60s cannot be read, yet nothing is said about it", p->fts_path);
    for (unsigned j = 0; j < f->n; j++) { kid *k = &f->k[j]; if (!k->unstable && !k->skip) CHECK(k->seen == 1, "dropped", "%.60s/%.60s, there all the time, is never reported", p->fts_path, k->name); }
    if ((options & FTS_SEEDOT) && !f->skip) CHECK(f->readfault == 3, "dots", "%.60s: . and .. are not reported", p->fts_path);
}
static unsigned guard;
static void setpath(frame *f, const char *s) { free(f->path); f->path = strdup(s); }
static void push(FTSENT *p, int root, int viasym) { if (sp == 160) violation("endless", "the walk is 160 directories deep"); frame *f = &st[sp++]; f->p = p; f->root = root; f->viasym = viasym; capture(f, p); nold = 0; if (had) f->f0 = oldf0; had = 0; setpath(f, p->fts_path); p->fts_number = (int64_t)(tag += 7); p->fts_pointer = f; }
static void check_path(FTSENT *p)
{
    CHECK(p->fts_path == fts->fts_path && os_heap_owns(p->fts_path), "path-pointer", "the path of %.40s is not the current path", p->fts_name);
    CHECK(strlen(p->fts_path) == p->fts_pathlen && strlen(p->fts_name) == p->fts_namelen, "path-length", "%.60s: lengths %u and %u are wrong", p->fts_path, (unsigned)p->fts_pathlen, (unsigned)p->fts_namelen);
}
static void visit(FTSENT *p)
{
    guard++; CHECK(guard < 3000, "endless", "3000 entries reported"); reported++;
    ev("-> %.60s info %d level %d", p->fts_name, p->fts_info, (int)p->fts_level);
    FTSENT *pend = pending; int pi = pendinstr; pending = 0; nold = 0; had = 0; int again = 0, stale = 0, followed = (options & FTS_LOGICAL) != 0;
    check_path(p); if (p->fts_level == 0 && p->fts_info == FTS_D) for (unsigned k = 0; k < nout; k++) if (p->fts_ino == outside[k] || p->fts_ino == os_ino("/")) escapes_ok = 1;
    no_escape(p);
    if (pend) {
        CHECK(p == pend, "revisit", "another node is returned after FTS_AGAIN or FTS_FOLLOW"); again = 1; if (pi == FTS_FOLLOW) followed = 1;
        if (sp && st[sp - 1].p == p) { sp--; had = 1; oldf0 = st[sp].f0; nold = st[sp].n; memcpy(oldk, st[sp].k, nold * sizeof(kid)); stale = st[sp].a0 != acts || st[sp].marks || st[sp].unknown; }
    }
    if (!again && sp && st[sp - 1].p == p) { /* after its contents */
        frame *f = &st[sp - 1]; CHECK(p->fts_number == (int64_t)0 || p->fts_pointer == f, "user-data", "the user's data of a node changed");
        CHECK(!strcmp(p->fts_path, f->path), "path", "%.60s has become %.60s after its contents", f->path, p->fts_path);
        finish(f, p); sp--; return;
    }
    int root = p->fts_level == 0; CHECK(p->fts_level == (int)sp, "level", "%.60s is at level %d, not %d", p->fts_path, (int)p->fts_level, sp);
    if (root) {
        if (!again) { CHECK(rootsseen < nroots, "extra-root", "more trees than asked for"); char *a = order[rootsseen++]; CHECK(!strcmp(a, p->fts_path) || anyorder, "root-order", "the tree %.60s is reported where %.60s is due", p->fts_path, a); }
        int fol = followed || (options & FTS_COMFOLLOW); (void)fol; struct stat s;
        if (!dirmoves && !acts && !os_fired("") && !os_at_cwd(p->fts_accpath, fol, &s)) {
            int want = S_ISDIR(s.st_mode) ? FTS_D : S_ISREG(s.st_mode) ? FTS_F : S_ISLNK(s.st_mode) ? FTS_SL : FTS_DEFAULT; CHECK(p->fts_info == want || ((p->fts_info == FTS_NS || p->fts_info == FTS_SLNONE) && !os_cfg.root) || (p->fts_info == FTS_SL && again), "wrong-info", "the root %.60s is reported as %d", p->fts_path, p->fts_info);
            if (!(options & FTS_NOSTAT) && p->fts_info == want) CHECK(p->fts_statp->st_ino == s.st_ino, "metadata", "the metadata of the root %.60s is wrong", p->fts_path);
        }
        if (p->fts_info == FTS_D) { { size_t al = strlen(p->fts_accpath); int odd = (al > 1 && p->fts_accpath[al - 1] == '/' && strcmp(p->fts_accpath, "/t/")) || strstr(p->fts_accpath, "../") || strstr(p->fts_accpath, "./a"); push(p, 1, odd || (options & FTS_COMFOLLOW) || (again && pi == FTS_FOLLOW)); } if (stale) st[sp - 1].unknown = 1; }
        return;
    }
    CHECK(sp, "orphan", "an entry outside every tree"); frame *f = &st[sp - 1]; CHECK(p->fts_parent == f->p, "parent", "%.60s is reported inside %.60s", p->fts_path, f->path);
    f->fbuilt = 1;
    { size_t l = strlen(f->path); if (l && f->path[l - 1] == '/') l--; CHECK(!strncmp(f->path, p->fts_path, l) && p->fts_path[l] == '/' && !strcmp(p->fts_path + l + 1, p->fts_name), "path", "%.60s in %.60s has the path %.80s", p->fts_name, f->path, p->fts_path); }
    CHECK(!f->skip && !f->cross, f->skip ? "skipped" : "crossed", "%.60s is reported, its directory was not to be entered", p->fts_path);
    if (!strcmp(p->fts_name, ".") || !strcmp(p->fts_name, "..")) { CHECK(options & FTS_SEEDOT, "dots", "%.60s reported", p->fts_path); int b = p->fts_name[1] ? 2 : 1; if (!again) CHECK(!(f->readfault & b), "repeated", "%.60s reported twice", p->fts_path); f->readfault |= b; f->reported++; return; }
    kid *k = kidof(f, p->fts_name);
    if (!again) {
        if (k) { CHECK(!k->seen, "repeated", "%.60s is reported twice", p->fts_path); k->seen = 1; }
        else CHECK(acts || f->unknown, "invented", "%.60s is reported, there is no such entry", p->fts_path);
        if (sorted && !os_fired("alloc") && f->last[0]) { int c = strcmp(f->last, p->fts_name); CHECK(sorted > 0 ? c < 0 : c > 0, "order", "%.60s is reported after %.60s", p->fts_name, f->last); }
        snprintf(f->last, sizeof f->last, "%s", p->fts_name); f->reported++;
    }
    if (k && k->follow && p->fts_info != FTS_SL && k->type == S_IFLNK) followed = 1;
    if (k && !k->unstable && !f->unknown) judge(f, k, p, followed, 0);
    if (k && !k->unstable && !f->unknown && !f->moved && !os_fired("") && !f->nosearch && !chmods && !(dirmoves && (nochdir() || f->viasym)) && p->fts_info != FTS_NS && strlen(p->fts_accpath) < PATH_MAX - 1) {
        struct stat s; CHECK(!os_at_cwd(p->fts_accpath, 0, &s) && s.st_ino == k->ino, "access-path", "%.60s cannot be reached as %.60s", p->fts_path, p->fts_accpath);
    }
    if (p->fts_info == FTS_D) { push(p, 0, (followed && (!k || k->unstable || k->type == S_IFLNK)) || (k && k->follow && k->unstable)); if (stale || (again && os_fired("") > f->f0)) st[sp - 1].unknown = 1; }
    if (k && k->skip && p->fts_info == FTS_D && !again) st[sp - 1].skip = 1;
    if (k && k->follow && (p->fts_info == FTS_SL || p->fts_info == FTS_SLNONE) && p->fts_instr == FTS_FOLLOW) { pending = p; pendinstr = FTS_FOLLOW; }
}
static int cmp(const FTSENT **a, const FTSENT **b) { if (!(options & FTS_NOSTAT) && (*a)->fts_statp->st_ino == 0x7fffffffffff) violation("metadata", "nonsense"); int c = strcmp((*a)->fts_name, (*b)->fts_name); return sorted > 0 ? c : -c; }
static void children(FTSENT *p)
{
    frame *f = sp && st[sp - 1].p == p && p->fts_info == FTS_D ? &st[sp - 1] : 0; int nm = ch(3) == 2; unsigned f0 = os_fired(""), m0 = acts; char *path = strdup(p->fts_path); uint64_t cw = os_cwd_ino();
    int info0 = p->fts_info;
    ev("children%s", nm ? " (names)" : ""); os_cfg.io = quiet0 & 1; os_cfg.alloc = (quiet0 >> 1) & 1; os_hook = hook; errno = 77;
    FTSENT *c = fts_children(fts, nm ? FTS_NAMEONLY : 0); int e = errno; os_cfg.io = os_cfg.alloc = 0; os_hook = 0;
    ev("-> %s %d", c ? "list" : "none", c ? 0 : e);
    int stopped = (fts->fts_options & FTS_STOP) != 0;
    if (!stopped) { CHECK(!strcmp(path, p->fts_path), "path", "%.60s has become %.60s after listing its children", path, p->fts_path); CHECK(os_cwd_ino() == cw || os_fired("fchdir"), "wandered", "listing the children of %.60s changed the directory", path); }
    else CHECK(os_fired("") > f0 || dirmoves, "stopped", "listing %.60s stops the walk", path);
    free(path); if (!f) { CHECK(!c, "children", "children of something (%d) that is no directory", info0); return; }
    f->fbuilt |= os_fired("") > f0; for (unsigned j = 0; j < f->n; j++) f->k[j].skip = f->k[j].follow = 0;
    if (!c) { if (e == 0 && !stopped && !f->unknown) for (unsigned j = 0; j < f->n; j++) CHECK(f->k[j].unstable, "children", "%.60s, which is there, is not listed", f->k[j].name); if (e) CHECK(os_fired("") > f0 || f->noread || f->unknown || f->moved || (chmods && e == EACCES) || (nochdir() && strlen(p->fts_path) >= PATH_MAX - 1), "children", "listing fails with %d", e); return; }
    CHECK(!f->noread || f->unknown || acts > m0, "children", "children of an unreadable directory"); CHECK(!stopped, "children", "a list although the walk stopped");
    unsigned n = 0; const char *last = 0; for (unsigned j = 0; j < f->n; j++) f->k[j].seen |= 16;
    for (FTSENT *q = c; q; q = q->fts_link) {
        n++; CHECK(n < 200, "endless", "200 children"); CHECK(q->fts_parent == p && q->fts_level == p->fts_level + 1, "children", "%.60s has the wrong parent", q->fts_name);
        if (sorted && !os_fired("alloc") && last) { int x = strcmp(last, q->fts_name); CHECK(sorted > 0 ? x < 0 : x > 0, "order", "%.60s is listed after %.60s", q->fts_name, last); } last = q->fts_name;
        if (!nochdir() && !nm && !usedfollow && !escapes_ok) CHECK(q->fts_name[0] != 'O', "escaped", "%.60s is not in the tree", q->fts_name);
        kid *k = kidof(f, q->fts_name); if (!k) { CHECK(acts || f->unknown || q->fts_name[0] == '.', "invented", "%.60s is listed, there is no such entry", q->fts_name); continue; }
        CHECK(k->seen & 16, "repeated", "%.60s is listed twice", q->fts_name); k->seen &= ~16;
        if (!k->unstable && !f->unknown) judge(f, k, q, (options & FTS_LOGICAL) != 0, nm ? 2 : 1);
        if (!nm && ch(6) == 5) { int in = ch(2) ? FTS_SKIP : FTS_FOLLOW; if (fts_set(fts, q, in)) violation("fts_set", "fts_set fails"); f->marks = 1; if (in == FTS_SKIP) k->skip = 1; else k->follow = 1, usedfollow = 1; ev("set %.40s %d", q->fts_name, in); }
    }
    int missing = 0; const char *mn = ""; for (unsigned j = 0; j < f->n; j++) { if ((f->k[j].seen & 16) && !f->k[j].unstable) missing++, mn = f->k[j].name; f->k[j].seen &= ~16; }
    if (!f->unknown && !os_fired("readdir")) CHECK(!missing, "children", "%.60s, which is there, is not listed", mn);
}
static unsigned nodes;
static void build(const char *dir, int depth)
{
    unsigned n = ch(depth ? 6 : 7); char p[900];
    for (unsigned j = 0; j < n && nodes < 40; j++) {
        static const char *const nm[] = { "a", "b", "c", "dd", "e.f", ".h", "z", "...", "A b", "y" }; snprintf(p, sizeof p, "%s/%s", dir, nm[ch(10)]); if (strlen(p) > 400 || os_type(p) != OS_NONE) continue; nodes++;
        switch (ch(8)) { case 0: case 1: case 2: os_put(p, "contents!", ch(10), ch(2) ? 0644 : 0400); break;
        case 3: case 4: case 5: os_mkdir(p, 0755); if (depth < 4) build(p, depth + 1); if (!os_cfg.root && ch(8) == 7) os_chmod(p, (int[]){ 0, 0444, 0111, 0555 }[ch(4)]); break;
        case 6: { static const char *const tg[] = { ".", "..", "a", "/t", "gone", "/o/Od", "b/c", "/t/b", "loop", "/t/a/a", "/e" }; os_symlink(tg[ch(11)], p); break; }
        case 7: os_mknod(p, ch(2) ? OS_FIFO : OS_CHR, 0x103); break; }
    }
}
/* roots longer than any path may be: reported as not to be examined, under their own name */
static void long_roots(void)
{
    os_reset(); os_low_fds(); os_hook = 0; os_cfg.root = 1; os_mkdir("/t/d", 0755); os_put("/t/f", "x", 1, 0644); sim_chdir("/t"); size_t heap = os_heap_live(); unsigned fds = os_open_fds(), k = 1 + ch(3), seen = 0, n = 0, inside = 0; static char big[3][70000]; char *a[4] = { 0 };
    for (unsigned j = 0; j < k; j++) { unsigned l = (unsigned[]){ 4000, 8192 - 260, 16384 - 260, 32768 - 260, 65536 - 260, 300 }[ch(6)] + ch(300); strcpy(big[j], "/t"); for (unsigned i = 2; i < l; i++) big[j][i] = "/."[i & 1]; big[j][l] = 0; if (ch(3) == 0) big[j][l - 1] = 'q'; a[j] = big[j]; ev("root of %u bytes", l); }
    int opt = (ch(2) ? FTS_PHYSICAL : FTS_LOGICAL) | (ch(2) ? FTS_NOCHDIR : 0); os_cfg.alloc = ch(4) == 3; errno = 0; FTS *h = fts_open(a, opt, 0); int e = errno;
    if (!h) { CHECK(os_fired("alloc"), "refused", "fts_open fails with %d", e); goto out; }
    while (errno = 0, n++ < 100) { FTSENT *p = fts_read(h); e = errno; if (!p) { CHECK(!e || os_fired("alloc"), "stopped", "the walk stops with %d although nothing went wrong", e); if (!e) CHECK(seen == k, "root-dropped", "%u of %u trees are reported", seen, k); break; }
        if (p->fts_level == 0 && !inside) { inside = p->fts_info == FTS_D; CHECK(seen < k && p->fts_pathlen == strlen(a[seen]) && !strcmp(p->fts_path, a[seen]), "path", "root %u is reported under another path", seen); size_t l = strlen(a[seen]); CHECK(p->fts_info != FTS_NS || p->fts_errno, "errno", "no reason"); CHECK(l < 4096 || p->fts_info == FTS_NS, "path", "a root of %zu bytes is reported as %d", l, p->fts_info); seen++; }
        else { if (p->fts_level == 0) inside = 0; /* left again, or found unreadable */ CHECK(!strncmp(p->fts_path, a[seen - 1], strlen(a[seen - 1])) && strlen(p->fts_path) == p->fts_pathlen, "path", "an entry below root %u has the path of another", seen); } }
    fts_close(h);
out: os_cfg.alloc = 0; CHECK(os_heap_live() == heap && os_open_fds() == fds, "leak", "%ld blocks left", (long)os_heap_live() - (long)heap); tally("long roots", k); run_nontrivial(); cover(run_hash()); sample("%u long roots, %u entries", k, n);
}
static void run(void)
{
    if (ch(150) == 149) { long_roots(); return; }
    os_reset(); os_low_fds(); sp = 0; acts = chmods = dirmoves = reported = guard = rootsseen = nodes = serial = 0; pending = 0; fts = 0; usedfollow = 0; nout = 0; tag = 0; inhook = 0;
    os_cfg.root = ch(3) != 2; unsigned io = ch(3) == 2, al = ch(5) == 4; quiet0 = io | al << 1; maxacts = ch(3) == 0 ? 0 : ch(6); if (ch(2)) maxacts = maxacts ? 1 : 0;
    os_mkdir("/t", 0755); os_mkdir("/o/Od/Oe", 0755); os_put("/o/Of", "x", 1, 0644); os_put("/o/Od/Og", "x", 1, 0644); os_mkdir("/e", 0755);
    static const char *const on[] = { "/o", "/o/Od", "/o/Od/Oe", "/o/Of", "/o/Od/Og" }; for (unsigned j = 0; j < 5; j++) outside[nout++] = os_ino(on[j]);
    int mnt = ch(6) == 5; if (mnt) { os_mkdir("/t/mnt", 0755); os_mount("/t/mnt"); }
    build("/t", 0); if (mnt) { os_put("/t/mnt/f", "x", 1, 0644); os_mkdir("/t/mnt/d", 0755); }
    if (os_type("/t/loop") == OS_NONE && ch(4) == 3) os_symlink("loop", "/t/loop");
    deep = ch(30) == 29;
    if (deep) { /* three pieces of about 1800 bytes put together */
        char *p = calloc(1, 8000), *t = calloc(1, 8000), nmb[256]; if (os_type("/t/deep") != OS_NONE) os_rm("/t/deep"); unsigned pieces = 2 + ch(2); t[0] = 0;
        for (unsigned q = 0; q < pieces; q++) { strcpy(p, "/dp"); os_mkdir(p, 0755); for (unsigned j = 0; j < 8; j++) { unsigned l = 150 + ch(106); memset(nmb, 'a' + (int)(j + 8 * q), l); nmb[l] = 0; strcat(p, "/"); strcat(p, nmb); if (os_mkdir(p, 0755)) harness_error("deep"); if (j == 7 && t[0]) { strcat(p, "/j"); if (os_mv(t, p)) harness_error("deep mv"); p[strlen(p) - 2] = 0; } else if (ch(2)) { size_t e = strlen(p); strcat(p, "/f"); os_put(p, "x", 1, 0644); p[e] = 0; } }
            if (os_mv("/dp", q + 1 < pieces ? "/dq" : "/t/deep")) harness_error("deep mv"); strcpy(t, "/dq"); }
        free(p); free(t); }
    const char *cwd = ch(3) ? "/t" : "/"; if (sim_chdir(cwd)) { os_chmod("/t", 0755); if (sim_chdir(cwd)) harness_error("cwd"); }
    static const char *const rt[] = { "a", ".", "/t", "/t/a", "b", "a/", "c/../a", "..", "/t/gone", "z", "/t/mnt", "./a/b", "loop", "/t/" }; nroots = 1 + (ch(3) == 2) * ch(4); if (ch(60) == 59) nroots = 0;
    escapes_ok = 0;
    for (unsigned j = 0; j < nroots; j++) { const char *r = rt[ch(14)]; if (deep && !j) r = "/t/deep"; if (cwd[1] == 0 && r[0] != '/' && ch(4)) snprintf(roots[j], 300, "t/%s", r); else if (!strcmp(r, "..") || (!strcmp(r, ".") && !cwd[1])) strcpy(roots[j], "a"); else strcpy(roots[j], r); if (!strcmp(roots[j], "t/..") ) strcpy(roots[j], "t"); args[j] = roots[j]; }
    args[nroots] = 0;
    int opt = (int[]){ FTS_PHYSICAL, FTS_PHYSICAL, FTS_LOGICAL, 0 }[ch(4)]; if (ch(3) == 2) opt |= FTS_NOCHDIR; if (ch(4) == 3) opt |= FTS_NOSTAT; if (ch(6) == 5) opt |= FTS_SEEDOT; if (ch(5) == 4) opt |= FTS_XDEV; if (ch(5) == 4) opt |= FTS_COMFOLLOW;
    int badopt = ch(80) == 79, emptyarg = nroots && ch(80) == 79; if (badopt) opt |= 0x400; if (emptyarg) roots[ch(nroots)][0] = 0;
    options = opt; sorted = (int[]){ 0, 1, -1 }[ch(3)]; if (opt & FTS_COMFOLLOW) escapes_ok = 1;
    for (unsigned j = 0; j < nroots; j++) order[j] = args[j]; if (sorted) for (unsigned a = 0; a < nroots; a++) for (unsigned b = a + 1; b < nroots; b++) { int c = strcmp(order[a], order[b]); if (sorted > 0 ? c > 0 : c < 0) { char *t = order[a]; order[a] = order[b]; order[b] = t; } }
    size_t heap = os_heap_live(); unsigned fds = os_open_fds(); uint64_t cw = os_cwd_ino();
    ev("fts_open %u roots, first %s, options %#x, sorted %d, cwd %s", nroots, nroots ? roots[0] : "-", (unsigned)opt, sorted, cwd);
    os_cfg.io = io; os_cfg.alloc = al; os_hook = hook; errno = 0;
    FTS *h = fts_open(args, opt, sorted ? cmp : 0); int e = errno; os_cfg.io = os_cfg.alloc = 0; os_hook = 0; fts = h; anyorder = os_fired("alloc") > 0;
    if (badopt || emptyarg) CHECK(!h, "accepted", "bad arguments are accepted");
    if (!h) { CHECK(badopt || emptyarg || (os_fired("alloc") && e), "refused", "fts_open fails with %d", e); CHECK(os_heap_live() == heap && os_open_fds() == fds, "leak", "%ld blocks, %ld descriptors left by a failing fts_open", (long)os_heap_live() - (long)heap, (long)os_open_fds() - (long)fds); CHECK(os_cwd_ino() == cw, "wandered", "a failing fts_open changed the directory"); tally("not opened", 1); run_nontrivial(); cover(mix64(900, (unsigned)opt)); return; }
    unsigned stopat = ch(3) ? 1u << 30 : ch(20); unsigned calm = ch(3); int ended = 0; unsigned extra = 0; FTSENT *cur = 0;
    if (stopat && ch(5) == 4) { FTSENT *c = fts_children(fts, 0); unsigned n = 0; for (; c; c = c->fts_link) CHECK(n < nroots && (!strcmp(c->fts_name, order[n]) || anyorder) && ++n, "children", "the roots are not listed in order"); CHECK(n == nroots, "children", "%u of %u roots listed", n, nroots); }
    while (reported < stopat) {
        if (guard > 1500 && ((options & FTS_LOGICAL) || usedfollow)) break;
        for (unsigned reps = 1 + (ch(5) == 4); cur && !ended && reps; reps--) {
            unsigned a = ch(calm == 2 ? 2 : 12);
            if (calm == 2) a = 0;
            if (a == 1) { int in = ch(3); if (in == 0) { fts_set(fts, cur, FTS_SKIP); if (sp && st[sp - 1].p == cur) st[sp - 1].skip = 1; pending = 0; ev("skip"); }
                else if (in == 1 && guard < 200) { fts_set(fts, cur, FTS_AGAIN); pending = cur; pendinstr = FTS_AGAIN; ev("again"); if (sp && st[sp - 1].p == cur) st[sp - 1].skip = 0; }
                else if (cur->fts_info == FTS_SL || cur->fts_info == FTS_SLNONE) { fts_set(fts, cur, FTS_FOLLOW); pending = cur; pendinstr = FTS_FOLLOW; usedfollow = 1; ev("follow"); } }
            if (a >= 2 && a < 5 && !pending) { children(cur); if (fts->fts_options & FTS_STOP) cur = 0; }
            if (a == 5 && !pending) { CHECK(fts_set(fts, cur, 99), "fts_set", "a bad instruction is accepted"); }
        }
        os_cfg.io = io; os_cfg.alloc = al; os_hook = hook; unsigned f0 = os_fired(""); errno = 55; int wasstop = (fts->fts_options & FTS_STOP) != 0;
        FTSENT *p = fts_read(fts); e = errno; os_cfg.io = os_cfg.alloc = 0; os_hook = 0;
        if (!p) {
            if (ended) { if (++extra == 2) break; continue; }
            ended = 1; ev("-> end %d", e);
            if (e == 0) { CHECK(!sp, "left-open", "the walk ends inside %.60s", st[sp - 1].path); CHECK(rootsseen == nroots, "root-dropped", "%u of %u trees are reported", rootsseen, nroots); }
            else CHECK(os_fired("") || dirmoves || (wasstop), "stopped", "the walk stops with %d although nothing went wrong", e);
            (void)f0; if (ch(2)) break; cur = 0; continue;
        }
        CHECK(!ended, "revived", "an entry after the end"); cur = p; visit(p);
    }
    if (ended && ch(3) == 2) { CHECK(!fts_children(fts, 0), "children", "children after the end"); }
    os_cfg.io = io; os_cfg.alloc = al; os_hook = hook; unsigned fc = os_fired("fchdir"); int rc = fts_close(fts); e = errno; os_cfg.io = os_cfg.alloc = 0; os_hook = 0; ev("close %d", rc);
    if (rc) CHECK(e && (os_fired("fchdir") > fc || dirmoves), "close", "fts_close fails with %d", e);
    else CHECK(os_cwd_ino() == cw, "wandered", "the working directory is not the original one");
    CHECK(os_heap_live() == heap, "leak", "%ld blocks left", (long)os_heap_live() - (long)heap);
    CHECK(os_open_fds() == fds, "leak", "%ld descriptors left", (long)os_open_fds() - (long)fds);
    tally("entries", reported); tally("changes meanwhile", acts); if (ended && e) tally("stopped", 1); if (ended || stopat < 20) run_nontrivial(); for (int k = 0; k < 160; k++) { free(st[k].k); st[k].k = 0; free(st[k].path); st[k].path = 0; }
    cover(mix64(mix64(reported, (unsigned)opt), os_tree_hash("/t"))); sample("options %#x, %u roots, %u entries reported, %u changes, %u faults, %s", (unsigned)opt, nroots, reported, acts, os_fired(""), ended ? "ended" : "closed midway");
}
const dst_harness harness = { .property = "D09", .name = "fts", .run = run,
  .rule = "one run = one tree (up to 40 entries, five levels, links, special files, another file system, unreadable directories, sometimes paths beyond 4096 bytes) walked with random options, roots, order, fts_set and fts_children calls, while someone else renames, removes and replaces entries between any two system calls and system calls and allocations fail, closed at the end or midway; distinct by the hash of the whole event log" };
