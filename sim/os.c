/* Simulated operating system: files, descriptors, mappings, crash model, entropy, clock, terminal, heap accounting. */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <limits.h>
#include <dirent.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <sys/vfs.h>
#include <sys/statvfs.h>
#include <sanitizer/asan_interface.h>

void dst_san_report(const char *rep);
const char *__asan_default_options(void)
{
    return "detect_leaks=0:abort_on_error=0:exitcode=66:quarantine_size_mb=8:allocator_may_return_null=1:detect_stack_use_after_return=0:"
           "handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:allow_user_segv_handler=1:symbolize=0:print_legend=0:"
           "max_malloc_fill_size=65536:malloc_fill_byte=190:replace_str=1:intercept_strlen=1:strict_string_checks=0:detect_odr_violation=0:malloc_context_size=0:max_allocation_size_mb=2048:log_to_syslog=0";
}
static void san_cb(const char *r) { dst_san_report(r); }
__attribute__((constructor)) static void init_asan(void) { __asan_set_error_report_callback(san_cb); }

#define PG 4096ul
#define UP(x) (((x) + PG - 1) & ~(PG - 1))
os_cfg_t os_cfg; jmp_buf os_crash_jmp; void (*os_hook)(const char *); unsigned os_steps;
void (*os_exit_hook)(int, int); void (*os_abort_hook)(void); int (*os_fork_hook)(void);
uint64_t os_now_ns, os_now_sec; int os_pid; static int os_ppid_; static int in_hook;
extern int g_core_dummy;

/* ------------------------------------------------------------------ faults */
static struct { const char *k; unsigned n; } fc[64]; static int nfc; static unsigned nfired;
int os_fault(const char *kind)
{
    if (in_hook || !fault(kind)) return 0;
    int i; for (i = 0; i < nfc; i++) if (!strcmp(fc[i].k, kind)) break;
    if (i == nfc) { if (nfc >= 64) return 1; fc[nfc].k = kind; fc[nfc++].n = 0; }
    fc[i].n++; nfired++;
    return 1;
}
unsigned os_fired(const char *kind)
{
    if (!*kind) return nfired;
    for (int i = 0; i < nfc; i++) if (!strcmp(fc[i].k, kind)) return fc[i].n;
    return 0;
}
static int io_fault(const char *kind, const int *errs, int n)
{
    if (!os_cfg.io || !os_fault(kind)) return 0;
    errno = errs[ch((uint32_t)n)];
    ev("  %s -> error %d", kind, errno);
    return 1;
}
#define F(kind, ...) ({ static const int e_[] = { __VA_ARGS__ }; io_fault(kind, e_, NELEM(e_)); })

static void jcrash_point(const char *call)
{
    if (os_cfg.crash && !faults_are_off() && !in_hook && fault("crash")) { ev("  CRASH in %s", call); longjmp(os_crash_jmp, 1); }
}
static void enter(const char *call)
{
    if (++os_steps > 4000000) violation("no-progress", "the code under test made four million system calls and still has not returned");
    dst_sim_ns += 1000; os_now_ns += 1000;
    evq(0x5ca11, os_steps, (uint64_t)call[0] << 8 | (uint64_t)call[1]);
    if (os_hook && !in_hook) { int e = errno; in_hook = 1; os_hook(call); in_hook = 0; errno = e; }
    jcrash_point(call);
}
static void leave(const char *call) { jcrash_point(call); }

/* ------------------------------------------------------------------ heap accounting */
typedef struct { void *p; size_t n; } HB;
#define HBITS0 16
#define HBITS_MAX 22
static HB hb0[1 << HBITS0], *hb = hb0; static unsigned HBITS = HBITS0; static size_t hn, hbytes;
static void hput(void *p, size_t n);
static void hsmall(void) { if (hb != hb0) { munmap(hb, sizeof(HB) << HBITS); hb = hb0; HBITS = HBITS0; } }
static void hgrow(void)
{
    HB *o = hb; unsigned ob = HBITS; if (ob >= HBITS_MAX) violation("runaway-memory", "the code under test holds more than %zu heap blocks", hn);
    HBITS = ob + 2; hb = mmap(0, sizeof(HB) << HBITS, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); if (hb == MAP_FAILED) harness_error("heap table"); hn = hbytes = 0;
    for (unsigned i = 0; i < 1u << ob; i++) if (o[i].p) hput(o[i].p, o[i].n);
    if (o == hb0) memset(hb0, 0, sizeof hb0); else munmap(o, sizeof(HB) << ob);
}
static unsigned hidx(const void *p) { return (unsigned)(((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull >> (64 - HBITS)); }
static void hput(void *p, size_t n)
{
    if (!p) return;
    if (hn > (1u << HBITS) / 2) hgrow();
    unsigned i = hidx(p); while (hb[i].p) i = (i + 1) & ((1u << HBITS) - 1);
    hb[i].p = p; hb[i].n = n; hn++; hbytes += n;
}
static HB *hget(const void *p)
{
    for (unsigned i = hidx(p); hb[i].p; i = (i + 1) & ((1u << HBITS) - 1)) if (hb[i].p == p) return &hb[i];
    return 0;
}
static int hdel(void *p)
{
    HB *h = hget(p); if (!h) return 0;
    hn--; hbytes -= h->n;
    unsigned m = (1u << HBITS) - 1, i = (unsigned)(h - hb), j = i;
    for (;;) {
        hb[i].p = 0;
        for (;;) { j = (j + 1) & m; if (!hb[j].p) return 1; unsigned k = hidx(hb[j].p); if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue; break; }
        hb[i] = hb[j]; i = j;
    }
}
size_t os_heap_live(void) { return hn; }
size_t os_heap_total(void) { return hbytes; }
int os_heap_owns(const void *p) { return hget(p) != 0; }
size_t os_heap_size(const void *p) { HB *h = hget(p); return h ? h->n : 0; }
void os_heap_forget(void) { if (hn) for (unsigned i = 0; i < (1u << HBITS); i++) if (hb[i].p) { free(hb[i].p); hb[i].p = 0; } hn = 0; hbytes = 0; hsmall(); }
void os_free(void *p) { if (p) { hdel(p); free(p); } }
static int afail(size_t n) { if (n > (1ull << 31)) { errno = ENOMEM; return 1; } if (os_cfg.alloc && os_fault("alloc")) { errno = ENOMEM; return 1; } return 0; }
void *os_malloc(size_t n) { void *p = malloc(n); hput(p, n); return p; }
void *sim_malloc(size_t n) { if (afail(n)) return 0; return os_malloc(n); }
void *sim_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n) || afail(n)) { errno = ENOMEM; return 0; } void *p = calloc(1, n ? n : 1); hput(p, n); return p; }
void sim_free(void *p) { if (p) { hdel(p); free(p); } }
void *sim_realloc(void *p, size_t n)
{
    if (!p) return sim_malloc(n);
    if (!n) { sim_free(p); return 0; }
    if (afail(n)) return 0;
    if (!hget(p)) return realloc(p, n);
    size_t o = hget(p)->n; void *q = malloc(n); if (!q) return 0;
    memcpy(q, p, o < n ? o : n); hput(q, n); hdel(p); free(p); return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; } return sim_realloc(p, n); }
int sim_posix_memalign(void **r, size_t al, size_t n) { if (afail(n)) return ENOMEM; void *p = 0; int e = posix_memalign(&p, al, n); if (!e) { hput(p, n); *r = p; } return e; }
void *sim_aligned_alloc(size_t al, size_t n) { if (afail(n)) return 0; void *p = 0; if (posix_memalign(&p, al < 8 ? 8 : al, n)) return 0; hput(p, n); return p; }
void *sim_memalign(size_t al, size_t n) { return sim_aligned_alloc(al, n); }
void *sim_valloc(size_t n) { return sim_aligned_alloc(PG, n); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int sim_vasprintf(char **r, const char *f, va_list ap)
{
    va_list b; va_copy(b, ap); int n = vsnprintf(0, 0, f, b); va_end(b);
    if (n < 0) return n; char *p = sim_malloc((size_t)n + 1); if (!p) return -1; vsnprintf(p, (size_t)n + 1, f, ap); *r = p; return n;
}
int sim_asprintf(char **r, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vasprintf(r, f, ap); va_end(ap); return n; }

/* ------------------------------------------------------------------ inodes */
typedef struct ent { char name[256]; struct inode *i; } ent;
typedef struct inode {
    int type, mode, nlink, refs, dev; uint64_t ino, gen; int64_t mtime;
    uint8_t *d; size_t size, cap; int memfd; size_t maplen;        /* regular */
    size_t blocks;                                                 /* up to here it has disk blocks */
    uint8_t *dur; size_t dsize; int clean_lie;                     /* what is on disk; pages wrongly believed clean */
    char *link;
    ent *e; unsigned ne, ce; struct inode *parent;                 /* directory */
    ent *de; unsigned nde; int durable_known;                      /* durable entries */
    int durseen, fs; struct inode *next;
} inode;
static inode *all, *rootdir; static uint64_t next_ino;
static inode *inew(int type, int mode)
{
    inode *i = calloc(1, sizeof *i);
    i->type = type; i->mode = mode; i->ino = next_ino++; i->memfd = -1; i->mtime = (int64_t)os_now_ns; i->next = all; all = i;
    i->nlink = type == OS_DIR ? 2 : 0;
    return i;
}
static void ifree(inode *i)
{
    if (i->memfd >= 0) { if (i->d) munmap(i->d, i->maplen); close(i->memfd); } else free(i->d);
    free(i->dur); free(i->link); free(i->e); free(i->de); free(i);
}
/* journal of directory edits since the last durable point */
typedef struct { inode *dir; char name[256]; inode *i; int add; unsigned op; } jrec;
static jrec *jr; static unsigned nj, cj, jop, jdur; static int jon;
static void jlog(inode *dir, const char *name, inode *i, int add)
{
    if (!jon) return;
    if (nj == cj) { cj = cj ? cj * 2 : 64; jr = realloc(jr, cj * sizeof *jr); }
    jrec *r = &jr[nj++]; r->dir = dir; r->i = i; r->add = add; r->op = jop; snprintf(r->name, sizeof r->name, "%s", name);
}
unsigned os_journal_len(void) { return nj; }
static ent *dfind(inode *d, const char *name) { for (unsigned k = 0; k < d->ne; k++) if (!strcmp(d->e[k].name, name)) return &d->e[k]; return 0; }
static void dadd(inode *d, const char *name, inode *i)
{
    if (d->ne == d->ce) { d->ce = d->ce ? d->ce * 2 : 8; d->e = realloc(d->e, d->ce * sizeof(ent)); }
    snprintf(d->e[d->ne].name, 256, "%s", name); d->e[d->ne++].i = i;
    if (i->type == OS_DIR) { i->parent = d; d->nlink++; i->nlink = 2; for (unsigned k = 0; k < i->ne; k++) i->nlink += i->e[k].i->type == OS_DIR; } else i->nlink++;
    if (!i->fs) i->fs = d->fs;
    d->mtime = (int64_t)os_now_ns;
    jlog(d, name, i, 1);
}
static void ddel(inode *d, ent *e)
{
    inode *i = e->i; jlog(d, e->name, i, 0);
    if (i->type == OS_DIR) { d->nlink--; i->parent = 0; i->nlink = 0; } else i->nlink--;
    unsigned k = (unsigned)(e - d->e); memmove(e, e + 1, (d->ne - k - 1) * sizeof(ent)); d->ne--;
    d->mtime = (int64_t)os_now_ns;
}
static void map_resized(inode *i);
static void iresize(inode *i, size_t n)
{
    if (n < i->blocks) i->blocks = n;
    if (i->memfd >= 0) {
        if (ftruncate(i->memfd, (off_t)n)) harness_error("memfd");
        if (n > i->maplen) { munmap(i->d, i->maplen); i->maplen = UP(n) * 2; i->d = mmap(0, i->maplen, PROT_READ|PROT_WRITE, MAP_SHARED, i->memfd, 0); if (i->d == MAP_FAILED) harness_error("map"); }
        i->size = n; map_resized(i); return;
    }
    if (n > i->cap) { size_t c = n + n / 2 + 64; i->d = realloc(i->d, c); i->cap = c; }
    if (n > i->size) memset(i->d + i->size, 0, n - i->size);
    i->size = n;
}
static void ipromote(inode *i)
{
    if (i->memfd >= 0) return;
    int f = memfd_create("sim", MFD_CLOEXEC); if (f < 0) harness_error("memfd_create");
    if (ftruncate(f, (off_t)i->size)) harness_error("memfd");
    size_t l = UP(i->size) + (1 << 16);
    uint8_t *m = mmap(0, l, PROT_READ|PROT_WRITE, MAP_SHARED, f, 0); if (m == MAP_FAILED) harness_error("map");
    if (i->size) memcpy(m, i->d, i->size);
    free(i->d); i->d = m; i->maplen = l; i->memfd = f; i->cap = 0;
}
static void isync(inode *i)
{
    if (i->clean_lie) { i->clean_lie = 0; return; }  /* the kernel dropped the error state with the first report; nothing is written now */
    free(i->dur); i->dur = malloc(i->size + 1); if (i->size) memcpy(i->dur, i->d, i->size); i->dsize = i->size; i->durseen = 1;
}

/* ------------------------------------------------------------------ process */
typedef struct ofd { inode *i; off_t off; int flags, refs; uint64_t dpos; char path[256]; } ofd;
#define NFD 400
static ofd *fdt[NFD]; static int fdcloexec[NFD];
static inode *cwd; static int umask_ = 022;
typedef struct mapping { uint8_t *a; size_t len; inode *i; off_t off; int prot, flags, live; uint8_t *plo, *phi; /* the part that may be poisoned */ } mapping;
#define NMAP 256
static mapping mp[NMAP]; static int nmp;
static struct { void *a; size_t n; } resv[1024]; static int nresv;
static void unpoison(mapping *m) { if (m->phi > m->plo) __asan_unpoison_memory_region(m->plo, (size_t)(m->phi - m->plo)); }
static void poison_tail(mapping *m)
{
    unpoison(m);
    if (!m->i) return;
    size_t fe = m->i->size > (size_t)m->off ? m->i->size - (size_t)m->off : 0;   /* bytes of file in the mapping */
    if (fe >= m->len) return;
    size_t from = (fe + 7) & ~7ul;   /* poisoning works on 8-byte granules */
    size_t pe = UP(fe); if (pe > m->len) pe = m->len;
    if (from < pe) { m->plo = m->a + from; m->phi = m->a + pe; __asan_poison_memory_region(m->plo, pe - from); }
}
static void map_resized(inode *i) { for (int k = 0; k < nmp; k++) if (mp[k].live && mp[k].i == i) poison_tail(&mp[k]); }
static void map_drop(mapping *m)
{
    m->live = 0; unpoison(m);
    mmap(m->a, m->len, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED, -1, 0);   /* address not reused in this run */
    if (nresv < 1024) { resv[nresv].a = m->a; resv[nresv++].n = m->len; }
    if (m->i) m->i->refs--;
}
unsigned os_live_maps(void) { unsigned n = 0; for (int k = 0; k < nmp; k++) n += mp[k].live; return n; }
unsigned os_open_fds(void) { unsigned n = 0; for (int i = 0; i < NFD; i++) n += fdt[i] != 0; return n; }
int os_fd_isopen(int fd) { return fd >= 0 && fd < NFD && fdt[fd]; }
uint64_t os_fd_ino(int fd) { return os_fd_isopen(fd) ? fdt[fd]->i->ino : 0; }
int os_fd_flags(int fd) { return os_fd_isopen(fd) ? fdt[fd]->flags : -1; }
int os_fd_path(int fd, char *b, size_t n) { if (!os_fd_isopen(fd)) return -1; snprintf(b, n, "%s", fdt[fd]->path); return 0; }
static int fdalloc(inode *i, int flags, const char *path)
{
    int f = os_cfg.fd_base < 0 ? 0 : os_cfg.fd_base;
    for (; f < NFD; f++) if (!fdt[f]) break;
    if (f == NFD) { errno = EMFILE; return -1; }
    ofd *o = calloc(1, sizeof *o); o->i = i; o->flags = flags; o->refs = 1; snprintf(o->path, sizeof o->path, "%s", path); i->refs++;
    fdt[f] = o; fdcloexec[f] = (flags & O_CLOEXEC) != 0;
    return f;
}
static void fdclose(int f) { ofd *o = fdt[f]; fdt[f] = 0; if (--o->refs == 0) { o->i->refs--; free(o); } }
static ofd *FD(int f) { if (f < 0 || f >= NFD || !fdt[f]) { errno = EBADF; return 0; } return fdt[f]; }

/* ------------------------------------------------------------------ path walk */
static int perm(inode *i, int want) { if (os_cfg.root || in_hook) return 1; return ((i->mode >> 6) & want) == want; }
static int internal;    /* harness access: no permission checks */
/* resolves path; last component not followed if !follow. On success *pi (may be 0 if missing) and *pdir,*name */
static int walk(inode *start, const char *path, int follow, inode **pdir, char *name, inode **pi, int depth)
{
    if (!*path) return ENOENT;
    if (strlen(path) >= PATH_MAX) return ENAMETOOLONG;
    if (depth > 40) return ELOOP;
    inode *d = *path == '/' ? rootdir : start;
    const char *p = path; 
    while (*p == '/') p++;
    if (!*p) { *pdir = d; strcpy(name, "."); *pi = d; return 0; }
    for (;;) {
        char c[257]; size_t n = 0;
        while (p[n] && p[n] != '/') n++;
        if (n > 255) return ENAMETOOLONG;
        memcpy(c, p, n); c[n] = 0; p += n;
        int slash = *p == '/';
        while (*p == '/') p++;
        int last = !*p;
        if (d->type != OS_DIR) return ENOTDIR;
        if (!internal && !perm(d, 1)) return EACCES;
        inode *i;
        if (!strcmp(c, ".")) i = d;
        else if (!strcmp(c, "..")) i = d == rootdir ? d : d->parent ? d->parent : d;
        else { ent *e = dfind(d, c); i = e ? e->i : 0; }
        if (last) {
            *pdir = d; strcpy(name, c);
            if (i && i->type == OS_LNK && follow >= 0 && (follow || slash)) {
                inode *d2; char n2[257];
                int r = walk(d, i->link, 1, &d2, n2, &i, depth + 1);
                if (r) return r;
                if (slash && i && i->type != OS_DIR) return ENOTDIR;
                *pdir = d2; strcpy(name, n2); *pi = i; return 0;
            }
            if (slash && i && i->type != OS_DIR && follow >= 0) return ENOTDIR;
            *pi = i; 
            if (slash && !i) name[256 - 1] = 0;
            return 0;
        }
        if (!i) return ENOENT;
        if (i->type == OS_LNK) {
            inode *d2; char n2[257];
            int r = walk(d, i->link, 1, &d2, n2, &i, depth + 1);
            if (r) return r;
            if (!i) return ENOENT;
        }
        if (i->type != OS_DIR) return ENOTDIR;
        d = i;
    }
}
static int trailing(const char *p) { size_t n = strlen(p); return n > 1 && p[n-1] == '/'; }
static inode *atdir(int fd) { if (fd == AT_FDCWD) return cwd; ofd *o = FD(fd); if (!o) return 0; if (o->i->type != OS_DIR) { errno = ENOTDIR; return 0; } return o->i; }
static int look(inode *st, const char *path, int follow, inode **pi)
{
    inode *d; char n[257];
    int r = walk(st, path, follow, &d, n, pi, 0);
    if (!r && !*pi) r = ENOENT;
    if (r) { errno = r; return -1; }
    return 0;
}
static const char *ipath(inode *i, char *buf)
{
    if (i == rootdir) return "/";
    char *p = buf + PATH_MAX - 1; *p = 0;
    while (i != rootdir) {
        inode *d = i->parent; if (!d) return 0;
        unsigned k; for (k = 0; k < d->ne; k++) if (d->e[k].i == i) break;
        if (k == d->ne) return 0;
        size_t n = strlen(d->e[k].name); if (p - buf < (long)n + 2) return 0;
        p -= n; memcpy(p, d->e[k].name, n); *--p = '/'; i = d;
    }
    return p;
}

/* ------------------------------------------------------------------ calls */
static void fillstat(inode *i, struct stat *s)
{
    memset(s, 0, sizeof *s);
    s->st_dev = (dev_t)(41 + i->fs); s->st_ino = i->ino; s->st_nlink = (nlink_t)i->nlink; s->st_uid = 1000; s->st_gid = 1000; s->st_blksize = 4096;
    s->st_mode = (mode_t)i->mode | (i->type == OS_DIR ? S_IFDIR : i->type == OS_LNK ? S_IFLNK : i->type == OS_CHR ? S_IFCHR : i->type == OS_FIFO ? S_IFIFO : S_IFREG);
    s->st_size = i->type == OS_LNK ? (off_t)strlen(i->link) : i->type == OS_DIR ? 4096 : (off_t)i->size; s->st_blocks = (s->st_size + 511) / 512;
    s->st_rdev = (dev_t)i->dev; s->st_mtim.tv_sec = i->mtime / 1000000000; s->st_mtim.tv_nsec = i->mtime % 1000000000; s->st_ctim = s->st_atim = s->st_mtim;
}
/* devices: 1:3 null, 5:0 tty, 1:9 urandom, 1:5 zero, 1:7 full */
static const char *devname(int d) { switch (d) { case 0x103: return "null"; case 0x500: return "tty"; case 0x109: return "urandom"; case 0x108: return "random"; case 0x107: return "full"; default: return "zero"; } }
os_tty_t os_tty; void (*os_entropy)(void *, size_t); uint64_t os_entropy_calls, os_entropy_bytes;
static uint64_t ent_key;
static void entropy(void *p, size_t n)
{
    os_entropy_calls++; os_entropy_bytes += n;
    if (os_entropy) { os_entropy(p, n); return; }
    uint8_t *b = p; prng g = { ent_key }; while (n--) *b++ = (uint8_t)(prng_next(&g) >> 24); ent_key = prng_next(&g);
}
static int do_open(inode *st, const char *path, int fl, int mode)
{
    inode *d, *i; char n[257];
    int follow = !(fl & O_NOFOLLOW) && !((fl & O_CREAT) && (fl & O_EXCL));
    int r = walk(st, path, follow, &d, n, &i, 0);
    if (r) { errno = r; return -1; }
    int acc = fl & O_ACCMODE;
    if (!i) {
        if (!(fl & O_CREAT)) { errno = ENOENT; return -1; }
        if (trailing(path)) { errno = EISDIR; return -1; }
        if (!perm(d, 3)) { errno = EACCES; return -1; }
        if (F("open_create", ENOSPC, EACCES, EROFS, EMFILE, ENFILE, ENOMEM, EIO)) return -1;
        i = inew(OS_REG, mode & ~umask_ & 07777); jop++; dadd(d, n, i);
    } else {
        if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
        if (i->type == OS_LNK) { errno = ELOOP; return -1; }
        if ((fl & O_DIRECTORY) && i->type != OS_DIR) { errno = ENOTDIR; return -1; }
        if (i->type == OS_DIR && acc != O_RDONLY) { errno = EISDIR; return -1; }
        if (!perm(i, acc == O_RDONLY ? 4 : acc == O_WRONLY ? 2 : 6)) { errno = EACCES; return -1; }
        if (i->type == OS_FIFO && acc != O_RDWR && !(fl & O_NONBLOCK)) violation("blocked", "open of the fifo %s waits forever for the other end", path);
        if (i->type == OS_CHR && i->dev == 0x500 && os_tty.get_fail == 99) { errno = ENXIO; return -1; }
        if (F("open", EMFILE, ENFILE, EACCES, ENOMEM, EIO)) return -1;
        if ((fl & O_TRUNC) && i->type == OS_REG && acc != O_RDONLY) { jop++; iresize(i, 0); i->mtime = (int64_t)os_now_ns; }
    }
    char b[PATH_MAX]; const char *q = i->type == OS_CHR ? devname(i->dev) : ipath(i, b);
    return fdalloc(i, fl, q ? q : path);
}
int sim_openat(int dfd, const char *path, int fl, ...)
{
    va_list ap; va_start(ap, fl); int mode = (fl & (O_CREAT|__O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap);
    enter("open");
    inode *st = *path == '/' ? rootdir : atdir(dfd); if (!st) return -1;
    int f = do_open(st, path, fl, mode);
    ev("open %s %x -> %d %d", path, (unsigned)fl, f, f < 0 ? errno : 0);
    leave("open"); return f;
}
int sim_open(const char *path, int fl, ...)
{
    va_list ap; va_start(ap, fl); int mode = (fl & (O_CREAT|__O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap);
    return sim_openat(AT_FDCWD, path, fl, mode);
}
int sim___open_2(const char *path, int fl) { return sim_openat(AT_FDCWD, path, fl, 0); }
int sim_creat(const char *path, mode_t m) { return sim_openat(AT_FDCWD, path, O_CREAT|O_WRONLY|O_TRUNC, (int)m); }
int sim_close(int fd)
{
    enter("close");
    if (!FD(fd)) { ev("close %d EBADF", fd); violation("bad-close", "close of descriptor %d, which is not open", fd); }
    fdclose(fd); ev("close %d", fd);
    leave("close");
    if (F("close", EIO, EINTR, ENOSPC)) return -1;
    return 0;
}
static ssize_t dev_read(inode *i, void *b, size_t n)
{
    switch (i->dev) {
    case 0x103: return 0;
    case 0x500: if (os_tty.read) return os_tty.read(b, n); errno = EIO; return -1;
    case 0x109: case 0x108: {
        if (n && os_cfg.shortio) {
            if (os_fault("eintr_read")) { errno = EINTR; return -1; }
            if (os_fault("short_read")) { n = 1 + ch((uint32_t)(n < 100000 ? n : 100000)); }
            if (os_fault("zero_read")) return 0;
        }
        entropy(b, n); return (ssize_t)n; }
    default: memset(b, 0, n); return (ssize_t)n;
    }
}
static ssize_t do_read(ofd *o, void *b, size_t n, off_t *off)
{
    inode *i = o->i;
    if ((o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    if (i->type == OS_DIR) { errno = EISDIR; return -1; }
    if (F("read", EIO, EINTR, ENOMEM)) return -1;
    if (i->type == OS_CHR) return dev_read(i, b, n);
    if (*off >= (off_t)i->size) return 0;
    if (n > i->size - (size_t)*off) n = i->size - (size_t)*off;
    if (n > 1 && os_cfg.shortio && os_fault("short_read")) n = 1 + ch((uint32_t)(n - 1));
    memcpy(b, i->d + *off, n); *off += (off_t)n; return (ssize_t)n;
}
ssize_t sim_read(int fd, void *b, size_t n) { enter("read"); ofd *o = FD(fd); if (!o) return -1; ssize_t r = do_read(o, b, n, &o->off); ev("read %d %zu -> %zd", fd, n, r); return r; }
ssize_t sim_pread(int fd, void *b, size_t n, off_t off) { enter("pread"); ofd *o = FD(fd); if (!o) return -1; if (off < 0) { errno = EINVAL; return -1; } return do_read(o, b, n, &off); }
ssize_t sim___read_chk(int fd, void *b, size_t n, size_t bl) { (void)bl; return sim_read(fd, b, n); }
static ssize_t do_write(ofd *o, const void *b, size_t n, off_t *off)
{
    inode *i = o->i;
    if ((o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if (F("write", EIO, ENOSPC, EINTR, EDQUOT)) return -1;
    if (i->type == OS_CHR) { if (i->dev == 0x500 && os_tty.write) return os_tty.write(b, n); if (i->dev == 0x107) { errno = ENOSPC; return -1; } return (ssize_t)n; }
    if (i->type != OS_REG) { errno = EINVAL; return -1; }
    if (n > 1 && os_cfg.shortio && os_fault("short_write")) n = 1 + ch((uint32_t)(n - 1));
    if (o->flags & O_APPEND) *off = (off_t)i->size;
    if (!n) return 0;
    volatile uint8_t probe = 0; for (size_t k = 0; k < n; k += 512) probe += ((const uint8_t*)b)[k]; (void)probe;
    if ((size_t)*off + n > i->size) iresize(i, (size_t)*off + n);
    if ((size_t)*off <= UP(i->blocks) && (size_t)*off + n > i->blocks) i->blocks = (size_t)*off + n;
    memcpy(i->d + *off, b, n); *off += (off_t)n; i->clean_lie = 0; i->mtime = (int64_t)os_now_ns; return (ssize_t)n;
}
ssize_t sim_write(int fd, const void *b, size_t n) { enter("write"); ofd *o = FD(fd); if (!o) return -1; ssize_t r = do_write(o, b, n, &o->off); ev("write %d %zu -> %zd", fd, n, r); leave("write"); return r; }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t off) { enter("pwrite"); ofd *o = FD(fd); if (!o) return -1; if (off < 0) { errno = EINVAL; return -1; } ssize_t r = do_write(o, b, n, &off); leave("pwrite"); return r; }
ssize_t sim_writev(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int k = 0; k < c; k++) { ssize_t r = sim_write(fd, v[k].iov_base, v[k].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[k].iov_len) break; } return t; }
ssize_t sim_readv(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int k = 0; k < c; k++) { ssize_t r = sim_read(fd, v[k].iov_base, v[k].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[k].iov_len) break; } return t; }
off_t sim_lseek(int fd, off_t off, int wh)
{
    enter("lseek"); ofd *o = FD(fd); if (!o) return -1;
    off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->off : wh == SEEK_END ? (off_t)o->i->size : -1;
    if (b < 0 || b + off < 0) { errno = EINVAL; return -1; }
    return o->off = b + off;
}
int sim_fstat(int fd, struct stat *s) { enter("fstat"); ofd *o = FD(fd); if (!o) return -1; if (F("fstat", EIO, ENOMEM, EOVERFLOW)) return -1; fillstat(o->i, s); return 0; }
static int dostat(inode *st, const char *path, struct stat *s, int follow)
{
    inode *i; if (F("stat", EIO, EACCES, ENOMEM)) return -1;
    if (look(st, path, follow, &i)) { ev("stat %s -> %d", path, errno); return -1; }
    fillstat(i, s); ev("stat %s type %d", path, i->type); return 0;
}
int sim_stat(const char *p, struct stat *s) { enter("stat"); return dostat(cwd, p, s, 1); }
int sim_lstat(const char *p, struct stat *s) { enter("lstat"); return dostat(cwd, p, s, 0); }
int sim_fstatat(int dfd, const char *p, struct stat *s, int fl)
{
    if (!*p && (fl & AT_EMPTY_PATH)) return sim_fstat(dfd, s);
    enter("fstatat"); inode *st = *p == '/' ? rootdir : atdir(dfd); if (!st) return -1; return dostat(st, p, s, !(fl & AT_SYMLINK_NOFOLLOW));
}
int sim_newfstatat(int d, const char *p, struct stat *s, int f) { return sim_fstatat(d, p, s, f); }
int sim_faccessat(int dfd, const char *p, int m, int fl)
{
    (void)fl; enter("access"); inode *i, *st = *p == '/' ? rootdir : atdir(dfd); if (!st) return -1;
    if (F("stat", EIO, EACCES, ENOMEM)) return -1;
    if (look(st, p, 1, &i)) return -1;
    if ((m & R_OK && !perm(i, 4)) || (m & W_OK && !perm(i, 2)) || (m & X_OK && !perm(i, 1))) { errno = EACCES; return -1; } return 0;
}
int sim_access(const char *p, int m) { return sim_faccessat(AT_FDCWD, p, m, 0); }
static int do_unlink(inode *st, const char *path, int dir)
{
    inode *d, *i; char n[257];
    int r = walk(st, path, 0, &d, n, &i, 0);
    if (!r && !i) r = ENOENT;
    if (r) { errno = r; return -1; }
    if (!strcmp(n, ".") || !strcmp(n, "..")) { errno = dir ? EINVAL : EISDIR; return -1; }
    if (dir && i->type != OS_DIR) { errno = ENOTDIR; return -1; }
    if (!dir && i->type == OS_DIR) { errno = EISDIR; return -1; }
    if (!dir && trailing(path)) { errno = ENOTDIR; return -1; }
    if (dir && i->ne) { errno = ENOTEMPTY; return -1; }
    if (!perm(d, 3)) { errno = EACCES; return -1; }
    if (F("unlink", EIO, EACCES, EROFS, EBUSY)) return -1;
    jop++; ddel(d, dfind(d, n)); return 0;
}
int sim_unlinkat(int dfd, const char *p, int fl) { enter("unlink"); inode *st = *p == '/' ? rootdir : atdir(dfd); if (!st) return -1; int r = do_unlink(st, p, fl & AT_REMOVEDIR); ev("unlink %s -> %d %d", p, r, r ? errno : 0); leave("unlink"); return r; }
int sim_unlink(const char *p) { return sim_unlinkat(AT_FDCWD, p, 0); }
int sim_rmdir(const char *p) { return sim_unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
int sim_remove(const char *p) { inode *i; if (!look(cwd, p, 0, &i) && i->type == OS_DIR) return sim_rmdir(p); return sim_unlink(p); }
static int below(inode *x, inode *top) { for (; x; x = x->parent) { if (x == top) return 1; if (x == rootdir) return 0; } return 0; }
static int do_rename(inode *s1, const char *a, inode *s2, const char *b, unsigned fl)
{
    inode *d1, *i1, *d2, *i2; char n1[257], n2[257];
    int r = walk(s1, a, 0, &d1, n1, &i1, 0); if (!r && !i1) r = ENOENT;
    if (!r) r = walk(s2, b, 0, &d2, n2, &i2, 0);
    if (!r && (!strcmp(n1, ".") || !strcmp(n1, "..") || !strcmp(n2, ".") || !strcmp(n2, ".."))) r = EBUSY;
    if (!r && i1->type != OS_DIR && (trailing(a) || trailing(b))) r = ENOTDIR;
    if (!r && d1->fs != d2->fs) r = EXDEV;
    if (!r && i1->type == OS_DIR && below(d2, i1)) r = EINVAL;
    if (!r && i2 && (fl & 1)) r = EEXIST;
    if (!r && i2 && i2 != i1) { if (i2->type == OS_DIR && i1->type != OS_DIR) r = EISDIR; else if (i2->type != OS_DIR && i1->type == OS_DIR) r = ENOTDIR; else if (i2->type == OS_DIR && i2->ne) r = ENOTEMPTY; }
    if (!r && (!perm(d1, 3) || !perm(d2, 3))) r = EACCES;
    if (r) { errno = r; return -1; }
    if (F("rename", EIO, EACCES, ENOSPC, EROFS)) return -1;
    if (i1 == i2) return 0;
    jop++;
    if (i2) ddel(d2, dfind(d2, n2));
    ddel(d1, dfind(d1, n1)); dadd(d2, n2, i1);
    return 0;
}
int sim_renameat2(int f1, const char *a, int f2, const char *b, unsigned fl)
{
    enter("rename"); inode *s1 = *a == '/' ? rootdir : atdir(f1), *s2 = *b == '/' ? rootdir : atdir(f2); if (!s1 || !s2) return -1;
    int r = do_rename(s1, a, s2, b, fl); ev("rename %s %s -> %d %d", a, b, r, r ? errno : 0); leave("rename"); return r;
}
int sim_renameat(int f1, const char *a, int f2, const char *b) { return sim_renameat2(f1, a, f2, b, 0); }
int sim_rename(const char *a, const char *b) { return sim_renameat2(AT_FDCWD, a, AT_FDCWD, b, 0); }
int sim_linkat(int f1, const char *a, int f2, const char *b, int fl)
{
    enter("link"); inode *s1 = *a == '/' ? rootdir : atdir(f1), *s2 = *b == '/' ? rootdir : atdir(f2), *d1, *i1, *d2, *i2; char n1[257], n2[257]; if (!s1 || !s2) return -1;
    int r = walk(s1, a, fl & AT_SYMLINK_FOLLOW, &d1, n1, &i1, 0); if (!r && !i1) r = ENOENT; if (!r) r = walk(s2, b, 0, &d2, n2, &i2, 0);
    if (!r && i2) r = EEXIST; if (!r && d1->fs != d2->fs) r = EXDEV; if (!r && i1->type == OS_DIR) r = EPERM; if (!r && !perm(d2, 3)) r = EACCES;
    if (r) { errno = r; return -1; }
    if (F("link", EIO, EACCES, ENOSPC, EMLINK, EPERM)) return -1;
    jop++; dadd(d2, n2, i1); ev("link %s %s", a, b); leave("link"); return 0;
}
int sim_link(const char *a, const char *b) { return sim_linkat(AT_FDCWD, a, AT_FDCWD, b, 0); }
int sim_symlink(const char *t, const char *p)
{
    enter("symlink"); inode *d, *i; char n[257]; int r = walk(cwd, p, 0, &d, n, &i, 0); if (!r && i) r = EEXIST; if (!r && !perm(d, 3)) r = EACCES; if (r) { errno = r; return -1; }
    if (F("link", EIO, EACCES, ENOSPC)) return -1;
    i = inew(OS_LNK, 0777); i->link = strdup(t); jop++; dadd(d, n, i); leave("symlink"); return 0;
}
ssize_t sim_readlink(const char *p, char *b, size_t n) { enter("readlink"); inode *i; if (look(cwd, p, 0, &i)) return -1; if (i->type != OS_LNK) { errno = EINVAL; return -1; } size_t l = strlen(i->link); if (l < n) n = l; memcpy(b, i->link, n); return (ssize_t)n; }
int sim_mkdirat(int dfd, const char *p, mode_t m)
{
    enter("mkdir"); inode *d, *i, *st = *p == '/' ? rootdir : atdir(dfd); char n[257]; if (!st) return -1;
    int r = walk(st, p, -1, &d, n, &i, 0); if (!r && i) r = EEXIST; if (!r && !perm(d, 3)) r = EACCES;
    if (r) { errno = r; ev("mkdir %s -> %d", p, r); return -1; }
    if (F("mkdir", EIO, EACCES, ENOSPC, EROFS, EMLINK)) return -1;
    i = inew(OS_DIR, (int)m & ~umask_ & 07777); jop++; dadd(d, n, i); ev("mkdir %s %o -> 0", p, m); leave("mkdir"); return 0;
}
int sim_mkdir(const char *p, mode_t m) { return sim_mkdirat(AT_FDCWD, p, m); }
static int mktmp(char *t, int fl, int dir)
{
    size_t n = strlen(t); if (n < 6 || strcmp(t + n - 6, "XXXXXX")) { errno = EINVAL; return -1; }
    enter("mkstemp");
    static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    static uint64_t ctr; 
    for (int tries = 0; tries < 64; tries++) {
        uint64_t v = mix64(os_steps + (uint64_t)tries, 99 + nj); (void)ctr; for (int k = 0; k < 6; k++) { t[n - 6 + k] = al[v % 62]; v /= 62; }
        inode *i, *d; char nm[257]; int r = walk(cwd, t, 0, &d, nm, &i, 0); if (r) { errno = r; return -1; }
        if (i) continue;
        if (dir) return 0;
        if (F("mkstemp", EMFILE, EACCES, ENOSPC, EROFS)) return -1;
        int f = do_open(cwd, t, O_CREAT|O_EXCL|O_RDWR|fl, 0600); ev("mkstemp %s -> %d", t, f); leave("mkstemp"); return f;
    }
    errno = EEXIST; return -1;
}
int sim_mkostemp(char *t, int fl) { return mktmp(t, fl, 0); }
int sim_mkstemp(char *t) { return mktmp(t, 0, 0); }
char *sim_mkdtemp(char *t) { if (mktmp(t, 0, 1) < 0) return 0; return sim_mkdir(t, 0700) ? 0 : t; }
int sim_ftruncate(int fd, off_t n)
{
    enter("ftruncate"); ofd *o = FD(fd); if (!o) return -1;
    if (n < 0 || o->i->type != OS_REG || (o->flags & O_ACCMODE) == O_RDONLY) { errno = EINVAL; return -1; }
    if (n > (o->i->memfd >= 0 ? 1l << 36 : 1l << 30)) { errno = EFBIG; return -1; }
    if (F("ftruncate", EIO, ENOSPC, EFBIG, EINTR)) return -1;
    iresize(o->i, (size_t)n); o->i->clean_lie = 0; ev("ftruncate %d %ld", fd, (long)n); leave("ftruncate"); return 0;
}
int sim_truncate(const char *p, off_t n) { enter("truncate"); inode *i; if (look(cwd, p, 1, &i)) return -1; if (n < 0 || i->type != OS_REG) { errno = EINVAL; return -1; } if (F("ftruncate", EIO, ENOSPC)) return -1; iresize(i, (size_t)n); leave("truncate"); return 0; }
int sim_fallocate(int fd, int m, off_t o, off_t n) { (void)m; ofd *f = FD(fd); if (!f) return -1; if (F("ftruncate", EIO, ENOSPC, EOPNOTSUPP)) return -1; if ((size_t)(o + n) > f->i->size) iresize(f->i, (size_t)(o + n)); return 0; }
int sim_posix_fallocate(int fd, off_t o, off_t n) { int e = errno; int r = sim_fallocate(fd, 0, o, n) ? errno : 0; errno = e; return r; }
static int do_sync(int fd, const char *k)
{
    enter(k); ofd *o = FD(fd); if (!o) return -1;
    if (o->i->type == OS_CHR) { errno = EINVAL; return -1; }
    static const int er[] = { EIO, ENOSPC, EDQUOT, EINTR };
    if (io_fault(k, er, 3 + (o->i->type == OS_REG && 0))) { if (o->i->type == OS_REG) o->i->clean_lie = 1; return -1; }   /* the dirty pages are dropped from the write-back list */
    if (o->i->type == OS_REG) isync(o->i);
    /* a journal is a sequence: it is on disk up to the last edit of this directory, or of a name of this file */
    for (unsigned q = nj; q > jdur; q--) if (jr[q-1].dir == o->i || jr[q-1].i == o->i) { while (q < nj && jr[q].op == jr[q-1].op) q++; jdur = q; break; }
    ev("%s %d", k, fd); leave(k); return 0;
}
int sim_fsync(int fd) { return do_sync(fd, "fsync"); }
int sim_fdatasync(int fd) { return do_sync(fd, "fdatasync"); }
int sim_syncfs(int fd) { if (!FD(fd)) return -1; enter("syncfs"); for (inode *i = all; i; i = i->next) if (i->type == OS_REG) isync(i); jdur = nj; leave("syncfs"); return 0; }
void sim_sync(void) { enter("sync"); for (inode *i = all; i; i = i->next) if (i->type == OS_REG) isync(i); jdur = nj; leave("sync"); }

void *sim_mmap(void *want, size_t len, int prot, int flags, int fd, off_t off)
{
    enter("mmap"); inode *i = 0;
    if (!(flags & MAP_ANONYMOUS)) {
        ofd *o = FD(fd); if (!o) return MAP_FAILED; i = o->i;
        if (i->type != OS_REG) { errno = i->type == OS_CHR ? ENODEV : EACCES; return MAP_FAILED; }
        int acc = o->flags & O_ACCMODE;
        if (acc == O_WRONLY || ((flags & MAP_TYPE) == MAP_SHARED && (prot & PROT_WRITE) && acc == O_RDONLY)) { errno = EACCES; return MAP_FAILED; }
    }
    if (!len || (off & (off_t)(PG - 1)) || off < 0) { errno = EINVAL; return MAP_FAILED; }
    if (len > (1ull << 40)) { errno = ENOMEM; return MAP_FAILED; }
    if (off > (off_t)(1ll << 62)) { errno = EOVERFLOW; return MAP_FAILED; }
    if (F("mmap", ENOMEM, EAGAIN, ENODEV)) return MAP_FAILED;
    size_t l = UP(len);
    uint8_t *a = mmap(0, l + 2 * PG, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);    /* guard pages around it */
    if (a == MAP_FAILED) { errno = ENOMEM; return MAP_FAILED; }
    if (nresv < 1024) { resv[nresv].a = a; resv[nresv++].n = l + 2 * PG; } 
    a += PG; (void)want;
    if (i) { ipromote(i); if (mmap(a, l, prot, (flags & MAP_TYPE) | MAP_FIXED, i->memfd, off) == MAP_FAILED) harness_error("mmap of memfd"); }
    else if (mmap(a, l, prot, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED, -1, 0) == MAP_FAILED) { errno = ENOMEM; return MAP_FAILED; }
    if (nmp >= NMAP) { int k; for (k = 0; k < nmp; k++) if (!mp[k].live) { mp[k] = mp[--nmp]; break; } if (nmp >= NMAP) violation("leak", "more than %d mappings", NMAP); }
    mapping *m = &mp[nmp++]; *m = (mapping){ a, l, i, off, prot, flags, 1, 0, 0 }; if (i) i->refs++;
    if (i && os_cfg.full && (flags & MAP_TYPE) == MAP_SHARED && (prot & PROT_WRITE) && off == 0 && UP(i->blocks) < UP(i->size) && UP(i->blocks) < l && os_fault("disk-full")) {
        size_t h = UP(i->blocks), e = UP(i->size) < l ? UP(i->size) : l; uint8_t *full_at = a + h + (size_t)ch((uint32_t)((e - h) / PG)) * PG; ev("  no disk block for page %zu", (size_t)(full_at - a) / PG);
        if (mprotect(full_at, PG, PROT_READ)) harness_error("mprotect");
    }
    poison_tail(m); ev("mmap len %zu off %ld prot %d", len, (long)off, prot); leave("mmap"); return a;
}
int sim_munmap(void *p, size_t len)
{
    enter("munmap"); uint8_t *a = p;
    if (!len || ((uintptr_t)a & (PG - 1))) { errno = EINVAL; ev("munmap EINVAL"); return -1; }
    len = UP(len); ev("munmap len %zu", len);
    size_t covered = 0;
    for (int k = 0; k < nmp; k++) if (mp[k].live && mp[k].a < a + len && a < mp[k].a + mp[k].len) {
        mapping o = mp[k]; uint8_t *lo = a > o.a ? a : o.a, *hi = a + len < o.a + o.len ? a + len : o.a + o.len;
        covered += (size_t)(hi - lo);
        mapping mid = o; mid.a = lo; mid.len = (size_t)(hi - lo); 
        if (o.i) o.i->refs++; map_drop(&mid); mp[k].live = 0; if (o.i) o.i->refs--;
        if (lo > o.a) { mapping x = o; x.len = (size_t)(lo - o.a); x.live = 1; mp[nmp++] = x; poison_tail(&mp[nmp-1]); if (x.i) x.i->refs++; }
        if (hi < o.a + o.len) { mapping x = o; x.a = hi; x.len = (size_t)(o.a + o.len - hi); x.off += hi - o.a; x.live = 1; mp[nmp++] = x; poison_tail(&mp[nmp-1]); if (x.i) x.i->refs++; }
        k = -1; if (nmp > NMAP - 4) break;
    }
    if (covered != len) violation("bad-munmap", "munmap of %zu bytes of which only %zu are mapped", len, covered);
    leave("munmap"); return 0;
}
int sim_msync(void *a, size_t n, int fl)
{
    enter("msync"); static const int er[] = { EIO, ENOSPC };
    inode *i = 0; for (int k = 0; k < nmp; k++) if (mp[k].live && mp[k].a <= (uint8_t*)a && (uint8_t*)a < mp[k].a + mp[k].len) i = mp[k].i;
    (void)n; if (!i) { errno = ENOMEM; return -1; }
    if (io_fault("msync", er, 2)) { i->clean_lie = 1; return -1; }
    if (fl & MS_SYNC) isync(i);
    leave("msync"); return 0;
}
int sim_madvise(void *a, size_t n, int x) { (void)a; (void)n; (void)x; return 0; }
int sim_posix_madvise(void *a, size_t n, int x) { (void)a; (void)n; (void)x; return 0; }
int sim_mprotect(void *a, size_t n, int x) { return mprotect(a, UP(n), x); }
uintptr_t os_lock_lo, os_lock_hi; int os_lock_op;
static int lockrange(int op, const void *a, size_t n)
{
    enter("mlock"); os_lock_op = op; os_lock_lo = (uintptr_t)a & ~(PG - 1); os_lock_hi = UP((uintptr_t)a + n); uintptr_t at = os_lock_lo;
    while (at < os_lock_hi) { int k; for (k = 0; k < nmp; k++) if (mp[k].live && (uintptr_t)mp[k].a <= at && at < (uintptr_t)mp[k].a + mp[k].len) break; if (k == nmp) { errno = ENOMEM; return -1; } at = (uintptr_t)mp[k].a + mp[k].len; }
    if (F("mlock", ENOMEM, EPERM, EAGAIN)) return -1; return 0;
}
int sim_mlock(const void *a, size_t n) { return lockrange(1, a, n); }
int sim_munlock(const void *a, size_t n) { return lockrange(2, a, n); }
int sim_mlockall(int f) { (void)f; return 0; }
/* directories */
typedef struct { int fd; struct dirent de; int live, err; uint64_t ver; } SDIR;
static SDIR *dirs[128];
DIR *sim_fdopendir(int fd)
{
    ofd *o = FD(fd); if (!o) return 0; if (o->i->type != OS_DIR) { errno = ENOTDIR; return 0; }
    if (os_cfg.alloc && os_fault("alloc")) { errno = ENOMEM; return 0; }
    for (int k = 0; k < 128; k++) if (!dirs[k]) { dirs[k] = calloc(1, sizeof(SDIR)); dirs[k]->fd = fd; dirs[k]->live = 1; o->dpos = 0; return (DIR*)dirs[k]; }
    errno = EMFILE; return 0;
}
DIR *sim_opendir(const char *p)
{
    enter("opendir"); if (F("opendir", EACCES, EMFILE, ENFILE, ENOMEM, EIO)) { ev("opendir %s failed", p); return 0; }
    int save = os_cfg.io; os_cfg.io = 0; int f = do_open(cwd, p, O_RDONLY|O_DIRECTORY|O_CLOEXEC, 0); os_cfg.io = save; ev("opendir %s -> %d", p, f); if (f < 0) return 0;
    DIR *d = sim_fdopendir(f); if (!d) { int e = errno; fdclose(f); errno = e; } return d;
}
static SDIR *SD(DIR *d) { for (int k = 0; k < 128; k++) if (dirs[k] == (SDIR*)d) return dirs[k]; violation("bad-dir", "use of a directory stream that is not open"); }
static uint64_t name_cookie(const char *n) { uint64_t h = 77; for (; *n; n++) h = mix64(h, (unsigned char)*n); return (h >> 2) + 2; }
struct dirent *sim_readdir(DIR *dp)
{
    enter("readdir"); SDIR *s = SD(dp); ofd *o = FD(s->fd); if (!o) violation("bad-dir", "the descriptor of a directory stream was closed");
    if (F("readdir", EIO, EOVERFLOW)) return 0;
    inode *d = o->i; memset(&s->de, 0, sizeof s->de);
    if (o->dpos < 2) { unsigned k = (unsigned)o->dpos++; strcpy(s->de.d_name, k ? ".." : "."); s->de.d_ino = k ? (d->parent ? d->parent->ino : d->ino) : d->ino; s->de.d_type = DT_DIR; s->de.d_reclen = 24; return &s->de; }
    /* entries come in the order of a hash of their names, so that changes elsewhere in the directory neither hide nor repeat one */
    uint64_t best = UINT64_MAX; ent *be = 0;
    for (unsigned k = 0; k < d->ne; k++) { uint64_t c = name_cookie(d->e[k].name); if (c >= o->dpos && c < best) best = c, be = &d->e[k]; }
    if (!be) return 0;
    o->dpos = best + 1;
    inode *i = be->i; snprintf(s->de.d_name, sizeof s->de.d_name, "%s", be->name); s->de.d_ino = i->ino; s->de.d_reclen = (unsigned short)(24 + strlen(s->de.d_name));
    s->de.d_type = ch(4) == 1 ? DT_UNKNOWN : i->type == OS_DIR ? DT_DIR : i->type == OS_LNK ? DT_LNK : i->type == OS_REG ? DT_REG : i->type == OS_FIFO ? DT_FIFO : DT_CHR;
    ev("readdir %s", s->de.d_name); return &s->de;
}
void sim_rewinddir(DIR *dp) { SDIR *s = SD(dp); ofd *o = FD(s->fd); if (o) o->dpos = 0; }
int sim_dirfd(DIR *dp) { return SD(dp)->fd; }
int sim_closedir(DIR *dp)
{
    enter("closedir"); SDIR *s = SD(dp); for (int k = 0; k < 128; k++) if (dirs[k] == s) dirs[k] = 0;
    if (!FD(s->fd)) violation("bad-dir", "the descriptor of a directory stream was closed before the stream");
    fdclose(s->fd); free(s); ev("closedir"); return 0;
}
int sim_chdir(const char *p) { enter("chdir"); inode *i; if (F("chdir", EACCES, EIO, ENOMEM)) return -1; if (look(cwd, p, 1, &i)) return -1; if (i->type != OS_DIR) { errno = ENOTDIR; return -1; } if (!perm(i, 1)) { errno = EACCES; return -1; } cwd->refs--; cwd = i; cwd->refs++; ev("chdir %s", p); return 0; }
int sim_fchdir(int fd) { enter("fchdir"); ofd *o = FD(fd); if (!o) return -1; if (F("fchdir", EACCES, EIO)) return -1; if (o->i->type != OS_DIR) { errno = ENOTDIR; return -1; } if (!perm(o->i, 1)) { errno = EACCES; return -1; } cwd->refs--; cwd = o->i; cwd->refs++; ev("fchdir %d", fd); return 0; }
char *sim_getcwd(char *b, size_t n) { enter("getcwd"); char t[PATH_MAX]; const char *p = ipath(cwd, t); if (!p) { errno = ENOENT; return 0; } if (!b) { if (!n) n = strlen(p) + 1; if (strlen(p) >= n) { errno = ERANGE; return 0; } b = sim_malloc(n); if (!b) return 0; } if (strlen(p) >= n) { errno = ERANGE; return 0; } strcpy(b, p); return b; }
mode_t sim_umask(mode_t m) { mode_t o = (mode_t)umask_; umask_ = m & 0777; ev("umask %o", m); return o; }
int sim_chmod(const char *p, mode_t m) { enter("chmod"); inode *i; if (F("chmod", EIO, EPERM)) return -1; if (look(cwd, p, 1, &i)) return -1; i->mode = m & 07777; ev("chmod %s %o", p, m); return 0; }
int sim_fchmod(int fd, mode_t m) { enter("chmod"); ofd *o = FD(fd); if (!o) return -1; if (F("chmod", EIO, EPERM)) return -1; o->i->mode = m & 07777; return 0; }
int sim_fchmodat(int d, const char *p, mode_t m, int f) { (void)f; (void)d; return sim_chmod(p, m); }
int sim_chown(const char *p, uid_t u, gid_t g) { (void)p; (void)u; (void)g; return 0; }
int sim_fchown(int p, uid_t u, gid_t g) { (void)p; (void)u; (void)g; return 0; }
int sim_dup3(int a, int b, int fl)
{
    enter("dup"); ofd *o = FD(a); if (!o) return -1; if (b < 0 || b >= NFD) { errno = EBADF; return -1; }
    if (F("dup", EINTR, EMFILE, EBUSY)) return -1;
    if (a == b) return b;
    if (fdt[b]) fdclose(b);
    fdt[b] = o; o->refs++; fdcloexec[b] = (fl & O_CLOEXEC) != 0; ev("dup %d %d", a, b); return b;
}
int sim_dup2(int a, int b) { return sim_dup3(a, b, 0); }
static int dupmin(int a, int min, int ce) { ofd *o = FD(a); if (!o) return -1; if (min < os_cfg.fd_base) min = os_cfg.fd_base; for (int f = min; f < NFD; f++) if (!fdt[f]) { fdt[f] = o; o->refs++; fdcloexec[f] = ce; return f; } errno = EMFILE; return -1; }
int sim_dup(int a) { enter("dup"); if (!FD(a)) return -1; if (F("dup", EMFILE)) return -1; return dupmin(a, 0, 0); }
int sim_fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    enter("fcntl"); ofd *o = FD(fd); if (!o) return -1;
    if (F("fcntl", ENOLCK, EMFILE)) return -1;
    switch (cmd) { case F_GETFD: return fdcloexec[fd]; case F_SETFD: fdcloexec[fd] = (int)arg & 1; return 0; case F_GETFL: return o->flags; case F_SETFL: o->flags = (o->flags & O_ACCMODE) | ((int)arg & ~O_ACCMODE); return 0;
      case F_DUPFD: return dupmin(fd, (int)arg, 0); case F_DUPFD_CLOEXEC: return dupmin(fd, (int)arg, 1); default: return 0; }
}
static int istty(int fd) { ofd *o = FD(fd); if (!o) return 0; if (o->i->type == OS_CHR && o->i->dev == 0x500) return 1; errno = ENOTTY; return 0; }
int sim_isatty(int fd) { enter("isatty"); return istty(fd); }
int sim_tcgetattr(int fd, struct termios *t) { enter("tcgetattr"); if (!istty(fd)) return -1; if (F("tcgetattr", EIO, ENOTTY)) { os_tty.get_fail++; return -1; } *t = os_tty.tio; return 0; }
int sim_tcsetattr(int fd, int how, const struct termios *t)
{
    (void)how; enter("tcsetattr"); if (!istty(fd)) return -1;
    if (F("tcsetattr", EIO, EINTR)) { os_tty.set_fail++; return -1; }
    os_tty.tio = *t; os_tty.nset++; ev("tcsetattr lflag %x", t->c_lflag); return 0;
}
int sim_ioctl(int fd, unsigned long req, ...)
{
    va_list ap; va_start(ap, req); void *arg = va_arg(ap, void*); va_end(ap);
    enter("ioctl");
    if (req == TIOCGWINSZ) { if (!istty(fd)) return -1; if (os_tty.winsz_fail || F("winsize", EINTR, ENOTTY)) { errno = ENOTTY; return -1; } struct winsize *w = arg; memset(w, 0, sizeof *w); w->ws_col = (unsigned short)os_tty.cols; w->ws_row = (unsigned short)os_tty.rows; return 0; }
    if (req == TCGETS) return sim_tcgetattr(fd, arg);
    if (req == TIOCNOTTY) return 0;
    extern int (*os_ioctl_hook)(int, unsigned long, void *); 
    if (os_ioctl_hook) return os_ioctl_hook(fd, req, arg);
    errno = ENOTTY; return -1;
}
int (*os_ioctl_hook)(int, unsigned long, void *);
/* entropy, time, identity */
int sim_getentropy(void *p, size_t n)
{
    enter("getentropy"); if (n > 256) { errno = EIO; return -1; }
    if (os_cfg.entropy && os_fault("getentropy")) { errno = ch(2) ? ENOSYS : EIO; return -1; }
    entropy(p, n); return 0;
}
ssize_t sim_getrandom(void *p, size_t n, unsigned fl)
{
    (void)fl; enter("getrandom");
    if (os_cfg.entropy && os_fault("getentropy")) { static const int e[] = { EINTR, EAGAIN, ENOSYS }; errno = e[ch(3)]; return -1; }
    if (n > 256 && os_cfg.shortio && os_fault("short_read")) n = 256;
    entropy(p, n); return (ssize_t)n;
}
int sim_clock_gettime(clockid_t c, struct timespec *t) { enter("clock"); if (os_cfg.clockf && os_fault("clock")) { errno = EINVAL; return -1; } uint64_t n = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? os_now_ns : dst_sim_ns; t->tv_sec = (time_t)(n / 1000000000ull + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? os_now_sec : 0)); t->tv_nsec = (long)(n % 1000000000ull); return 0; }
int sim_gettimeofday(struct timeval *t, void *z) { (void)z; enter("clock"); if (os_cfg.clockf && os_fault("clock")) { errno = EFAULT; return -1; } t->tv_sec = (time_t)(os_now_ns / 1000000000ull + os_now_sec); t->tv_usec = (suseconds_t)(os_now_ns % 1000000000ull / 1000); return 0; }
time_t sim_time(time_t *t) { enter("clock"); time_t v = (time_t)(os_now_ns / 1000000000ull + os_now_sec); if (t) *t = v; return v; }
int sim_nanosleep(const struct timespec *a, struct timespec *b) { (void)b; dst_sim_ns += (uint64_t)a->tv_sec * 1000000000ull + (uint64_t)a->tv_nsec; os_now_ns += (uint64_t)a->tv_sec * 1000000000ull + (uint64_t)a->tv_nsec; return 0; }
int sim_usleep(unsigned u) { dst_sim_ns += u * 1000ull; os_now_ns += u * 1000ull; return 0; }
unsigned sim_sleep(unsigned s) { dst_sim_ns += s * 1000000000ull; os_now_ns += s * 1000000000ull; return 0; }
pid_t sim_getpid(void) { return os_pid; }
pid_t sim_getppid(void) { return os_ppid_; }
uid_t sim_getuid(void) { return 1000; }
uid_t sim_geteuid(void) { return 1000; }
gid_t sim_getgid(void) { return 1000; }
gid_t sim_getegid(void) { return 1000; }
pid_t sim_fork(void) { enter("fork"); if (!os_fork_hook) violation("fork", "fork called"); return os_fork_hook(); }
int os_sid, os_pgid;
pid_t sim_setsid(void) { enter("setsid"); if (os_pgid == os_pid) { errno = EPERM; return -1; } os_sid = os_pgid = os_pid; ev("setsid %d", os_pid); return os_pid; }
pid_t sim_getpgrp(void) { return os_pgid; }
pid_t sim_getsid(pid_t p) { if (p && p != os_pid) { errno = ESRCH; return -1; } return os_sid; }
int sim_setpgid(pid_t p, pid_t g) { if (os_sid == os_pid || (p && p != os_pid)) { errno = EPERM; return -1; } os_pgid = g ? g : os_pid; return 0; }
pid_t sim_vfork(void) { return sim_fork(); }
void sim_exit(int c) { if (os_exit_hook) os_exit_hook(c, 0); violation("exit", "the code under test ended the process with exit(%d)", c); }
void sim__exit(int c) { if (os_exit_hook) os_exit_hook(c, 1); violation("exit", "the code under test ended the process with _exit(%d)", c); }
void sim__Exit(int c) { sim__exit(c); }
int sim_kill(pid_t p, int s) { (void)p; (void)s; violation("kill", "the code under test signals a process"); }
int sim_raise(int s) { (void)s; violation("kill", "the code under test signals itself"); }
void sim_abort(void) { if (os_abort_hook) os_abort_hook(); violation("crash:SIGABRT", "the code under test called abort()"); }
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { const char *b = strrchr(f, '/'); (void)l; violation("crash:assert", "assertion '%s' failed in %s (%s)", e, fn, b ? b + 1 : f); }
/* stdio over simulated descriptors */
FILE *sim_stdin, *sim_stdout, *sim_stderr;
static struct { FILE *f; int fd; } ftab[64];
static ssize_t ck_read(void *c, char *b, size_t n) { return sim_read((int)(intptr_t)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t r = sim_write((int)(intptr_t)c, b, n); return r < 0 ? 0 : r; }
static int ck_close(void *c) { return sim_close((int)(intptr_t)c); }
static int ck_seek(void *c, off64_t *o, int w) { off_t r = sim_lseek((int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
FILE *os_fdopen(int fd, const char *mode)
{
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    FILE *f = fopencookie((void*)(intptr_t)fd, mode, io); if (!f) return 0;
    for (int k = 0; k < 64; k++) if (!ftab[k].f) { ftab[k].f = f; ftab[k].fd = fd; return f; }
    violation("leak", "more than 64 streams are open");
}
unsigned os_live_files(void) { unsigned n = 0; for (int k = 0; k < 64; k++) n += ftab[k].f && ftab[k].f != sim_stdin && ftab[k].f != sim_stdout && ftab[k].f != sim_stderr; return n; }
FILE *sim_fdopen(int fd, const char *m) { if (!FD(fd)) return 0; if (os_cfg.alloc && os_fault("alloc")) { errno = ENOMEM; return 0; } return os_fdopen(fd, m); }
FILE *sim_fopen(const char *p, const char *m)
{
    int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY|O_CREAT|O_TRUNC : O_WRONLY|O_CREAT|O_APPEND; if (strchr(m, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
    if (os_cfg.alloc && os_fault("alloc")) { errno = ENOMEM; return 0; }
    int fd = sim_openat(AT_FDCWD, p, fl, 0666); if (fd < 0) return 0; return os_fdopen(fd, m);
}
int sim_fclose(FILE *f) { for (int k = 0; k < 64; k++) if (ftab[k].f == f) { ftab[k].f = 0; return fclose(f); } violation("bad-fclose", "fclose of a stream that is not open"); }
int sim_fileno(FILE *f) { for (int k = 0; k < 64; k++) if (ftab[k].f == f) return ftab[k].fd; errno = EBADF; return -1; }
int sim_fileno_unlocked(FILE *f) { return sim_fileno(f); }

/* ------------------------------------------------------------------ harness access */
static inode *hlook(const char *p) { inode *i, *d; char n[257]; internal++; int r = walk(rootdir, p, 0, &d, n, &i, 0); internal--; return r ? 0 : i; }
int os_type(const char *p) { inode *i = hlook(p); return i ? i->type : OS_NONE; }
int os_at_cwd(const char *path, int follow, struct stat *st) { inode *i; internal++; int r = look(cwd, path, follow, &i); internal--; if (r) return -1; fillstat(i, st); return 0; }
unsigned os_list_at_cwd(const char *path, char names[][256], unsigned max) { inode *i; internal++; int r = look(cwd, path, 1, &i); internal--; if (r || i->type != OS_DIR) return 0; unsigned n = 0; for (unsigned k = 0; k < i->ne && n < max; k++) snprintf(names[n++], 256, "%s", i->e[k].name); return n; }
uint64_t os_ino(const char *p) { inode *i = hlook(p); return i ? i->ino : 0; }
static inode *hparent(const char *p, char *n) { inode *i, *d; internal++; int r = walk(rootdir, p, 0, &d, n, &i, 0); internal--; return r ? 0 : d; }
int os_mkdir(const char *p, int mode)
{
    char b[PATH_MAX]; snprintf(b, sizeof b, "%s", p);
    for (char *q = b + 1; ; q++) if (*q == '/' || !*q) { char c = *q; *q = 0; inode *i = hlook(b); if (!i) { char n[257]; inode *d = hparent(b, n); if (!d) return -1; i = inew(OS_DIR, mode); jop++; dadd(d, n, i); } else if (i->type != OS_DIR) return -1; *q = c; if (!c) break; }
    return 0;
}
int os_put(const char *p, const void *d, size_t n, int mode)
{
    char nm[257]; inode *dir = hparent(p, nm); if (!dir) return -1; inode *i = hlook(p);
    if (!i) { i = inew(OS_REG, mode); jop++; dadd(dir, nm, i); }
    iresize(i, n); if (n) memcpy(i->d, d, n); return 0;
}
/* a file of n bytes, all zero, that takes no memory until it is written to; returns its content */
void *os_sparse(const char *p, size_t n)
{
    if (os_put(p, "", 0, 0644)) return 0; inode *i = hlook(p); ipromote(i); iresize(i, n); return i->d;
}
void *os_sparse_cut(const char *p, size_t n) { inode *i = hlook(p); if (!i || !i->d) return 0; iresize(i, n); return i->d; }
long os_get(const char *p, void *b, size_t cap) { inode *i = hlook(p); if (!i || i->type != OS_REG) return -1; size_t n = i->size < cap ? i->size : cap; if (n) memcpy(b, i->d, n); return (long)i->size; }
const void *os_content(const char *p, size_t *n) { inode *i = hlook(p); if (!i || i->type != OS_REG) return 0; *n = i->size; return i->d ? (void*)i->d : (void*)""; }
static int next_fs;
void os_mount(const char *p) { inode *i = hlook(p); if (i) i->fs = ++next_fs; }
int os_symlink(const char *t, const char *p) { char nm[257]; inode *dir = hparent(p, nm); if (!dir || dfind(dir, nm)) return -1; inode *i = inew(OS_LNK, 0777); i->link = strdup(t); jop++; dadd(dir, nm, i); return 0; }
int os_mknod(const char *p, int type, int dev) { char nm[257]; inode *dir = hparent(p, nm); if (!dir || dfind(dir, nm)) return -1; inode *i = inew(type, 0666); i->dev = dev; jop++; dadd(dir, nm, i); return 0; }
static void rmtree(inode *d) { while (d->ne) { inode *i = d->e[d->ne - 1].i; if (i->type == OS_DIR) rmtree(i); ddel(d, &d->e[d->ne - 1]); } }
int os_rm(const char *p) { char nm[257]; inode *dir = hparent(p, nm); if (!dir) return -1; ent *e = dfind(dir, nm); if (!e) return -1; jop++; if (e->i->type == OS_DIR) rmtree(e->i); e = dfind(dir, nm); ddel(dir, e); return 0; }
int os_mv(const char *a, const char *b) { internal++; int s = in_hook, io = os_cfg.io; in_hook = 1; os_cfg.io = 0; int r = do_rename(rootdir, a, rootdir, b, 0); in_hook = s; os_cfg.io = io; internal--; return r; }
int os_chmod(const char *p, int m) { inode *i = hlook(p); if (!i) return -1; i->mode = m; return 0; }
int os_lstat(const char *p, struct stat *s) { inode *i = hlook(p); if (!i) return -1; fillstat(i, s); return 0; }
static int cmpn(const void *a, const void *b) { return strcmp(a, b); }
unsigned os_list(const char *dir, char names[][256], unsigned max)
{
    inode *d = hlook(dir); unsigned n = 0; if (!d || d->type != OS_DIR) return 0;
    for (unsigned k = 0; k < d->ne && n < max; k++) strcpy(names[n++], d->e[k].name);
    qsort(names, n, 256, cmpn); return n;
}
static void walkrec(inode *d, char *path, size_t len, void (*fn)(void *, const char *, int), void *ctx)
{
    for (unsigned k = 0; k < d->ne; k++) {
        inode *i = d->e[k].i; size_t n = (size_t)snprintf(path + len, PATH_MAX - len, "/%s", d->e[k].name);
        fn(ctx, path, i->type); if (i->type == OS_DIR && len + n < PATH_MAX - 300) walkrec(i, path, len + n, fn, ctx);
    }
    path[len] = 0;
}
void os_walk(const char *dir, void (*fn)(void *, const char *, int), void *ctx)
{
    static char path[PATH_MAX + 8]; inode *d = hlook(dir); if (!d || d->type != OS_DIR) return;
    snprintf(path, sizeof path, "%s", strcmp(dir, "/") ? dir : ""); walkrec(d, path, strlen(path), fn, ctx);
}
static void hashfn(void *c, const char *p, int t)
{
    uint64_t *h = c, x = 1469598103934665603ull; for (; *p; p++) x = (x ^ (uint8_t)*p) * 1099511628211ull; *h += mix64(x, (uint64_t)t);
}
uint64_t os_tree_hash(const char *dir) { uint64_t h = 7; os_walk(dir, hashfn, &h); return h; }
const char *os_cwd(void) { static char b[PATH_MAX]; const char *p = ipath(cwd, b); return p ? p : "?"; }
uint64_t os_cwd_ino(void) { return cwd->ino; }
int os_umask_now(void) { return umask_; }
int os_fd_open(const char *p, int fl) { internal++; int s = in_hook, io = os_cfg.io; in_hook = 1; os_cfg.io = 0; int f = do_open(cwd, p, fl, 0644); in_hook = s; os_cfg.io = io; internal--; return f; }
void os_fd_set(int fd, const char *p, int fl) { int f = os_fd_open(p, fl); if (f < 0) harness_error("os_fd_set %s", p); if (f != fd) { if (fdt[fd]) fdclose(fd); fdt[fd] = fdt[f]; fdt[f] = 0; } }

/* ------------------------------------------------------------------ crash model */
static void snap_dir(inode *d) { free(d->de); d->de = malloc((d->ne + 1) * sizeof(ent)); if (d->ne) memcpy(d->de, d->e, d->ne * sizeof(ent)); d->nde = d->ne; d->durable_known = 1; }
void os_durable_point(void)
{
    for (inode *i = all; i; i = i->next) { if (i->type == OS_DIR) snap_dir(i); if (i->type == OS_REG) { i->clean_lie = 0; isync(i); } }
    nj = jdur = 0; jop = 0; jon = 1;
}
void os_crash_now(void) { longjmp(os_crash_jmp, 1); }
static void drop_process(void)
{
    for (int k = 0; k < nmp; k++) if (mp[k].live) map_drop(&mp[k]);
    nmp = 0;
    for (int k = 0; k < 64; k++) if (ftab[k].f) { FILE *f = ftab[k].f; ftab[k].f = 0; (void)f; }
    for (int k = 0; k < 128; k++) if (dirs[k]) { free(dirs[k]); dirs[k] = 0; }
    for (int f = 0; f < NFD; f++) if (fdt[f]) fdclose(f);
    os_heap_forget(); sim_stdin = sim_stdout = sim_stderr = 0;
}
/* keeps the journal up to a chosen, legal point and a legal version of unsynced data */
void os_crash_apply(void)
{
    drop_process();
    unsigned keep = jdur;
    if (nj > jdur) {
        unsigned lo = jdur ? jr[jdur - 1].op : 0, nops = 0, last = lo; (void)lo;
        for (unsigned k = jdur; k < nj; k++) if (k == jdur || jr[k].op != last) { nops++; last = jr[k].op; }
        unsigned take = ch(nops + 1), seen = 0; 
        for (unsigned k = jdur; k < nj; k++) { if (k == jdur || jr[k].op != jr[k-1].op) seen++; if (seen > take) break; keep = k + 1; }
    }
    ev("crash: %u of %u directory edits survive (%u were synced)", keep, nj, jdur);
    tally("crashes_applied", 1);
    for (inode *i = all; i; i = i->next) {
        i->parent = i == rootdir ? 0 : i->parent;
        if (i->type == OS_DIR) { i->ne = 0; i->nlink = 2; if (i->durable_known) { if (i->nde > i->ce) { i->ce = i->nde + 4; i->e = realloc(i->e, i->ce * sizeof(ent)); } if (i->nde) memcpy(i->e, i->de, i->nde * sizeof(ent)); i->ne = i->nde; } }
        else i->nlink = 0;
    }
    int s = jon; jon = 0;
    for (unsigned k = 0; k < keep; k++) {
        jrec *r = &jr[k]; 
        if (r->add) dadd(r->dir, r->name, r->i);
        else { ent *e = dfind(r->dir, r->name); if (e) ddel(r->dir, e); }
    }
    jon = s;
    for (inode *i = all; i; i = i->next) if (i->type == OS_DIR) for (unsigned k = 0; k < i->ne; k++) { if (i->e[k].i->type == OS_DIR) i->e[k].i->parent = i; }
    for (inode *i = all; i; i = i->next) if (i->type != OS_DIR) i->nlink = 0;
    for (inode *i = all; i; i = i->next) if (i->type == OS_DIR) for (unsigned k = 0; k < i->ne; k++) i->e[k].i->nlink += i->e[k].i->type != OS_DIR;
    for (inode *i = all; i; i = i->next) if (i->type == OS_REG && i->nlink) {
        size_t os = i->durseen ? i->dsize : 0, ns = i->size; const uint8_t *o = i->dur;
        if (os == ns && (!ns || !memcmp(o, i->d, ns))) continue;
        unsigned m = ch(4); size_t z = m == 0 ? os : m == 1 ? ns : m == 2 ? (ns > os ? ns : os) : 0;
        if (m == 3) z = (ns ? (ch((uint32_t)(ns / PG) + 1)) * PG : 0);
        unsigned pages = ch(4);          /* 0 all old, 1 all new, 2,3 page by page */
        uint8_t *b = calloc(1, z + 1);
        uint64_t seed = pages >= 2 ? ch_seed() : 0; prng g = { seed };
        for (size_t p = 0; p < z; p += PG) {
            size_t l = z - p < PG ? z - p : PG; unsigned how = pages == 0 ? 0 : pages == 1 ? 1 : (unsigned)(prng_next(&g) % 4);
            for (size_t x = 0; x < l; x += 512) {
                unsigned h2 = how == 3 ? (unsigned)(prng_next(&g) % 3) : how;   /* 0 old 1 new 2 zero 3 torn in sectors */
                size_t l2 = l - x < 512 ? l - x : 512, q = p + x;
                const uint8_t *src = h2 == 0 ? o : h2 == 1 ? i->d : 0; size_t lim = h2 == 0 ? os : h2 == 1 ? ns : 0;
                if (src && q < lim) memcpy(b + q, src + q, l2 < lim - q ? l2 : lim - q);
            }
        }
        ev("crash: file ino %llu: old %zu new %zu -> %zu bytes, pages mode %u", (unsigned long long)i->ino, os, ns, z, pages);
        iresize(i, z); if (z) memcpy(i->d, b, z);
        free(b);
    }
    cwd = rootdir; 
    os_durable_point();
}

void os_low_fds(void) { if (ch(6) == 1) { os_cfg.fd_base = 0; fault_note("no_std_descriptors"); } }
void os_reset(void)
{
    static const os_cfg_t Z;
    drop_process();
    for (int k = 0; k < nresv; k++) { munmap(resv[k].a, resv[k].n); }
    nresv = 0;
    for (inode *i = all, *n; i; i = n) { n = i->next; ifree(i); }
    all = 0; next_ino = 2; nj = jdur = jop = 0; jon = 0; nfc = 0; nfired = 0; in_hook = 0; internal = 0;
    os_cfg = Z; os_cfg.fd_base = 100; os_hook = 0; os_entropy = 0; os_exit_hook = 0; os_abort_hook = 0; os_fork_hook = 0; os_ioctl_hook = 0; os_steps = 0;
    os_now_sec = 0; os_now_ns = 1700000000ull * 1000000000ull; os_pid = 4242; os_ppid_ = 1; os_sid = os_pgid = 4242; umask_ = 022; ent_key = 0x5eed; os_entropy_calls = os_entropy_bytes = 0;
    memset(&os_tty, 0, sizeof os_tty); os_tty.cols = 80; os_tty.rows = 24; os_tty.tio.c_lflag = ECHO|ICANON|ISIG|ECHONL; os_tty.tio.c_iflag = ICRNL; os_tty.tio.c_cc[VINTR] = 3;
    rootdir = inew(OS_DIR, 0755); rootdir->parent = rootdir; cwd = rootdir; cwd->refs++; rootdir->fs = next_fs = 1;
}
