/* Shared by D01/D03 (saving) : crash-and-error search over a sequence of saves of changing objects to one path. */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
/* from obj_*.h: void obj_choose(void) picks a new model, obj_more() changes it, void *obj_build(void), obj_delete, obj_save, obj_load(path, mapped, &o), obj_same(a,b), obj_describe */
static int loads_as_model(const char *path)      /* no faults: does the file load as the object of the model? */
{
    void *x = 0, *y = obj_build(); int r = obj_load(path, 0, &x);
    if (r == 0) { r = obj_same(x, y) ? 1 : 0; obj_delete(x); } else r = -1;
    obj_delete(y); return r;
}

#define NIMG 8
#define OTH 7            /* what another process saves to the same path meanwhile */
static struct { uint8_t *d; size_t n; int load; } img[NIMG]; static unsigned nimg; static int allowed[NIMG + 1], acked; /* index NIMG: as it was before */
static uint8_t *pre; static size_t npre; static int pretype;
static const char *PATHNAME, *DIRNAME, *ABS;
static void *oth; static unsigned oth_at, oth_seen, oth_last; static int oth_done;
static char extra[16][64]; static unsigned nextra;
int sim_chdir(const char *);
static void keep(uint8_t **d, size_t *n, const char *path) { size_t z; const void *c = os_content(path, &z); free(*d); *d = malloc(z + 1); memcpy(*d, c, z); *n = z; }
static int at_path(void)          /* which image is at the path: -1 nothing, NIMG what was there first, k, or -2 something else */
{
    int t = os_type(ABS);
    if (t == OS_NONE) return pretype == OS_NONE ? NIMG : -1;
    if (t != OS_REG) return pretype == t ? NIMG : -2;
    size_t z; const void *c = os_content(ABS, &z);
    for (int k = (int)nimg - 1; k >= 0; k--) if (img[k].n == z && !memcmp(img[k].d, c, z)) return k;
    if (oth_done && img[OTH].n == z && !memcmp(img[OTH].d, c, z)) return OTH;
    return pretype == OS_REG && npre == z && !memcmp(pre, c, z) ? NIMG : -2;
}
static const char *what(int k) { static char b[4][40]; static int i; i = (i + 1) & 3; if (k == -1) return "nothing"; if (k == -2) return "a damaged or foreign file"; if (k == NIMG) return "what was there before"; snprintf(b[i], 40, "file number %d", k); return b[i]; }
static void strays(const char *when)
{
    static char nm[64][256]; unsigned n = os_list(DIRNAME, nm, 64);
    for (unsigned i = 0; i < n; i++) {
        int ok = !strcmp(nm[i], strrchr(ABS, '/') + 1);
        for (unsigned k = 0; k < nextra; k++) ok |= !strcmp(nm[i], extra[k]);
        if (!ok) violation("stray-file", "%s leaves %s behind", when, nm[i]);
    }
}
static unsigned f_at_rename;
static void on_call(const char *call)
{
    if (!strcmp(call, "rename")) f_at_rename = os_fired("");
    if (oth && oth_at && ++oth_seen == oth_at) {     /* another process saves its object to the same path now, from beginning to end */
        os_cfg_t c = os_cfg; os_cfg.io = os_cfg.full = os_cfg.alloc = os_cfg.crash = 0;
        unsigned f = os_open_fds(), m = os_live_maps(); size_t h = os_heap_live();
        int was = at_path(), e = errno;
        os_hook = 0; os_pid += 7; oth_done = 1;
        int q = obj_save(oth, PATHNAME);
        os_pid -= 7; os_hook = on_call; os_cfg = c; errno = e;
        ev("before %s: another process saves to %s -> %d", call, PATHNAME, q);
        if (os_type(ABS) == OS_DIR) { oth_done = 0; CHECK(q < 0, "not-saved", "saving over a directory succeeded"); return; }
        CHECK(q == 0, "spurious-failure", "saving fails with %d while another process saves to the same path", q);
        int now = at_path(); CHECK(now == OTH, "not-saved", "saving succeeded (while another process saves to the same path), but the path holds %s", what(now));
        CHECK(os_open_fds() == f && os_live_maps() == m && os_heap_live() == h, "leak", "saving leaves something behind");
        oth_last = was == (int)nimg - 1 ? 2 : 1;     /* 2: the first one's file was there already */
        memset(allowed, 0, sizeof allowed); allowed[OTH] = 1; acked = OTH; tally("saves_by_another_process", 1); fault_note("other-process");
    }
}
static void save_run(void)
{
    os_reset(); os_low_fds(); os_hook = 0;
    static const struct { const char *cwd, *path, *dir, *abs; } where[] = {
        { "/", "/data/f.dat", "/data", "/data/f.dat" }, { "/data", "f.dat", "/data", "/data/f.dat" }, { "/data", "sub/x", "/data/sub", "/data/sub/x" },
        { "/", "/top", "/", "/top" }, { "/data/sub", "../f", "/data", "/data/f" }, { "/data", "./y.tmp", "/data", "/data/y.tmp" },
    };
    unsigned w = ch(NELEM(where)); PATHNAME = where[w].path; DIRNAME = where[w].dir; ABS = where[w].abs;
    os_mkdir("/data/sub", 0755); os_mkdir("/ref", 0755); if (ch(2)) os_mount(DIRNAME);   /* a file system of its own */
    nextra = 0; if (!strcmp(DIRNAME, "/")) { strcpy(extra[nextra++], "data"); strcpy(extra[nextra++], "ref"); } else if (!strcmp(DIRNAME, "/data")) strcpy(extra[nextra++], "sub");
    if (ch(2)) { char b[300]; snprintf(b, sizeof b, "%s/other", DIRNAME); os_put(b, "abc", 3, 0644); strcpy(extra[nextra++], "other"); }
    static uint8_t garbage[20000]; prng g = { ch_seed() };
    pretype = OS_NONE; unsigned pk = ch(4);
    if (pk == 1 || pk == 2) { size_t z = pk == 1 ? ch(200) : ch(sizeof garbage); for (size_t i = 0; i < z; i++) garbage[i] = (uint8_t)prng_next(&g); os_put(ABS, garbage, z, 0600); pretype = OS_REG; keep(&pre, &npre, ABS); }
    if (pk == 3 && ch(4) == 3) { os_mkdir(ABS, 0755); pretype = OS_DIR; }
    nimg = 0; acked = NIMG; memset(allowed, 0, sizeof allowed); allowed[NIMG] = 1;
    os_durable_point();
    sim_chdir(where[w].cwd);
    static size_t base; static unsigned fds, maps, rounds, nsave, nfail, ncrash, r; static int mode; static void *o; static char desc[200];
    base = os_heap_live(); fds = os_open_fds(); maps = os_live_maps();
    rounds = 1 + ch(4); nsave = nfail = ncrash = 0; mode = (int)ch(4);   /* 0: I/O errors, 1: crash, 2: both, 3: none but memory */
    oth = 0; oth_done = 0; oth_at = 0;
    if (ch(3) == 2) {
        obj_choose(); oth = obj_build();
        int q = obj_save(oth, "/ref/r"); CHECK(q == 0, "spurious-failure", "saving fails with %d without cause", q);
        keep(&img[OTH].d, &img[OTH].n, "/ref/r"); os_rm("/ref/r");
    }
    obj_choose(); o = obj_build();
    for (r = 0; r < rounds; r++) {
        /* what the complete file would look like (no faults) */
        os_cfg.io = os_cfg.full = os_cfg.alloc = os_cfg.crash = 0; os_hook = 0;
        if (r) { obj_delete(o); if (ch(3)) obj_more(); else obj_choose(); o = obj_build(); }
        obj_describe(desc, sizeof desc);
        int q = obj_save(o, "/ref/r");
        CHECK(q == 0, "spurious-failure", "saving fails with %d without cause", q);
        CHECK(os_type("/ref/r") == OS_REG, "not-saved", "saving succeeded without a file");
        keep(&img[nimg].d, &img[nimg].n, "/ref/r"); os_rm("/ref/r"); nimg++; unsigned me = nimg - 1;
        oth_at = oth ? ch(26) : 0; oth_seen = 0; oth_last = 0;
        if (oth && img[me].n == img[OTH].n && !memcmp(img[me].d, img[OTH].d, img[me].n)) oth_at = 0;
        CHECK(os_open_fds() == fds, "leak-fd", "saving leaves a descriptor open");
        CHECK(os_live_maps() == maps, "leak-map", "saving leaves a mapping");
        { static char nm[8][256]; CHECK(os_list("/ref", nm, 8) == 0, "stray-file", "saving leaves %s behind", nm[0]); }
        int before = at_path(); size_t h0 = os_heap_live();
        ev("save %u of %s (%zu bytes) to %s; there is %s", me, desc, img[me].n, PATHNAME, what(before));
        os_cfg.io = os_cfg.full = mode == 0 || mode == 2; os_cfg.alloc = mode != 1; os_cfg.crash = mode == 1 || mode == 2;
        unsigned f0 = os_fired(""), u0 = os_fired("unlink"); f_at_rename = f0; os_hook = on_call;
        if (setjmp(os_crash_jmp)) {
crashed:
            os_hook = 0; os_cfg.io = os_cfg.full = os_cfg.alloc = os_cfg.crash = 0; ncrash++;
            allowed[me] = 1; oth = 0;
            os_crash_apply();
            int now = at_path();
            CHECK(now >= 0 && allowed[now], "crash-damage", "after the crash the path holds %s; saved last was %s", what(now), what(acked));
            memset(allowed, 0, sizeof allowed); allowed[now] = 1; acked = now;
            if (now < NIMG && now == (int)me) { int s = loads_as_model(ABS); CHECK(s == 1, "crash-damage", "after the crash the complete file does not load as what was saved (%d)", s); }
            if (os_heap_live()) harness_error("heap after crash");
            base = 0; fds = os_open_fds(); maps = os_live_maps();
            sim_chdir(where[w].cwd);
            /* temporary files may survive a crash; sometimes somebody removes them */
            int stay = ch(2);
            static char nm[64][256]; unsigned n = os_list(DIRNAME, nm, 64); char b[600];
            for (unsigned i = 0; i < n; i++) { int ok = !strcmp(nm[i], strrchr(ABS, '/') + 1); for (unsigned k = 0; k < nextra; k++) ok |= !strcmp(nm[i], extra[k]); if (!ok && stay && nextra < NELEM(extra) && strlen(nm[i]) < sizeof extra[0]) { strcpy(extra[nextra++], nm[i]); tally("temporaries_left", 1); }
                else if (!ok) { snprintf(b, sizeof b, "%s/%s", DIRNAME, nm[i]); os_rm(b); tally("temporaries_after_crash", 1); } }
            o = r + 1 < rounds ? obj_build() : 0; continue;
        }
        q = obj_save(o, PATHNAME);
        os_hook = 0; int crash_later = os_cfg.crash && ch(3) == 0;
        os_cfg.io = os_cfg.full = os_cfg.alloc = os_cfg.crash = 0;
        ev("-> %d", q);
        CHECK(os_heap_live() == h0, "leak", "saving (%d) leaves %ld blocks", q, (long)os_heap_live() - (long)h0);
        CHECK(os_open_fds() == fds, "leak-fd", "saving (%d) leaves a descriptor open", q);
        CHECK(os_live_maps() == maps, "leak-map", "saving (%d) leaves a mapping", q);
        if (os_fired("unlink") == u0) strays(q ? "a failed save" : "saving");
        else { static char nm[64][256]; unsigned n = os_list(DIRNAME, nm, 64); char b[600]; for (unsigned i = 0; i < n; i++) { int ok = !strcmp(nm[i], strrchr(ABS, '/') + 1); for (unsigned k = 0; k < nextra; k++) ok |= !strcmp(nm[i], extra[k]); if (!ok) { snprintf(b, sizeof b, "%s/%s", DIRNAME, nm[i]); os_rm(b); } } }
        int now = at_path();
        if (q == 0) {
            CHECK(now == (int)me || (now == OTH && oth_last == 2), "not-saved", "saving succeeded, but the path holds %s", what(now));
            memset(allowed, 0, sizeof allowed); allowed[now] = 1; acked = now; nsave++;
            int s = now == (int)me ? loads_as_model(PATHNAME) : 1; CHECK(s == 1, "not-saved", "the file saved does not load as what was saved (%d)", s);
            CHECK(os_heap_live() == h0 && os_open_fds() == fds && os_live_maps() == maps, "leak", "loading leaves something behind");
        } else {
            CHECK(q < 0, "return-code", "a failed save returned %d", q);
            CHECK(os_fired("") > f0 || pretype == OS_DIR, "spurious-failure", "saving failed with %d without cause", q);
            nfail++;
            if (oth_last == 1) before = OTH;
            if (oth_last == 2 && now == OTH) { }
            else if (now == (int)me && now != before && os_fired("") > f_at_rename) { allowed[me] = 1; tally("failed_after_rename", 1); }   /* only the last step, making the name durable, failed */
            else CHECK(now == before, "lost", "saving failed with %d; the path held %s and now holds %s", q, what(before), what(now));
        }
        if (crash_later) { fault_note("crash"); goto crashed; }
    }
    if (o) obj_delete(o);
    if (oth) obj_delete(oth);
    CHECK(os_heap_live() == base, "leak", "%zu blocks left", os_heap_live() - base);
    tally("saves", nsave); tally("failed_saves", nfail); tally("crashes", ncrash);
    cover(mix64(mix64(w * 16 + pk * 4 + (unsigned)mode, nsave * 64 + nfail * 8 + ncrash), mix64(os_steps, img[0].n)));
    if (os_fired("")) run_nontrivial(); else if (nsave) run_nontrivial();
    sample("%u saves to %s over %s, %u refused, %u crashes, %u faults; last %s", nsave, PATHNAME, pretype == OS_NONE ? "nothing" : pretype == OS_REG ? "another file" : "a directory", nfail, ncrash, os_fired(""), desc);
}
