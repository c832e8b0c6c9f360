// D08: mapped-file object
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <new>
#include <string>
#include "utils/mmap.h"
using namespace putils;
#define NH 3
#define NW 40
#define MAXF (1 << 17)
struct H { mmap_file *m; int rw, create; unsigned file; };
struct W { uint8_t *p; size_t n, off; int h, refs; };
static H h[NH]; static W w[NW]; static unsigned nw;
#define NF 6
static uint8_t ref[NF][MAXF]; static size_t rlen[NF]; static const char *fname[NF] = { "/d/one", "/d/two", "/d/old2", "/d/old3", "/d/old4", "/d/old5" }; static int nf;   /* files renamed away live on */
static unsigned nmap, nfail, nopen, ngrow;
static void counts(const char *when)
{
    unsigned o = 0, m = 0; for (int k = 0; k < NH; k++) o += h[k].m != 0; for (unsigned k = 0; k < nw; k++) m += 1;
    CHECK(os_open_fds() == o, "leak-fd", "%s: %u descriptors for %u files", when, os_open_fds(), o);
    CHECK(os_live_maps() == m, os_live_maps() > m ? "leak-map" : "map-gone", "%s: %u mappings for %u windows", when, os_live_maps(), m);
    for (int f = 0; f < nf; f++) { size_t n; const void *d = os_content(fname[f], &n); if (!d) n = 0; CHECK(n == rlen[f] && !memcmp(d, ref[f], n), n < rlen[f] ? "shrunk" : "file-content", "%s: file %d does not hold what it should (%u bytes, %u expected)", when, f, (unsigned)n, (unsigned)rlen[f]); }
}
static void reads(void) { for (unsigned k = 0; k < nw; k++) { int f = h[w[k].h].file; CHECK(!memcmp(w[k].p, ref[f] + w[k].off, w[k].n), "window-content", "window %u+%u shows other bytes than the file", (unsigned)w[k].off, (unsigned)w[k].n); } }
static void run1(void)
{
    os_reset(); os_low_fds(); memset(h, 0, sizeof h); nw = 0; nmap = nfail = nopen = ngrow = 0; prng g = { ch_seed() };
    os_mkdir("/d/dir", 0755); static const uint32_t sz[] = { 0, 1, 100, 4095, 4096, 4097, 8192, 12288, 20000, 65536 };
    nf = 2; memset(ref, 0, 2 * sizeof ref[0]); for (int f = 0; f < 2; f++) { rlen[f] = sz[ch(10)]; for (size_t i = 0; i < rlen[f]; i++) ref[f][i] = (uint8_t)prng_next(&g); os_put(fname[f], ref[f], rlen[f], 0644); }
    os_durable_point(); size_t base = os_heap_live();
    os_cfg.io = 0; int io = ch(2), alloc = ch(3) == 2; unsigned ops = 1 + ch(40);
    os_cxx_on = 1;
    for (unsigned i = 0; i < ops; i++) {
        int k = (int)ch(NH), op = (int)ch(13); unsigned f0 = os_fired("");
        if (!h[k].m) {
            int f = (int)ch(2), bad = ch(12); unsigned fl = ch(3) ? MMAP_RDWR : 0; if (ch(3)) fl |= MMAP_CREATE; if (ch(4) == 3) fl |= MMAP_SHARED;
            char nm[4200]; strcpy(nm, fname[f]); if (bad == 11) strcpy(nm, "/d/none"); else if (bad == 10) { size_t n = ch(2) ? 200 + ch(100) : 900 + ch(3000); strcpy(nm, "/d/"); memset(nm + 3, 'x', n); nm[3 + n] = 0; for (size_t z = 103; z < 3 + n; z += 100) nm[z] = '/'; } else if (bad == 9 && (fl & MMAP_RDWR)) strcpy(nm, "/d/dir");
            ev("open %d %.20s %u", k, nm, fl);
            os_cfg.io = io; os_cfg.alloc = alloc; int failed = 0; mmap_file *m = 0;
            try { m = new mmap_file(std::string(nm), fl); } catch (const sys_exception &e) { failed = 1; CHECK(e.errcode() != 0, "reason", "failing to open %.20s gives no reason", nm); const char *s = e.what(); CHECK(strlen(s) < 1024, "reason", "unterminated message"); } catch (const std::bad_alloc &) { failed = 2; }
            os_cfg.io = os_cfg.alloc = 0;
            if (failed) { nfail++; CHECK(os_fired("") != f0 || strcmp(nm, fname[f]), "spurious-failure", "opening %s fails without cause", nm); }
            else { CHECK(!strcmp(nm, fname[f]), "false-success", "opening %.20s succeeds", nm); CHECK(os_fired("") == f0, "unreported", "a failing call went unreported"); h[k].m = m; h[k].rw = (fl & MMAP_RDWR) != 0; h[k].create = (fl & MMAP_CREATE) != 0; h[k].file = (unsigned)f; nopen++;
                CHECK(m->filesize() == (off_t)rlen[f], "size", "size %ld of a file of %u", (long)m->filesize(), (unsigned)rlen[f]); CHECK(m->filename() == nm, "name", "wrong name"); }
            counts("opening"); continue;
        }
        H *x = &h[k]; int f = (int)x->file;
        if (op < 5) {       /* map a window */
            if (nw == NW) continue;
            off_t off = (off_t)(ch(6) * 4096); size_t n = ch(3) == 0 ? sz[1 + ch(9)] : 1 + ch(9000); int whole = ch(5) == 4, odd = ch(20);
            for (unsigned j = 0; j < nw; j++) if (w[j].h == k && ch(6) == 5) { off = (off_t)w[j].off; n = w[j].n; whole = 0; break; }
            if (odd == 19) { static const off_t O[] = { 1, 100, -4096, -1, LONG_MAX & ~4095l, 8191 }; off = O[ch(6)]; } if (odd == 18) { static const size_t N[] = { 0, SIZE_MAX, SIZE_MAX - 4095, (size_t)LONG_MAX, (size_t)1 << 63 }; n = N[ch(5)]; }
            if (whole) { off = 0; n = (size_t)x->m->filesize(); CHECK(n <= rlen[f], "file-size", "a file of %zu bytes is said to have %zu", (size_t)rlen[f], n); }
            int ok = n && off >= 0 && !(off & 4095) && n < (1ul << 40) && off < (1l << 40) && ((size_t)off + n <= rlen[f] || (x->create && x->rw && (size_t)off + n <= MAXF));
            if (n < (1ul << 40) && off >= 0 && off < (1l << 40) && (size_t)off + n > MAXF) continue;
            int grows = n < (1ul << 40) && off >= 0 && off < (1l << 40) && (size_t)off + n > rlen[f] && x->create && x->rw;
            ev("map %d off %ld n %zu%s", k, (long)off, n, whole ? " (whole)" : "");
            os_cfg.io = io; os_cfg.alloc = alloc; int failed = 0; uint8_t *p = 0;
            try { p = (uint8_t *)(whole ? x->m->mmap() : x->m->mmap(off, n)); } catch (const sys_exception &e) { failed = 1; } catch (const std::bad_alloc &) { failed = 2; }
            os_cfg.io = os_cfg.alloc = 0;
            size_t now; os_content(fname[f], &now);
            if (grows && (!failed || now == (size_t)off + n)) { rlen[f] = (size_t)off + n; ngrow++; }
            if (failed) { nfail++; CHECK(os_fired("") != f0 || !ok, "spurious-failure", "mapping %ld+%zu of %zu fails without cause", (long)off, n, rlen[f]); counts("failing to map"); continue; }
            CHECK(ok, "false-success", "mapping %ld+%zu of %zu succeeds", (long)off, n, rlen[f]);
            CHECK(p && p != (uint8_t *)-1, "null", "no address"); CHECK(os_fired("") == f0, "unreported", "a failing call went unreported");
            unsigned j; for (j = 0; j < nw; j++) if (w[j].p == p) break;
            if (j < nw) { CHECK(w[j].h == k && w[j].off == (size_t)off && w[j].n == n, "wrong-window", "another window's address is returned"); w[j].refs++; }
            else w[nw++] = W{ p, n, (size_t)off, k, 1 };
            nmap++; counts("mapping"); reads();
            CHECK(x->m->filesize() >= (off_t)((size_t)off + n), "size", "the file is said to be smaller than a window of it");
        } else if (op < 7) { if (!nw) continue; W *v = &w[ch(nw)]; if (!h[v->h].rw) { reads(); continue; } unsigned a = ch((uint32_t)v->n), l = 1 + ch((uint32_t)(v->n - a)); if (l > 300) l = 300; int ff = (int)h[v->h].file; for (unsigned z = 0; z < l; z++) v->p[a + z] = ref[ff][v->off + a + z] = (uint8_t)prng_next(&g); ev("write %u+%u", a, l); counts("writing"); reads(); }
        else if (op < 9) { if (!nw) continue; unsigned j = ch(nw); W v = w[j]; ev("unmap %u of %d", j, v.h); if (--w[j].refs == 0) w[j] = w[--nw]; h[v.h].m->unmap(v.p); counts("unmapping"); reads(); }
        else if (op == 9) { ev("close %d", k); for (unsigned j = 0; j < nw; ) if (w[j].h == k) w[j] = w[--nw]; else j++; delete x->m; x->m = 0; counts("closing"); reads(); }
        else if (op == 10) { if (!nw) continue; W *v = &w[ch(nw)]; unsigned a = ch((uint32_t)v->n), l = 1 + ch((uint32_t)(v->n - a)); int un = (int)ch(2), failed = 0; os_lock_op = 0; ev("%slock %u+%u", un ? "un" : "", a, l); os_cfg.io = io;
            try { if (un) h[v->h].m->munlock(v->p + a, l); else h[v->h].m->mlock(v->p + a, l); } catch (const sys_exception &) { failed = 1; }
            os_cfg.io = 0; if (failed) { nfail++; CHECK(os_fired("") != f0, "spurious-failure", "locking %u+%u of a window of %zu fails without cause", a, l, v->n); } else { CHECK(os_fired("") == f0, "unreported", "failing to lock went unreported"); CHECK(os_lock_op == 1 + un && os_lock_lo <= (uintptr_t)v->p + a && os_lock_hi >= (uintptr_t)v->p + a + l, "not-locked", "the range is not covered"); } counts("locking"); }
        else if (op == 11) {     /* someone renames the file and puts another one in its place */
            if (f > 1 || nf == NF) continue;
            os_mv(fname[f], fname[nf]); memcpy(ref[nf], ref[f], MAXF); rlen[nf] = rlen[f]; for (int j = 0; j < NH; j++) if (h[j].m && (int)h[j].file == f) h[j].file = (unsigned)nf;
            memset(ref[f], 0, MAXF); rlen[f] = sz[ch(10)]; for (size_t z = 0; z < rlen[f]; z++) ref[f][z] = (uint8_t)prng_next(&g); os_put(fname[f], ref[f], rlen[f], 0644); nf++; ev("someone replaces file %d by one of %zu bytes", f, rlen[f]); fault_note("other-process"); counts("replacing"); reads();
        }
        else { size_t n = rlen[f] + 1 + ch(9000); if (n > MAXF) continue; for (size_t z = rlen[f]; z < n; z++) ref[f][z] = (uint8_t)prng_next(&g); rlen[f] = n; os_put(fname[f], ref[f], n, 0644); ev("someone extends file %d to %zu", f, n); reads(); }
    }
    for (int k = 0; k < NH; k++) if (h[k].m) { delete h[k].m; h[k].m = 0; }
    nw = 0; os_cxx_on = 0; counts("the end");
    CHECK(os_heap_live() == base, "leak", "%ld blocks left", (long)os_heap_live() - (long)base);
    tally("opens", nopen); tally("windows", nmap); tally("grown", ngrow); tally("failures", nfail); if (nmap + nfail) run_nontrivial();
    cover(mix64(mix64(nopen * 64 + nmap, ngrow * 64 + nfail), mix64(rlen[0], rlen[1]))); sample("%u opens, %u windows, %u grown, %u failures", nopen, nmap, ngrow, nfail);
}
/* files whose sizes and offsets do not fit in 31 or 32 bits */
static void huge(void)
{
    os_reset(); os_low_fds(); prng g = { ch_seed() }; static const uint64_t S[] = { 0x7ffff000ull, 0x80000000ull, 0x80001234ull, 0xfffff001ull, 0x100000000ull, 0x100003039ull, 0x200000800ull }, O[] = { 0, 0x7fffe000ull, 0x7ffff000ull, 0x80000000ull, 0xffffe000ull, 0xfffff000ull, 0x100000000ull, 0x100001000ull };
    uint64_t size = S[ch(7)], at[12]; unsigned nat = 0, i; os_mkdir("/d", 0755); uint8_t *d = (uint8_t *)os_sparse("/d/huge", size); if (!d) harness_error("sparse");
    for (i = 0; i < 8; i++) if (O[i] + 4096 <= size) at[nat++] = O[i]; at[nat++] = (size - 1) & ~4095ull;
    for (i = 0; i < nat; i++) { uint64_t e = at[i] + 4096 < size ? at[i] + 4096 : size; for (uint64_t z = at[i]; z < e; z++) d[z] = (uint8_t)prng_next(&g); }
    size_t base = os_heap_live(); int rw = (int)ch(2), create = (int)ch(2), io = ch(3) == 2; unsigned nw = 0, ops = 1 + ch(8), fails = 0, far = 0; mmap_file *m = 0; uint8_t *win[8]; 
    ev("a file of %llu bytes, %s", (unsigned long long)size, rw ? "written" : "read"); os_cxx_on = 1; os_cfg.io = io; os_cfg.alloc = io;
    try { m = new mmap_file(std::string("/d/huge"), (rw ? MMAP_RDWR : 0) | (create ? MMAP_CREATE : 0)); } catch (const sys_exception &) { } catch (const std::bad_alloc &) { }
    os_cfg.io = os_cfg.alloc = 0;
    if (!m) { CHECK(os_fired(""), "spurious-failure", "opening a file of %llu bytes fails without cause", (unsigned long long)size); goto out; }
    CHECK((uint64_t)m->filesize() == size, "size", "size %lld of a file of %llu", (long long)m->filesize(), (unsigned long long)size);
    for (i = 0; i < ops; i++) {
        uint64_t off = ch(3) ? at[ch(nat)] : O[ch(8)], n; unsigned f0 = os_fired(""); int failed = 0; uint8_t *p = 0;
        switch (ch(5)) { case 0: n = 1 + ch(9000); break; case 1: n = size > off ? size - off : 1; break; case 2: n = 4096; break; case 3: n = 0x80000000ull + ch(9000); break; default: n = 0x100000000ull + ch(9000); }
        int ok = off + n <= size || (create && rw), grows = off + n > size && create && rw;
        ev("map %llu+%llu", (unsigned long long)off, (unsigned long long)n); os_cfg.io = io; os_cfg.alloc = io;
        try { p = (uint8_t *)m->mmap((off_t)off, n); } catch (const sys_exception &) { failed = 1; } catch (const std::bad_alloc &) { failed = 1; }
        os_cfg.io = os_cfg.alloc = 0; size_t now; d = (uint8_t *)os_content("/d/huge", &now);
        if (grows && (!failed || now == off + n)) size = off + n;
        CHECK(now == size, now < size ? "shrunk" : "file-content", "the file has %zu bytes instead of %llu", now, (unsigned long long)size);
        if (failed) { fails++; CHECK(!ok || os_fired("") != f0, "spurious-failure", "mapping %llu+%llu of %llu fails without cause", (unsigned long long)off, (unsigned long long)n, (unsigned long long)size); continue; }
        CHECK(ok && p, "false-success", "mapping %llu+%llu of %llu succeeds", (unsigned long long)off, (unsigned long long)n, (unsigned long long)size); CHECK((uint64_t)m->filesize() >= off + n, "size", "the file is said to be smaller than a window of it");
        for (unsigned a = 0; a < nat; a++) {      /* the marked pages it covers, and its last byte */
            uint64_t lo = at[a] > off ? at[a] : off, hi = at[a] + 4096 < off + n ? at[a] + 4096 : off + n; if (lo >= hi) continue;
            CHECK(!memcmp(p + (lo - off), d + lo, hi - lo), "window-content", "the window at %llu shows other bytes than the file", (unsigned long long)off); far += lo - off >= 0x7fffffff || off >= 0x7fffffff;
            if (rw) { p[lo - off] ^= 0x5a; CHECK(p[lo - off] == d[lo], "file-content", "a write through the window at %llu does not reach the file", (unsigned long long)off); }
        }
        volatile uint8_t last = p[n - 1]; CHECK(last == d[off + n - 1], "window-content", "the window's last byte is not the file's");
        if (ch(3) == 0) { m->unmap(p); for (unsigned k = 0; k < nw; k++) if (win[k] == p) { win[k] = win[--nw]; break; } }
        else { unsigned k; for (k = 0; k < nw; k++) if (win[k] == p) break; if (k == nw) win[nw++] = p; }
        CHECK(os_live_maps() <= i + 1, "leak-map", "%u mappings after %u windows", os_live_maps(), i + 1);
    }
    delete m;
out: os_cxx_on = 0; CHECK(os_live_maps() == 0, "leak-map", "%u mappings are left", os_live_maps()); CHECK(os_open_fds() == 0, "leak-fd", "%u descriptors are left", os_open_fds()); CHECK(os_heap_live() == base, "leak", "%ld blocks left", (long)os_heap_live() - (long)base);
    tally("huge", 1); tally("beyond_2g", far); tally("failures", fails); run_nontrivial(); cover(mix64(run_hash(), size)); sample("a file of %llu bytes, %u windows, %u failed", (unsigned long long)size, ops, fails);
}
static void run(void) { os_cxx_on = 0; if (ch(40) == 39) huge(); else run1(); }
extern "C" const dst_harness harness; const dst_harness harness = { .property = "D08", .name = "mmap", .run = run,
  .rule = "one run = up to 40 operations (open, map, read, write, unmap, lock, close, growth or replacement by someone else) by up to three mapped-file objects on two files, with failing system calls and allocations; non-trivial when a window was mapped or a failure reported; distinct by the hash of the whole event log" };
