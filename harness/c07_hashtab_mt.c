/* C07: hash table with a mutual-exclusion policy, linearizability against a map */
#include "thr.h"
#include "utils/hashtab.h"
#define NK 16
#define MAXIT 250
enum { INS = 1, REP, PRB, LOOK, REM, SWEEP, APPLY, COUNT };
static const char *const ON[] = { "?", "insert", "replace", "probe", "lookup", "remove", "remove_if", "apply", "stats" };
typedef struct { uint32_t key, id, dtor; } item;
static item *IT[MAXIT]; static unsigned nit; static int use_dtor, hashkind; static unsigned nkeys;
typedef struct { uint8_t kind, thr, key, id, mod, rem, done, alloc; int res; uint8_t got, nvis; uint8_t vis[40]; uint32_t inv, ret; } hop;
#define MAXH 60
static hop HO[MAXH]; static unsigned nh; static hash_table_t tab;

uint32_t arc4random(void) { return (uint32_t)ch_seed(); }

static uint32_t hashf(const void *p)
{
    uint32_t k = ((const item*)p)->key;
    return hashkind == 0 ? k : hashkind == 1 ? 5 : hashkind == 2 ? k * 2654435761u : (k & 1);
}
static int cmpf(const void *a, const void *b) { uint32_t x = ((const item*)a)->key, y = ((const item*)b)->key; return x < y ? -1 : x > y; }
static void dtorf(void *p) { item *i = p; i->dtor++; CHECK(i->dtor == 1, "dtor-twice", "item %u was destroyed twice", i->id); }
static item *mk(uint32_t key)
{
    if (nit >= MAXIT - 1) discard();
    item *i = malloc(sizeof *i);    /* harness memory: never freed during the run */
    i->key = key; i->id = ++nit; i->dtor = 0; IT[nit] = i; return i;
}
static int ispow(void *c, const void *p) { hop *o = c; const item *i = p; if (o->nvis < sizeof o->vis) o->vis[o->nvis] = (uint8_t)i->id; o->nvis++; return i->key % o->mod == o->rem; }
static void applyf(void *c, const void *p) { hop *o = c; const item *i = p; if (o->nvis < sizeof o->vis) o->vis[o->nvis] = (uint8_t)i->id; o->nvis++; }
static int sane(void *p) { for (unsigned i = 1; i <= nit; i++) if (IT[i] == p) return 1; return 0; }

static void doop(hop *o, item *probe)
{
    void *r = 0; hash_table_stat st;
    unsigned f0 = faults_fired();
    o->inv = ++clk; BAR;
    switch (o->kind) {
    case INS: o->res = hash_table_insert(tab, IT[o->id]); break;
    case REP: o->res = hash_table_replace(tab, IT[o->id]); break;
    case PRB: r = hash_table_probe(tab, IT[o->id]); if (r) { CHECK(sane(r), "invented-item", "probe returned a pointer that is no item"); o->got = (uint8_t)((item*)r)->id; } break;
    case LOOK: o->res = hash_table_lookup(tab, probe, &r); if (r) { CHECK(sane(r), "invented-item", "lookup returned a pointer that is no item"); o->got = (uint8_t)((item*)r)->id; } break;
    case REM: o->res = hash_table_remove(tab, probe, &r); if (r) { CHECK(sane(r), "invented-item", "remove returned a pointer that is no item"); o->got = (uint8_t)((item*)r)->id; } break;
    case SWEEP: o->res = hash_table_remove_if(tab, ispow, o); break;
    case APPLY: hash_table_apply(tab, applyf, o); break;
    case COUNT: CHECK(hash_table_stats(tab, &st) != 0, "stats", "no statistics"); o->res = (int)st.nodes; break;
    }
    BAR; o->ret = ++clk; o->done = 1; o->alloc = faults_fired() != f0;
    ev("T%d %s key=%u id=%u -> %d got=%u nvis=%u", o->thr, ON[o->kind], o->key, o->id, o->res, o->got, o->nvis);
}
typedef struct { item *probe; hop h[12]; unsigned n; } plan;
static plan P[4];
static void gen(hop *o, int thr)
{
    static const uint8_t mix[] = { INS, LOOK, REM, REP, PRB, INS, REM, INS, SWEEP, APPLY, COUNT };
    *o = (hop){ .kind = mix[ch(NELEM(mix))], .thr = (uint8_t)thr };
    o->key = (uint8_t)ch(nkeys);
    if (o->kind == INS || o->kind == REP || o->kind == PRB) o->id = (uint8_t)mk(o->key)->id;
    if (o->kind == SWEEP) { o->mod = (uint8_t)ch_range(1, 3); o->rem = (uint8_t)ch(o->mod); }
}
static void *worker(void *a)
{
    plan *p = a;
    for (unsigned i = 0; i < p->n; i++) { p->probe->key = p->h[i].key; doop(&p->h[i], p->probe); }
    return 0;
}
/* ---- model ---- */
typedef struct { uint8_t m[NK]; } mst;
static int visits_all(const hop *o, const mst *s)
{
    unsigned n = 0;
    for (unsigned k = 0; k < NK; k++) n += s->m[k] != 0;
    if (n != o->nvis || n > sizeof o->vis) return 0;
    for (unsigned i = 0; i < n; i++) { unsigned id = o->vis[i]; if (id == 0 || id > nit || s->m[IT[id]->key] != id) return 0;
        for (unsigned j = 0; j < i; j++) if (o->vis[j] == id) return 0; }
    return 1;
}
static int apply_model(const hop *o, mst *s)
{
    unsigned cur = s->m[o->key];
    switch (o->kind) {
    case INS: if (o->res == -ENOMEM) return o->alloc && 1;
              if (cur) return o->res == -EEXIST; if (o->res != 0) return 0; s->m[o->key] = o->id; return 1;
    case REP: if (o->res == -ENOMEM) return o->alloc && !cur; if (o->res != 0) return 0; s->m[o->key] = o->id; return 1;
    case PRB: if (!o->got) return o->alloc && !cur; if (cur) return o->got == cur; if (o->got != o->id) return 0; s->m[o->key] = o->id; return 1;
    case LOOK: return cur ? (o->res == 1 && o->got == cur) : (o->res == 0 && !o->got);
    case REM: if (cur) { s->m[o->key] = 0; return o->res == 0 && o->got == cur; } return o->res == -ENOENT && !o->got;
    case APPLY: return visits_all(o, s);
    case SWEEP: { if (!visits_all(o, s)) return 0; int n = 0; for (unsigned k = 0; k < NK; k++) if (s->m[k] && k % o->mod == o->rem) { s->m[k] = 0; n++; } return o->res == n; }
    case COUNT: { int n = 0; for (unsigned k = 0; k < NK; k++) n += s->m[k] != 0; return o->res == n; }
    }
    return 0;
}
#define MEMO (1u << 16)
static uint64_t memo[MEMO], mgen; static unsigned nmemo, nmine; static mst fin; static unsigned deepest;
static int lin(uint64_t mask, mst s, unsigned depth)
{
    if (depth > deepest) deepest = depth;
    if (depth == nh) { return memcmp(&s, &fin, sizeof s) == 0; }
    uint64_t h = mix64(mask, mgen); for (unsigned i = 0; i < NK; i += 8) { uint64_t w; memcpy(&w, s.m + i, 8); h = mix64(h, w); }
    if (!h) h = 1;
    for (unsigned i = (unsigned)h & (MEMO-1);; i = (i+1) & (MEMO-1)) { if (memo[i] == h) return 0; if (!memo[i]) { memo[i] = h; nmemo++; break; } }
    if (++nmine > MEMO / 2) discard();
    uint32_t minret = ~0u;
    for (unsigned i = 0; i < nh; i++) if (!(mask >> i & 1) && HO[i].ret < minret) minret = HO[i].ret;
    for (unsigned i = 0; i < nh; i++) if (!(mask >> i & 1) && HO[i].inv < minret) {
        mst t = s;
        if (apply_model(&HO[i], &t) && lin(mask | 1ull << i, t, depth + 1)) return 1;
    }
    return 0;
}
static void body(void)
{
    static const hash_table_policy Z;
    hash_table_policy pol = Z;
    hashkind = (int)ch(4); use_dtor = (int)ch(2); nkeys = ch_range(1, NK);
    pol.hash = hashf; pol.cmp = cmpf; pol.dtor = use_dtor ? dtorf : 0;
    pol.fillmax = ch_range(25, 99); pol.logsize = ch_range(1, 3);
    memmgr_init_default(&pol.mem);
    pol.lock = Mutex_locker;
    size_t heap0 = cs_heap_live();
    unsigned cfg = ch(5);
    cs_init_faults = cfg == 1; cs_set_alloc_faults(cfg == 2);
    tab = 0;
    int r = hash_table_new(&tab, &pol);
    cs_init_faults = 0; cs_set_alloc_faults(0);
    if (r != 0) {
        CHECK(faults_fired(), "spurious-failure", "creation failed with %d without cause", r);
        CHECK(r < 0, "return-code", "creation failed with %d", r);
        CHECK(cs_heap_live() == heap0 && cs_live_objects() == 0, "leak", "failed creation leaves %zu heap blocks, %u locks", cs_heap_live() - heap0, cs_live_objects());
        run_nontrivial(); tally("create_failed", 1); return;
    }
    mst s0 = {{0}};
    unsigned pre = ch(nkeys + 1);
    for (unsigned k = 0; k < pre; k++) { item *i = mk(k); CHECK(hash_table_insert(tab, i) == 0, "insert", "insertion of a new key failed"); s0.m[k] = (uint8_t)i->id; }
    unsigned nt = ch_range(1, 3); if (nt == 1 && ch(3)) nt = 2;
    unsigned per = ch_range(1, nt == 3 ? 6 : 9);
    for (unsigned t = 0; t < nt; t++) { P[t].n = ch_range(1, per); P[t].probe = malloc(sizeof(item)); P[t].probe->id = 0; for (unsigned i = 0; i < P[t].n; i++) gen(&P[t].h[i], (int)t); }
    hash_table_stat st0; hash_table_stats(tab, &st0);
    pthread_t th[4];
    if (ch(3) == 0) { cs_set_alloc_faults(1); cs_init_faults = 1; }
    for (unsigned t = 1; t < nt; t++) pthread_create(&th[t], 0, worker, &P[t]);
    worker(&P[0]);
    for (unsigned t = 1; t < nt; t++) pthread_join(th[t], 0);
    cs_set_alloc_faults(0); cs_init_faults = 0;
    nh = 0; unsigned over = 0;
    for (unsigned t = 0; t < nt; t++) for (unsigned i = 0; i < P[t].n; i++) { if (nh >= MAXH) discard(); HO[nh++] = P[t].h[i]; }
    for (unsigned i = 0; i < nh; i++) for (unsigned j = 0; j < i; j++) if (HO[i].thr != HO[j].thr && HO[i].inv < HO[j].ret && HO[j].inv < HO[i].ret) over++;
    /* contents now, by a walk with the applicator; then by the iterators; then lookups */
    hop w = {0}; hash_table_apply(tab, applyf, &w);
    memset(&fin, 0, sizeof fin);
    unsigned n = w.nvis;
    CHECK(n <= NK, "contents", "%u items for at most %u keys", n, NK);
    for (unsigned i = 0; i < n; i++) { unsigned id = w.vis[i]; CHECK(id && id <= nit, "contents", "unknown item in the table"); CHECK(!fin.m[IT[id]->key], "contents", "key %u is in the table twice", IT[id]->key); fin.m[IT[id]->key] = (uint8_t)id; }
    for (int sorted = 0; sorted < 2; sorted++) {
        hash_table_iter_t it = 0; unsigned c = 0;
        CHECK(hash_table_iter_new(&it, tab, sorted) == 0 && it, "iterator", "no iterator at quiescence");
        for (int q = hash_table_iter_first(it); q == 0; q = hash_table_iter_next(it)) { item *x = hash_table_iter_item(it); CHECK(x && fin.m[x->key] == x->id, "contents", "iterator shows an item the walk did not"); c++; CHECK(c <= n, "contents", "iterator shows more items than the walk"); }
        CHECK(c == n, "contents", "iterator shows %u of %u items", c, n);
        hash_table_iter_delete(it);
    }
    for (unsigned k = 0; k < nkeys; k++) { void *x = 0; P[0].probe->key = k; int q = hash_table_lookup(tab, P[0].probe, &x);
        CHECK(fin.m[k] ? (q == 1 && x == IT[fin.m[k]]) : (q == 0 && !x), "contents", "lookup of key %u disagrees with the walk", k); }
    hash_table_stat st; CHECK(hash_table_stats(tab, &st) == &st, "stats", "no statistics");
    CHECK(st.nodes == n, "stats", "statistics say %zu items, there are %u", st.nodes, n);
    CHECK(st.inserts - st.deletes == (int)n, "stats", "%d inserts - %d deletes, but %u items", st.inserts, st.deletes, n);
    CHECK(st.fill <= n && (st.fill > 0) == (n > 0) && st.fill <= st.size, "stats", "%zu filled buckets of %zu for %u items", st.fill, st.size, n);
    CHECK(st.fill * st.maxchainlen >= n, "stats", "longest chain %zu in %zu buckets for %u items", st.maxchainlen, st.fill, n);
    if (nmemo > MEMO / 4) { memset(memo, 0, sizeof memo); nmemo = 0; } mgen++; nmine = 0; deepest = 0;
    if (!lin(0, s0, 0)) {
        for (unsigned i = 0; i < nh; i++) ev("op %u: T%u %s key=%u id=%u mod=%u/%u -> %d got=%u nvis=%u [%u,%u]", i, HO[i].thr, ON[HO[i].kind], HO[i].key, HO[i].id, HO[i].mod, HO[i].rem, HO[i].res, HO[i].got, HO[i].nvis, HO[i].inv, HO[i].ret);
        violation("not-linearizable", "no order of the %u operations explains their results (at most %u can be placed)", nh, deepest);
    }
    /* counters: results tell exactly what happened */
    int look = 0, miss = 0, repl = 0, ins = 0, del = 0;
    for (unsigned i = 0; i < nh; i++) { if (HO[i].kind == LOOK) HO[i].res ? look++ : miss++; if (HO[i].kind == REM) del += HO[i].res == 0; if (HO[i].kind == SWEEP) del += HO[i].res; if (HO[i].kind == INS) ins += HO[i].res == 0; if (HO[i].kind == PRB) ins += HO[i].got == HO[i].id; if (HO[i].kind == REP) repl += HO[i].res == 0; }
    for (unsigned k = 0; k < nkeys; k++) fin.m[k] ? look++ : miss++;
    CHECK(st.lookups - st0.lookups == look && st.failed_lookups - st0.failed_lookups == miss, "stats", "statistics count %d/%d lookups, there were %d/%d", st.lookups - st0.lookups, st.failed_lookups - st0.failed_lookups, look, miss);
    CHECK(st.deletes - st0.deletes == del, "stats", "statistics count %d removals, there were %d", st.deletes - st0.deletes, del);
    CHECK((st.inserts - st0.inserts) + (st.replaces - st0.replaces) == ins + repl, "stats", "statistics count %d insertions and replacements, there were %d", (st.inserts - st0.inserts) + (st.replaces - st0.replaces), ins + repl);
    hash_table_delete(tab);
    if (use_dtor) {
        uint8_t acc[MAXIT] = {0};
        for (unsigned i = 1; i <= pre; i++) acc[i] = 1;
        for (unsigned i = 0; i < nh; i++) { if ((HO[i].kind == INS || HO[i].kind == REP) && HO[i].res == 0) acc[HO[i].id] = 1; if (HO[i].kind == PRB && HO[i].got == HO[i].id) acc[HO[i].id] = 1; }
        for (unsigned i = 1; i <= nit; i++) CHECK(IT[i]->dtor == acc[i], "dtor", "item %u was %saccepted but destroyed %u times", i, acc[i] ? "" : "not ", IT[i]->dtor);
    }
    CHECK(cs_live_objects() == 0, "leak", "%u locks left after deletion", cs_live_objects());
    for (unsigned t = 0; t < nt; t++) free(P[t].probe);
    for (unsigned i = 1; i <= nit; i++) free(IT[i]);
    CHECK(cs_heap_live() == heap0, "leak", "%zu heap blocks left after deletion", cs_heap_live() - heap0);
    tally("ops", nh); tally("overlapping_pairs", over); if (st.splits > st0.splits) tally("runs_with_growth", 1);
    if (over) run_nontrivial();
    sample("%u threads, %u ops (%u overlapping pairs) on %u keys, %d growths, final %u items, %u faults", nt, nh, over, nkeys, st.splits, n, faults_fired());
}
static void run(void) { nit = 0; nh = 0; clk = 0; cs_defaults(); cs_run(body); }
const dst_harness harness = { .property = "C07", .name = "hashtab-mt", .run = run,
  .rule = "one run = a hash table (1-3 bits of buckets, random fill limit, salt and hash quality) with the pthread mutex policy, preloaded, then 1-3 threads doing 1-9 insert/replace/probe/lookup/remove/remove_if/apply/stats each under a seeded schedule, with failing allocations and lock creations; the history is decided by a linearizability search against a map model; non-trivial: operations of different threads overlapped; distinct by the hash of the whole event and schedule log" };
