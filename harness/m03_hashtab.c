/* M03: hash table as a map under any salt, growth and failed allocation (single threaded) */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include "utils/hashtab.h"
#define MAXK 400
#define MAXI 9000
typedef struct { uint64_t key; uint32_t id; uint32_t chk; } item;
static item *IT[MAXI]; static uint8_t dead[MAXI], accepted[MAXI]; static unsigned nit;
static item *M[MAXK]; static unsigned nk, live; static int use_dtor, hashkind, in_call; static int locks_held, nlocks;
static uint64_t salt;
uint32_t arc4random(void) { return (uint32_t)salt; }

static uint32_t hashf(const void *p)
{
    uint64_t k = ((const item*)p)->key;
    switch (hashkind) { case 0: return (uint32_t)k; case 1: return 5; case 2: return (uint32_t)(k * 2654435761u); case 3: return (uint32_t)k & 3; case 4: return (uint32_t)k << 28; default: return (uint32_t)k * 8; }
}
static int cmpf(const void *a, const void *b)
{
    const item *x = a, *y = b;
    CHECK(x->chk == 0x1234567 && y->chk == 0x1234567, "compare-garbage", "the comparison function was given something that is no item");
    return x->key < y->key ? -1 : x->key > y->key;
}
static void dtorf(void *p)
{
    item *i = p;
    CHECK(i && i->chk == 0x1234567 && i->id < nit && IT[i->id] == i, "dtor-garbage", "the destructor was given something that is no item");
    CHECK(!dead[i->id], "dtor-twice", "item %u was destroyed twice", i->id);
    dead[i->id] = 1;
}
static item *mk(uint64_t key)
{
    if (nit >= MAXI) discard();
    item *i = os_malloc(sizeof *i); i->key = key; i->id = nit; i->chk = 0x1234567; dead[nit] = accepted[nit] = 0; IT[nit++] = i; return i;
}
/* lock policy that notices imbalance */
static void lk_lock(void *o) { int *l = o; CHECK(!*l, "self-deadlock", "a lock is taken twice"); *l = 1; locks_held++; }
static void lk_unlock(void *o) { int *l = o; CHECK(*l, "bad-unlock", "a lock is released that is not held"); *l = 0; locks_held--; }
static void lk_del(void *o) { nlocks--; os_free(o); }
static void lk_new(lockmgr *l)
{
    l->lock = 0; l->unlock = 0; l->dtor = 0; l->opaq = 0;
    if (os_fault("alloc")) return;
    int *p = os_malloc(sizeof(int)); *p = 0; nlocks++; l->create = lk_new; l->lock = lk_lock; l->unlock = lk_unlock; l->dtor = lk_del; l->opaq = p;
}
static void *tr_alloc(void *c, size_t n) { CHECK(c == &nk, "context", "wrong memory manager context"); if (n > (1u << 27) || (os_cfg.alloc && os_fault("alloc"))) return 0; void *p = os_malloc(n); memset(p, 0xa7, n); return p; }
static void tr_free(void *c, void *p) { CHECK(c == &nk, "context", "wrong memory manager context"); if (p) { CHECK(os_heap_owns(p), "bad-free", "the table returned memory it did not take, or twice"); os_free(p); } }
/* visits */
static uint8_t seen[MAXI]; static unsigned nseen; static uint64_t pmod, prem; static void *want_cookie; static unsigned npred;
static void visit(const void *p, const char *what)
{
    const item *i = p;
    CHECK(i && i->chk == 0x1234567 && i->id < nit && IT[i->id] == i, "visit-garbage", "%s shows something that is no item", what);
    CHECK(!seen[i->id], "visit-twice", "%s shows item %u twice", what, i->id);
    seen[i->id] = 1; nseen++;
}
static int held(const item *i) { for (unsigned k = 0; k < nk; k++) if (M[k] == i) return 1; return 0; }
static void applyf(void *c, const void *p) { CHECK(c == want_cookie, "cookie", "the cookie is not passed on"); visit(p, "apply"); }
static int pred(void *c, const void *p) { CHECK(c == want_cookie, "cookie", "the cookie is not passed on"); visit(p, "remove_if"); return ((const item*)p)->key % pmod == prem; }
static void clear_seen(void) { memset(seen, 0, nit); nseen = 0; }
static void all_seen(const char *what)
{
    for (unsigned k = 0; k < nk; k++) if (M[k]) CHECK(seen[M[k]->id], "visit-missing", "%s skips an item", what);
    CHECK(nseen == live, "visit-extra", "%s shows %u items, there are %u", what, nseen, live);
}
static uint64_t keyof(unsigned k) { return k; }
static hash_table_t tab; static item *probe;
static void settle(item *i, int acc) { accepted[i->id] = (uint8_t)acc; }
static void let_go(item *i) { if (use_dtor) CHECK(dead[i->id], "dtor-missing", "item %u was let go without being destroyed", i->id); }
static void iterate(int kind, unsigned k, unsigned stop)
{
    hash_table_iter_t it = (hash_table_iter_t)0x10; unsigned f = os_fired(""); int r;
    probe->key = keyof(k);
    r = kind == 2 ? hash_table_bucket_iter_new(&it, tab, probe) : hash_table_iter_new(&it, tab, kind);
    if (r != 0) {
        CHECK(r < 0, "return-code", "creating an iterator returned %d", r);
        CHECK(os_fired("") > f, "spurious-failure", "creating an iterator failed with %d without cause", r);
        tally("iter_refused", 1); return;
    }
    const char *what = kind == 0 ? "the iterator" : kind == 1 ? "the sorted iterator" : "the chain iterator";
    for (int pass = 0; pass < 2; pass++) {
        clear_seen(); uint64_t last = 0; unsigned n = 0; item *x = 0;
        int q = hash_table_iter_first(it);
        while (q == 0 && n < stop) {
            x = hash_table_iter_item(it); visit(x, what);
            CHECK(hash_table_iter_item(it) == x, "iterator", "%s changes its item without being moved", what);
            CHECK(held(x), "visit-extra", "%s shows an item that is not in the table", what);
            if (kind == 1) { CHECK(!n || x->key > last, "unsorted", "the sorted iterator is out of order"); last = x->key; }
            if (kind == 2 && M[k] && x == M[k]) n |= 0;
            n++; q = hash_table_iter_next(it);
        }
        if (q != 0) {
            CHECK(!hash_table_iter_item(it), "iterator", "%s shows an item past the end", what);
            if (kind != 2) all_seen(what);
            else for (unsigned j = 0; j < nk; j++) if (M[j] && hashf(M[j]) == hashf(probe)) CHECK(seen[M[j]->id], "visit-missing", "the chain iterator skips an item with the key's hash");
            if (ch(4) == 0) { CHECK(hash_table_iter_next(it) != 0, "iterator", "%s goes on past the end", what); CHECK(!hash_table_iter_item(it), "iterator", "%s shows an item past the end", what); }
        }
        if (ch(2)) break;
    }
    hash_table_iter_delete(it);
}
static void check_key(unsigned k)
{
    void *out = (void*)0x33; probe->key = keyof(k);
    int r = hash_table_lookup(tab, probe, &out);
    CHECK(M[k] ? r == 1 && out == M[k] : r == 0 && !out, "lookup", "lookup of a key that is %s returned %d", M[k] ? "present" : "absent", r);
}
static void audit(void)
{
    clear_seen(); want_cookie = &live; hash_table_apply(tab, applyf, &live); all_seen("apply");
    for (unsigned k = 0; k < nk; k++) check_key(k);
    hash_table_stat st; CHECK(hash_table_stats(tab, &st) == &st, "stats", "no statistics");
    CHECK(st.nodes == live, "stats", "statistics say %zu items, there are %u", st.nodes, live);
}
/* many more items than fit in 16 bits */
typedef struct { uint64_t key; uint32_t seen, dead; } big_t;
static big_t *B; static unsigned nb, bseen;
static uint32_t bhash(const void *p) { return (uint32_t)mix64(((const big_t *)p)->key, 7); }
static int bcmp_(const void *a, const void *b) { uint64_t x = ((const big_t *)a)->key, y = ((const big_t *)b)->key; return x < y ? -1 : x > y; }
static void bdtor(void *p) { ((big_t *)p)->dead++; }
static void bapply(void *c, const void *p) { big_t *i = (big_t *)p; CHECK(i >= B && i < B + nb && c == &nb, "visit-garbage", "apply shows something that is no item"); i->seen++; bseen++; }
static int bpred(void *c, const void *p) { (void)c; return ((const big_t *)p)->key % 3 == 1; }
static void vast(void)
{
    os_reset(); static const hash_table_policy Z; hash_table_policy pol = Z; salt = ch_seed(); nlocks = locks_held = 0; nb = 60000 + ch(80000); unsigned stride = 1 + ch(5), i; int dt = (int)ch(2);
    pol.hash = bhash; pol.cmp = bcmp_; pol.dtor = dt ? bdtor : 0; pol.fillmax = ch(3) * 40; pol.logsize = ch(2) ? 0 : 4 + ch(14); /* a table of two or four buckets never grows at the default limit */ memmgr_init_default(&pol.mem);
    size_t base = os_heap_live(); B = os_malloc(nb * sizeof *B); for (i = 0; i < nb; i++) B[i] = (big_t){ (uint64_t)i * stride, 0, 0 };
    CHECK(hash_table_new(&tab, &pol) == 0, "spurious-failure", "creation fails without cause");
    for (i = 0; i < nb; i++) { int r = hash_table_insert(tab, &B[i]); CHECK(r == 0, "insert", "insertion of item %u failed with %d", i, r); }
    unsigned left = nb; hash_table_stat st;
    for (int round = 0; round < 2; round++) {
        hash_table_stats(tab, &st); CHECK(st.nodes == left, "stats", "statistics say %zu items, there are %u", st.nodes, left);
        bseen = 0; hash_table_apply(tab, bapply, &nb); CHECK(bseen == left, "visit-missing", "apply shows %u items of %u", bseen, left);
        for (i = 0; i < nb; i++) {
            big_t q = { B[i].key, 0, 0 }; void *out = (void *)0x33; int r = hash_table_lookup(tab, &q, &out), in = !round || B[i].key % 3 != 1;
            CHECK(in ? r == 1 && out == &B[i] : r == 0 && !out, "lookup", "lookup of item %u that is %s returned %d", i, in ? "present" : "absent", r); CHECK(B[i].seen == (unsigned)in, "visit-missing", "apply showed item %u %u times", i, B[i].seen); B[i].seen = 0;
        }
        if (!round) { int r = hash_table_remove_if(tab, bpred, 0); unsigned n = 0; for (i = 0; i < nb; i++) n += B[i].key % 3 == 1; CHECK(r == (int)n, "remove_if", "remove_if returned %d, it should have removed %u", r, n); left -= n; }
    }
    for (i = 0; i < nb; i += 2) { big_t q = { B[i].key, 0, 0 }; int r = hash_table_remove(tab, &q, 0), in = B[i].key % 3 != 1; CHECK(r == (in ? 0 : -ENOENT), "remove", "removal of item %u that is %s returned %d", i, in ? "present" : "absent", r); left -= (unsigned)in; }
    hash_table_stats(tab, &st); CHECK(st.nodes == left, "stats", "statistics say %zu items, there are %u", st.nodes, left);
    hash_table_delete(tab); if (dt) for (i = 0; i < nb; i++) CHECK(B[i].dead == 1, "dtor-missing", "item %u was destroyed %u times", i, B[i].dead);
    os_free(B); CHECK(os_heap_live() == base, "leak", "%zu blocks left after deletion", os_heap_live() - base);
    tally("vast", 1); run_nontrivial(); cover(run_hash()); ev("%u items", nb); sample("%u items in %zu buckets", nb, st.size);
}
static void run1(void)
{
    os_reset(); os_cfg.alloc = 0; nit = 0; live = 0; locks_held = nlocks = 0; in_call = 0;
    static const uint32_t salts[] = { 0, ~0u, 1, 0x80000000u };
    salt = ch(3) ? ch_seed() : salts[ch(4)];
    hashkind = (int)ch(6); use_dtor = (int)ch(2); nk = 1 + ch(ch(3) ? 40 : MAXK); memset(M, 0, sizeof M);
    static const hash_table_policy Z; hash_table_policy pol = Z;
    pol.hash = hashf; pol.cmp = cmpf; pol.dtor = use_dtor ? dtorf : 0;
    pol.fillmax = ch(4) ? ch(110) : ch(3) * 50; pol.logsize = ch(5) ? 1 + ch(6) : ch(4) == 3 ? ch(8) : 40 + ch(40); if (ch(20) == 19) pol.logsize = 28 + ch(7);
    int mem = (int)ch(2), lk = (int)ch(3);
    if (mem) memmgr_init(&pol.mem, tr_alloc, tr_free, &nk); else memmgr_init_default(&pol.mem);
    if (lk == 1) { pol.lock.create = lk_new; }
    int faulty = (int)ch(2);
    size_t base = os_heap_live();
    probe = os_malloc(sizeof *probe); probe->chk = 0x1234567; probe->id = ~0u; size_t base2 = os_heap_live();
    tab = 0; os_cfg.alloc = faulty;
    int big = pol.logsize >= 20;
    int r = hash_table_new(&tab, &pol);
    if (!faulty) faults_off();
    if (r != 0) {
        CHECK(r < 0, "return-code", "creation failed with %d", r);
        CHECK(os_fired("") || big, "spurious-failure", "creation failed with %d without cause", r);
        CHECK(os_heap_live() == base2 && nlocks == 0 && !locks_held, "leak", "failed creation left %zu blocks, %d locks", os_heap_live() - base2, nlocks);
        os_free(probe); tally("create_failed", 1); if (!big) run_nontrivial(); return;
    }
    CHECK(tab, "return-code", "creation succeeded without a table");
    ev("fillmax %zu logsize %zu hash %d keys %u", pol.fillmax, pol.logsize, hashkind, nk);
    unsigned steps = 10 + ch(ch(4) ? 150 : 1500), enomem = 0, removed = 0; prng g = { ch_seed() }; unsigned padd = 30 + ch(50);
    if (pol.logsize > 8 || pol.logsize == 0) steps = steps > 120 ? 120 : steps;
    for (unsigned s = 0; s < steps; s++) {
        uint64_t rr = prng_next(&g); unsigned k = (unsigned)((rr >> 16) % nk), op = (unsigned)(rr % 100), f = os_fired(""); item *old = M[k];
        if (s % 200 == 199) padd = 15 + (unsigned)(prng_next(&g) % 70);
        if (op < padd) {
            item *i = mk(keyof(k)); unsigned how = (unsigned)((rr >> 8) & 3);
            if (how <= 1) {
                r = hash_table_insert(tab, i);
                ev("insert %u -> %d", k, r);
                if (r == 0) { CHECK(!old, "insert", "insertion of a key that is present succeeded"); M[k] = i; live++; settle(i, 1); }
                else if (r == -EEXIST) CHECK(old, "insert", "insertion of an absent key was refused as existing");
                else { CHECK(r == -ENOMEM && os_fired("") > f, "insert", "insertion failed with %d without cause", r); enomem++; }
            } else if (how == 2) {
                r = hash_table_replace(tab, i);
                ev("replace %u -> %d", k, r);
                if (r == 0) { if (old) let_go(old); else live++; M[k] = i; settle(i, 1); }
                else { CHECK(r < 0 && os_fired("") > f, "replace", "replacement failed with %d without cause", r); enomem++; if (old) CHECK(!dead[old->id], "replace", "a failed replacement destroyed the item"); }
            } else {
                item *p = hash_table_probe(tab, i);
                ev("probe %u -> %d", k, p == i ? 1 : p == old ? 2 : 0);
                if (old) CHECK(p == old, "probe", "probe of a present key did not return its item");
                else if (p) { CHECK(p == i, "probe", "probe of an absent key returned another item"); M[k] = i; live++; settle(i, 1); }
                else { CHECK(os_fired("") > f, "probe", "probe failed without cause"); enomem++; }
            }
            if (M[k] != i) CHECK(!dead[i->id], "dtor-extra", "an item that was not accepted was destroyed");
        } else if (op < padd + (100 - padd) / 2) {
            void *out = (void*)0x33; probe->key = keyof(k); int want = (rr >> 9) & 1;
            r = hash_table_remove(tab, probe, want ? &out : 0);
            ev("remove %u -> %d", k, r);
            if (old) { CHECK(r == 0, "remove", "removal of a present key returned %d", r); if (want) CHECK(out == old, "remove", "removal returned another item"); let_go(old); M[k] = 0; live--; removed++; }
            else CHECK(r == -ENOENT, "remove", "removal of an absent key returned %d", r);
        } else if (op < padd + (100 - padd) * 7 / 10) check_key(k);
        else switch ((rr >> 8) % 6) {
        case 0: { pmod = 1 + (rr >> 20) % 5; prem = (rr >> 30) % (pmod + 1); if (pmod == 1 && (rr >> 50) % 3) prem = 1; clear_seen(); want_cookie = probe; unsigned n = 0, l0 = live;
            r = hash_table_remove_if(tab, pred, probe);
            for (unsigned j = 0; j < nk; j++) if (M[j]) CHECK(seen[M[j]->id], "visit-missing", "remove_if skips an item");
            CHECK(nseen == l0, "visit-extra", "remove_if shows %u items, there are %u", nseen, l0);
            for (unsigned j = 0; j < nk; j++) if (M[j] && M[j]->key % pmod == prem) { let_go(M[j]); M[j] = 0; live--; n++; }
            CHECK(r == (int)n, "remove_if", "remove_if returned %d, it should have removed %u", r, n); removed += n;
            ev("remove_if %llu %llu -> %d", (unsigned long long)pmod, (unsigned long long)prem, r); break; }
        case 1: iterate(0, k, (rr >> 40) & 1 ? ~0u : (unsigned)(rr >> 44) % 8); break;
        case 2: iterate(1, k, (rr >> 40) & 1 ? ~0u : (unsigned)(rr >> 44) % 8); break;
        case 3: iterate(2, k, (rr >> 40) & 1 ? ~0u : (unsigned)(rr >> 44) % 8); break;
        default: if ((rr >> 20) % 4 == 0 || nk < 30) audit(); break;
        }
        CHECK(!locks_held, "lock-left", "an operation left %d locks held", locks_held);
        if (use_dtor && M[k]) CHECK(!dead[M[k]->id], "dtor-extra", "a held item was destroyed");
    }
    faults_off(); os_cfg.alloc = 0;
    audit(); iterate(0, 0, ~0u); iterate(1, 0, ~0u); iterate(2, ch(nk), ~0u);
    /* memory is back: insertion works again */
    for (unsigned k = 0; k < nk; k++) if (!M[k]) { item *i = mk(keyof(k)); CHECK(hash_table_insert(tab, i) == 0, "unusable", "the table does not recover after memory ran out"); M[k] = i; live++; settle(i, 1); break; }
    hash_table_stat st; hash_table_stats(tab, &st);
    hash_table_delete(tab);
    CHECK(!locks_held && nlocks == 0, "leak", "%d locks held, %d left after deletion", locks_held, nlocks);
    if (use_dtor) for (unsigned i = 0; i < nit; i++) CHECK(dead[i] == accepted[i], "dtor-missing", "item %u was %saccepted and destroyed %u times", i, accepted[i] ? "" : "not ", dead[i]);
    for (unsigned i = 0; i < nit; i++) os_free(IT[i]);
    os_free(probe);
    CHECK(os_heap_live() == base, "leak", "%zu blocks left after deletion", os_heap_live() - base);
    tally("operations", steps); tally("growths", (uint64_t)st.splits); tally("out_of_memory", enomem);
    cover(mix64(mix64(nk * 100 + hashkind, pol.fillmax), mix64(st.size * 1000 + live, removed * 1000 + enomem)));
    if (steps > 20) run_nontrivial();
    sample("%u keys, hash kind %d, fill limit %zu, %zu buckets at the end (%d growths): %u operations, %u removed, %u refused for memory", nk, hashkind, pol.fillmax, st.size, st.splits, steps, removed, enomem);
}
static void run(void) { if (ch(4000) == 3999) vast(); else run1(); }
const dst_harness harness = { .property = "M03", .name = "hashtab", .run = run,
  .rule = "one run = one table of any initial size and fill limit, salt and hash quality, with or without destructor, caller's or default memory manager, checking or no lock policy, under 10..1500 seeded operations (insert, replace, probe, lookup, remove, remove_if, apply, three iterators) with failing allocations, against a map model, or (rarely) up to 140000 items; non-trivial: more than 20 operations or a failed creation; distinct by the hash of the whole event log" };
