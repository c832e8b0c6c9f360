/* M08: linked lists and bounded queues against plain sequences; a node that has left a list is released at once */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "fast/list.h"
#include "fast/llist.h"
#include "fast/queue.h"
#define MAXN 600
static unsigned serial, nops, longest;
/* one model for all: up to 3 sequences of nodes */
static void *M[3][MAXN]; static unsigned L[3];
static void m_ins(int l, unsigned at, void *p) { memmove(&M[l][at + 1], &M[l][at], (L[l] - at) * sizeof(void *)); M[l][at] = p; L[l]++; }
static void *m_del(int l, unsigned at) { void *p = M[l][at]; L[l]--; memmove(&M[l][at], &M[l][at + 1], (L[l] - at) * sizeof(void *)); return p; }
static void m_cat(int to, unsigned at, int from) { memmove(&M[to][at + L[from]], &M[to][at], (L[to] - at) * sizeof(void *)); memcpy(&M[to][at], M[from], L[from] * sizeof(void *)); L[to] += L[from]; L[from] = 0; }
#define IS(i, p, op) CHECK((i) < L[l] && (void *)(p) == M[l][i], "content", "list %d, after %s: position %u of %u holds another node", l, op, (unsigned)(i), L[l])
#define N(i, op, how) CHECK((i) == L[l], "length", "list %d, after %s: %s visits %u nodes of %u", l, op, how, (unsigned)(i), L[l])
/* ---- singly linked ---- */
typedef struct sn { char pad[3]; unsigned id; SL_ENTRY(sn) link; SL_LINK(sn) other; } sn;
SL_HEAD_TYPEDEF(shead, sn);
static void s_same(shead *h, const char *op)
{
    for (int l = 0; l < 2; l++) { unsigned i = 0; sn *p, *t; SL_FOREACH(p, &h[l], link) { IS(i, p, op); i++; } N(i, op, "SL_FOREACH"); i = 0; SL_FOREACH_SAFE(p, &h[l], link, t) { IS(i, p, op); CHECK(t == (i + 1 < L[l] ? M[l][i + 1] : 0), "content", "the next node is another"); i++; } N(i, op, "SL_FOREACH_SAFE");
        CHECK(!SL_EMPTY(&h[l]) == !!L[l] && SL_FIRST(&h[l]) == (L[l] ? M[l][0] : 0), "first", "the first node is another"); for (i = 0; i + 1 < L[l]; i++) CHECK(SL_NEXT((sn *)M[l][i], link) == M[l][i + 1], "content", "the next node is another"); }
}
static void s_run(unsigned n)
{
    shead h[2] = { SL_HEAD_INITIALIZER(&h[0]) }; SL_INIT(&h[1]);
    while (n--) {
        int l = (int)ch(2); unsigned at = L[l] ? ch(L[l]) : 0; sn *e; const char *op;
        switch (ch(5)) {
        case 0: case 1: op = "SL_INSERT_HEAD"; if (L[l] + 1 >= MAXN) break; e = os_malloc(sizeof *e); memset(e, 0xa5, sizeof *e); e->id = ++serial; SL_INSERT_HEAD(&h[l], e, link); m_ins(l, 0, e); break;
        case 2: op = "SL_INSERT_AFTER"; if (!L[l] || L[l] + 1 >= MAXN) break; e = os_malloc(sizeof *e); memset(e, 0xa5, sizeof *e); e->id = ++serial; SL_INSERT_AFTER(&h[l], (sn *)M[l][at], e, link); m_ins(l, at + 1, e); break;
        case 3: op = "SL_REMOVE_HEAD"; if (!L[l]) break; SL_REMOVE_HEAD(&h[l], link); os_free(m_del(l, 0)); break;
        default: op = "SL_INIT"; if (ch(4)) break; { sn *t; SL_FOREACH_SAFE(e, &h[l], link, t) os_free(e); SL_INIT(&h[l]); L[l] = 0; } break;
        }
        nops++; ev("%s: %u %u", op, L[0], L[1]); s_same(h, op); if (L[l] > longest) longest = L[l];
    }
    for (int l = 0; l < 2; l++) for (unsigned i = 0; i < L[l]; i++) os_free(M[l][i]);
}
/* ---- doubly linked ---- */
typedef struct dn { unsigned id; DL_ENTRY(dn) link; char pad[5]; DL_LINK(dn) other; } dn;
DL_HEAD_TYPEDEF(dhead, dn);
static dn *d_new(void) { dn *e = os_malloc(sizeof *e); memset(e, 0xa5, sizeof *e); e->id = ++serial; if (ch(2)) DL_LINK_INIT(e, link); return e; }
static void d_same(dhead *h, const char *op)
{
    for (int l = 0; l < 2; l++) { unsigned i = 0; dn *p; DL_FOREACH(&h[l], p, link) { IS(i, p, op); i++; } N(i, op, "DL_FOREACH"); i = 0; DL_FOREACH_REVERSE(&h[l], p, link) { IS(L[l] - 1 - i, p, op); i++; } N(i, op, "DL_FOREACH_REVERSE");
        CHECK(!DL_EMPTY(&h[l]) == !!L[l] && !DL_empty_p(&h[l]) == !!L[l] && DL_FIRST(&h[l]) == (L[l] ? M[l][0] : 0) && DL_LAST(&h[l]) == (L[l] ? M[l][L[l] - 1] : 0), "first", "the first or last node is another after %s", op);
        for (i = 0; i < L[l]; i++) CHECK(DL_NEXT((dn *)M[l][i], link) == (i + 1 < L[l] ? M[l][i + 1] : 0) && DL_PREV((dn *)M[l][i], link) == (i ? M[l][i - 1] : 0), "content", "the neighbours of node %u of %u are others after %s", i, L[l], op); }
}
static void d_run(unsigned n)
{
    dhead h[2] = { DL_HEAD_INITIALIZER(&h[0]) }; DL_INIT(&h[1]);
    while (n--) {
        int l = (int)ch(2), o = !l; unsigned at = L[l] ? ch(L[l]) : 0; dn *e; const char *op; unsigned k = ch(13); if (L[0] + L[1] + 2 >= MAXN) k = 6;
        switch (k) {
        case 0: op = "DL_INSERT_HEAD"; e = d_new(); DL_INSERT_HEAD(&h[l], e, link); m_ins(l, 0, e); break;
        case 1: op = "DL_INSERT_TAIL"; e = d_new(); DL_INSERT_TAIL(&h[l], e, link); m_ins(l, L[l], e); break;
        case 2: op = "DL_APPEND"; e = d_new(); DL_APPEND(&h[l], e, link); m_ins(l, L[l], e); break;
        case 3: case 4: op = "DL_INSERT_AFTER"; if (!L[l]) break; e = d_new(); DL_INSERT_AFTER(&h[l], (dn *)M[l][at], e, link); m_ins(l, at + 1, e); break;
        case 5: case 7: op = "DL_INSERT_BEFORE"; if (!L[l]) break; e = d_new(); DL_INSERT_BEFORE(&h[l], (dn *)M[l][at], e, link); m_ins(l, at, e); break;
        case 6: case 8: op = "DL_REMOVE"; if (!L[l]) break; DL_REMOVE(&h[l], (dn *)M[l][at], link); os_free(m_del(l, at)); break;
        case 9: op = "DL_REMOVE_HEAD"; e = DL_REMOVE_HEAD(&h[l], link); CHECK(e == (L[l] ? M[l][0] : 0), "removed", "another node is removed from the head"); if (e) os_free(m_del(l, 0)); break;
        case 10: op = "DL_REMOVE_TAIL"; e = DL_REMOVE_TAIL(&h[l], link); CHECK(e == (L[l] ? M[l][L[l] - 1] : 0), "removed", "another node is removed from the tail"); if (e) os_free(m_del(l, L[l] - 1)); break;
        case 11: op = "DL_APPEND_LIST"; DL_APPEND_LIST(&h[l], &h[o], link); m_cat(l, L[l], o); break;
        default: op = "DL_PREPEND_LIST"; DL_PREPEND_LIST(&h[l], &h[o], link); m_cat(l, 0, o); break;
        }
        nops++; ev("%s: %u %u", op, L[0], L[1]); d_same(h, op); if (L[l] > longest) longest = L[l];
    }
    for (int l = 0; l < 2; l++) for (unsigned i = 0; i < L[l]; i++) os_free(M[l][i]);
}
/* ---- circular ---- */
typedef struct ln { unsigned id; char pad[9]; list_head link; } ln;
static ln *l_new(void) { ln *e = os_malloc(sizeof *e); memset(e, 0xa5, sizeof *e); e->id = ++serial; return e; }
#define LN(x) (&((ln *)(x))->link)
static void l_same(list_head *h, const char *op)
{
    for (int l = 0; l < 3; l++) {
        unsigned i = 0; list_head *p, *t; ln *e, *f; list_head *H = &h[l];
        list_for_each(p, H) { IS(i, list_entry(p, ln, link), op); CHECK(list_is_last(p, H) == (i + 1 == L[l]), "last", "node %u of %u %s last", i, L[l], i + 1 == L[l] ? "is not" : "is"); i++; } N(i, op, "list_for_each");
        i = 0; list_for_each_prev(p, H) { IS(L[l] - 1 - i, list_entry(p, ln, link), op); i++; } N(i, op, "list_for_each_prev");
        i = 0; list_for_each_safe(p, t, H) { IS(i, list_entry(p, ln, link), op); i++; } N(i, op, "list_for_each_safe");
        i = 0; __list_for_each(p, H) { IS(i, list_entry(p, ln, link), op); i++; } N(i, op, "__list_for_each");
        i = 0; list_for_each_prev_safe(p, t, H) { IS(L[l] - 1 - i, list_entry(p, ln, link), op); i++; } N(i, op, "list_for_each_prev_safe");
        i = 0; list_for_each_entry(e, H, link) { IS(i, e, op); i++; } N(i, op, "list_for_each_entry");
        i = 0; list_for_each_entry_reverse(e, H, link) { IS(L[l] - 1 - i, e, op); i++; } N(i, op, "list_for_each_entry_reverse");
        i = 0; list_for_each_entry_safe(e, f, H, link) { IS(i, e, op); i++; } N(i, op, "list_for_each_entry_safe");
        i = 0; list_for_each_entry_safe_reverse(e, f, H, link) { IS(L[l] - 1 - i, e, op); i++; } N(i, op, "list_for_each_entry_safe_reverse");
        if (L[l]) { unsigned a = serial % L[l]; e = M[l][a]; i = a + 1; list_for_each_entry_continue(e, H, link) { IS(i, e, op); i++; } N(i, op, "list_for_each_entry_continue");
            e = M[l][a]; i = a; list_for_each_entry_from(e, H, link) { IS(i, e, op); i++; } N(i, op, "list_for_each_entry_from");
            e = M[l][a]; i = L[l] - a; list_for_each_entry_continue_reverse(e, H, link) { IS(L[l] - 1 - i, e, op); i++; } N(i, op, "list_for_each_entry_continue_reverse");
            e = M[l][a]; i = a + 1; list_for_each_entry_safe_continue(e, f, H, link) { IS(i, e, op); i++; } N(i, op, "list_for_each_entry_safe_continue");
            e = M[l][a]; i = a; list_for_each_entry_safe_from(e, f, H, link) { IS(i, e, op); list_safe_reset_next(e, f, link); i++; } N(i, op, "list_for_each_entry_safe_from");
            CHECK(list_first_entry(H, ln, link) == M[l][0], "first", "the first node is another"); }
        e = 0; e = list_prepare_entry(e, H, link); i = 0; list_for_each_entry_continue(e, H, link) { IS(i, e, op); i++; } N(i, op, "the loop after list_prepare_entry");
        CHECK(!list_empty(H) == !!L[l] && !list_empty_careful(H) == !!L[l], "empty", "%u nodes, empty %d", L[l], list_empty(H)); CHECK(!list_is_singular(H) == (L[l] != 1), "singular", "%u nodes, single %d", L[l], list_is_singular(H));
    }
}
static void l_run(unsigned n)
{
    list_head h[3] = { LIST_HEAD_INIT(h[0]), LIST_HEAD_INIT(h[1]) }; list_init(&h[2]);
    while (n--) {
        int l = (int)ch(3), o = (l + 1 + (int)ch(2)) % 3; unsigned at = L[l] ? ch(L[l]) : 0, to = L[o] ? ch(L[o]) : 0; ln *e; const char *op; unsigned k = ch(20); if (L[0] + L[1] + L[2] + 2 >= MAXN) k = 4; int has = L[l] > 0; (void)to;
        switch (k) {
        case 0: case 18: op = "list_add"; e = l_new(); if (has && ch(2)) { list_add(&e->link, LN(M[l][at])); m_ins(l, at + 1, e); } else { list_add(&e->link, &h[l]); m_ins(l, 0, e); } break;
        case 1: case 2: case 19: op = "list_add_tail"; e = l_new(); if (has && ch(2)) { list_add_tail(&e->link, LN(M[l][at])); m_ins(l, at, e); } else { list_add_tail(&e->link, &h[l]); m_ins(l, L[l], e); } break;
        case 3: case 4: op = "list_del"; if (!has) break; list_del(LN(M[l][at])); os_free(m_del(l, at)); break;
        case 5: op = "list_replace"; if (!has) break; e = l_new(); list_replace(LN(M[l][at]), &e->link); os_free(M[l][at]); M[l][at] = e; break;
        case 6: op = "list_replace_init"; if (!has) break; e = l_new(); list_replace_init(LN(M[l][at]), &e->link); CHECK(list_empty(LN(M[l][at])), "init", "the replaced node is not initialised"); os_free(M[l][at]); M[l][at] = e; break;
        case 7: op = "list_del_init"; if (!has) break; list_del_init(LN(M[l][at])); CHECK(list_empty(LN(M[l][at])), "init", "the deleted node is not initialised"); if (ch(2)) list_del_init(LN(M[l][at])); os_free(m_del(l, at)); break;
        case 8: op = "list_move"; if (!has) break; e = M[l][at]; list_move(&e->link, &h[o]); m_del(l, at); m_ins(o, 0, e); break;
        case 9: op = "list_move_tail"; if (!has) break; e = M[l][at]; list_move_tail(&e->link, &h[o]); m_del(l, at); m_ins(o, L[o], e); break;
        case 10: op = "list_move within"; if (!has) break; e = M[l][at]; m_del(l, at); if (ch(2)) { list_move(&e->link, &h[l]); m_ins(l, 0, e); } else { list_move_tail(&e->link, &h[l]); m_ins(l, L[l], e); } break;
        case 11: op = "list_rotate_left"; list_rotate_left(&h[l]); if (has) { void *p = m_del(l, 0); m_ins(l, L[l], p); } break;
        case 12: op = "list_cut_position"; if (!has && L[o]) break; for (unsigned i = 0; i < L[o]; i++) os_free(M[o][i]); L[o] = 0; /* what was in the target is lost */ if (has && ch(4)) { list_cut_position(&h[o], &h[l], LN(M[l][at])); memcpy(M[o], M[l], (at + 1) * sizeof(void *)); L[o] = at + 1; for (unsigned i = 0; i < L[o]; i++) m_del(l, 0); } else list_cut_position(&h[o], &h[l], &h[l]); break;
        case 13: op = "list_splice"; list_splice(&h[o], &h[l]); m_cat(l, 0, o); list_init(&h[o]); break;
        case 14: op = "list_splice_tail"; list_splice_tail(&h[o], &h[l]); m_cat(l, L[l], o); list_init(&h[o]); break;
        case 15: op = "list_splice_init"; if (has && ch(2)) { list_splice_init(&h[o], LN(M[l][at])); m_cat(l, at + 1, o); } else { list_splice_init(&h[o], &h[l]); m_cat(l, 0, o); } break;
        case 16: op = "list_splice_tail_init"; if (has && ch(2)) { list_splice_tail_init(&h[o], LN(M[l][at])); m_cat(l, at, o); } else { list_splice_tail_init(&h[o], &h[l]); m_cat(l, L[l], o); } break;
        default: op = "emptying"; if (ch(3)) break; { ln *f; list_for_each_entry_safe(e, f, &h[l], link) { list_del(&e->link); os_free(e); } L[l] = 0; } break;
        }
        nops++; ev("%s: %u %u %u", op, L[0], L[1], L[2]); l_same(h, op); if (L[l] > longest) longest = L[l];
    }
    for (int l = 0; l < 3; l++) for (unsigned i = 0; i < L[l]; i++) os_free(M[l][i]);
}
/* ---- with a single pointer as head ---- */
typedef struct hn { char pad[6]; hlist_node link; unsigned id; } hn;
#define HN(x) (&((hn *)(x))->link)
static hn *h_new(void) { hn *e = os_malloc(sizeof *e); memset(e, 0xa5, sizeof *e); e->id = ++serial; if (ch(2)) { INIT_HLIST_NODE(&e->link); CHECK(hlist_unhashed(&e->link), "unhashed", "a fresh node is on a list"); } return e; }
static void h_same(hlist_head *h, const char *op)
{
    for (int l = 0; l < 2; l++) {
        unsigned i = 0; hlist_node *p, *t; hn *e; 
        hlist_for_each(p, &h[l]) { IS(i, hlist_entry(p, hn, link), op); CHECK(!hlist_unhashed(p), "unhashed", "a node on a list is not"); i++; } N(i, op, "hlist_for_each");
        i = 0; hlist_for_each_safe(p, t, &h[l]) { IS(i, hlist_entry(p, hn, link), op); i++; } N(i, op, "hlist_for_each_safe");
        i = 0; hlist_for_each_entry(e, p, &h[l], link) { IS(i, e, op); i++; } N(i, op, "hlist_for_each_entry");
        i = 0; hlist_for_each_entry_safe(e, p, t, &h[l], link) { IS(i, e, op); i++; } N(i, op, "hlist_for_each_entry_safe");
        if (L[l]) { unsigned a = serial % L[l]; p = HN(M[l][a]); i = a + 1; hlist_for_each_entry_continue(e, p, link) { IS(i, e, op); i++; } N(i, op, "hlist_for_each_entry_continue"); p = HN(M[l][a]); i = a; hlist_for_each_entry_from(e, p, link) { IS(i, e, op); i++; } N(i, op, "hlist_for_each_entry_from"); }
        CHECK(!hlist_empty(&h[l]) == !!L[l], "empty", "%u nodes, empty %d", L[l], hlist_empty(&h[l]));
    }
}
static void h_run(unsigned n)
{
    hlist_head h[2] = { HLIST_HEAD_INIT }; INIT_HLIST_HEAD(&h[1]);
    while (n--) {
        int l = (int)ch(2), o = !l; unsigned at = L[l] ? ch(L[l]) : 0; hn *e; const char *op; unsigned k = ch(9); if (L[0] + L[1] + 2 >= MAXN) k = 5; int has = L[l] > 0;
        switch (k) {
        case 0: case 1: op = "hlist_add_head"; e = h_new(); hlist_add_head(&e->link, &h[l]); m_ins(l, 0, e); break;
        case 2: case 8: op = "hlist_add_before"; if (!has) break; e = h_new(); hlist_add_before(&e->link, HN(M[l][at])); m_ins(l, at, e); break;
        case 3: case 4: op = "hlist_add_after"; if (!has) break; e = h_new(); hlist_add_after(HN(M[l][at]), &e->link); m_ins(l, at + 1, e); break;
        case 5: op = "hlist_del"; if (!has) break; hlist_del(HN(M[l][at])); CHECK(hlist_unhashed(HN(M[l][at])), "unhashed", "a removed node is still on a list"); os_free(m_del(l, at)); break;
        case 6: op = "hlist_del_init"; if (!has) { e = h_new(); INIT_HLIST_NODE(&e->link); hlist_del_init(&e->link); hlist_add_fake(&e->link); CHECK(!hlist_unhashed(&e->link), "unhashed", "a node is not seen as hashed"); e->link.next = 0; hlist_del(&e->link); os_free(e); break; } hlist_del_init(HN(M[l][at])); CHECK(hlist_unhashed(HN(M[l][at])), "unhashed", "a removed node is still on a list"); if (ch(2)) hlist_del_init(HN(M[l][at])); os_free(m_del(l, at)); break;
        default: op = "hlist_move_list"; if (L[o]) break; hlist_move_list(&h[l], &h[o]); m_cat(o, 0, l); break;
        }
        nops++; ev("%s: %u %u", op, L[0], L[1]); h_same(h, op); if (L[l] > longest) longest = L[l];
    }
    for (int l = 0; l < 2; l++) for (unsigned i = 0; i < L[l]; i++) os_free(M[l][i]);
}
/* ---- queues ---- */
typedef struct { uint64_t a; char c[13]; } item;
static item mk(uint64_t x) { item i; memset(&i, 0, sizeof i); i.a = x; snprintf(i.c, sizeof i.c, "%u", (unsigned)x); return i; }
FQ_TYPEDEF(fq1, item, 1); FQ_TYPEDEF(fq2, item, 2); FQ_TYPEDEF(fq7, item, 7); FQ_DYN_TYPEDEF(fqd, item)
static struct { fqd q; } after;
#define QUEUE(q, SZ) do { unsigned z_ = (SZ); uint64_t lo = serial, hi = serial; item it; \
    while (n--) { unsigned k_ = ch(8); const char *op; \
        if (k_ < 3) { op = "enq"; int r = FQ_ENQ(q, mk(hi)); CHECK(!!r == (hi - lo < z_ - 1), "full", "adding to a queue with %u of %u elements returned %d", (unsigned)(hi - lo), z_ - 1, r); if (r) hi++; } \
        else if (k_ < 5) { op = "deq"; it = mk(0xdead); int r = FQ_DEQ(q, it); CHECK(!!r == (hi > lo), "empty", "taking from a queue with %u elements returned %d", (unsigned)(hi - lo), r); item w = mk(r ? lo : 0xdead); CHECK(!memcmp(&w, &it, sizeof w), "content", "element %u is taken instead of %u", (unsigned)it.a, (unsigned)lo); lo += !!r; } \
        else if (k_ == 5) { op = "fill"; unsigned c = ch(z_ + 2); while (c--) if (FQ_ENQ(q, mk(hi))) hi++; CHECK(hi - lo < z_, "full", "too many elements"); } \
        else if (k_ == 6) { op = "drain"; unsigned c = ch(z_ + 2); while (c-- && FQ_DEQ(q, it)) { CHECK(it.a == lo, "content", "element %u is taken instead of %u", (unsigned)it.a, (unsigned)lo); lo++; } CHECK(lo <= hi, "content", "more taken than added"); } \
        else { op = "reset"; if (!ch(4)) { FQ_RESET(q); lo = hi; } } \
        nops++; evq(hi, lo, k_); CHECK(FQ_SIZE(q) == hi - lo, "length", "a queue of %u elements, %u expected after %s", FQ_SIZE(q), (unsigned)(hi - lo), op); CHECK(!FQ_EMPTY_P(q) == (hi > lo) && !FQ_FULL_P(q) == (hi - lo < z_ - 1), "length", "full or empty is wrong for %u of %u elements", (unsigned)(hi - lo), z_ - 1); if (hi - lo > longest) longest = (unsigned)(hi - lo); \
    } serial = (unsigned)hi; } while (0)
static void q_run(unsigned n)
{
    switch (ch(5)) {
    case 0: { fq1 *q = os_malloc(sizeof *q); FQ_INIT(q, 1); QUEUE(q, 1); FQ_FINI(q); os_free(q); break; }
    case 1: { fq2 *q = os_malloc(sizeof *q); FQ_INIT(q, 2); QUEUE(q, 2); FQ_FINI(q); os_free(q); break; }
    case 2: { fq7 *q = os_malloc(sizeof *q); FQ_INIT(q, 7); QUEUE(q, 7); FQ_FINI(q); os_free(q); break; }
    default: { fqd *q = &after.q; unsigned z = 1 + (ch(3) ? ch(12) : ch(300)); FQ_DYN_INIT(q, z); QUEUE(q, z); FQ_DYN_FINI(q); break; }
    }
}
static void run(void)
{
    os_reset(); nops = longest = 0; serial = ch(100); memset(L, 0, sizeof L); unsigned kind = ch(5), n = 5 + ch(80); if (ch(12) == 11) n += 400;
    static void (*const f[])(unsigned) = { s_run, d_run, l_run, h_run, q_run }; static const char *const nm[] = { "singly linked", "doubly linked", "circular", "single pointer", "queue" }; f[kind](n);
    CHECK(os_heap_live() == 0, "leak", "%u blocks left", (unsigned)os_heap_live());
    tally("operations", nops); run_nontrivial(); cover(mix64(run_hash(), kind)); sample("%s: %u operations, up to %u nodes", nm[kind], nops, longest);
}
const dst_harness harness = { .property = "M08", .name = "lists", .run = run,
  .rule = "one run = up to 485 operations on two or three lists of one kind (or one bounded queue), each compared through every kind of iteration with plain sequences, every removed node released at once; every run is non-trivial; distinct by the hash of the whole event log" };
