/* common to the thread-flavour harnesses */
#ifndef THR_H
#define THR_H 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <errno.h>
#include <assert.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include "csim.h"

/* Code under test that lives in a header is compiled together with the harness; its plain memory accesses are
   scheduling points, and the compiler must not move the harness's bookkeeping across them. */
#define BAR __asm__ volatile("" ::: "memory")
/* one operation of the recorded history; stamps are a global event counter */
typedef struct { uint8_t kind, ok, thr, wait, done; uint64_t v; uint32_t inv, ret; } op_t;
#define MAXOP 2048
static op_t H_[MAXOP]; static unsigned nH; static uint32_t clk;
static inline unsigned op_begin(int kind, uint64_t v, int wait)
{
    BAR;
    if (nH >= MAXOP) discard();
    unsigned i = nH++;
    H_[i] = (op_t){ .kind = (uint8_t)kind, .thr = (uint8_t)cs_self(), .v = v, .inv = ++clk, .ret = ~0u, .wait = (uint8_t)wait };
    BAR;
    return i;
}
static inline void op_end(unsigned i, int ok, uint64_t v)
{
    BAR;
    H_[i].ok = (uint8_t)ok; H_[i].v = v; H_[i].ret = ++clk; H_[i].done = 1;
    BAR;
}
enum { ENQ = 1, DEQ = 2 };
static inline const char *opn(const op_t *o) { return o->kind == ENQ ? "enq" : "deq"; }

/* FIFO history of unique values: exactly once, nothing invented, order, capacity.
   Complete histories only (the queue has been drained). */
static void fifo_check(unsigned cap, int strict_order)
{
    static int ie[1<<14], id[1<<14];
    unsigned maxv = 0;
    for (unsigned i = 0; i < nH; i++) if (H_[i].ok && H_[i].v > maxv && H_[i].v < 1<<14) maxv = (unsigned)H_[i].v;
    for (unsigned i = 0; i <= maxv; i++) ie[i] = id[i] = -1;
    for (unsigned i = 0; i < nH; i++) if (H_[i].ok && H_[i].kind == ENQ) ie[H_[i].v] = (int)i;
    for (unsigned i = 0; i < nH; i++) if (H_[i].ok && H_[i].kind == DEQ) {
        uint64_t v = H_[i].v;
        CHECK(v <= maxv && v < (1<<14) && ie[v] >= 0, "invented-item", "T%u received item %llu that nobody enqueued", H_[i].thr, (unsigned long long)v);
        CHECK(id[v] < 0, "duplicate", "item %llu was delivered twice (T%u and T%u)", (unsigned long long)v, H_[id[v]].thr, H_[i].thr);
        id[v] = (int)i;
        CHECK(H_[ie[v]].inv < H_[i].ret, "early", "item %llu was delivered before it was enqueued", (unsigned long long)v);
    }
    for (unsigned v = 0; v <= maxv; v++) if (ie[v] >= 0)
        CHECK(id[v] >= 0, "lost-item", "item %u accepted from T%u was never delivered", v, H_[ie[v]].thr);
    if (strict_order)
        for (unsigned a = 0; a <= maxv; a++) if (ie[a] >= 0)
            for (unsigned b = 0; b <= maxv; b++) if (ie[b] >= 0 && H_[ie[a]].ret < H_[ie[b]].inv)
                CHECK(!(H_[id[b]].ret < H_[id[a]].inv), "order", "item %u was enqueued before item %u but delivered after it", a, b);
    if (cap) {
        /* completed enqueues minus begun dequeues may never exceed the capacity */
        static int8_t d[MAXOP*2 + 8]; memset(d, 0, clk + 2);
        for (unsigned i = 0; i < nH; i++) if (H_[i].ok) { if (H_[i].kind == ENQ) d[H_[i].ret]++; else d[H_[i].inv]--; }
        int n = 0;
        for (uint32_t t = 0; t <= clk; t++) { n += d[t]; CHECK(n <= (int)cap, "over-capacity", "%d items held by a queue of capacity %u", n, cap); }
    }
}
#endif
