From 329b70fd2fe802f5efb08c898575c80579d03f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:57 +0000
Subject: [PATCH 01/64] fix: ringbuf: a thief of head must pass on what it saw
 of the opposite tail

The compare-and-swap of prod.head/cons.head was acquire-only. Another thread could
read the advanced head together with an older value of the opposite tail, compute a
negative (huge) number of free or filled slots and overwrite unread or read unwritten
slots. Use acquire-release.
---
 inc/fast/ringbuf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/fast/ringbuf.h b/inc/fast/ringbuf.h
index 2328e27..beb517f 100644
--- a/inc/fast/ringbuf.h
+++ b/inc/fast/ringbuf.h
@@ -457,7 +457,7 @@ __rte_ring_mp_do_enqueue(struct rte_ring *r, void * const *obj_table,
         prod_next = prod_head + n;
         success   = atomic_compare_exchange_weak_explicit(&r->prod.head, &prod_head,
                              prod_next,
-                             memory_order_acquire, memory_order_relaxed);
+                             memory_order_acq_rel, memory_order_relaxed);
     } while (unlikely(success == 0));
 
     /* write entries in ring */
@@ -594,7 +594,7 @@ __rte_ring_mc_do_dequeue(struct rte_ring *r, void **obj_table,
         cons_next = cons_head + n;
         success   = atomic_compare_exchange_weak_explicit(&r->cons.head, &cons_head,
                              cons_next,
-                             memory_order_acquire, memory_order_relaxed);
+                             memory_order_acq_rel, memory_order_relaxed);
     } while (likely(success == 0));
 
 
-- 
2.43.0


From 4d5b3e77338c7310710fd7e0915df6eee98c0acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:57 +0000
Subject: [PATCH 02/64] fix: syncq: retry interrupted semaphore waits, report
 and undo failed initialisation

An EINTR from sem_wait() was taken for a successful wait, so a thread overwrote
an unread item or took one that was not there. pthread_mutex_init() returns its error
instead of setting errno.
---
 inc/fast/syncq.h | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/inc/fast/syncq.h b/inc/fast/syncq.h
index b5c1f52..e9767c8 100644
--- a/inc/fast/syncq.h
+++ b/inc/fast/syncq.h
@@ -26,6 +26,7 @@ extern "C" {
 
 #include <stdint.h>
 #include <assert.h>
+#include <errno.h>
 #include <semaphore.h>
 #include <pthread.h>
 
@@ -72,9 +73,18 @@ __syncobj_init(__syncobj* s, size_t n)
 {
     int r;
 
-    if ((r = pthread_mutex_init(&s->lock, 0)) != 0)  return -errno;
-    if ((r = sem_init(&s->notempty, 0, 0)) != 0)     return -errno;
-    if ((r = sem_init(&s->notfull,  0, n)) != 0)     return -errno;
+    if ((r = pthread_mutex_init(&s->lock, 0)) != 0)  return -r;
+    if (sem_init(&s->notempty, 0, 0) != 0) {
+        r = -errno;
+        pthread_mutex_destroy(&s->lock);
+        return r;
+    }
+    if (sem_init(&s->notfull,  0, n) != 0) {
+        r = -errno;
+        sem_destroy(&s->notempty);
+        pthread_mutex_destroy(&s->lock);
+        return r;
+    }
 
     s->rd = s->wr = 0;
     s->sz = n;
@@ -82,6 +92,16 @@ __syncobj_init(__syncobj* s, size_t n)
 }
 
 
+// Wait on 'sem'; a signal handler interrupting the wait does not
+// mean we own a slot (or an item) - so wait again.
+static inline void
+__syncobj_wait(sem_t *sem)
+{
+    while (sem_wait(sem) != 0 && errno == EINTR)
+        ;
+}
+
+
 /**
  * Initialize a SyncQ 'q0'.
  */
@@ -109,7 +129,7 @@ __syncobj_init(__syncobj* s, size_t n)
 #define SYNCQ_ENQ(q0, obj)      do { \
                                     typeof(q0)  q_ = q0; \
                                     __syncobj*  s_ = &q_->s; \
-                                    sem_wait(&s_->notfull); \
+                                    __syncobj_wait(&s_->notfull); \
                                     pthread_mutex_lock(&s_->lock); \
                                     uint32_t w_ = s_->wr++; \
                                     if (s_->wr == s_->sz) s_->wr = 0;\
@@ -126,7 +146,7 @@ __syncobj_init(__syncobj* s, size_t n)
 #define SYNCQ_DEQ(q0)      ({\
                                     typeof(q0)  q_ = q0; \
                                     __syncobj*  s_ = &q_->s; \
-                                    sem_wait(&s_->notempty); \
+                                    __syncobj_wait(&s_->notempty); \
                                     pthread_mutex_lock(&s_->lock); \
                                     uint32_t r_ = s_->rd++;\
                                     if (s_->rd == s_->sz) s_->rd = 0;\
-- 
2.43.0


From 461df6a1a9174805726ef201944684eff4353783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:38 +0000
Subject: [PATCH 03/64] fix: job manager: undo and report every failed step of
 initialisation

---
 src/posix/job.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/posix/job.c b/src/posix/job.c
index 33f8bb8..e8d5a36 100644
--- a/src/posix/job.c
+++ b/src/posix/job.c
@@ -50,6 +50,7 @@ typedef struct job_context job_context;
  * Return 0 if no job, job_ptr otherwise.
  */
 static void* job_manager_get(job_manager*);
+void job_manager_cleanup(job_manager*);
 
 
 /*
@@ -98,14 +99,23 @@ job_manager_init(job_manager* jm, int nthreads, jobfunc_t func, void* ctx)
         nthreads = sys_cpu_getavail();
 
     jm->threads  = NEWZA(job_context, nthreads);
+    if (!jm->threads) return -ENOMEM;
+
     jm->nthreads = nthreads;
 
 
     r = SYNCQ_INIT(&jm->q, JOB_MAX);
-    if (r != 0) return r;
+    if (r != 0) {
+        DEL(jm->threads);
+        return r;
+    }
 
-    if ((r = sem_init(&jm->done, 0, 0)) != 0)
-        return -errno;
+    if (sem_init(&jm->done, 0, 0) != 0) {
+        r = -errno;
+        SYNCQ_FINI(&jm->q);
+        DEL(jm->threads);
+        return r;
+    }
 
 
     /*
@@ -124,6 +134,11 @@ job_manager_init(job_manager* jm, int nthreads, jobfunc_t func, void* ctx)
         if ((r = pthread_create(&t->id, 0, thread_func, t)) != 0)
         {
             error(0, r, "job manager coulnd't create thread-%d", i);
+
+            /* Don't leave the threads we started behind. */
+            jm->nthreads = i;
+            job_manager_wait(jm);
+            job_manager_cleanup(jm);
             return -r;
         }
     }
-- 
2.43.0


From c4a6b7182f5a269e08e377a34f5e87875b990297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:38 +0000
Subject: [PATCH 04/64] fix: work manager: undo and report every failed step of
 initialisation; destroy its lock

---
 src/posix/work.c | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/posix/work.c b/src/posix/work.c
index dd9811a..4cbf29f 100644
--- a/src/posix/work.c
+++ b/src/posix/work.c
@@ -90,6 +90,9 @@ thread_func(void* p)
 }
 
 
+void work_manager_cleanup(work_manager* wm);
+
+
 /*
  * Create and initialize a work manager. Return number of threads
  * created.
@@ -106,16 +109,24 @@ work_manager_init(work_manager* wm, int nthreads, workfunc_t func, void* ctx)
         nthreads = sys_cpu_getavail();
 
     wm->ctx      = NEWZA(worker_context, nthreads);
+    if (!wm->ctx) return -ENOMEM;
+
     wm->nthreads = nthreads;
     wm->next     = 0;
 
 
-    if ((r = sem_init(&wm->done, 0, 0)) != 0)
-        return -errno;
+    if (sem_init(&wm->done, 0, 0) != 0) {
+        r = -errno;
+        DEL(wm->ctx);
+        return r;
+    }
 
 
-    if ((r = pthread_mutex_init(&wm->lock, 0)) != 0)
+    if ((r = pthread_mutex_init(&wm->lock, 0)) != 0) {
+        sem_destroy(&wm->done);
+        DEL(wm->ctx);
         return -r;
+    }
 
 
     /*
@@ -126,18 +137,28 @@ work_manager_init(work_manager* wm, int nthreads, workfunc_t func, void* ctx)
         worker_context* wc  = &wm->ctx[i];
 
         r = SYNCQ_INIT(&wc->q, WORK_MAX);
-        if (r != 0) return -errno;
+        if (r != 0) goto fail;
 
         wc->func    = func;
         wc->context = ctx;
         wc->cpunr   = i;
         wc->done    = &wm->done;
 
-        if ((r = pthread_create(&wc->id, 0, thread_func, wc)) != 0)
-            return -r;
+        if ((r = pthread_create(&wc->id, 0, thread_func, wc)) != 0) {
+            SYNCQ_FINI(&wc->q);
+            r = -r;
+            goto fail;
+        }
     }
 
     return nthreads;
+
+fail:
+    /* Don't leave the threads we started behind. */
+    wm->nthreads = i;
+    work_manager_wait(wm);
+    work_manager_cleanup(wm);
+    return r;
 }
 
 
@@ -158,6 +179,7 @@ work_manager_cleanup(work_manager* wm)
     }
 
     sem_destroy(&wm->done);
+    pthread_mutex_destroy(&wm->lock);
     DEL(wm->ctx);
 }
 
-- 
2.43.0


From 8f76aa4854ba201470ed860e8390f1da53975fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:03 +0000
Subject: [PATCH 05/64] fix: hashtab: hold the table lock across lookup, insert
 and remove; release it on every path; report locks that can't be made

---
 src/hashtable/hashtab.c | 94 ++++++++++++++++++++++++++++++-----------
 src/posix/cmutex.c      |  8 +++-
 2 files changed, 77 insertions(+), 25 deletions(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index 6ec93b6..ca88581 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -44,6 +44,37 @@ hashfunc(hash_table * tab, const void * key)
 }
 
 
+/*
+ * Instantiate lock 'l' from the policy 'from'.
+ *
+ * Return 0 on success, -ENOMEM if the lock couldn't be created.
+ */
+static int
+mk_lock(lockmgr * l, const lockmgr * from)
+{
+    *l = *from;
+    lockmgr_create(l);
+    return l->create && !l->lock ? -ENOMEM : 0;
+}
+
+
+/* Instantiate the locks of buckets [i, n); undo all on failure. */
+static int
+mk_bucket_locks(hash_bucket * buckets, size_t i, size_t n, const lockmgr * from)
+{
+    size_t j;
+
+    for (j = i; j < n; ++j)
+    {
+        if (mk_lock(&buckets[j].lock, from) == 0) continue;
+
+        while (j-- > i) lockmgr_delete(&buckets[j].lock);
+        return -ENOMEM;
+    }
+    return 0;
+}
+
+
 /*
  * Create a new hash table.
  */
@@ -71,7 +102,6 @@ hash_table_new(hash_table_t * ptab, const hash_table_policy * tr)
     tab->cmp     = tr->cmp;
     tab->dtor    = tr->dtor;
     tab->mem     = tr->mem;
-    tab->lock    = tr->lock;
     tab->buckets = tNEWA(hash_bucket, tab, tab->size);
     if ( !tab->buckets )
     {
@@ -82,19 +112,23 @@ hash_table_new(hash_table_t * ptab, const hash_table_policy * tr)
     memset(tab->buckets, 0, sizeof(hash_bucket) * tab->size);
 
     /* Initialize locks - hash-table and per-bucket */
-    lockmgr_create(&tab->lock);
+    if (mk_lock(&tab->lock, &tr->lock) < 0)
+        goto nolock;
 
-    for (i = 0; i < tab->size; ++i)
+    if (mk_bucket_locks(tab->buckets, 0, tab->size, &tr->lock) < 0)
     {
-        hash_bucket* b = &tab->buckets[i];
-
-        b->lock = tab->lock;
-        lockmgr_create(&b->lock);
+        lockmgr_delete(&tab->lock);
+        goto nolock;
     }
 
     *ptab        = tab;
 
     return 0;
+
+nolock:
+    memmgr_free(&tr->mem, tab->buckets);
+    memmgr_free(&tr->mem, tab);
+    return -ENOMEM;
 }
 
 
@@ -208,9 +242,12 @@ hash_table_lookup(hash_table * tab, const void * key, void** p_ret)
     if (!(tab && key)) return -EINVAL;
 
     hash  = hashfunc(tab, key);
-    b     = &tab->buckets[hash & (tab->size -1)];
     cmp   = tab->cmp;
 
+    // Protect against resizes: the bucket must not move under us.
+    lockmgr_lock(&tab->lock);
+
+    b     = &tab->buckets[hash & (tab->size -1)];
     lockmgr_lock(&b->lock);
 
     SL_FOREACH(p, &b->head, link) {
@@ -225,7 +262,9 @@ hash_table_lookup(hash_table * tab, const void * key, void** p_ret)
 
     lockmgr_unlock(&b->lock);
 
-    if (!ret) ++tab->stats.failed_lookups;
+    if (!retval) ++tab->stats.failed_lookups;
+    lockmgr_unlock(&tab->lock);
+
     if (p_ret) *p_ret = ret;
 
     return retval;
@@ -249,9 +288,12 @@ hash_table_remove(hash_table * tab, const void * key, void** p_val)
 
     retval = -ENOENT;
     hash   = hashfunc(tab, key);
-    b      = &tab->buckets[hash & (tab->size -1)];
     cmp    = tab->cmp;
 
+    // Protect against resizes: the bucket must not move under us.
+    lockmgr_lock(&tab->lock);
+
+    b      = &tab->buckets[hash & (tab->size -1)];
     lockmgr_lock(&b->lock);
 
     p_next = &SL_FIRST(&b->head);
@@ -269,6 +311,7 @@ hash_table_remove(hash_table * tab, const void * key, void** p_val)
     }
 
     lockmgr_unlock(&b->lock);
+    lockmgr_unlock(&tab->lock);
 
     return retval;
 }
@@ -380,8 +423,12 @@ insert_internal(hash_table * tab, void ** p_data, int op)
     int (*cmp)(const void*, const void*) = tab->cmp;
 
     uint32_t hash  = hashfunc(tab, data);
-    hash_bucket* b = &tab->buckets[hash & (tab->size-1)];
+    hash_bucket* b;
+
+    // Protect against resizes: the bucket must not move under us.
+    lockmgr_lock(&tab->lock);
 
+    b = &tab->buckets[hash & (tab->size-1)];
     lockmgr_lock(&b->lock);
     SL_FOREACH(e, &b->head, link) {
         if (e->hash != hash)            continue;
@@ -412,6 +459,7 @@ insert_internal(hash_table * tab, void ** p_data, int op)
                 break;
         }
 
+        lockmgr_unlock(&b->lock);
         goto _done;
     }
 
@@ -422,7 +470,10 @@ insert_internal(hash_table * tab, void ** p_data, int op)
      */
 
     e = tNEW(hash_node, tab);
-    if (!e) goto _done;
+    if (!e) {
+        lockmgr_unlock(&b->lock);
+        goto _done;
+    }
 
     retval  = 0;
     e->data = data;
@@ -434,8 +485,6 @@ insert_internal(hash_table * tab, void ** p_data, int op)
     /*
      * Update statistics and see if table needs to grow.
      */
-    lockmgr_lock(&tab->lock);
-
     ++tab->stats.inserts;
     ++tab->stats.nodes;
     ++b->count;
@@ -454,9 +503,8 @@ insert_internal(hash_table * tab, void ** p_data, int op)
             retval = resize(tab);
     }
 
-    lockmgr_unlock(&tab->lock);
-
 _done:
+    lockmgr_unlock(&tab->lock);
     return retval;
 }
 
@@ -474,13 +522,18 @@ resize(hash_table * tab)
             fill    = 0,
             maxchainlen = 0;
 
-    lockmgr* lock = &tab->lock;
     hash_bucket * buckets = tNEWA(hash_bucket, tab, newsize);
 
     if (!buckets) return -ENOMEM;
 
     memset(buckets, 0, newsize * sizeof(hash_bucket));
 
+    // initialize locks for new buckets.
+    if (mk_bucket_locks(buckets, n, newsize, &tab->lock) < 0) {
+        tFREE(tab, buckets);
+        return -ENOMEM;
+    }
+
     // Now, redistribute old nodes into new buckets
     for (i = 0; i < n; ++i) {
         hash_bucket* b = &tab->buckets[i];
@@ -506,13 +559,6 @@ resize(hash_table * tab)
         buckets[i].lock = b->lock;
     }
 
-    // initialize locks for new buckets.
-    for (i = n; i < newsize; ++i) {
-        hash_bucket* new = &buckets[i];
-        new->lock = *lock;
-        lockmgr_create(&new->lock);
-    }
-
     hash_bucket* oldb = tab->buckets;
     tab->buckets = buckets;
     tab->size    = newsize;
diff --git a/src/posix/cmutex.c b/src/posix/cmutex.c
index fa3f471..6b12788 100644
--- a/src/posix/cmutex.c
+++ b/src/posix/cmutex.c
@@ -54,11 +54,17 @@ lockmgr_new_mutex(lockmgr* l)
     if (!l)
         return;
 
+    /* A lock that couldn't be made has no 'lock' method. */
+    l->lock   = 0;
+    l->unlock = 0;
+    l->dtor   = 0;
+    l->opaq   = 0;
+
     m = NEWZ(pthread_mutex_t);
     if (!m)
         return;
 
-    if (pthread_mutex_init(m, 0) < 0)
+    if (pthread_mutex_init(m, 0) != 0)
     {
         DEL(m);
         return;
-- 
2.43.0


From 3b7096bdf976a943acc5e46463e58bdc2c5838b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:03 +0000
Subject: [PATCH 06/64] fix: hashtab: a failed growth doesn't fail the
 insertion; remove_if hands the item to its predicate

---
 src/hashtable/hashtab.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index ca88581..30e3c18 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -346,7 +346,7 @@ hash_table_remove_if(hash_table * tab,
         lockmgr_lock(&b->lock);
         p_next = &SL_FIRST(&b->head);
         while ((p = *p_next)) {
-            if ((*pred)(cookie, &p->data)) {
+            if ((*pred)(cookie, p->data)) {
                 ++retval;
                 *p_next = SL_NEXT(p, link);
                 remove_node(tab, b, p);
@@ -500,7 +500,7 @@ insert_internal(hash_table * tab, void ** p_data, int op)
     if (b->count == 1) {
         ++tab->stats.fill;
         if ( ((tab->stats.fill * 100) / (tab->size + 1)) > tab->fillmax )
-            retval = resize(tab);
+            (void) resize(tab); // the item is in, even if we can't grow
     }
 
 _done:
-- 
2.43.0


From e7c9a1d42a7aa77e7a1a2885f9fffd7025eba68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:11 +0000
Subject: [PATCH 07/64] fix: hashtab iterators: don't take the table lock
 twice, report lack of memory, compare items, follow the salted chain

---
 src/hashtable/hashtab_iter.c | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index 71900be..58f30c9 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -234,8 +234,10 @@ _mk_iter(hash_table_iter_t* p_ret,
     it->table = tab;
     it->op    = Iter_tab[type];
 
-    if (it->op->init)
-        (*it->op->init)(it, param);
+    if (it->op->init && (retval = (*it->op->init)(it, param)) < 0) {
+        tFREE(tab, it);
+        it = 0;
+    }
 
 _done:
     lockmgr_unlock(&tab->lock);
@@ -315,11 +317,11 @@ qsort_cmp(const void * a, const void * b)
     indir_node * p = (indir_node *)a,
                * q = (indir_node *)b;
 
-    return (*p->cmp)(&p->node->data, &q->node->data);
+    return (*p->cmp)(p->node->data, q->node->data);
 }
 
 
-/* Initialize the sorted iterator. */
+/* Initialize the sorted iterator. Called with the table lock held. */
 static int
 sorted_iter_init(hash_table_iter * it, const void * param)
 {
@@ -328,18 +330,17 @@ sorted_iter_init(hash_table_iter * it, const void * param)
     sorted_iter * sorted = &it->un.sorted;
     size_t i, n;
     hash_cmp_f * cmp;
-    int ok = EOF;
 
     assert(tab);
 
     USEARG(param);
 
-    lockmgr_lock(&tab->lock);
     sorted->max = tab->stats.nodes;
-    if (sorted->max == 0) goto _done;
+    if (sorted->max == 0) return 0;
 
     cmp         = tab->cmp;
     sorted->nodes = tNEWA(indir_node, tab, sorted->max);
+    if (!sorted->nodes) return -ENOMEM;
 
     nodes = sorted->nodes;
     n     = tab->size;
@@ -363,11 +364,7 @@ sorted_iter_init(hash_table_iter * it, const void * param)
     if (sorted->max > 1)
         qsort(sorted->nodes, sorted->max, sizeof sorted->nodes[0], qsort_cmp);
 
-    ok = 0;
-
-_done:
-    lockmgr_unlock(&tab->lock);
-    return ok;
+    return 0;
 }
 
 
@@ -388,7 +385,8 @@ sorted_iter_end(hash_table_iter * it)
 {
     assert(it->table);
 
-    tFREE(it->table, it->un.sorted.nodes);
+    if (it->un.sorted.nodes)
+        tFREE(it->table, it->un.sorted.nodes);
     it->un.sorted.max   = 0;
     it->un.sorted.nodes = 0;
     return 0;
@@ -443,7 +441,7 @@ static int
 bucket_iter_init(hash_table_iter * it, const void * key)
 {
     hash_table * tab = it->table;
-    uint32_t  hash  = (*tab->hash)(key);
+    uint32_t  hash  = tab->random ^ (*tab->hash)(key);
     hash_bucket * b  = &tab->buckets[hash & (tab->size -1)];
 
     it->un.bucket.bucket = b;
@@ -479,7 +477,7 @@ bucket_iter_end(hash_table_iter * it)
 static int
 bucket_iter_next(hash_table_iter * it)
 {
-    it->cur = SL_NEXT(it->cur, link);
+    if (it->cur) it->cur = SL_NEXT(it->cur, link);
     return it->cur ? 0 : EOF;
 }
 
-- 
2.43.0


From 1612862ae1c7b66fa375ce18895ec28d7384651c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:55 +0000
Subject: [PATCH 08/64] fix: mempool: one-block pools, tiny caller zones and
 failed creation

A pool with a single block per chunk aborted on an assertion, a zone smaller
than the pool state (or its alignment) wrapped the size around and was written
past its end, rounding up a huge block size wrapped to zero, and a failing
mempool_new() leaked the pool state.
---
 src/mempool.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/mempool.c b/src/mempool.c
index 54c4331..67df28e 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -22,6 +22,7 @@
 #include <stddef.h>
 #include <inttypes.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <assert.h>
 
@@ -230,7 +231,7 @@ new_chunk(mempool* a)
     uint64_t alloc_size = sizeof(memchunk) + chunk_size + MINALIGNMENT;
 
     /* Guard against arithmetic overflow */
-    assert(chunk_size > a->block_size && chunk_size > a->min_units);
+    assert(chunk_size >= a->block_size && chunk_size >= a->min_units);
     assert(alloc_size > chunk_size);
 
     memchunk *ch = (memchunk *) (*a->traits.alloc)(a->traits.context, alloc_size);
@@ -327,6 +328,8 @@ __real_init(mempool *a, const memmgr *tr, uint_t block_size, uint_t max, uint_t
      */
     if (block_size < MIN_OBJ_SIZE) block_size = MIN_OBJ_SIZE;
 
+    /* rounding up must not wrap around to zero */
+    if (block_size > UINT_MAX - (MINALIGNMENT-1)) return -ENOMEM;
 
     block_size = _Align(uint_t, block_size);
 
@@ -397,8 +400,14 @@ mempool_new(mempool** p_a, const memmgr* tr, uint_t block_size,
     a = (mempool* )tr->alloc(tr->context, sizeof *a);
     if (!a) return -ENOMEM;
 
+    int r = __real_init(a, tr, block_size, max, min_alloc_units);
+    if (r < 0) {
+        (*tr->free)(tr->context, a);
+        a = 0;
+    }
+
     *p_a = a;
-    return __real_init(a, tr, block_size, max, min_alloc_units);
+    return r;
 }
 
 
@@ -421,6 +430,9 @@ mempool_init_from_mem(mempool* a, uint_t block_size,
 
     if (block_size < MIN_OBJ_SIZE) block_size = MIN_OBJ_SIZE;
 
+    /* rounding up must not wrap around to zero */
+    if (block_size > UINT_MAX - (MINALIGNMENT-1)) return -ENOMEM;
+
     block_size = _Align(uint_t, block_size);
 
 
@@ -429,13 +441,14 @@ mempool_init_from_mem(mempool* a, uint_t block_size,
      * will be.
      */
     ptr       = _Align(uint8_t *, pool);
+    if (poolsize < (uint64_t)(ptr - pUCHAR(pool))) return -ENOMEM;
     poolsize -= (ptr - pUCHAR(pool));
 
     /*
      * the pool must be big enough to hold a chunk and at least one
      * aligned block.
      */
-    if (poolsize < (block_size + MINALIGNMENT + sizeof *ch)) return -ENOMEM;
+    if (poolsize < ((uint64_t)block_size + MINALIGNMENT + sizeof *ch)) return -ENOMEM;
 
     ch = (memchunk*)ptr;
     poolsize -= sizeof *ch;
@@ -476,6 +489,7 @@ mempool_new_from_mem(mempool** p_a, uint_t block_size,
 {
     mempool* a   = 0;
     uint8_t* ptr = 0;
+    int r        = 0;
 
     if (!(p_a && pool && poolsize)) return -EINVAL;
 
@@ -484,13 +498,16 @@ mempool_new_from_mem(mempool** p_a, uint_t block_size,
      * will be.
      */
     ptr       = _Align(uint8_t *, pool);
+    if (poolsize <= (size_t)(ptr - pUCHAR(pool)) + sizeof *a) return -ENOMEM;
+
     poolsize -= ptr - pUCHAR(pool);
     a         = (mempool* )ptr;
     ptr      += sizeof *a;
     poolsize -= sizeof *a;
 
-    *p_a = a;
-    return mempool_init_from_mem(a, block_size, ptr, poolsize);
+    r    = mempool_init_from_mem(a, block_size, ptr, poolsize);
+    *p_a = r < 0 ? 0 : a;
+    return r;
 }
 
 
-- 
2.43.0


From d518d062eeaae4369a007aa3abf7538aa180d745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:57 +0000
Subject: [PATCH 09/64] fix: arena: huge requests wrapped around and
 arena_strdup ignored failure

A request or chunk size near SIZE_MAX overflowed the node size computation and
returned a pointer to a block far smaller than asked for; arena_strdup copied
to NULL when memory ran out.
---
 inc/utils/arena.h |  2 +-
 src/arena.c       | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/inc/utils/arena.h b/inc/utils/arena.h
index 63293d5..6a3b02e 100644
--- a/inc/utils/arena.h
+++ b/inc/utils/arena.h
@@ -75,7 +75,7 @@ arena_strdup(arena_t a, const char* s)
 {
     size_t n = strlen(s) + 1;
     void*  p = arena_alloc(a, n);
-    return (char *)memcpy(p, s, n);
+    return p ? (char *)memcpy(p, s, n) : 0;
 }
 
 #ifdef __cplusplus
diff --git a/src/arena.c b/src/arena.c
index 3d9bbff..ec3e667 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -128,6 +128,9 @@ arena_alloc(arena_t a, size_t nbytes)
 
     if (!a) return 0;
 
+    /* A request that can't be rounded up or fit in a node will never succeed. */
+    if (nbytes > SIZE_MAX - sizeof(arena_node) - SYS_ALIGNMENT) return 0;
+
     /* Account for system alignment */
     nbytes = _ALIGN_UP(nbytes, SYS_ALIGNMENT);
 
@@ -142,8 +145,14 @@ arena_alloc(arena_t a, size_t nbytes)
 
     /* allocate a new node; but, try to allocate a few more bytes
      * to satisfy atleast few more such allocations.  */
-    chunk = nbytes < a->chunk_size ? a->chunk_size : nbytes * 16;
-    n     = (arena_node *) malloc(sizeof(arena_node) + chunk);
+    if (nbytes < a->chunk_size)
+        chunk = a->chunk_size;
+    else
+        chunk = nbytes <= SIZE_MAX / 32 ? nbytes * 16 : nbytes;
+
+    if (chunk > SIZE_MAX - sizeof(arena_node)) goto _end;
+
+    n = (arena_node *) malloc(sizeof(arena_node) + chunk);
     if (!n) goto _end;
 
     n->total = chunk;
-- 
2.43.0


From 30eca47300c6f6eb9d9301268eaf38fb395d766a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:18 +0000
Subject: [PATCH 10/64] fix: fast-ht: count NULL values once and track emptied
 buckets

Probing for a key whose value is NULL counted the item again, and removing the
last item of a bucket left it counted as filled, so that a table of one item
doubled again and again as items came and went.
---
 src/hashtable/fast-ht.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/hashtable/fast-ht.c b/src/hashtable/fast-ht.c
index 6ecf888..da70adb 100644
--- a/src/hashtable/fast-ht.c
+++ b/src/hashtable/fast-ht.c
@@ -261,9 +261,10 @@ __find_key_or_add(bag *g, uint64_t k, tuple *r)
 }
 
 // Insert (k, v) into bucket 'b' - but only if 'k' doesn't already
-// exist in the bucket.
-static inline void*
-__insert(hb *b, uint64_t k, void *v)
+// exist in the bucket. Return true if it was inserted; else return
+// false and put the existing value in 'p_val'.
+static inline int
+__insert(hb *b, uint64_t k, void *v, void **p_val)
 {
     bag *g   = 0;
     int slot = 0;
@@ -273,7 +274,8 @@ __insert(hb *b, uint64_t k, void *v)
     SL_FOREACH(g, &b->head, link) {
         int j = __find_key_or_add(g, k, &r);
         if (unlikely(j >= 0)) {
-            return r.val;
+            *p_val = r.val;
+            return 0;
         }
 
         if (!bg && r.slot >= 0) {
@@ -294,7 +296,7 @@ __insert(hb *b, uint64_t k, void *v)
     bg->hk[slot] = k;
     bg->hv[slot] = v;
     b->nodes++;
-    return 0;
+    return 1;
 }
 
 
@@ -490,9 +492,10 @@ ht_probe(ht* h, uint64_t k, void* v)
 {
     uint64_t hh  =__hash(k, h->n, h->salt);
     hb   *b  = &h->b[hh];
-    void *nv = __insert(b, k, v);
+    void *nv = 0;
 
-    if (nv) return nv;
+    // NB: the existing value may well be a NULL ptr
+    if (!__insert(b, k, v, &nv)) return nv;
 
     h->nodes++;
 
@@ -579,7 +582,7 @@ ht_remove(ht* h, uint64_t k, void** p_ret)
         g->fp = __clear_fp(g->fp, slot);
         g->hk[slot] = 0;
         g->hv[slot] = 0;
-        b->nodes--;
+        if (--b->nodes == 0) h->fill--;
         h->nodes--;
         return 1;
     }
-- 
2.43.0


From b6d148411c31c4508dea0ef34939e42c497ade01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:59 +0000
Subject: [PATCH 11/64] fix: hashtab: table sizes of 2^31 and above wrapped
 around

1 << 31 is negative and 1 << 32 undefined; a huge initial size made the size of
the bucket array wrap around and the buckets lie outside it.
---
 src/hashtable/hashtab.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index 30e3c18..d3021a0 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -94,9 +94,14 @@ hash_table_new(hash_table_t * ptab, const hash_table_policy * tr)
     memset(tab, 0, sizeof(*tab));
 
     i = tr->logsize <= 0 || (tr->logsize >= (8*sizeof(size_t))) ? 10 : tr->logsize;
+    if (i > 31 || ((size_t)1 << i) > SIZE_MAX / sizeof(hash_bucket))
+    {
+        memmgr_free(&tr->mem, tab);
+        return -ENOMEM;
+    }
 
     tab->fillmax = tr->fillmax <= 0 || tr->fillmax >= 100 ? 80 : tr->fillmax;
-    tab->size    = 1 << i;
+    tab->size    = (size_t)1 << i;
     tab->random  = arc4random();
     tab->hash    = tr->hash;
     tab->cmp     = tr->cmp;
-- 
2.43.0


From 095cd30a573e19287eefa242cb70ecd26c7143b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:28 +0000
Subject: [PATCH 12/64] fix: bloom: counters that wrap lose keys, removal of an
 absent key damages others, growth and creation assert on lack of memory

8-bit counters of a counting filter wrapped to 0 on the 256th addition.
Removing a key that is not there decremented whichever of its counters were
non-zero and the item count. Filters placed in reused storage (caller's
storage, realloc'ed array of a scalable filter) started with a garbage item
count, hence a garbage fill ratio.
---
 src/hashtable/bloom.c | 73 ++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/src/hashtable/bloom.c b/src/hashtable/bloom.c
index f852be1..a38122f 100644
--- a/src/hashtable/bloom.c
+++ b/src/hashtable/bloom.c
@@ -249,7 +249,8 @@ counting_bloom_probe(bloom* b, uint64_t val)
         uint64_t k = (h1 + i * h2) % b->m;
         uint64_t j = k + (i * b->m);
 
-        b->bitmap[j]++;
+        // saturate; a counter that wraps around would lose elements.
+        if (b->bitmap[j] < UINT8_MAX) b->bitmap[j]++;
     }
 
     b->size++;
@@ -257,49 +258,49 @@ counting_bloom_probe(bloom* b, uint64_t val)
 
 
 /*
- * Return False if element was not found, True otherwise.
+ * Return True if val is in the bloom filter; false otherwise.
  */
 static int
-counting_bloom_remove(bloom* b, uint64_t val)
+counting_bloom_find(bloom* b, uint64_t val)
 {
     uint64_t z  = hash_val(val, b->salt);
     uint64_t h1 = z & 0xffffffff;
     uint64_t h2 = z >> 32;
     uint64_t i;
-    uint64_t r = 0;
 
     for (i = 0; i < b->k; ++i) {
         uint64_t k = (h1 + i * h2) % b->m;
         uint64_t j = k + (i * b->m);
-        if (b->bitmap[j]) {
-            b->bitmap[j] -= 1;
-            r = 1;
-        }
+        if (!b->bitmap[j])  return 0;
     }
 
-    b->size--;
-    return r;
+    return 1;
 }
 
 
-
 /*
- * Return True if val is in the bloom filter; false otherwise.
+ * Return False if element was not found, True otherwise.
  */
 static int
-counting_bloom_find(bloom* b, uint64_t val)
+counting_bloom_remove(bloom* b, uint64_t val)
 {
     uint64_t z  = hash_val(val, b->salt);
     uint64_t h1 = z & 0xffffffff;
     uint64_t h2 = z >> 32;
     uint64_t i;
 
+    // The counters of an element that isn't there belong to others.
+    if (!counting_bloom_find(b, val)) return 0;
+
     for (i = 0; i < b->k; ++i) {
         uint64_t k = (h1 + i * h2) % b->m;
         uint64_t j = k + (i * b->m);
-        if (!b->bitmap[j])  return 0;
+
+        // a saturated counter has lost track of its elements.
+        if (b->bitmap[j] < UINT8_MAX) b->bitmap[j] -= 1;
     }
 
+    b->size--;
     return 1;
 }
 
@@ -312,16 +313,17 @@ static bloom*
 counting_bloom_init(bloom* b, size_t n, double e)
 {
     uint64_t k = make_k(e);
-    uint64_t m = make_m(n, e);
+    uint64_t m = make_m(n ? n : 1, e);
     uint64_t s = m / k + ((m % k) > 0);  // bytes per slice
 
     uint64_t bytes = (s * k);
     b->bitmap      = NEWZA(uint8_t, bytes);
-    assert(b->bitmap);
+    if (!b->bitmap) return 0;
 
     b->k      = k;
     b->m      = s;
     b->e      = e;
+    b->size   = 0;
     b->bmsize = bytes;
     b->flags  = 0;
 
@@ -338,19 +340,20 @@ static bloom*
 standard_bloom_init(bloom* b, size_t n, double e)
 {
     uint64_t k     = make_k(e);
-    uint64_t m     = make_m(n, e);
+    uint64_t m     = make_m(n ? n : 1, e);
     uint64_t msub  = m / k + ((m % k) > 0);
     uint64_t nbits = _ALIGN_UP(msub * k, 64);
     uint64_t units = nbits / UNITBITS;
 
     uint64_t bytes = (units * UNITSIZE);
     b->bitmap      = NEWZA(uint8_t, bytes);
-    assert(b->bitmap);
+    if (!b->bitmap) return 0;
 
     b->k = k;
     b->m = msub;
     b->e = e;
 
+    b->size    = 0;
     b->bmsize  = bytes;
     b->flags   = 0;
 
@@ -433,14 +436,15 @@ maybe_grow_filter(scalable_bloom *sb)
         assert(x > sb->cap);
 
         bloom* bv = RENEWA(bloom, sb->bfa, x);
-        assert(bv);
+        if (!bv) return 0;
 
         sb->bfa = bv;
         sb->cap = x;
     }
 
-    // Return pointer to un-initialized filter
-    return &sb->bfa[sb->len++];
+    // Return pointer to un-initialized filter; the caller must update
+    // sb->len once it is initialized.
+    return &sb->bfa[sb->len];
 }
 
 // insert a new element 'v' into a scalable filter
@@ -458,10 +462,14 @@ scalable_probe(scalable_bloom* sb, uint64_t v)
         uint64_t m = f->m * f->k * sb->scale;
         size_t n   = make_n(m, e);
 
-        // Get the next filter to use
-        f = maybe_grow_filter(sb);
+        // Get the next filter to use. If we run out of memory, continue
+        // to use the current one.
+        bloom *g = maybe_grow_filter(sb);
+
+        if (g && standard_bloom_init(g, n, e)) sb->len++;
 
-        standard_bloom_init(f, n, e);
+        // NB: The array of filters may have moved.
+        f = &sb->bfa[sb->len - 1];
     }
 
     standard_bloom_probe(f, v);
@@ -553,10 +561,13 @@ static int
 setup_scalable_bloom(Bloom *b, uint32_t nfilt)
 {
     scalable_bloom* sb = NEWZ(scalable_bloom);
-    assert(sb);
+    if (!sb) return 0;
 
     sb->bfa = NEWZA(bloom, nfilt);
-    assert(sb->bfa);
+    if (!sb->bfa) {
+        DEL(sb);
+        return 0;
+    }
 
     sb->b     = b;
     b->find   = (int  (*)(void*, uint64_t))scalable_find;
@@ -588,9 +599,8 @@ setup_standard_bloom(Bloom *b)
     b->name   = "standard-bloom";
     b->typ    = BLOOM_TYPE_QUICK;
     b->filter = NEWZ(bloom);
-    assert(b->filter);
 
-    return 1;
+    return b->filter != 0;
 }
 
 
@@ -607,9 +617,8 @@ setup_counting_bloom(Bloom *b)
     b->name   = "counting-bloom";
     b->typ    = BLOOM_TYPE_COUNTING;
     b->filter = NEWZ(bloom);
-    assert(b->filter);
 
-    return 1;
+    return b->filter != 0;
 }
 
 
@@ -629,7 +638,7 @@ Bloom*
 __alloc_bloom(int typ, uint32_t n)
 {
     Bloom *b = NEWZ(Bloom);
-    assert(b);
+    if (!b) return 0;
 
     switch (typ) {
         case BLOOM_TYPE_SCALE:
@@ -645,8 +654,6 @@ __alloc_bloom(int typ, uint32_t n)
             break;
     }
 
-    if (typ == BLOOM_TYPE_SCALE) scalable_fini(b->filter);
-    DEL(b->filter);
     DEL(b);
     return 0;
 }
-- 
2.43.0


From 77b7206a604544b5c04ad585c636aef09404a0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:53 +0000
Subject: [PATCH 13/64] fix: bloom marshal: make saving atomic and durable,
 report every failure, validate what is loaded, release everything

fsync and close errors were ignored, the directory was never synced, and
failure paths leaked the mapping and the offset table. Loading returned
success (errno clobbered) or crashed when memory ran out, believed the sizes
in the file, leaked bitmaps on failure and the mapping of an in-place filter
for good; the error rate of each filter was replaced by a rounded one.
---
 inc/utils/bloom.h             |   3 +
 src/hashtable/bloom.c         |  21 +++---
 src/hashtable/bloom_marshal.c | 120 +++++++++++++++++++++-------------
 src/hashtable/commit_file.h   |  83 +++++++++++++++++++++++
 4 files changed, 167 insertions(+), 60 deletions(-)
 create mode 100644 src/hashtable/commit_file.h

diff --git a/inc/utils/bloom.h b/inc/utils/bloom.h
index 9f4f724..b9ec9e9 100644
--- a/inc/utils/bloom.h
+++ b/inc/utils/bloom.h
@@ -146,6 +146,9 @@ struct Bloom
     uint64_t    n;      // initial filter size
     double      e;      // initial error param
     uint8_t     typ;    // bloom filter type
+
+    void*       map;    // file mapping that holds the bitmaps (if any)
+    uint64_t    mapsz;  // size of the mapping
 };
 typedef struct Bloom Bloom;
 
diff --git a/src/hashtable/bloom.c b/src/hashtable/bloom.c
index a38122f..4f9852b 100644
--- a/src/hashtable/bloom.c
+++ b/src/hashtable/bloom.c
@@ -122,6 +122,7 @@
 #include <limits.h>
 #include <inttypes.h>
 #include <sys/random.h>
+#include <sys/mman.h>
 
 #include "utils/utils.h"
 #include "utils/bloom.h"
@@ -662,19 +663,7 @@ __alloc_bloom(int typ, uint32_t n)
 void
 __free_bloom(Bloom *b)
 {
-    switch (b->typ) {
-        case BLOOM_TYPE_SCALE:
-            scalable_fini(b->filter);
-            // FALLTHROUGH
-
-        case BLOOM_TYPE_COUNTING:
-        case BLOOM_TYPE_QUICK:
-            DEL(b->filter);
-            DEL(b);
-            break;
-        default:
-            break;
-    }
+    Bloom_delete(b);
 }
 
 // Create a scalable, non-counting bloom filter.
@@ -743,6 +732,9 @@ scaled_bloom_eq(scalable_bloom *a, scalable_bloom *b)
 Bloom*
 Standard_bloom_init(Bloom *b, uint64_t n, double e, int scalable)
 {
+    b->map    = 0;
+    b->mapsz  = 0;
+
     if (scalable) return scalable_new(b, n, e);
 
     b->n      = n;
@@ -759,6 +751,8 @@ Standard_bloom_init(Bloom *b, uint64_t n, double e, int scalable)
 Bloom*
 Counting_bloom_init(Bloom *b, uint64_t n, double e)
 {
+    b->map    = 0;
+    b->mapsz  = 0;
     b->n      = n;
     b->e      = e;
 
@@ -775,6 +769,7 @@ Bloom_fini(Bloom *b)
 {
     b->fini(b->filter);
 
+    if (b->map) munmap(b->map, b->mapsz);
     DEL(b->filter);
     memset(b, 0x55, sizeof *b);
 }
diff --git a/src/hashtable/bloom_marshal.c b/src/hashtable/bloom_marshal.c
index 1e94bd3..63bb12b 100644
--- a/src/hashtable/bloom_marshal.c
+++ b/src/hashtable/bloom_marshal.c
@@ -74,12 +74,7 @@
 // Need libsodium to be installed.
 #include "sodium.h"
 #include "bloom_internal.h"
-
-
-/* Darwin doesn't have fdatasync() prototype */
-#ifdef __Darwin__
-extern int fdatasync(int);
-#endif // __Darwin__
+#include "commit_file.h"
 
 
 /*
@@ -291,7 +286,8 @@ wrhdr(uint8_t *ptr, mstate *m)
 }
 
 
-// Calculate how big the marshal'd data is going to be
+// Calculate how big the marshal'd data is going to be; return 0 if we
+// run out of memory.
 static uint64_t
 calc_marshal_size(mstate *m)
 {
@@ -307,6 +303,7 @@ calc_marshal_size(mstate *m)
         sz  = _ALIGN_UP(sz, 64);
 
         VECT_INIT(v, sb->len);
+        if (!v->arr) return 0;
 
         for (i = 0; i < sb->len; i++) {
             bloom *f   = &sb->bfa[i];
@@ -328,6 +325,7 @@ calc_marshal_size(mstate *m)
         offpair *o;
 
         VECT_INIT(v, 1);
+        if (!v->arr) return 0;
 
         sz += 8;    // one entry in the table
         o   = &VECT_GET_NEXT(v);
@@ -368,9 +366,11 @@ wrfilter(uint8_t * start, offpair *o, bloom *b)
     memcpy(d, b->bitmap, b->bmsize);
 }
 
-// Read filter data from offset pair 'o' into bloom 'b'.
+// Read filter data from offset pair 'o' into bloom 'b'. 'sz' is the
+// total size of the marshaled data, 'slotbits' the number of bits in
+// each slot.
 static int
-rdfilter(uint8_t *start, offpair *o, bloom *b, int dommap)
+rdfilter(uint8_t *start, uint64_t sz, offpair *o, bloom *b, double e, uint64_t slotbits, int dommap)
 {
     uint8_t * h = start + o->hdroff;
     uint8_t * d = start + o->dataoff;
@@ -383,10 +383,15 @@ rdfilter(uint8_t *start, offpair *o, bloom *b, int dommap)
     b->salt   = dec_LE_u64(h); h += 8;
     b->size   = dec_LE_u64(h); h += 8;
     b->bmsize = dec_LE_u64(h); h += 8;
-    b->e      = make_e(b->k);
+    b->e      = e;
 
     assert((h - z) == FILT_HDRSIZ);
 
+    // The bitmap must be in the file and must hold every slot.
+    if (b->bmsize > (sz - o->dataoff))                   return -EBADF;
+    if (b->m == 0 || b->k == 0)                          return -EBADF;
+    if (b->m > ((b->bmsize * 8) / slotbits) / b->k)      return -EBADF;
+
     if (dommap) {
         b->bitmap = d;
         b->flags  = BLOOM_BITMAP_MMAP;
@@ -451,7 +456,8 @@ rdhdr(uint8_t *buf, uint64_t sz, mstate *m)
 
     assert((p-buf) <= HDRSIZ);
 
-    if (m->datasize != sz) return -EBADF;
+    if (m->datasize != sz)       return -EBADF;
+    if (!(be > 0.0 && be < 1.0)) return -EBADF;
 
     avail -= HDRSIZ;
     p      = buf + HDRSIZ;
@@ -467,19 +473,23 @@ rdhdr(uint8_t *buf, uint64_t sz, mstate *m)
         // Sanity check
         if (n > 1048576)            return -E2BIG;
 
+        if (n == 0 || scale == 0)   return -EBADF;
+        if (!(r > 0.0 && r <= 1.0)) return -EBADF;
+
         avail -= 16;
         if (avail  < (n * 8)) return -EBADF;
 
         VECT_INIT(&m->offs, n);
+        if (!m->offs.arr) return -ENOMEM;
 
         // Decode offsets
         for (i = 0; i < n; i++) {
             offpair *o = &VECT_GET_NEXT(&m->offs);
 
             o->hdroff  = dec_LE_u64(p);  p += 8;
-            o->dataoff = _ALIGN_UP(o->hdroff + FILT_HDRSIZ, 64);
-
             if (o->hdroff  >= sz) return -EBADF;
+
+            o->dataoff = _ALIGN_UP(o->hdroff + FILT_HDRSIZ, 64);
             if (o->dataoff >= sz) return -EBADF;
         }
     } else {
@@ -490,13 +500,16 @@ rdhdr(uint8_t *buf, uint64_t sz, mstate *m)
 
         p     += 16;    // skip over everything else
         avail -= 16;
+        if (avail < 8)        return -EBADF;
 
         VECT_INIT(&m->offs, 1);
+        if (!m->offs.arr) return -ENOMEM;
 
         o = &VECT_GET_NEXT(&m->offs);
         o->hdroff  = dec_LE_u64(p); p += 8;
-        o->dataoff = _ALIGN_UP(o->hdroff + FILT_HDRSIZ, 64);
         if (o->hdroff  >= sz) return -EBADF;
+
+        o->dataoff = _ALIGN_UP(o->hdroff + FILT_HDRSIZ, 64);
         if (o->dataoff >= sz) return -EBADF;
     }
 
@@ -554,21 +567,32 @@ Bloom_marshal(Bloom *b, const char *fname)
     memset(&m, 0, sizeof m);
     m.b  = b;
     m.ck = Checksums[BLOOM_CKSUM_DEFAULT];
-    sz   = m.ck.size + calc_marshal_size(&m);
+    sz   = calc_marshal_size(&m);
+    if (!sz) return -ENOMEM;
+
+    sz  += m.ck.size;
 
-    snprintf(file, sizeof file, "%s.tmp.XXXXXX", fname);
+    r = snprintf(file, sizeof file, "%s.tmp.XXXXXX", fname);
+    if (r < 0 || (size_t)r >= sizeof file) {
+        VECT_FINI(&m.offs);
+        return -ENAMETOOLONG;
+    }
 
     fd = mkostemp(file, 0);
-    if (fd < 0) return -errno;
+    if (fd < 0) {
+        r = -errno;
+        VECT_FINI(&m.offs);
+        return r;
+    }
 
     if (ftruncate(fd, sz) < 0) {
-        r = errno;
+        r = -errno;
         goto fail;
     }
 
     void *mptr = mmap(0, sz, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
     if (mptr == ((void *)-1)) {
-        r = errno;
+        r = -errno;
         goto fail;
     }
 
@@ -601,21 +625,14 @@ Bloom_marshal(Bloom *b, const char *fname)
     cksum(&m.ck, start+m.datasize, start, m.datasize);
     VECT_FINI(&m.offs);
     munmap(mptr, sz);
-    fsync(fd);
-    fdatasync(fd);
-    close(fd);
-    if (rename(file, fname) < 0) {
-        r = -errno;
-        unlink(file);
-        return r;
-    }
 
-    return 0;
+    return __commit_file(fd, file, fname);
 
 fail:
+    VECT_FINI(&m.offs);
     close(fd);
     unlink(file);
-    return -r;
+    return r;
 }
 
 
@@ -643,24 +660,30 @@ Bloom_unmarshal(Bloom **p_b, const char *fname, uint32_t flags)
     if (fd < 0) return -errno;
 
     struct stat st;
-    if (fstat(fd, &st) < 0) goto fail;
+    if (fstat(fd, &st) < 0) {
+        r = -errno;
+        goto fail;
+    }
 
     // 16: Filter directory info
     if (st.st_size < (HDRSIZ+16+max_CKSUMSZ)) {
-        errno = EILSEQ;
+        r = -EILSEQ;
         goto fail;
     }
 
     void    *mptr  = mmap(0, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
     uint8_t *start = mptr;
-    if (mptr == ((void *)-1)) goto fail;
+    if (mptr == ((void *)-1)) {
+        r = -errno;
+        goto fail;
+    }
 
     /*
      * Byte #8 is the checksum type. We read this without verifying.
      * Chicken and egg problem.
      */
     if (!is_valid_cktyp(&m.ck, start[7])) {
-        errno = EILSEQ;
+        r = -EILSEQ;
         goto fail0;
     }
 
@@ -671,15 +694,12 @@ Bloom_unmarshal(Bloom **p_b, const char *fname, uint32_t flags)
     // Checksum is in the last "n" bytes.
     cksum(&m.ck, ckcalc, mptr, dsize);
     if (0 != sodium_memcmp(ckcalc, start+dsize, m.ck.size)) {
-        errno = EILSEQ;
+        r = -EILSEQ;
         goto fail0;
     }
 
     r = rdhdr(start, dsize, &m);
-    if (r < 0) {
-        errno = -r;
-        goto fail0;
-    }
+    if (r < 0) goto fail0;
 
     /*
      * Now we have everything we need to build out the filters.
@@ -688,23 +708,25 @@ Bloom_unmarshal(Bloom **p_b, const char *fname, uint32_t flags)
      */
     if (m.b->typ == BLOOM_TYPE_SCALE) {
         scalable_bloom *sb = m.b->filter;
+        double e = m.b->e;
         offpair *o;
         uint32_t i;
 
         VECT_FOR_EACHi(&m.offs, i, o) {
             bloom *f = &sb->bfa[i];
 
-            r = rdfilter(start, o, f, do_mmap);
-            if (r < 0) {
-                errno = -r;
-                goto fail0;
-            }
+            r = rdfilter(start, dsize, o, f, e, 1, do_mmap);
+            if (r < 0) goto fail0;
+
+            // Each successive filter has a tighter error rate
+            e *= sb->r;
         }
     } else {
         bloom   *f = m.b->filter;
         offpair *o = &VECT_ELEM(&m.offs, 0);
 
-        rdfilter(start, o, f, do_mmap);
+        r = rdfilter(start, dsize, o, f, m.b->e, m.b->typ == BLOOM_TYPE_COUNTING ? 8 : 1, do_mmap);
+        if (r < 0) goto fail0;
     }
 
     VECT_FINI(&m.offs);
@@ -712,8 +734,13 @@ Bloom_unmarshal(Bloom **p_b, const char *fname, uint32_t flags)
     assert(p_b);
     *p_b = m.b;
 
-    if (!do_mmap) munmap(mptr, st.st_size);
-
+    // In mmap mode, the filter owns the mapping.
+    if (do_mmap) {
+        m.b->map   = mptr;
+        m.b->mapsz = st.st_size;
+    } else {
+        munmap(mptr, st.st_size);
+    }
 
     /*
      * POSIX allows us to close() and still keep the memory mapping
@@ -728,7 +755,6 @@ fail0:
     if (m.b) __free_bloom(m.b);
 
 fail:
-    r = -errno;
     close(fd);
     return r;
 }
diff --git a/src/hashtable/commit_file.h b/src/hashtable/commit_file.h
new file mode 100644
index 0000000..730baf7
--- /dev/null
+++ b/src/hashtable/commit_file.h
@@ -0,0 +1,83 @@
+/* vim: expandtab:tw=68:ts=4:sw=4:
+ *
+ * commit_file.h - Atomically & durably publish a newly written file.
+ *
+ * Copyright (c) 2015 Sudhi Herle <sw at herle.net>
+ *
+ * Licensing Terms: GPLv2
+ *
+ * If you need a commercial license for this work, please contact
+ * the author.
+ *
+ * This software does not come with any express or implied
+ * warranty; it is provided "as is". No claim  is made to its
+ * suitability for any purpose.
+ */
+
+#ifndef ___COMMIT_FILE_H__q8MB2v1pXkdYtT6g___
+#define ___COMMIT_FILE_H__q8MB2v1pXkdYtT6g___ 1
+
+#include <limits.h>
+#include <string.h>
+#include <stdio.h>
+#include <unistd.h>
+#include <fcntl.h>
+#include <errno.h>
+
+/*
+ * Flush the directory containing 'file' to disk.
+ *
+ * Return 0 on success, -errno on failure
+ */
+static inline int
+__sync_parent(const char *file)
+{
+    char dir[PATH_MAX];
+    const char *slash = strrchr(file, '/');
+    size_t n = slash ? (slash == file ? 1 : slash - file) : 1;
+    int r = 0;
+
+    if (n >= sizeof dir) return -ENAMETOOLONG;
+
+    memcpy(dir, slash ? file : ".", n);
+    dir[n] = 0;
+
+    int fd = open(dir, O_RDONLY);
+    if (fd < 0) return -errno;
+
+    // Some file systems can't sync a directory
+    if (fsync(fd) < 0 && errno != EINVAL) r = -errno;
+
+    close(fd);
+    return r;
+}
+
+
+/*
+ * The contents of temporary file 'tmp' (open as 'fd') are complete:
+ * flush them to disk and only then rename the file to 'file'. This
+ * always closes 'fd'. If the rename doesn't happen, this removes
+ * 'tmp'.
+ *
+ * Return 0 on success, -errno on failure
+ */
+static inline int
+__commit_file(int fd, const char *tmp, const char *file)
+{
+    int r = 0;
+
+    if (fsync(fd) < 0)            r = -errno;
+    if (close(fd) < 0 && r == 0)  r = -errno;
+
+    if (r == 0 && rename(tmp, file) < 0) r = -errno;
+    if (r < 0) {
+        unlink(tmp);
+        return r;
+    }
+
+    return __sync_parent(file);
+}
+
+#endif /* ! ___COMMIT_FILE_H__q8MB2v1pXkdYtT6g___ */
+
+/* EOF */
-- 
2.43.0


From e3cfa1e838ff5706b0eefcdf2c64ca5abe29db28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:43 +0000
Subject: [PATCH 14/64] fix: xorfilter: small sets overran the filter, lack of
 memory crashed, failures leaked

The fingerprint array had 3*n slots while the slots of a small set (n < 18)
are numbered up to ~1.23*n + 32. Allocations and entropy were not checked and
a failed construction leaked its work area.
---
 src/hashtable/xorfilt_internal.h |  4 +-
 src/hashtable/xorfilter.c        | 78 +++++++++++++++++++++-----------
 2 files changed, 55 insertions(+), 27 deletions(-)

diff --git a/src/hashtable/xorfilt_internal.h b/src/hashtable/xorfilt_internal.h
index d432294..24f6c2f 100644
--- a/src/hashtable/xorfilt_internal.h
+++ b/src/hashtable/xorfilt_internal.h
@@ -41,6 +41,8 @@ struct Xorfilter {
     uint32_t n;     // number of elements
     uint8_t  is_16;
     uint8_t  is_mmap;
+    void    *map;   // file mapping that holds the filter (if is_mmap)
+    uint64_t mapsz; // size of the mapping
 };
 typedef struct Xorfilter Xorfilter;
 
@@ -48,7 +50,7 @@ typedef struct Xorfilter Xorfilter;
 static inline uint64_t
 xorfilter_size(Xorfilter *x)
 {
-    size_t sz = 3 * x->size;
+    size_t sz = (size_t)3 * x->size;
 
     return x->is_16 ? sz * 2 : sz;
 }
diff --git a/src/hashtable/xorfilter.c b/src/hashtable/xorfilter.c
index 079476c..ce01704 100644
--- a/src/hashtable/xorfilter.c
+++ b/src/hashtable/xorfilter.c
@@ -43,6 +43,7 @@
 #include <inttypes.h>
 #include <math.h>
 #include <sys/random.h>
+#include <sys/mman.h>
 #include "fast/vect.h"
 #include "utils/xorfilter.h"
 #include "xorfilt_internal.h"
@@ -56,12 +57,10 @@ struct fpidx {
 };
 typedef struct fpidx fpidx;
 
-static uint64_t
-rand64()
+static int
+rand64(uint64_t *x)
 {
-    uint64_t x;
-    getentropy(&x, sizeof x);
-    return x;
+    return getentropy(x, sizeof *x) == 0;
 }
 
 // Compression function from fasthash
@@ -186,8 +185,15 @@ __update_q(keyvect *q, xorset *xs, uint32_t i, uint64_t h)
     }
 }
 
-static keyvect
-xorfilter_init(Xorfilter *x, uint64_t *keys, size_t n)
+/*
+ * Find a seed for which the keys can be assigned to unique slots.
+ * On success, 'stack' holds the keys in the order of their removal;
+ * the caller must release it.
+ *
+ * Return true on success, false otherwise.
+ */
+static int
+xorfilter_init(Xorfilter *x, keyvect *stack, uint64_t *keys, size_t n)
 {
     size_t size = xorfilter_calc_size(n);
 
@@ -198,14 +204,18 @@ xorfilter_init(Xorfilter *x, uint64_t *keys, size_t n)
 
     xorset *H = NEWA(xorset, cap);
     keyvect q;
-    keyvect stack;
+    int ok = 0;
+
+    // Every slot is queued at most once and every key is stacked at
+    // most once; so, these never have to grow.
+    VECT_INIT(&q, cap + 1);
+    VECT_INIT(stack, n + 1);
 
-    VECT_INIT(&q, cap);
-    VECT_INIT(&stack, n);
+    if (!H || !q.arr || !stack->arr) goto fini;
 
     while (1) {
         memset(H, 0, cap * sizeof(H[0]));
-        seed = rand64();
+        if (!rand64(&seed)) goto fini;
 
         for (size_t i = 0; i < n; i++) {
             uint64_t h = hashkey(keys[i], seed);
@@ -234,14 +244,14 @@ xorfilter_init(Xorfilter *x, uint64_t *keys, size_t n)
             }
         }
 
-        VECT_RESET(&stack);
+        VECT_RESET(stack);
         while (VECT_LEN(&q) > 0) {
             keyidx ki = VECT_POP_BACK(&q);
 
             if (H[ki.idx].n != 1) continue;
 
             // sole element in H[i]
-            VECT_PUSH_BACK(&stack, ki);
+            VECT_PUSH_BACK(stack, ki);
             fpidx z = hash3(ki.hash, size);
 
             __update_q(&q, H, z.i, ki.hash);
@@ -249,23 +259,22 @@ xorfilter_init(Xorfilter *x, uint64_t *keys, size_t n)
             __update_q(&q, H, z.k, ki.hash);
         }
 
-        if (VECT_LEN(&stack) == n) break;
+        if (VECT_LEN(stack) == n) break;
 
-        if (++tries > 1000000) {
-            VECT_RESET(&stack);
-            goto fini;
-        }
+        if (++tries > 1000000) goto fini;
 
     }
 
     x->seed = seed;
     x->size = size;
     x->n    = n;
+    ok      = n > 0;
 
 fini:
+    if (!ok) VECT_FINI(stack);
     VECT_FINI(&q);
     DEL(H);
-    return stack;
+    return ok;
 }
 
 
@@ -274,14 +283,22 @@ Xorfilter *
 Xorfilter_new8(uint64_t *keys, size_t n)
 {
     Xorfilter *x  = NEWZ(Xorfilter);
-    keyvect stack = xorfilter_init(x, keys, n);
+    keyvect stack;
+
+    if (!x) return 0;
 
-    if (VECT_LEN(&stack) == 0) {
+    if (!xorfilter_init(x, &stack, keys, n)) {
+        DEL(x);
+        return 0;
+    }
+
+    x->fp8 = NEWZA(uint8_t, xorfilter_size(x));
+    if (!x->fp8) {
+        VECT_FINI(&stack);
         DEL(x);
         return 0;
     }
 
-    x->fp8 = NEWZA(uint8_t, VECT_LEN(&stack) * 3);
     while (VECT_LEN(&stack) > 0) {
         keyidx  ki = VECT_POP_BACK(&stack);
         uint8_t fp = __xfp8(ki.hash);
@@ -298,15 +315,23 @@ Xorfilter *
 Xorfilter_new16(uint64_t *keys, size_t n)
 {
     Xorfilter *x  = NEWZ(Xorfilter);
-    keyvect stack = xorfilter_init(x, keys, n);
+    keyvect stack;
 
-    if (VECT_LEN(&stack) == 0) {
+    if (!x) return 0;
+
+    if (!xorfilter_init(x, &stack, keys, n)) {
         DEL(x);
         return 0;
     }
 
-    x->fp16  = NEWZA(uint16_t, VECT_LEN(&stack) * 3);
     x->is_16 = 1;
+    x->fp16  = NEWZA(uint16_t, xorfilter_size(x) / 2);
+    if (!x->fp16) {
+        VECT_FINI(&stack);
+        DEL(x);
+        return 0;
+    }
+
     while (VECT_LEN(&stack) > 0) {
         keyidx   ki = VECT_POP_BACK(&stack);
         uint16_t fp = __xfp16(ki.hash);
@@ -349,7 +374,8 @@ Xorfilter_bpe(Xorfilter *x)
 void
 Xorfilter_delete(Xorfilter *x)
 {
-    if (x->ptr && !x->is_mmap) DEL(x->ptr);
+    if (x->is_mmap)  munmap(x->map, x->mapsz);
+    else if (x->ptr) DEL(x->ptr);
     DEL(x);
 }
 /* EOF */
-- 
2.43.0


From d22ca89032911a1116afce88efb3bf29819e43bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:51 +0000
Subject: [PATCH 15/64] fix: xorfilter marshal: make saving atomic and durable,
 return negative errors, validate what is loaded, release everything

A failed mmap was reported as a positive number; fsync and close errors were
ignored and the directory was never synced. Loading asserted on lack of
memory, believed a size that covers the header page and leaked the mapping of
an in-place filter for good.
---
 src/hashtable/xorfilter_marshal.c | 46 +++++++++++++++----------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/hashtable/xorfilter_marshal.c b/src/hashtable/xorfilter_marshal.c
index ea78a5c..41a5ee8 100644
--- a/src/hashtable/xorfilter_marshal.c
+++ b/src/hashtable/xorfilter_marshal.c
@@ -51,15 +51,11 @@
 #include "fast/encdec.h"
 #include "utils/xorfilter.h"
 #include "xorfilt_internal.h"
+#include "commit_file.h"
 
 // Need libsodium to be installed.
 #include "sodium.h"
 
-/* Darwin doesn't have fdatasync() prototype */
-#ifdef __Darwin__
-extern int fdatasync(int);
-#endif // __Darwin__
-
 
 #define SHASIZE  crypto_hash_sha256_BYTES
 
@@ -137,12 +133,14 @@ Xorfilter_marshal(Xorfilter *x, const char *fname)
     filesz += pagesz(); // Header is within the first page
     filesz += SHASIZE;  // trailer has SHA256
 
-    snprintf(file, sizeof file, "%s.tmp.XXXXXX", fname);
+    r = snprintf(file, sizeof file, "%s.tmp.XXXXXX", fname);
+    if (r < 0 || (size_t)r >= sizeof file) return -ENAMETOOLONG;
+
     fd = mkostemp(file, 0);
     if (fd < 0) return -errno;
 
     if (ftruncate(fd, filesz) < 0) {
-        r = errno;
+        r = -errno;
         goto fail;
     }
 
@@ -167,21 +165,13 @@ Xorfilter_marshal(Xorfilter *x, const char *fname)
     crypto_hash_sha256_final(&h, st);
 
     munmap(mptr, filesz);
-    fsync(fd);
-    fdatasync(fd);
-    close(fd);
 
-    if (rename(file, fname) < 0) {
-        r = errno;
-        unlink(file);
-        return -r;
-    }
-    return 0;
+    return __commit_file(fd, file, fname);
 
 fail:
     close(fd);
     unlink(file);
-    return -r;
+    return r;
 }
 
 
@@ -235,7 +225,7 @@ Xorfilter_unmarshal(Xorfilter **p_x, const char *fname, uint32_t flags)
     }
 
     // Sanity check.
-    if ((st.st_size - SHASIZE) < (off_t)xorfilter_size(&zx)) {
+    if ((st.st_size - SHASIZE - (off_t)pagesz()) < (off_t)xorfilter_size(&zx)) {
         r = E2BIG;
         goto fail1;
     }
@@ -245,22 +235,32 @@ Xorfilter_unmarshal(Xorfilter **p_x, const char *fname, uint32_t flags)
         goto fail1;
     }
 
+    assert(p_x);
+
+    Xorfilter *x = NEWZ(Xorfilter);
+    if (!x) {
+        r = ENOMEM;
+        goto fail1;
+    }
+
     if (do_mmap) {
         zx.ptr     = p;
         zx.is_mmap = 1;
+        zx.map     = mptr;
+        zx.mapsz   = st.st_size;
     } else {
         uint64_t sz = xorfilter_size(&zx);
         zx.ptr = NEWZA(uint8_t, sz);
-        assert(zx.ptr);
+        if (!zx.ptr) {
+            DEL(x);
+            r = ENOMEM;
+            goto fail1;
+        }
 
         memcpy(zx.ptr, p, sz);
         munmap(mptr, st.st_size);
     }
 
-    Xorfilter *x = NEWZ(Xorfilter);
-    assert(x);
-    assert(p_x);
-
     *x   = zx;
     *p_x = x;
 
-- 
2.43.0


From 6ab175135765eff679b81293908c142efd8cd369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:07 +0000
Subject: [PATCH 16/64] fix: freadline: report read errors, return an
 unterminated last line, stay within the buffer and lose nothing of a long
 line

---
 src/freadline.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/freadline.c b/src/freadline.c
index bd74ac3..5f75587 100644
--- a/src/freadline.c
+++ b/src/freadline.c
@@ -25,21 +25,33 @@
 // Returns:
 //    number of chars in the buf on success
 //    0 on EOF
-//    -ENOSPC if input buffer is too small
+//    -ENOSPC if input buffer is too small; the buffer holds as much
+//            of the line as fits and the rest is still to be read
 //    -errno on error
 int
 freadline(FILE* fp, unsigned char * str, int n)
 {
-    unsigned char * end = str + n;
+    unsigned char * start = str;
+    unsigned char * end   = str + n - 1;    // room for the NUL
+
+    if (n <= 0)
+        return -ENOSPC;
 
     while (1)
     {
         int c = fgetc(fp);
         if (c == EOF)
-            return 0;
+        {
+            if (ferror(fp))
+            {
+                int e = errno;
+                *str  = 0;
+                return e > 0 ? -e : -EIO;
+            }
 
-        if (ferror(fp))
-            return -errno;
+            // the last line may not have a terminator
+            break;
+        }
 
         if (c == '\r')
         {
@@ -53,12 +65,16 @@ freadline(FILE* fp, unsigned char * str, int n)
             break;
 
         if (str == end)
+        {
+            ungetc(c, fp);
+            *str = 0;
             return -ENOSPC;
+        }
 
         *str++ = c;
     }
 
     *str = 0;
-    return str - (end - n);
+    return str - start;
 }
 
-- 
2.43.0


From d5beae77aac1cc30034fcaaab66eac45284d5373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:07 +0000
Subject: [PATCH 17/64] fix: mkdirhier: a directory that appears meanwhile, or
 a trailing slash or dot, is not an error

---
 src/mkdirhier.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/mkdirhier.c b/src/mkdirhier.c
index 6085679..d622cad 100644
--- a/src/mkdirhier.c
+++ b/src/mkdirhier.c
@@ -34,6 +34,27 @@ sep(const char* p)
 }
 
 
+/*
+ * Make one directory; someone else may have made it at the same
+ * time - or it may have been there all along ("a/b/", "a/.").
+ */
+static int
+mkone(const char* path, mode_t mode)
+{
+    struct stat st;
+    int r;
+
+    if (mkdir(path, mode) == 0)
+        return 0;
+
+    r = -errno;
+    if (r == -EEXIST && stat(path, &st) == 0)
+        return S_ISDIR(st.st_mode) ? 0 : -ENOTDIR;
+
+    return r;
+}
+
+
 int
 mkdirhier(const char* path, mode_t mode)
 {
@@ -68,19 +89,16 @@ mkdirhier(const char* path, mode_t mode)
             if (errno != ENOENT)
                 return -errno;
 
-            r = mkdir(z, mode);
+            r = mkone(z, mode);
             if (r < 0)
-                return -errno;
+                return r;
         }
 
         prev = next+1;
     }
 
     // Make the last and final part
-    if (mkdir(path, mode) < 0)
-        return -errno;
-
-    return 0;
+    return mkone(path, mode);
 }
 
 /* EOF */
-- 
2.43.0


From 9a03244c963880e4036d3ca4d9592461d7c3d892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:07 +0000
Subject: [PATCH 18/64] fix: rotate_filename: don't push out saved copies when
 there is nothing to rotate or a rotation is retried; don't delete the wrong
 file when the name is too long; report failure to delete; rotate when the
 size limit is exceeded by less than a MB

---
 src/rotatefile.c | 72 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 21 deletions(-)

diff --git a/src/rotatefile.c b/src/rotatefile.c
index d4e0af1..d8807c7 100644
--- a/src/rotatefile.c
+++ b/src/rotatefile.c
@@ -22,7 +22,8 @@
 #include "utils/rotatefile.h"
 
 static int __exists(const char *filename);
-static void delete_old(const char *fn, int start, int end);
+static int delete_old(const char *fn, int start, int end);
+static int gen_name(char *buf, size_t sz, const char *fn, int gen);
 
 /**
  * Unconditionally rotate a file and keep the last 'nsaved' copies.
@@ -34,35 +35,48 @@ rotate_filename(const char *filename, int nsaved, unsigned int flags)
 {
     char f1[PATH_MAX];
     char f2[PATH_MAX];
-    int r;
+    int r,
+        d,
+        i;
 
     (void)flags;
 
-    // Delete older files upto a max of 100 extra files
-    delete_old(filename, nsaved, nsaved+100);
+    // If there is nothing to rotate, the saved copies stay what they are.
+    r = __exists(filename);
+    if (r <= 0) return r;
 
-    while (--nsaved > 0) {
-        snprintf(f1, sizeof f1, "%s.%d", filename, nsaved-1);
-        snprintf(f2, sizeof f2, "%s.%d", filename, nsaved);
+    // Delete older files upto a max of 100 extra files; being unable
+    // to is no reason to not rotate.
+    d = delete_old(filename, nsaved, nsaved+100);
+
+    // Find the first unused slot; only the copies newer than that
+    // have to move. Thus, retrying a rotation that stopped halfway
+    // doesn't push out another copy.
+    for (i = 0; i < nsaved-1; ++i) {
+        r = gen_name(f1, sizeof f1, filename, i);
+        if (r < 0) return r;
 
-        //printf("%s -> %s\n", f1, f2);
         r = __exists(f1);
+        if (r < 0)  return r;
+        if (r == 0) break;
+    }
+
+    for (; i > 0; --i) {
+        r = gen_name(f1, sizeof f1, filename, i-1);
+        if (r < 0) return r;
+        r = gen_name(f2, sizeof f2, filename, i);
         if (r < 0) return r;
 
-        if (r > 0) {
-            if (rename(f1, f2) < 0) return -errno;
-        }
+        //printf("%s -> %s\n", f1, f2);
+        if (rename(f1, f2) < 0) return -errno;
     }
 
-    r = __exists(filename);
+    r = gen_name(f1, sizeof f1, filename, 0);
     if (r < 0) return r;
 
-    if (r > 0) {
-        snprintf(f1, sizeof f1, "%s.0", filename);
-        if (rename(filename, f1) < 0) return -errno;
-    }
+    if (rename(filename, f1) < 0) return -errno;
 
-    return 0;
+    return d;
 }
 
 
@@ -86,7 +100,8 @@ rotate_filename_by_size(const char *filename, int nsaved,
     if (!S_ISREG(st.st_mode)) return -EINVAL;
 
     uint64_t actual_size = st.st_size / 1048576;
-    if (actual_size > size_mb)
+    if (actual_size > size_mb ||
+       (actual_size == size_mb && (st.st_size % 1048576) > 0))
         return rotate_filename(filename, nsaved, flags);
 
     return 0;
@@ -110,14 +125,29 @@ __exists(const char *filename)
 }
 
 
+// make the name of generation 'gen' of file 'fn'
+static int
+gen_name(char *buf, size_t sz, const char *fn, int gen)
+{
+    int r = snprintf(buf, sz, "%s.%d", fn, gen);
+
+    return r < 0 || (size_t)r >= sz ? -ENAMETOOLONG : 0;
+}
+
+
 // delete all old files between 'start' and 'end'
-static void
+static int
 delete_old(const char *fn, int start, int end)
 {
     char x[PATH_MAX];
+    int r = 0;
 
     for (; start < end; ++start) {
-        snprintf(x, sizeof x, "%s.%d", fn, start);
-        unlink(x);
+        // a name that is too long can't exist.
+        if (gen_name(x, sizeof x, fn, start) < 0) break;
+        if (unlink(x) < 0 && errno != ENOENT && errno != ENAMETOOLONG)
+            r = -errno;
     }
+
+    return r;
 }
-- 
2.43.0


From 9e538ca71fd45b11503d2f0930bd76aa1423c645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:45 +0000
Subject: [PATCH 19/64] fix: freadline: report a read error while looking for
 the LF of a CR-LF

---
 src/freadline.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/freadline.c b/src/freadline.c
index 5f75587..19a9ea5 100644
--- a/src/freadline.c
+++ b/src/freadline.c
@@ -43,11 +43,7 @@ freadline(FILE* fp, unsigned char * str, int n)
         if (c == EOF)
         {
             if (ferror(fp))
-            {
-                int e = errno;
-                *str  = 0;
-                return e > 0 ? -e : -EIO;
-            }
+                goto fail;
 
             // the last line may not have a terminator
             break;
@@ -56,6 +52,9 @@ freadline(FILE* fp, unsigned char * str, int n)
         if (c == '\r')
         {
             int next = fgetc(fp);
+            if (next == EOF && ferror(fp))
+                goto fail;
+
             if (next != EOF && next != '\n')
                 ungetc(next, fp);
 
@@ -76,5 +75,10 @@ freadline(FILE* fp, unsigned char * str, int n)
 
     *str = 0;
     return str - start;
+
+fail:
+    n    = errno;
+    *str = 0;
+    return n > 0 ? -n : -EIO;
 }
 
-- 
2.43.0


From d970d4066a619c59d95a7329ff151b28b788362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:40 +0000
Subject: [PATCH 20/64] fix: mmap_file: close the file when it can't be
 queried, never shrink a file that grew, keep a window mapped until its last
 user is done, no mapping left behind without memory, lock the whole range;
 sys_exception: cut off long messages

---
 inc/utils/mmap.h     | 22 +++++++++++++++-------
 src/posix/mmap.cpp   | 39 ++++++++++++++++++++++++++++++++-------
 src/sysexception.cpp |  5 +++--
 3 files changed, 50 insertions(+), 16 deletions(-)

diff --git a/inc/utils/mmap.h b/inc/utils/mmap.h
index aa55b77..a6197e3 100644
--- a/inc/utils/mmap.h
+++ b/inc/utils/mmap.h
@@ -53,7 +53,9 @@ public:
     // mmap entire file
     void * mmap() { return mmap(0, size_t(m_filesize)); }
 
-    // Unmap the mapping 'ptr'
+    // Unmap the mapping 'ptr'. Mapping the same window again yields
+    // the same address; it has to be unmapped as often as it was
+    // mapped.
     void  unmap(void * ptr);
 
 
@@ -98,17 +100,20 @@ protected:
     mmap_file();
     const char * fn() const { return m_filename.c_str(); };
 
-    // Find off+size pair in m_mappings
+    // Find off+size pair in m_mappings; the caller gets a reference
+    // to the mapping.
     void * find(off_t off, size_t size)
     {
         all_mappings::iterator i  = m_mappings.begin(),
                               end = m_mappings.end();
         while (i != end)
         {
-            const mapping& m = *i;
+            mapping& m = *i;
 
-            if ( m.off == off && m.size == size )
+            if ( m.off == off && m.size == size ) {
+                m.nref++;
                 return m.ptr;
+            }
             ++i;
         }
 
@@ -116,17 +121,19 @@ protected:
     };
 
 
-    // Erase node containing 'ptr'
+    // Drop a reference to 'ptr'; erase its node when that was the last.
     std::pair<void *, size_t> maybe_erase(void * ptr)
     {
         all_mappings::iterator i  = m_mappings.begin(),
                               end = m_mappings.end();
         while (i != end)
         {
-            const mapping& m = *i;
+            mapping& m = *i;
 
             if ( ptr == m.ptr )
             {
+                if ( --m.nref > 0 ) break;
+
                 std::pair<void *, size_t> p(ptr, m.size);
 
                 m_mappings.erase(i);
@@ -144,9 +151,10 @@ protected:
         void * ptr;
         size_t size;
         off_t  off;
+        unsigned long nref;     // number of users
 
         mapping(void * p, size_t sz, off_t offset):
-            ptr(p), size(sz), off(offset) { }
+            ptr(p), size(sz), off(offset), nref(1) { }
     };
 
     typedef std::list<mapping> all_mappings;
diff --git a/src/posix/mmap.cpp b/src/posix/mmap.cpp
index 0b9bf17..46b62e6 100644
--- a/src/posix/mmap.cpp
+++ b/src/posix/mmap.cpp
@@ -49,8 +49,11 @@ mmap_file::mmap_file(const string& fname, unsigned int flags)
         throw sys_exception(geterror(), "Can't open '%s'", fn());
 
     struct stat st;
-    if ( ::fstat(fd, &st) < 0 )
-        throw sys_exception(geterror(), "Can't query '%s'", fn());
+    if ( ::fstat(fd, &st) < 0 ) {
+        int e = errno;
+        ::close(fd);
+        throw sys_exception(geterror(e), "Can't query '%s'", fn());
+    }
 
 
     m_filesize = st.st_size;
@@ -83,7 +86,20 @@ mmap_file::mmap(off_t off, size_t size)
 
     if (ptr) return ptr;
 
+    if (off < 0 || size > size_t(INT64_MAX - off))
+        throw sys_exception(geterror(EINVAL), "%s: Can't mmap %llu bytes at %llu ", fn(), size, off);
+
     off_t newsz = off + size;
+    if (newsz > m_filesize) {
+        struct stat st;
+
+        // The file may have grown since we looked; never shrink it.
+        if (::fstat(int(m_fd), &st) < 0)
+            throw sys_exception(geterror(), "Can't query '%s'", fn());
+
+        if (st.st_size > m_filesize) m_filesize = st.st_size;
+    }
+
     if (newsz > m_filesize) {
         if (! (m_flags & MMAP_CREATE))
             throw sys_exception("mmap offset '%ull' for '%s' out of bounds",
@@ -111,7 +127,12 @@ mmap_file::mmap(off_t off, size_t size)
 
     mapping m(ptr, size, off);
 
-    m_mappings.push_back(m);
+    try {
+        m_mappings.push_back(m);
+    } catch (...) {
+        ::munmap(ptr, size);
+        throw;
+    }
 
     return ptr;
 }
@@ -133,9 +154,11 @@ void
 mmap_file::mlock(void * ptr, size_t n)
 {
     const size_t pgsize = pagesize();
+    void * start = align_down(ptr, pgsize);
 
-    ptr = align_down(ptr, pgsize);
-    n   = align_up(n, pgsize);
+    // cover everything upto the end of the last page
+    n   = align_up(n + ((char *)ptr - (char *)start), pgsize);
+    ptr = start;
 
     if ( ::mlock(ptr, n) < 0 )
         throw sys_exception(geterror(), "%s: Can't lock '%lu' bytes at '%p'",
@@ -147,9 +170,11 @@ void
 mmap_file::munlock(void * ptr, size_t n)
 {
     const size_t pgsize = pagesize();
+    void * start = align_down(ptr, pgsize);
 
-    ptr = align_down(ptr, pgsize);
-    n   = align_up(n, pgsize);
+    // cover everything upto the end of the last page
+    n   = align_up(n + ((char *)ptr - (char *)start), pgsize);
+    ptr = start;
 
     if ( ::munlock(ptr, n) < 0 )
         throw sys_exception(geterror(), "%s: Can't unlock '%lu' bytes at '%p'",
diff --git a/src/sysexception.cpp b/src/sysexception.cpp
index 1b34ebf..4637b75 100644
--- a/src/sysexception.cpp
+++ b/src/sysexception.cpp
@@ -51,10 +51,11 @@ sys_exception::sys_exception(const syserror& e, const char * fmt, ...)
 
     va_list ap;
     va_start(ap, fmt);
-    size_t n = vsnprintf(buf, max, fmt, ap);
+    int r = vsnprintf(buf, max, fmt, ap);
     va_end(ap);
 
-    assert(n <= max);
+    // a long message is cut off
+    size_t n = r < 0 ? 0 : min(size_t(r), size_t(max-1));
 
     memcpy(m_buf, buf, n);
     m_buf[n++] = ':';
-- 
2.43.0


From 8dcca8a63fd8954e364130ecd7a8acbe557de3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:34 +0000
Subject: [PATCH 21/64] fix: zbuf: deliver output still pending when the input
 is used up, report truncated streams, a negative result of the callback is a
 refusal, release everything when finishing fails

---
 src/zbuf_c.c   | 18 ++++++++++++------
 src/zbuf_unc.c | 43 ++++++++++++++++++++++++++++++++-----------
 2 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/zbuf_c.c b/src/zbuf_c.c
index 003bbcf..70d07a6 100644
--- a/src/zbuf_c.c
+++ b/src/zbuf_c.c
@@ -85,7 +85,7 @@ z_buf_compress (z_buf_context * zc, void * data, int len)
              * If the callback-func is unable to consume _any_
              * processed data, we can't proceed any further!
              */
-            if ( used == 0 )
+            if ( used <= 0 )
                 return Z_MEM_ERROR;
 
             zs->next_out  = zc->outbuf;
@@ -115,7 +115,8 @@ z_buf_compress (z_buf_context * zc, void * data, int len)
 
 
 /*
- * Finalize compression by draining all pending output.
+ * Finalize compression by draining all pending output. This
+ * releases the compressor - even when it fails.
  * Returns:
  *      Z_OK on success
  *      Z_xxx_ERROR on error.
@@ -135,7 +136,7 @@ z_buf_compress_end (z_buf_context * zc)
     {
         err = z_buf_compress (zc, 0, 0);
         if ( err != Z_OK )
-            return err;
+            goto fini;
     }
 
 
@@ -165,7 +166,10 @@ z_buf_compress_end (z_buf_context * zc)
                 int used  = (*zc->process_output) (zc->opaq, buf, rem);
 
                 if ( used <= 0 )
-                    return Z_MEM_ERROR;
+                {
+                    err = Z_MEM_ERROR;
+                    goto fini;
+                }
 
                 buf  += used;
                 rem  -= used;
@@ -193,14 +197,16 @@ z_buf_compress_end (z_buf_context * zc)
         done = zs->avail_out != 0 || err == Z_STREAM_END;
 
         if ( err != Z_OK && err != Z_STREAM_END )
-            return err;
+            goto fini;
 
     } while (1);
 
+    err = Z_OK;
 
+fini:
     deflateEnd (zs);
 
-    return 0;
+    return err;
 }
 
 /* EOF */
diff --git a/src/zbuf_unc.c b/src/zbuf_unc.c
index 3364459..057687e 100644
--- a/src/zbuf_unc.c
+++ b/src/zbuf_unc.c
@@ -55,7 +55,9 @@ z_buf_uncompress (z_buf_context * zc, void * data, int len)
 {
     z_stream * zs = &zc->z;
 
-    assert (zs->avail_in == 0);
+    /* There was an error or the stream ended earlier. */
+    if ( zs->avail_in > 0 )
+        return Z_BUF_ERROR;
 
     zs->next_in  = (Bytef *)data;
     zs->avail_in = len;
@@ -66,7 +68,8 @@ z_buf_uncompress (z_buf_context * zc, void * data, int len)
 
 
 /*
- * Finalize decompression session.
+ * Finalize decompression session. This releases the decompressor -
+ * even when it fails.
  */
 int
 z_buf_uncompress_end (z_buf_context * zc)
@@ -75,13 +78,16 @@ z_buf_uncompress_end (z_buf_context * zc)
     int err  = Z_OK;
 
     /*
-     * Uncompress any pending data.
+     * Uncompress any pending data; a stream that hasn't come to its
+     * end is incomplete.
      */
-    if ( zs->avail_in > 0 )
+    if ( zs->avail_in > 0 || zs->total_in > 0 )
     {
         err = do_uncompress (zs, zc);
-        if ( err != Z_STREAM_END || err != Z_OK )
-            return err;
+        if ( err != Z_STREAM_END && err != Z_OK )
+            goto fini;
+
+        err = err == Z_STREAM_END ? Z_OK : Z_DATA_ERROR;
     }
 
     if ( zs->avail_out < zc->outbuf_size )
@@ -97,13 +103,17 @@ z_buf_uncompress_end (z_buf_context * zc)
             int used  = (*zc->process_output) (zc->opaq, buf, rem);
 
             if ( used <= 0 )
-                return Z_MEM_ERROR;
+            {
+                err = Z_MEM_ERROR;
+                goto fini;
+            }
 
             buf  += used;
             rem  -= used;
         }
     }
 
+fini:
     inflateEnd (zs);
     return err;
 }
@@ -117,7 +127,7 @@ do_uncompress (z_stream * zs, z_buf_context * zc)
 {
     int err = Z_OK;
 
-    while ( zs->avail_in > 0 )
+    do
     {
         if ( zs->avail_out == 0 )
         {
@@ -129,7 +139,7 @@ do_uncompress (z_stream * zs, z_buf_context * zc)
              * If the callback-func is unable to consume _any_
              * processed data, we can't proceed any further!
              */
-            if ( used == 0 )
+            if ( used <= 0 )
                 return Z_MEM_ERROR;
 
             zs->next_out  = zc->outbuf;
@@ -152,10 +162,21 @@ do_uncompress (z_stream * zs, z_buf_context * zc)
         err = inflate (zs, Z_NO_FLUSH);
         if ( err == Z_STREAM_END )
             break;
-        
+
+        /*
+         * All the input is used up and there is no more output.
+         */
+        if ( err == Z_BUF_ERROR && zs->avail_in == 0 )
+            return Z_OK;
+
         if ( err != Z_OK )
             return err;
-    }
+
+    /*
+     * When the output buffer is full, there may be more output
+     * pending even if there is no more input.
+     */
+    } while ( zs->avail_in > 0 || zs->avail_out == 0 );
 
     return err;
 }
-- 
2.43.0


From 8b2775c1c1fded3e78e9af88a4a15c988c604b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:50 +0000
Subject: [PATCH 22/64] fix: zbuf: an error before the first byte is delivered
 is an error when finishing, too

---
 src/zbuf_unc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zbuf_unc.c b/src/zbuf_unc.c
index 057687e..0ee8d55 100644
--- a/src/zbuf_unc.c
+++ b/src/zbuf_unc.c
@@ -81,7 +81,7 @@ z_buf_uncompress_end (z_buf_context * zc)
      * Uncompress any pending data; a stream that hasn't come to its
      * end is incomplete.
      */
-    if ( zs->avail_in > 0 || zs->total_in > 0 )
+    if ( zs->next_in )
     {
         err = do_uncompress (zs, zc);
         if ( err != Z_STREAM_END && err != Z_OK )
-- 
2.43.0


From 5c9572bd7700b21d416fbf60af4841e07127d5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:17 +0000
Subject: [PATCH 23/64] fix: fts: initialise the dummy first node; free the
 sort array

The placeholder made by fts_open() had no level and no parent, so
fts_close() before the first fts_read() and any use of a stream without
roots followed uninitialised memory.  fts_children() after the last entry
dereferenced NULL.
---
 src/fts.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index 8de5281..fde85e3 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -192,6 +192,8 @@ fts_open(char * const *argv, int options,
 	if ((sp->fts_cur = fts_alloc(sp, "", 0)) == NULL)
 		goto mem3;
 	sp->fts_cur->fts_link = root;
+	sp->fts_cur->fts_parent = parent;
+	sp->fts_cur->fts_level = FTS_ROOTLEVEL;
 	sp->fts_cur->fts_info = FTS_INIT;
 
 	/*
@@ -210,13 +212,11 @@ fts_open(char * const *argv, int options,
 		}
 	}
 
-	if (nitems == 0)
-		fts_free(parent);
-
 	return (sp);
 
 mem3:	fts_lfree(root);
 	fts_free(parent);
+	free(sp->fts_array);
 mem2:	free(sp->fts_path);
 mem1:	free(sp);
 	return (NULL);
@@ -554,7 +554,8 @@ fts_children(FTS *sp, int instr)
 	}
 
 	/* Set current node pointer. */
-	p = sp->fts_cur;
+	if ((p = sp->fts_cur) == NULL)
+		return (NULL);
 
 	/*
 	 * Errno set to 0 so user can distinguish empty directory from
-- 
2.43.0


From d6b6ab0a5d53f6fdb3834b4aef43b36ad59993b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:17 +0000
Subject: [PATCH 24/64] fix: fts: keep the current node valid when a walk stops
 on an error

When fts_read() could not change directory it returned with the current
node already freed, and fts_close() then used it.  fts_children() kept a
freed child list while building the next one, and lost the new list when
it could not get back.
---
 src/fts.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fts.c b/src/fts.c
index fde85e3..c064a9f 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -427,6 +427,7 @@ fts_read(FTS *sp)
 	/* Move to the next node on this level. */
 next:	tmp = p;
 	if ((p = p->fts_link) != NULL) {
+		sp->fts_cur = p;
 		fts_free(tmp);
 
 		/*
@@ -473,7 +474,7 @@ name:		t = sp->fts_path + NAPPEND(p->fts_parent);
 	}
 
 	/* Move up to the parent node. */
-	p = tmp->fts_parent;
+	p = sp->fts_cur = tmp->fts_parent;
 	fts_free(tmp);
 
 	if (p->fts_level == FTS_ROOTPARENTLEVEL) {
@@ -582,6 +583,7 @@ fts_children(FTS *sp, int instr)
 	/* Free up any previous child list. */
 	if (sp->fts_child)
 		fts_lfree(sp->fts_child);
+	sp->fts_child = NULL;
 
 	if (instr == FTS_NAMEONLY) {
 		SET(FTS_NAMEONLY);
@@ -887,6 +889,9 @@ mem1:				saved_errno = errno;
 	    (cur->fts_level == FTS_ROOTLEVEL ?
 	    FCHDIR(sp, sp->fts_rfd) :
 	    fts_safe_changedir(sp, cur->fts_parent, -1, ".."))) {
+		saved_errno = errno;
+		fts_lfree(head);
+		errno = saved_errno;
 		cur->fts_info = FTS_ERR;
 		SET(FTS_STOP);
 		return (NULL);
-- 
2.43.0


From 8c1f9308ad7cd332891199ca4ea441e57ab74e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:49 +0000
Subject: [PATCH 25/64] fix: fts: descriptor of a followed symlink leaked or
 closed twice

The descriptor was closed without clearing FTS_SYMFOLLOW, so fts_close()
could close it (or whatever had reused the number) again; it leaked for
roots, unreadable or empty targets and when closing in the middle of a
walk.  Leaving an empty or listed directory reached through a symlink went
to ".." of the target and stopped the walk.
---
 src/fts.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index c064a9f..05ce277 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -75,6 +75,7 @@ static size_t	 fts_maxarglen(char * const *);
 static size_t	 fts_pow2(size_t);
 static int	 fts_palloc(FTS *, size_t);
 static void	 fts_padjust(FTS *, FTSENT *);
+static void	 fts_symclose(FTSENT *);
 static FTSENT	*fts_sort(FTS *, FTSENT *, size_t);
 static unsigned short fts_stat(FTS *, FTSENT *, int);
 static int	 fts_safe_changedir(const FTS *, const FTSENT *, int,
@@ -263,8 +264,6 @@ fts_close(FTS *sp)
 	 * list which has a valid parent pointer.
 	 */
 	if (sp->fts_cur) {
-		if (sp->fts_cur->fts_flags & FTS_SYMFOLLOW)
-			(void)close(sp->fts_cur->fts_symfd);
 		for (p = sp->fts_cur; p->fts_level >= FTS_ROOTLEVEL;) {
 			freep = p;
 			p = p->fts_link ? p->fts_link : p->fts_parent;
@@ -359,6 +358,7 @@ fts_read(FTS *sp)
 	    (p->fts_info == FTS_SL || p->fts_info == FTS_SLNONE)) {
 		p->fts_info = fts_stat(sp, p, 1);
 		if (p->fts_info == FTS_D && !ISSET(FTS_NOCHDIR)) {
+			fts_symclose(p);
 			if ((p->fts_symfd = open(".", O_RDONLY, 0)) == -1) {
 				p->fts_errno = errno;
 				p->fts_info = FTS_ERR;
@@ -377,8 +377,7 @@ fts_read(FTS *sp)
 		/* If skipped or crossed mount point, do post-order visit. */
 		if (instr == FTS_SKIP ||
 		    (ISSET(FTS_XDEV) && p->fts_dev != sp->fts_dev)) {
-			if (p->fts_flags & FTS_SYMFOLLOW)
-				(void)close(p->fts_symfd);
+			fts_symclose(p);
 			if (sp->fts_child) {
 				fts_lfree(sp->fts_child);
 				sp->fts_child = NULL;
@@ -453,6 +452,7 @@ next:	tmp = p;
 		if (p->fts_instr == FTS_FOLLOW) {
 			p->fts_info = fts_stat(sp, p, 1);
 			if (p->fts_info == FTS_D && !ISSET(FTS_NOCHDIR)) {
+				fts_symclose(p);
 				if ((p->fts_symfd =
 				    open(".", O_RDONLY, 0)) == -1) {
 					p->fts_errno = errno;
@@ -503,12 +503,12 @@ name:		t = sp->fts_path + NAPPEND(p->fts_parent);
 	} else if (p->fts_flags & FTS_SYMFOLLOW) {
 		if (FCHDIR(sp, p->fts_symfd)) {
 			saved_errno = errno;
-			(void)close(p->fts_symfd);
+			fts_symclose(p);
 			errno = saved_errno;
 			SET(FTS_STOP);
 			return (NULL);
 		}
-		(void)close(p->fts_symfd);
+		fts_symclose(p);
 	} else if (!(p->fts_flags & FTS_DONTCHDIR) &&
 	    fts_safe_changedir(sp, p->fts_parent, -1, "..")) {
 		SET(FTS_STOP);
@@ -888,6 +888,8 @@ mem1:				saved_errno = errno;
 	if (descend && (type == BCHILD || !nitems) &&
 	    (cur->fts_level == FTS_ROOTLEVEL ?
 	    FCHDIR(sp, sp->fts_rfd) :
+	    (cur->fts_flags & FTS_SYMFOLLOW) ?
+	    FCHDIR(sp, cur->fts_symfd) :
 	    fts_safe_changedir(sp, cur->fts_parent, -1, ".."))) {
 		saved_errno = errno;
 		fts_lfree(head);
@@ -1083,9 +1085,20 @@ fts_alloc(FTS *sp, const char *name, size_t namelen)
 	return (p);
 }
 
+/* Give up the descriptor kept to get back from a followed symlink. */
+static void
+fts_symclose(FTSENT *p)
+{
+	if (p->fts_flags & FTS_SYMFOLLOW) {
+		(void)close(p->fts_symfd);
+		p->fts_flags &= ~FTS_SYMFOLLOW;
+	}
+}
+
 static void
 fts_free(FTSENT *p)
 {
+	fts_symclose(p);
 #if !defined(FTS_ALLOC_ALIGNED)
 	if (p->fts_statp)
 		free(p->fts_statp);
-- 
2.43.0


From 97c9123f29cfbd377ffad136663c98d9f81ea088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:49 +0000
Subject: [PATCH 26/64] fix: fts: report a directory that cannot be read to its
 end

An error from readdir() was taken for the end of the directory, and the
remaining entries silently missed.
---
 src/fts.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index 05ce277..49589c7 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -638,6 +638,7 @@ fts_build(FTS *sp, int type)
 	void *oldaddr;
 	size_t dnamlen;
 	int cderrno, descend, level, nlinks, saved_errno, nostat, doadjust;
+	int rderrno;
 	size_t len, maxlen;
 #ifdef FTS_WHITEOUT
 	int oflag;
@@ -750,7 +751,14 @@ fts_build(FTS *sp, int type)
 
 	/* Read the directory, attaching each entry to the `link' pointer. */
 	doadjust = 0;
-	for (head = tail = NULL, nitems = 0; (dp = readdir(dirp)) != NULL;) {
+	rderrno = 0;
+	for (head = tail = NULL, nitems = 0;;) {
+
+		errno = 0;
+		if ((dp = readdir(dirp)) == NULL) {
+			rderrno = errno;
+			break;
+		}
 
 		if (!ISSET(FTS_SEEDOT) && ISDOT(dp->d_name))
 			continue;
@@ -899,10 +907,18 @@ mem1:				saved_errno = errno;
 		return (NULL);
 	}
 
+	/*
+	 * If the directory could not be read to its end, the application gets
+	 * the error now (nothing read) or at the post-order visit.
+	 */
+	if (rderrno && (type == BREAD || (type == BCHILD && nitems)))
+		cur->fts_errno = rderrno;
+
 	/* If didn't find anything, return NULL. */
 	if (!nitems) {
 		if (type == BREAD)
-			cur->fts_info = FTS_DP;
+			cur->fts_info = rderrno ? FTS_DNR : FTS_DP;
+		errno = rderrno;
 		return (NULL);
 	}
 
-- 
2.43.0


From d33465b44e090cfa27d023162f56529a020fc2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:23 +0000
Subject: [PATCH 27/64] fix: fts: current path after fts_children(), access
 path after growing it

With FTS_NOCHDIR, fts_children() left a "/" at the end of the current
path.  Growing the path buffer turned an access path that lay in neither
the name nor the path buffer into a wild pointer.
---
 src/fts.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index 49589c7..9add998 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -880,11 +880,8 @@ mem1:				saved_errno = errno;
 	 * If not changing directories, reset the path back to original
 	 * state.
 	 */
-	if (ISSET(FTS_NOCHDIR)) {
-		if (len == sp->fts_pathlen || nitems == 0)
-			--cp;
-		*cp = '\0';
-	}
+	if (ISSET(FTS_NOCHDIR))
+		sp->fts_path[cur->fts_pathlen] = '\0';
 
 	/*
 	 * If descended after called from fts_children or after called from
@@ -1198,9 +1195,8 @@ fts_padjust(FTS *sp, FTSENT *head)
 	_DIAGASSERT(sp != NULL);
 
 #define	ADJUST(p) do {							\
-	if ((p)->fts_accpath != (p)->fts_name)				\
-		(p)->fts_accpath =					\
-		    addr + ((p)->fts_accpath - (p)->fts_path);		\
+	if ((p)->fts_accpath == (p)->fts_path)				\
+		(p)->fts_accpath = addr;				\
 	(p)->fts_path = addr;						\
 } while (/*CONSTCOND*/0)
 
-- 
2.43.0


From fdc5df468c89901acc02fec513b4a265f134c506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:23 +0000
Subject: [PATCH 28/64] fix: fts: FTS_NOSTAT missed subdirectories when the
 link count was stale

With FTS_NOSTAT|FTS_PHYSICAL, once as many directories had been seen as
the link count (taken earlier) allowed for, the rest were not recognised
as directories and not descended into.  Use the type in the entries.
---
 src/fts.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fts.c b/src/fts.c
index 9add998..9e4f977 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -679,7 +679,15 @@ fts_build(FTS *sp, int type)
 		nlinks = 0;
 		nostat = 1;
 	} else if (ISSET(FTS_NOSTAT) && ISSET(FTS_PHYSICAL)) {
+#ifdef DT_DIR
+		/*
+		 * The directory entries tell which ones are directories; the
+		 * link count may be stale (or mean something else).
+		 */
+		nlinks = -1;
+#else
 		nlinks = cur->fts_nlink - (ISSET(FTS_SEEDOT) ? 0 : 2);
+#endif
 		nostat = 1;
 	} else {
 		nlinks = -1;
-- 
2.43.0


From a4f07f1d03ff7a2c7093813ec73546f7e96803e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:24 +0000
Subject: [PATCH 29/64] fix: fts: a failing stat() made any file a dangling
 symbolic link

Only a symbolic link can be FTS_SLNONE.
---
 src/fts.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fts.c b/src/fts.c
index 9e4f977..0070ff3 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -967,7 +967,8 @@ fts_stat(FTS *sp, FTSENT *p, int follow)
 	if (ISSET(FTS_LOGICAL) || follow) {
 		if (stat(p->fts_accpath, sbp)) {
 			saved_errno = errno;
-			if (!lstat(p->fts_accpath, sbp)) {
+			if (!lstat(p->fts_accpath, sbp) &&
+			    S_ISLNK(sbp->st_mode)) {
 				errno = 0;
 				return (FTS_SLNONE);
 			}
-- 
2.43.0


From cc070ec241dbdf03cd7ca6bd258d9020e8dc9545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:24 +0000
Subject: [PATCH 30/64] fix: fts: state left over when a node is visited again

FTS_AGAIN kept an old error, did not descend into a root named ".", and
left the children of a directory that was no longer one to be used for
the next directory.
---
 src/fts.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fts.c b/src/fts.c
index 0070ff3..26bdbe9 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -344,7 +344,15 @@ fts_read(FTS *sp)
 
 	/* Any type of file may be re-visited; re-stat and re-turn. */
 	if (instr == FTS_AGAIN) {
+		p->fts_errno = 0;
 		p->fts_info = fts_stat(sp, p, 0);
+		/* As in fts_open(): command-line "." is a real directory. */
+		if (p->fts_info == FTS_DOT && p->fts_level == FTS_ROOTLEVEL)
+			p->fts_info = FTS_D;
+		if (sp->fts_child && p->fts_info != FTS_D) {
+			fts_lfree(sp->fts_child);
+			sp->fts_child = NULL;
+		}
 		return (p);
 	}
 
-- 
2.43.0


From 8164d65f5f1199bf54249fe4ecbb46a3e6536366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:24 +0000
Subject: [PATCH 31/64] fix: fts: directory replaced during the walk

The entries of whatever had replaced a directory were listed under its
path; the children of a directory that could no longer be entered were
descended into through the parent; a fifo in its place blocked the walk;
and after a failed fts_children() a directory that could be entered after
all was not left again.
---
 src/fts.c | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index 26bdbe9..89382db 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -417,10 +417,17 @@ fts_read(FTS *sp)
 			if (fts_safe_changedir(sp, p, -1, p->fts_accpath)) {
 				p->fts_errno = errno;
 				p->fts_flags |= FTS_DONTCHDIR;
-				for (p = sp->fts_child; p; p = p->fts_link)
+				for (p = sp->fts_child; p; p = p->fts_link) {
 					p->fts_accpath =
 					    p->fts_parent->fts_accpath;
-			}
+					if (p->fts_info == FTS_D) {
+						p->fts_info = FTS_NS;
+						p->fts_errno =
+						    p->fts_parent->fts_errno;
+					}
+				}
+			} else
+				p->fts_flags &= ~FTS_DONTCHDIR;
 		} else if ((sp->fts_child = fts_build(sp, BREAD)) == NULL) {
 			if (ISSET(FTS_STOP))
 				return (NULL);
@@ -724,14 +731,28 @@ fts_build(FTS *sp, int type)
 	 */
 	cderrno = 0;
 	if (nlinks || type == BREAD) {
-		if (fts_safe_changedir(sp, cur, dirfd(dirp), NULL)) {
+		int r = fts_safe_changedir(sp, cur, dirfd(dirp), NULL);
+
+		if (r == -2) {
+			/* Not the directory we are looking for. */
+			saved_errno = errno;
+			(void)closedir(dirp);
+			errno = saved_errno;
+			if (type == BREAD) {
+				cur->fts_info = FTS_DNR;
+				cur->fts_errno = errno;
+			}
+			return (NULL);
+		} else if (r) {
 			if (nlinks && type == BREAD)
 				cur->fts_errno = errno;
 			cur->fts_flags |= FTS_DONTCHDIR;
 			descend = 0;
 			cderrno = errno;
-		} else
+		} else {
+			cur->fts_flags &= ~FTS_DONTCHDIR;
 			descend = 1;
+		}
 	} else
 		descend = 0;
 
@@ -1247,6 +1268,7 @@ fts_maxarglen(char * const *argv)
  * Change to dir specified by fd or p->fts_accpath without getting
  * tricked by someone changing the world out from underneath us.
  * Assumes p->fts_dev and p->fts_ino are filled in.
+ * Returns -1 on failure, and -2 if it isn't known to be the right directory.
  */
 static int
 fts_safe_changedir(const FTS *sp, const FTSENT *p, int fd, const char *path)
@@ -1257,14 +1279,18 @@ fts_safe_changedir(const FTS *sp, const FTSENT *p, int fd, const char *path)
 	if (ISSET(FTS_NOCHDIR))
 		return 0;
 
-	if (oldfd < 0 && (fd = open(path, O_RDONLY)) == -1)
+	/* O_DIRECTORY: do not wait for the other end of a fifo. */
+	if (oldfd < 0 && (fd = open(path, O_RDONLY | O_DIRECTORY)) == -1)
 		return -1;
 
-	if (fstat(fd, &sb) == -1)
+	if (fstat(fd, &sb) == -1) {
+		ret = -2;
 		goto bail;
+	}
 
 	if (sb.st_ino != p->fts_ino || sb.st_dev != p->fts_dev) {
 		errno = ENOENT;
+		ret = -2;
 		goto bail;
 	}
 
-- 
2.43.0


From 8ef1e1e987214c05d613ee48350a4f052649c46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:17 +0000
Subject: [PATCH 32/64] fix: fts: FTS_FOLLOW on a listed child looked at
 another entry

With FTS_NOCHDIR the child was examined before its name was in the path,
through the path of the previous entry.
---
 src/fts.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index 89382db..1ad8701 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -459,11 +459,17 @@ next:	tmp = p;
 
 		/*
 		 * User may have called fts_set on the node.  If skipped,
-		 * ignore.  If followed, get a file descriptor so we can
-		 * get back if necessary.
+		 * ignore.  If followed (below), get a file descriptor so we
+		 * can get back if necessary.
 		 */
 		if (p->fts_instr == FTS_SKIP)
 			goto next;
+
+name:		t = sp->fts_path + NAPPEND(p->fts_parent);
+		*t++ = '/';
+		memmove(t, p->fts_name, (size_t)(p->fts_namelen + 1));
+
+		/* The access path may be the path, which is complete only now. */
 		if (p->fts_instr == FTS_FOLLOW) {
 			p->fts_info = fts_stat(sp, p, 1);
 			if (p->fts_info == FTS_D && !ISSET(FTS_NOCHDIR)) {
@@ -481,10 +487,6 @@ next:	tmp = p;
 			}
 			p->fts_instr = FTS_NOINSTR;
 		}
-
-name:		t = sp->fts_path + NAPPEND(p->fts_parent);
-		*t++ = '/';
-		memmove(t, p->fts_name, (size_t)(p->fts_namelen + 1));
 		return (sp->fts_cur = p);
 	}
 
-- 
2.43.0


From 03797c7a63018c92fe66f14c54acb8378123bf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:25 +0000
Subject: [PATCH 33/64] fix: fts: entry examined through the old path buffer
 after growing it

---
 src/fts.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fts.c b/src/fts.c
index 1ad8701..bda22ed 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -830,6 +830,7 @@ mem1:				saved_errno = errno;
 			/* Did realloc() change the pointer? */
 			if (oldaddr != sp->fts_path) {
 				doadjust = 1;
+				p->fts_path = sp->fts_path;
 				if (ISSET(FTS_NOCHDIR))
 					cp = sp->fts_path + len;
 			}
-- 
2.43.0


From 8153fce8a713466f07c2844a246a5dbc8dcf5698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:15 +0000
Subject: [PATCH 34/64] fix: fts: entry of a directory that could not be
 entered, visited again, described the directory

---
 src/fts.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/fts.c b/src/fts.c
index bda22ed..f8a91af 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -364,6 +364,7 @@ fts_read(FTS *sp)
 	 */
 	if (instr == FTS_FOLLOW &&
 	    (p->fts_info == FTS_SL || p->fts_info == FTS_SLNONE)) {
+		p->fts_errno = 0;
 		p->fts_info = fts_stat(sp, p, 1);
 		if (p->fts_info == FTS_D && !ISSET(FTS_NOCHDIR)) {
 			fts_symclose(p);
@@ -471,6 +472,7 @@ name:		t = sp->fts_path + NAPPEND(p->fts_parent);
 
 		/* The access path may be the path, which is complete only now. */
 		if (p->fts_instr == FTS_FOLLOW) {
+			p->fts_errno = 0;
 			p->fts_info = fts_stat(sp, p, 1);
 			if (p->fts_info == FTS_D && !ISSET(FTS_NOCHDIR)) {
 				fts_symclose(p);
@@ -991,6 +993,18 @@ fts_stat(FTS *sp, FTSENT *p, int follow)
 	}
 #endif
 
+	/*
+	 * In a directory that could not be entered the access path is that of
+	 * the directory.
+	 */
+	if (p->fts_level > FTS_ROOTLEVEL && !ISSET(FTS_NOCHDIR) &&
+	    p->fts_accpath == p->fts_parent->fts_accpath) {
+		p->fts_errno = p->fts_parent->fts_errno;
+		if (p->fts_errno == 0)
+			p->fts_errno = ENOENT;
+		goto err;
+	}
+
 	/*
 	 * If doing a logical walk, or application requested FTS_FOLLOW, do
 	 * a stat(2).  If that fails, check for a non-existent symlink.  If
-- 
2.43.0


From a5f0240392b95d6a107d110c3d53bd85080a9cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:15 +0000
Subject: [PATCH 35/64] fix: fts: instructions set on listed children were lost
 after an earlier names-only listing

---
 src/fts.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fts.c b/src/fts.c
index f8a91af..d5412ea 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -607,8 +607,10 @@ fts_children(FTS *sp, int instr)
 	if (instr == FTS_NAMEONLY) {
 		SET(FTS_NAMEONLY);
 		instr = BNAMES;
-	} else
+	} else {
+		CLR(FTS_NAMEONLY);
 		instr = BCHILD;
+	}
 
 	/*
 	 * If using chdir on a relative path and called BEFORE fts_read does
-- 
2.43.0


From a549e201fdc934519c98e942d40ac29b3f6aa929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:36 +0000
Subject: [PATCH 36/64] fix: ulid: real timestamp, bit 16 in the text, refuse
 failing randomness and texts above 128 bits

---
 src/ulid.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/ulid.c b/src/ulid.c
index f1d91d9..d1e88af 100644
--- a/src/ulid.c
+++ b/src/ulid.c
@@ -46,14 +46,14 @@ ulid_generate(uint8_t *buf, size_t bsiz)
 
     ms &= ~(((uint64_t)0xffff) << 48);   // clear top 16 bits;
 
-    *buf++ = 0xff && (ms >> 40);
-    *buf++ = 0xff && (ms >> 32);
-    *buf++ = 0xff && (ms >> 24);
-    *buf++ = 0xff && (ms >> 16);
-    *buf++ = 0xff && (ms >>  8);
-    *buf++ = 0xff && ms;
-
-    getentropy(buf, 10);
+    *buf++ = 0xff & (ms >> 40);
+    *buf++ = 0xff & (ms >> 32);
+    *buf++ = 0xff & (ms >> 24);
+    *buf++ = 0xff & (ms >> 16);
+    *buf++ = 0xff & (ms >>  8);
+    *buf++ = 0xff & ms;
+
+    if (getentropy(buf, 10) < 0) return -errno;
     return 16;
 }
 
@@ -104,6 +104,9 @@ ulid_fromstring(uint8_t *buf, size_t bsiz, const char *str)
         if (0xff == z) return -EINVAL;  \
         z; })
 
+    // 26 characters hold 130 bits; the first two must be zero.
+    if (v(0) > 7)           return -EINVAL;
+
 	*buf++   = ((v(0) << 5) |  v(1));
 	*buf++   = ((v(2) << 3) | (v(3) >> 2));
 	*buf++   = ((v(3) << 6) | (v(4) << 1) | (v(5) >> 4));
@@ -146,7 +149,7 @@ ulid_tostring(char *s, size_t bsiz, const uint8_t *id)
     *p++ = b32[ ((id[ 1] &   7) << 2) | ((id[ 2] & 192) >> 6)];
 
     *p++ = b32[ ( id[ 2] &  62) >> 1];
-    *p++ = b32[ ((id[ 3] &   1) << 4) | ((id[ 3] & 240) >> 4)];
+    *p++ = b32[ ((id[ 2] &   1) << 4) | ((id[ 3] & 240) >> 4)];
     *p++ = b32[ ((id[ 3] &  15) << 1) | ((id[ 4] & 128) >> 7)];
     *p++ = b32[ ( id[ 4] & 124) >> 2];
 
-- 
2.43.0


From af6cc5cf4840f9745329614d4732ba67b7ab114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:36 +0000
Subject: [PATCH 37/64] fix: uuid: report failing randomness, don't write past
 16 bytes for texts with too many digits

---
 src/uuid.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uuid.c b/src/uuid.c
index 514f48f..fdf0ed5 100644
--- a/src/uuid.c
+++ b/src/uuid.c
@@ -29,7 +29,7 @@ uuid_generate(uint8_t *buf, size_t bsiz)
     if (bsiz == 0) return -EINVAL;
     if (bsiz < 16) return -ENOSPC;
 
-    getentropy(buf, 16);
+    if (getentropy(buf, 16) < 0) return -errno;
 
     buf[6] = 0x4f & (buf[6] | 0x40);
     buf[8] = 0xbf & (buf[8] | 0x80);
@@ -70,6 +70,7 @@ uuid_fromstring(uint8_t *buf, size_t bsiz, const char *str)
                 byte |= (c - 'A' + 10) << shift;
                 break;
         }
+        if (bsiz == 0)  return -EINVAL; // too many digits
         if ((shift -= 4) < 0) {
             *buf++ = byte;
             byte   = 0;
-- 
2.43.0


From ab69f5fb03f196ae14abdf7bbdc01060b9488556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:42 +0000
Subject: [PATCH 38/64] fix: fts: visiting a directory again hid that its list
 of children was cut short by an error

---
 src/fts.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fts.c b/src/fts.c
index d5412ea..540ef2d 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -344,6 +344,11 @@ fts_read(FTS *sp)
 
 	/* Any type of file may be re-visited; re-stat and re-turn. */
 	if (instr == FTS_AGAIN) {
+		/* A list of children cut short by an error is read again. */
+		if (sp->fts_child && p->fts_errno) {
+			fts_lfree(sp->fts_child);
+			sp->fts_child = NULL;
+		}
 		p->fts_errno = 0;
 		p->fts_info = fts_stat(sp, p, 0);
 		/* As in fts_open(): command-line "." is a real directory. */
-- 
2.43.0


From f3e8eb6e45b94ae619d2b861819c854716764756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 39/64] fix: arc4random: a request larger than the reseed
 budget must not disable reseeding

rs_count is unsigned; subtracting a larger request made it huge and the
generator practically never asked for fresh entropy again.
---
 src/arc4random.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arc4random.c b/src/arc4random.c
index 7a17ae2..6e72432 100644
--- a/src/arc4random.c
+++ b/src/arc4random.c
@@ -143,7 +143,11 @@ _rs_stir_if_needed(rand_state* st, size_t len)
     if (st->rs_count <= len)
         _rs_stir(st);
 
-    st->rs_count -= len;
+    /* a large request can exceed the budget all by itself */
+    if (st->rs_count <= len)
+        st->rs_count = 0;
+    else
+        st->rs_count -= len;
 }
 
 // consume 'n' random btyes from the entropy buffer. Return total
-- 
2.43.0


From 48bd4365859937b9577a964078b65a24ebe28b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 40/64] fix: arc4random: never continue without a seed when
 asserts are compiled out

---
 src/arc4random.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/arc4random.c b/src/arc4random.c
index 6e72432..04ce013 100644
--- a/src/arc4random.c
+++ b/src/arc4random.c
@@ -65,6 +65,17 @@ typedef struct rand_state rand_state;
 /* kernel entropy */
 extern int getentropy(void* buf, size_t n);
 
+/*
+ * Get a seed from the kernel. There is no safe way to continue
+ * without one - not even when assertions are compiled out.
+ */
+static inline void
+_rs_entropy(uint8_t *buf, size_t n)
+{
+    if (getentropy(buf, n) != 0)
+        abort();
+}
+
 
 #define KEYSTREAM_ONLY
 #include "chacha_private.h"
@@ -123,9 +134,7 @@ _rs_stir(rand_state* st)
     uint8_t *fuzzp    = (uint8_t*)&rekey_fuzz;
 
 
-    int r = getentropy(rnd, sizeof rnd);
-    assert(r == 0);
-
+    _rs_entropy(rnd, sizeof rnd);
     _rs_rekey(st, rnd, sizeof(rnd));
 
     /* invalidate rs_buf */
@@ -184,9 +193,7 @@ static inline void
 _rs_setup(rand_state *rs)
 {
     uint8_t rnd[ARC4R_KEYSZ + ARC4R_IVSZ];
-    int r = getentropy(rnd, sizeof rnd);
-    assert(r == 0);
-
+    _rs_entropy(rnd, sizeof rnd);
     _rs_init(rs, rnd, sizeof rnd);
     _rs_rekey(rs, 0, 0);
 }
-- 
2.43.0


From c0df19f4870378062bffde798679913a6ce39c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 41/64] fix: arc4random: detect a fork even if the process id
 is reused

A grandchild can get the pid of its dead grandparent and would then
repeat the grandparent's output. Count forks with pthread_atfork(), too.
---
 src/arc4random.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/arc4random.c b/src/arc4random.c
index 04ce013..708739b 100644
--- a/src/arc4random.c
+++ b/src/arc4random.c
@@ -56,6 +56,7 @@ struct rand_state
     size_t          rs_have;    /* valid bytes at end of rs_buf */
     size_t          rs_count;   /* bytes till reseed */
     pid_t           rs_pid;     /* My PID */
+    uint32_t        rs_forks;   /* Forks that lead to my process */
     chacha_ctx      rs_chacha;  /* chacha context for random keystream */
     uint8_t         rs_buf[ARC4R_RSBUFSZ];  /* keystream blocks */
 };
@@ -282,14 +283,39 @@ sget()
  *
  */
 static __thread rand_state st = { .rs_count = 0, .rs_pid = -1, .rs_have = 0 };
+
+/*
+ * The pid alone doesn't tell us that we are in a new process: a
+ * grandchild can have the pid of its (terminated) grandparent. So,
+ * we also count forks. Only the child changes the counter - and only
+ * before it has any other threads.
+ */
+static pthread_once_t    Ronce  = PTHREAD_ONCE_INIT;
+static volatile uint32_t Rforks = 0;
+
+static void
+atfork(void)
+{
+    Rforks++;
+}
+
+static void
+screate(void)
+{
+    pthread_atfork(0, 0, atfork);
+}
+
 static inline rand_state*
 sget()
 {
     rand_state* s = &st;
 
-    if (s->rs_count == 0 || getpid() != s->rs_pid) {
+    pthread_once(&Ronce, screate);
+
+    if (s->rs_count == 0 || Rforks != s->rs_forks || getpid() != s->rs_pid) {
         _rs_setup(s);
-        s->rs_pid = getpid();
+        s->rs_pid   = getpid();
+        s->rs_forks = Rforks;
     }
     return s;
 }
-- 
2.43.0


From 1db2d10faa12564b469992fea5865276b1a98e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:45 +0000
Subject: [PATCH 42/64] fix: sysrand: report end-of-file instead of reading
 forever

---
 src/posix/sysrand.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/posix/sysrand.cpp b/src/posix/sysrand.cpp
index fec3876..5bfff04 100644
--- a/src/posix/sysrand.cpp
+++ b/src/posix/sysrand.cpp
@@ -78,6 +78,11 @@ sys_rand::generate_bits(void* buf, size_t nbytes)
                     nbytes);
         }
 
+        // end-of-file: there is nothing more to come
+        if ( n == 0 )
+            throw sys_exception(geterror(EIO), "Unable to read %d bytes from /dev/urandom",
+                    nbytes);
+
         ptr    += n;
         nbytes -= n;
     }
-- 
2.43.0


From 94dcd61c538c0cf149fd37bffac9be4b3457735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:45 +0000
Subject: [PATCH 43/64] fix: posix_entropy: make it compile, and report failure
 and end-of-file

It used an undeclared descriptor, ended the whole process if the device
could not be opened and would have read forever at end-of-file.
---
 src/posix/posix_entropy.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/posix/posix_entropy.c b/src/posix/posix_entropy.c
index f081a68..f3dcb72 100644
--- a/src/posix/posix_entropy.c
+++ b/src/posix/posix_entropy.c
@@ -15,7 +15,8 @@
  */
 
 
-#include <stdio.h>
+#include <stdint.h>
+#include <stddef.h>
 #include <fcntl.h>
 #include <unistd.h>
 #include <errno.h>
@@ -28,13 +29,7 @@ static pthread_once_t _Rand_once = PTHREAD_ONCE_INIT;
 static void
 __randopen(void)
 {
-    int fd = open("/dev/urandom", O_RDONLY);
-    if (fd < 0) {
-        fprintf(stderr, "can't open /dev/urandom: %s (%d)\n", strerror(errno), errno);
-        exit(1);
-    }
-
-    _Randfd = fd;
+    _Randfd = open("/dev/urandom", O_RDONLY);
 }
 
 
@@ -45,13 +40,22 @@ getentropy(void* buf, size_t n)
 
     pthread_once(&_Rand_once, __randopen);
 
+    if (_Randfd < 0) {
+        errno = ENOENT;
+        return -1;
+    }
+
     while (n > 0) {
-        ssize_t m = (read)(fd, b, n);
+        ssize_t m = (read)(_Randfd, b, n);
 
         if (m < 0) {
             if (errno == EINTR) continue;
             return -1;
         }
+        if (m == 0) {
+            errno = EIO;
+            return -1;
+        }
         b += m;
         n -= m;
     }
-- 
2.43.0


From 8fdf05f215a97a18a92529507b6a7a478bd50a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:30 +0000
Subject: [PATCH 44/64] fix: readpass: report end of input and over-long lines,
 don't read before the buffer

---
 src/readpass.c | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/readpass.c b/src/readpass.c
index f50aeaa..7ba6792 100644
--- a/src/readpass.c
+++ b/src/readpass.c
@@ -36,6 +36,29 @@
 #define MAXPASSLEN 2048
 #define warnp(x) fprintf(stderr, x ": %s (%d)\n", strerror(errno), errno)
 
+/*
+ * Read one line of at most 'bufsz'-2 characters. End of input and lines
+ * that don't fit are errors too. Return 0 on success, -errno on failure.
+ */
+static int
+read_line(char *buf, int bufsz, FILE *fp)
+{
+    size_t n;
+
+    errno = 0;
+    if (fgets(buf, bufsz, fp) == NULL) {
+        if (errno == 0) errno = EIO;    // EOF doesn't set errno
+        return -errno;
+    }
+
+    n = strlen(buf);
+    if (n == (size_t)(bufsz - 1) && buf[n-1] != '\n') {
+        errno = EOVERFLOW;
+        return -errno;
+    }
+    return 0;
+}
+
 /**
  * portable_getpass(passwd, prompt, confirmprompt, devtty)
  * If ${devtty} is non-zero, read a password from /dev/tty if possible; if
@@ -91,8 +114,7 @@ portable_readpass(char ** passwd, const char * prompt,
     do {
         if (usingtty) fprintf(stderr, "%s: ", prompt);
 
-        if (fgets(passbuf, MAXPASSLEN, readfrom) == NULL) {
-            r = -errno;
+        if ((r = read_line(passbuf, MAXPASSLEN, readfrom)) < 0) {
             warnp("Cannot read password");
             goto err2;
         }
@@ -100,8 +122,7 @@ portable_readpass(char ** passwd, const char * prompt,
         if (!confirmprompt) goto ok;
 
         if (usingtty) fprintf(stderr, "%s: ", confirmprompt);
-        if (fgets(confpassbuf, MAXPASSLEN, readfrom) == NULL) {
-            r = -errno;
+        if ((r = read_line(confpassbuf, MAXPASSLEN, readfrom)) < 0) {
             warnp("Cannot read password");
             goto err2;
         }
@@ -116,10 +137,8 @@ portable_readpass(char ** passwd, const char * prompt,
 
 ok:
     n = strlen(passbuf);
-    if (n > 0) {
-        if (passbuf[n-1] == '\n')  passbuf[--n] = 0;
-        if (passbuf[n-1] == '\r')  passbuf[--n] = 0;
-    }
+    if (n > 0 && passbuf[n-1] == '\n')  passbuf[--n] = 0;
+    if (n > 0 && passbuf[n-1] == '\r')  passbuf[--n] = 0;
 
 
     if ((*passwd = strdup(passbuf)) == NULL) {
-- 
2.43.0


From c8f4cfed8b8f7dc3e14e3f1f7aba13c1b7e4d5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:07 +0000
Subject: [PATCH 45/64] fix: progbar: don't crash or miscount for narrow
 terminals and large values

---
 inc/utils/progbar.h |  1 -
 src/progbar.c       | 22 ++++++++++++++--------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/inc/utils/progbar.h b/inc/utils/progbar.h
index 1fbad23..6c6a2b1 100644
--- a/inc/utils/progbar.h
+++ b/inc/utils/progbar.h
@@ -30,7 +30,6 @@ struct progress {
     uint64_t total;
     uint32_t lines;
 
-    uint32_t step;
     uint32_t width;
 
     uint32_t flags;
diff --git a/src/progbar.c b/src/progbar.c
index 9545c45..4fc5d2b 100644
--- a/src/progbar.c
+++ b/src/progbar.c
@@ -39,17 +39,21 @@
 static void
 update_total_progress(char *buf, size_t bsize, progress *p)
 {
-    char fill[p->width*2];
-    char blank[p->width*2];
+    char fill[p->width+2];
+    char blank[p->width+2];
     char cur[32];
     char tot[32];
     char pref[64];
 
-    uint64_t pct = (100 * p->cur) / p->total;
+    uint64_t pct = 100;
 
-    if (pct > 100) pct = 100;
+    if (p->cur < p->total) {
+        // don't overflow for large values
+        pct = p->total > (UINT64_MAX / 100) ? p->cur / (p->total / 100 + 1)
+                                            : (100 * p->cur) / p->total;
+    }
 
-    uint64_t done = pct / p->step;
+    uint64_t done = (pct * p->width) / 100;
     uint64_t rem  = p->width - done;
 
     assert(done < (sizeof fill)-1);
@@ -106,14 +110,15 @@ progressbar_init(progress *p, int fd, uint64_t total, uint32_t flags)
     struct winsize w;
 
     // try to get the actual width, else punt.
-    if (ioctl(fd, TIOCGWINSZ, &w) != 0) w.ws_col = 80;
+    // (a terminal that doesn't know its size reports zero)
+    if (ioctl(fd, TIOCGWINSZ, &w) != 0 || w.ws_col == 0) w.ws_col = 80;
 
     p->total = total;
     p->fd    = fd;
     p->cur   = 0;
     p->flags = flags;
     p->width = w.ws_col > 50 ? 50 : w.ws_col / 2;
-    p->step  = 100 / p->width;
+    if (p->width == 0) p->width = 1;
 
     return 0;
 }
@@ -127,7 +132,8 @@ progressbar_update(progress *p, uint64_t incr)
 
     if (p->fd < 0) return;
 
-    p->cur += incr;
+    // saturate instead of wrapping around
+    p->cur = incr > UINT64_MAX - p->cur ? UINT64_MAX : p->cur + incr;
 
     if (p->total > 0) {
         update_total_progress(buf, sizeof buf, p);
-- 
2.43.0


From a83292254eb3f760b3ac81b3d157953adfef0d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:10 +0000
Subject: [PATCH 46/64] fix: daemonize: report failures, leave no extra
 descriptors open

---
 src/daemon.c | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index c7062ef..0f9f241 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -27,6 +27,26 @@
 
 #include "syserror.h"
 
+/*
+ * Make 'fd' refer to the null device; leave no other descriptor behind.
+ */
+static int
+nullify(int fd, int mode)
+{
+    int n = open("/dev/null", mode);
+
+    if (n < 0)
+        return -geterrno();
+
+    if (n != fd) {
+        int r = dup2(n, fd) < 0 ? -geterrno() : 0;
+
+        close(n);
+        return r;
+    }
+    return 0;
+}
+
 
 int
 daemonize(const char* pwd)
@@ -49,16 +69,16 @@ daemonize(const char* pwd)
     if (!pwd)
         pwd = "/tmp";
 
-    chdir(pwd);
-    umask(022);
+    if (chdir(pwd) < 0)
+        return -geterrno();
 
-    int fd0 = open("/dev/null", O_RDONLY);
-    int fd1 = open("/dev/null", O_WRONLY);
-    int fd2 = open("/dev/null", O_WRONLY);
+    umask(022);
 
-    dup2(fd0, 0);
-    dup2(fd1, 1);
-    dup2(fd2, 2);
+    int r;
+    if ((r = nullify(0, O_RDONLY)) < 0 ||
+        (r = nullify(1, O_WRONLY)) < 0 ||
+        (r = nullify(2, O_WRONLY)) < 0)
+        return r;
 
     return 0;
 }
-- 
2.43.0


From e160e8f340a905a55774dd23e7884a96980b6322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 47/64] fix: resolver: report why listing or lookup failed,
 leak nothing, respect buffer and name sizes

---
 src/c_resolve.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/c_resolve.c b/src/c_resolve.c
index a406304..fecdfc4 100644
--- a/src/c_resolve.c
+++ b/src/c_resolve.c
@@ -113,8 +113,9 @@ is_ifname(const char* name)
         struct ifreq ifr;
         memset(&ifr, 0, sizeof ifr);
 
-        strcopy(ifr.ifr_name, IFNAMSIZ, name);
-        if (ioctl(fd, SIOCGIFMTU, &ifr) == 0)
+        // a name that doesn't fit can't be an interface
+        if (strcopy(ifr.ifr_name, IFNAMSIZ, name) >= 0 &&
+            ioctl(fd, SIOCGIFMTU, &ifr) == 0)
             r = 1;
 
         close(fd);
@@ -139,6 +140,11 @@ sockaddr_to_string(char * buf, size_t bufsiz, const struct sockaddr * sa)
                          * me = m + 6;
             char *p = buf;
 
+            if (bufsiz < 18) {
+                errno = ENOSPC;
+                return 0;
+            }
+
             //hexdump("macdump", sa, sizeof(struct sockaddr_storage));
 
             for (; m < me; ++m) {
@@ -198,8 +204,11 @@ get_all_if_address(if_address_vect* addrv, unsigned int mask)
         mask = F_INET|F_INET6;
 
     r = getifaddrs(&ifa);
-    if (r < 0)
+    if (r < 0) {
+        r = -errno;
+        VECT_FINI(&av);
         return r;
+    }
 
     for (ifp = ifa; ifp; ifp = ifp->ifa_next) {
         iftmp t;
@@ -434,8 +443,15 @@ resolve_host_or_ifname(const char* name, if_addr_vect* addrv, unsigned int mask)
     hints.ai_socktype = SOCK_STREAM;
 
     n = getaddrinfo(name, 0, &hints, &ai);
-    if (n != 0)
-        return -errno;
+    switch (n) {
+        case 0:             break;
+
+        // errno is only meaningful here
+        case EAI_SYSTEM:    return errno ? -errno : -EIO;
+        case EAI_MEMORY:    return -ENOMEM;
+        case EAI_AGAIN:     return -EAGAIN;
+        default:            return -ENOENT;
+    }
 
     for (ptr = ai; ptr; ptr = ptr->ai_next) {
         struct sockaddr* s = ptr->ai_addr;
-- 
2.43.0


From 8c4ffd62b2af5786ad2d9cce9f9e84f652038123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:30 +0000
Subject: [PATCH 48/64] fix: vect, buf: pushing to a vector of capacity 0 never
 ended, sample used freed storage; make buf.h compile

---
 inc/fast/buf.h  | 2 +-
 inc/fast/vect.h | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/inc/fast/buf.h b/inc/fast/buf.h
index d55a019..02b40fc 100644
--- a/inc/fast/buf.h
+++ b/inc/fast/buf.h
@@ -76,7 +76,7 @@ fast_buf_reserve(fast_buf *b, size_t want)
     if (want >= b->cap) {
         do { b->cap *= 2; } while (b->cap < want);
 
-        b->buf = RENEW(uint8_t, b->buf, b->cap);
+        b->buf = RENEWA(uint8_t, b->buf, b->cap);
     }
 }
 
diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index 87e3ae8..0e3e0a0 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -113,6 +113,7 @@ extern "C" {
                         do {                                        \
                             size_t n_ = v_->cap;                    \
                             if  (want_ >= n_) {                     \
+                                if (n_ == 0) n_ = 8;                \
                                 do { n_ *= 2; } while (n_ < want_); \
                                 v_->arr = RENEWA(typeof(v_->arr[0]), v_->arr, n_);\
                                 memset(v_->arr+v_->size, 0, sizeof(v_->arr[0]) * (n_ - v_->cap));\
@@ -283,10 +284,10 @@ extern "C" {
                                         typeof(s) b_ = (s);                     \
                                         if (k_ <  b_->size) {                   \
                                             typeof(d) a_ = (d);                 \
-                                            typeof(a_->arr) x_ = a_->arr;       \
-                                            typeof(a_->arr) y_ = b_->arr;       \
                                             size_t i_;                          \
                                             __vect_RESERVE(a_, k_);             \
+                                            typeof(a_->arr) x_ = a_->arr;       \
+                                            typeof(a_->arr) y_ = b_->arr;       \
                                             a_->size = k_;                      \
                                             for (i_=0; i_ < k_; i_++)           \
                                                 x_[i_] = y_[i_];                \
-- 
2.43.0


From 230f0db6a5921226887d2ccb7d3216c5402aa033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:30 +0000
Subject: [PATCH 49/64] fix: cdb: find keys of equal hash, don't read outside
 the file if it is damaged

---
 src/cdb_read.c   | 28 ++++++++++++++++------------
 src/cdb_reader.h |  1 +
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/cdb_read.c b/src/cdb_read.c
index efada4e..66bb2d3 100644
--- a/src/cdb_read.c
+++ b/src/cdb_read.c
@@ -129,6 +129,7 @@ fail:
  * Returns:
  *      >= 0     key is found; # of bytes of value
  *      -ENOENT  key is not found
+ *      -EINVAL  the DB refers to data outside the file
  */
 ssize_t
 cdb_find(CDB* db, void** p_ret, const void* key, size_t klen)
@@ -142,28 +143,31 @@ cdb_find(CDB* db, void** p_ret, const void* key, size_t klen)
     uint32_t slot  = start;
 
      do {
-        uint32_t slotoff  = ii->off + (8 * slot);
+        uint64_t slotoff  = ii->off + (8 * (uint64_t)slot);
+        if (slotoff + 8 > db->size) return -EINVAL;
+
         uint32_t slothash = __read32(db, slotoff);
-        uint32_t off      = __read32(db, slotoff+4);
+        uint64_t off      = __read32(db, slotoff+4);
 
         if (slothash == 0) break;
 
         // Now, check to see if the key matches
         if (slothash == h) {
+            if (off + 8 > db->size) return -EINVAL;
+
             uint32_t dklen = __read32(db, off);
             uint32_t dvlen = __read32(db, off+4);
 
-            if (dklen != klen) return -ENOENT;
-
             // Sanity check
-            assert((off+8+dklen+dvlen) <= db->size);
-        
-            // key + value is at off+8
-            if (0 != memcmp(key, db->mmap+off+8, klen)) return -ENOENT;
-
-            // Value is at off+8+dklen
-            *p_ret = db->mmap + off + 8 + dklen;
-            return dvlen;
+            if ((off + 8 + dklen + dvlen) > db->size) return -EINVAL;
+
+            // key + value is at off+8; a different key may have the
+            // same hash - so we keep looking.
+            if (dklen == klen && 0 == memcmp(key, db->mmap+off+8, klen)) {
+                // Value is at off+8+dklen
+                *p_ret = db->mmap + off + 8 + dklen;
+                return dvlen;
+            }
         }
 
         slot = (slot + 1) % ii->len;
diff --git a/src/cdb_reader.h b/src/cdb_reader.h
index f61c718..7594444 100644
--- a/src/cdb_reader.h
+++ b/src/cdb_reader.h
@@ -85,6 +85,7 @@ extern int cdb_read_init(CDB* db, const char* fname);
  * Returns:
  *      >= 0     key is found; # of bytes of value
  *      -ENOENT  key is not found
+ *      -EINVAL  the DB refers to data outside the file
  */
 extern ssize_t cdb_find(CDB* db, void** p_ret, const void* key, size_t klen);
 
-- 
2.43.0


From cd94cb08d01f797fb2f756199c7c143572d27de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:57 +0000
Subject: [PATCH 50/64] fix: ftw: a walk cut short by an error was reported as
 complete

---
 src/ftw.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ftw.c b/src/ftw.c
index 8e9412f..d7a2fd7 100644
--- a/src/ftw.c
+++ b/src/ftw.c
@@ -71,8 +71,10 @@ ftw(const char *path, int (*fn)(const char *, const struct stat *, int),
 			break;
 		case FTS_DC:
 			errno = ELOOP;
-			/* FALLTHROUGH */
+			error = -1;
+			goto done;
 		default:
+			errno = cur->fts_errno;
 			error = -1;
 			goto done;
 		}
@@ -80,6 +82,9 @@ ftw(const char *path, int (*fn)(const char *, const struct stat *, int),
 		if (error != 0)
 			break;
 	}
+	/* fts_read() sets errno to 0 at the end of a complete walk */
+	if (!cur && errno != 0)
+		error = -1;
 done:
 	sverrno = errno;
 	if (fts_close(ftsp) != 0 && error == 0)
-- 
2.43.0


From f598aacad93eeb8e0bcd70e12cef96197b338b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:53 +0000
Subject: [PATCH 51/64] fix: llist, queue: make list_replace_init() and friends
 and FQ_DYN_INIT() compile

---
 inc/fast/llist.h | 10 +++++-----
 inc/fast/queue.h |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/inc/fast/llist.h b/inc/fast/llist.h
index 2027868..ae2c5aa 100644
--- a/inc/fast/llist.h
+++ b/inc/fast/llist.h
@@ -164,7 +164,7 @@ static inline void list_replace_init(struct list_head *old,
                      struct list_head *newl)
 {
     list_replace(old, newl);
-    INIT_LIST_HEAD(old);
+    list_init(old);
 }
 
 /**
@@ -174,7 +174,7 @@ static inline void list_replace_init(struct list_head *old,
 static inline void list_del_init(struct list_head *entry)
 {
     __list_del_entry(entry);
-    INIT_LIST_HEAD(entry);
+    list_init(entry);
 }
 
 /**
@@ -297,7 +297,7 @@ static inline void list_cut_position(struct list_head *list,
         (head->next != entry && head != entry))
         return;
     if (entry == head)
-        INIT_LIST_HEAD(list);
+        list_init(list);
     else
         __list_cut_position(list, head, entry);
 }
@@ -352,7 +352,7 @@ static inline void list_splice_init(struct list_head *list,
 {
     if (!list_empty(list)) {
         __list_splice(list, head, head->next);
-        INIT_LIST_HEAD(list);
+        list_init(list);
     }
 }
 
@@ -369,7 +369,7 @@ static inline void list_splice_tail_init(struct list_head *list,
 {
     if (!list_empty(list)) {
         __list_splice(list, head->prev, head);
-        INIT_LIST_HEAD(list);
+        list_init(list);
     }
 }
 
diff --git a/inc/fast/queue.h b/inc/fast/queue.h
index 0c33251..68a6a05 100644
--- a/inc/fast/queue.h
+++ b/inc/fast/queue.h
@@ -122,7 +122,7 @@ typedef struct __fast_queue __fast_queue;
                                 __fast_queue * _q = &(q_)->q;  \
                                 _q->rd = _q->wr = 0;    \
                                 _q->sz = sz_;               \
-                                (q_)->elem = NEWZA(__qetype(q_), sz_);\
+                                (q_)->elem = NEWZA(__qetyp(q_), sz_);\
                             } while (0)
 
 
-- 
2.43.0


From 92ab9c4ed8eff3c339e40dcb7c8fab7dba7578af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 52/64] fix: minheap: removing an element broke the order or
 accessed memory outside the heap

---
 inc/utils/minheap.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/inc/utils/minheap.h b/inc/utils/minheap.h
index 380be13..cd32359 100644
--- a/inc/utils/minheap.h
+++ b/inc/utils/minheap.h
@@ -135,10 +135,16 @@ bool minheap < Elem, Comp >::remove (int pos, Elem & it)
 
     swap (Heap, pos, --n);         // Swap with last value
 
-    while ((pos != 0) && (Comp::lt (Heap[pos], Heap[parent (pos)])))
-        swap (Heap, pos, parent (pos));      // Push up if large key
+    if (pos < n)             // else we removed the last one
+    {
+        while ((pos != 0) && (Comp::lt (Heap[pos], Heap[parent (pos)])))
+        {
+            swap (Heap, pos, parent (pos));      // Push up if small key
+            pos = parent (pos);
+        }
 
-    siftdown (pos);           // Push down if small key
+        siftdown (pos);           // Push down if large key
+    }
 
     it = Heap[n];
 
-- 
2.43.0


From fdce70c1836c82cdaf60acb0d48053997e1c29d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 53/64] fix: bitset: report allocation failure

---
 inc/fast/bitset.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/inc/fast/bitset.h b/inc/fast/bitset.h
index 4e4895f..8df3437 100644
--- a/inc/fast/bitset.h
+++ b/inc/fast/bitset.h
@@ -46,6 +46,7 @@ typedef struct bitset bitset;
 
 /*
  * Create a new bitset and return a pointer to it.
+ * Return 0 if there is no memory.
  */
 static inline bitset*
 bitset_new(size_t n)
@@ -55,6 +56,8 @@ bitset_new(size_t n)
     void*    p = NEWZA(uint8_t, (sizeof(bitset) + (m * 8)));
     bitset*  b = (bitset *)p;
 
+    if (!b) return 0;
+
     b->n = m;
     return b;
 }
@@ -106,7 +109,7 @@ bitset_copy(bitset *a, bitset *b)
 
 /*
  * Duplicate bitset 'a', copy its contents to a newly created
- * instance and return it.
+ * instance and return it. Return 0 if there is no memory.
  */
 static inline bitset*
 bitset_dup(bitset *a)
@@ -114,6 +117,8 @@ bitset_dup(bitset *a)
     void   *p = NEWZA(uint8_t, sizeof(bitset) + (8 * a->n));
     bitset *b = (bitset*)p;
 
+    if (!b) return 0;
+
     b->n = a->n;
     memcpy(b->w, a->w, 8 * a->n);
     return b;
-- 
2.43.0


From 1eb19e9e84a55690553b07e01e7cbefdb1d1fcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:03 +0000
Subject: [PATCH 54/64] fix: gstring: report exhausted memory and read errors,
 keep lengths right, stay within the buffer; escapes that cannot be undone

---
 src/bits.h        |   4 +-
 src/escape.c      |  57 +++++++++++++++-----------
 src/gstring.c     | 100 ++++++++++++++++++++++++++++++++++------------
 src/gstring_var.c |  21 ++++++----
 src/unescape.c    |   4 +-
 5 files changed, 126 insertions(+), 60 deletions(-)

diff --git a/src/bits.h b/src/bits.h
index 094c722..e69fb17 100644
--- a/src/bits.h
+++ b/src/bits.h
@@ -33,8 +33,8 @@ extern "C" {
 #define xword          uint32_t
 #define WORDBITS      (8 * sizeof(xword))
 #define BITVECTSIZE   (256 / WORDBITS)
-#define _word(c)      (((xword)(c)) / WORDBITS)
-#define _bitp(c)      (1 << (((xword)(c)) % WORDBITS))
+#define _word(c)      (((xword)(uint8_t)(c)) / WORDBITS)
+#define _bitp(c)      (((xword)1) << (((xword)(uint8_t)(c)) % WORDBITS))
 
 struct delim {
     xword    v[BITVECTSIZE];
diff --git a/src/escape.c b/src/escape.c
index ebc2993..1df4671 100644
--- a/src/escape.c
+++ b/src/escape.c
@@ -15,6 +15,7 @@
  */
 
 #include <stdio.h>
+#include <string.h>
 #include <assert.h>
 #include "utils/gstring.h"
 #include "utils/new.h"
@@ -26,6 +27,8 @@
  * 'escset', escape it with 'esc_char'.
  *
  * Note: 'esc_char' can't be in 'escset'.
+ *
+ * Return 0 if memory is exhausted; the string is unchanged then.
  */
 gstr *
 gstr_escape(gstr *g, const char *escset, int esc_char)
@@ -41,55 +44,63 @@ gstr_escape(gstr *g, const char *escset, int esc_char)
 
     assert(!__is_delim(&d, esc_char));
 
-    // we stash the src pointer while we walk it.
-    const char *src = g->str;
-    const char *ptr = src;
+    // we build the escaped string on the side
+    const char *ptr = g->str;
+    gstr e;
+    int ok = 1;
 
-    // And re-initialize the pointer
-    g->str = NEWZA(char, g->cap);
-    g->len = 0;
+    if (!gstr_init(&e, g->len)) return 0;
 
-    assert(g->str);
+#define put(ch)    do { if (gstr_append_ch(&e, ch) < 0) ok = 0; } while (0)
 
-    while ((c = *ptr++)) {
+    while (ok && (c = *ptr++)) {
         if (c == esc_char) {
-            gstr_append_ch(g, c);
-            gstr_append_ch(g, c);
+            put(c);
+            put(c);
         } else if (__is_delim(&d, c)) {
-            gstr_append_ch(g, esc_char);
+            put(esc_char);
             switch (c) {
                 case '\a':
-                    gstr_append_ch(g, 'a');
+                    put('a');
                     break;
                 case '\b':
-                    gstr_append_ch(g, 'b');
+                    put('b');
                     break;
                 case '\f':
-                    gstr_append_ch(g, 'f');
+                    put('f');
                     break;
                 case '\n':
-                    gstr_append_ch(g, 'n');
+                    put('n');
                     break;
                 case '\r':
-                    gstr_append_ch(g, 'r');
+                    put('r');
                     break;
                 case '\t':
-                    gstr_append_ch(g, 't');
+                    put('t');
                     break;
                 case '\v':
-                    gstr_append_ch(g, 'v');
+                    put('v');
                     break;
                 default:
-                    snprintf(buf, sizeof buf, "%c0%3.3o", esc_char, c);
-                    gstr_append_str(g, buf);
+                    snprintf(buf, sizeof buf, "0%3.3o", 0xff & c);
+                    for (const char *b = buf; *b; b++) put(*b);
+                    break;
             }
         } else {
-            gstr_append_ch(g, c);
+            put(c);
         }
     }
 
-    // And now free the old ptr
-    DEL(src);
+#undef put
+
+    if (!ok) {
+        gstr_fini(&e);
+        return 0;
+    }
+
+    // And now replace the old string
+    gstr_fini(g);
+    *g = e;
     return g;
 }
 /* EOF */
diff --git a/src/gstring.c b/src/gstring.c
index 123a43c..1831df3 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -26,20 +26,26 @@
 #include "bits.h"
 
 /* Grow string `g' by `len' bytes -- if necessary. */
-static gstr* grow_if(gstr * g, int len);
+static gstr* grow_if(gstr * g, size_t len);
 
 
-/* Grow the gstr by additional 'len' bytes -- if necessary. */
+/*
+ * Grow the gstr by additional 'len' bytes -- if necessary.
+ *
+ * Return 0 if memory is exhausted; the string is unchanged then.
+ */
 static gstr*
-grow_if(gstr * g, int len)
+grow_if(gstr * g, size_t len)
 {
     size_t want = g->len + len + 1; // trailing null
 
     if (g->cap < want) {
-        want   = NEXTPOW2(want);
-        g->str = RENEWA(char, g->str, want);
+        want      = NEXTPOW2(want);
+        char *str = RENEWA(char, g->str, want);
+        if (!str) return 0;
+
+        g->str = str;
         g->cap = want;
-        assert(g->str);
     }
 
     return g;
@@ -51,16 +57,18 @@ __init_gstr(gstr *g, size_t n, const char *src)
 {
     if (n == 0) n = 63;
 
+    g->len = 0;
     g->cap = NEXTPOW2(n+1);
     g->str = NEWZA(char, g->cap);
-    assert(g->str);
+    if (!g->str) {
+        g->cap = 0;
+        return 0;
+    }
 
     if (src) {
         n = strlen(src);
         memcpy(g->str, src, n+1);
         g->len = n;
-    } else {
-        g->len = 0;
     }
     return g;
 }
@@ -120,9 +128,16 @@ gstr_fini(gstr *g)
 static size_t
 __append(gstr* g, const char* str, size_t len)
 {
-    g = grow_if(g, len+1);
-    memcpy(g->str + g->len, str, len+1);
+    // 'str' can be a part of 'g' itself; and growing moves it.
+    int    self = str >= g->str && str <= g->str + g->len;
+    size_t off  = self ? str - g->str : 0;
+
+    if (!grow_if(g, len+1)) return -1;
+
+    if (self) str = g->str + off;
+    memmove(g->str + g->len, str, len);
     g->len += len;
+    g->str[g->len] = 0;
     return g->len;
 }
 
@@ -161,7 +176,7 @@ gstr_append_ch(gstr* g, int ch)
 {
     assert(g);
 
-    g = grow_if(g, 1);
+    if (!grow_if(g, 1)) return -1;
 
     g->str[g->len++] = ch;
     g->str[g->len]   = 0;
@@ -242,8 +257,8 @@ gstr_chop_if(gstr * g, const char * s)
 
 /* Copy 'src' to 'dest'.
  * Returns:
- *   On success: Number of bytes copied
- *   On failure: -1 if no memory
+ *   On success: dest
+ *   On failure: NULL if no memory; 'dest' is unchanged.
  */
 gstr*
 gstr_copy(gstr * dest, const gstr* src)
@@ -254,10 +269,10 @@ gstr_copy(gstr * dest, const gstr* src)
     assert(src);
 
     len = src->len;
-    dest->len = 0;
+    if (len > dest->len && !grow_if(dest, len - dest->len)) return 0;
 
-    dest = grow_if(dest, len+1);
-    memcpy(dest->str, src->str, len+1);
+    memmove(dest->str, src->str, len+1);
+    dest->len = len;
     return dest;
 }
 
@@ -287,6 +302,32 @@ size_t
 }
 
 
+/* Return the capacity of gstr `g'. */
+size_t
+(gstr_cap)(gstr * g)
+{
+    return g ? g->cap : 0;
+}
+
+
+/*
+ * Unbind the underlying string from gstr `g' and return it. The
+ * caller must free it.
+ */
+char *
+gstr_finalize(gstr * g)
+{
+    assert(g);
+
+    char *s = g->str;
+
+    g->str = 0;
+    g->len = 0;
+    g->cap = 0;
+    return s;
+}
+
+
 /* Remove leading and trailing white spaces from a string. */
 gstr*
 gstr_trim(gstr * g)
@@ -349,10 +390,11 @@ gstr_unquote(gstr* g)
     int q = g->str[0];
     if (q != '"' && q != '\'')  return 0;
 
-    if (g->str[g->len-1] != q) return -1;
+    if (g->len < 2 || g->str[g->len-1] != q) return -1;
 
-    g->str[--g->len] = 0;
+    g->len -= 2;
     memmove(g->str, g->str+1, g->len);
+    g->str[g->len] = 0;
     return q;
 }
 
@@ -386,25 +428,33 @@ gstr_readline(gstr * g, FILE * fp, const char * tok)
     str = g->str;
     len = g->len = 0;
     while ((c = fgetc(fp)) != EOF) {
-        if (len >= g->cap) {
+        if (__is_delim(&d, c))
+            break;
+
+        // always have room for the trailing nul
+        if (len + 1 >= g->cap) {
             size_t newcap = g->cap * 2;
             str = (char *) realloc(g->str, newcap);
-            if (!str)
+            if (!str) {
+                ungetc(c, fp);
+                g->str[len] = 0;
+                g->len      = len;
                 return -ENOMEM;
+            }
 
             g->str = str;
             g->cap = newcap;
         }
 
-        if (__is_delim(&d, c))
-            break;
-
         // else, store it and move on
         str[len++] = c;
     }
     str[len] = 0;
+    g->len   = len;
+
+    if (c == EOF && ferror(fp)) return -1;
 
-    return g->len = len;
+    return len;
 }
 
 
diff --git a/src/gstring_var.c b/src/gstring_var.c
index 94ce858..611648f 100644
--- a/src/gstring_var.c
+++ b/src/gstring_var.c
@@ -27,7 +27,7 @@
  *     $VAR
  *     ${VAR}
  *
- * Return number of chars consumed.
+ * Return number of chars consumed, -ENOMEM if memory is exhausted.
  */
 static int
 getvar(gstr *v, char * s)
@@ -48,7 +48,7 @@ getvar(gstr *v, char * s)
         // We know that we have atleast two chars after the '$'
         for (i = 1; (c = s[i]); i++) {
             if (c == '}') return i+1;
-            gstr_append_ch(v, c);
+            if (gstr_append_ch(v, c) < 0) return -ENOMEM;
         }
 
         // didn't find a close brace. We skip the entire var
@@ -69,7 +69,7 @@ getvar(gstr *v, char * s)
                 if (!isalnum(c)) goto out;
                 break;
         }
-        gstr_append_ch(v, c);
+        if (gstr_append_ch(v, c) < 0) return -ENOMEM;
     }
 
 out:
@@ -84,6 +84,7 @@ out:
 //    0 on success
 //    -ENOENT if variable can't be found
 //    -EINVAL if string is malformed
+//    -ENOMEM if memory is exhausted
 int
 gstr_varexp(gstr* g0, const char * (*find)(void *, const char* key), void* cookie)
 {
@@ -91,18 +92,21 @@ gstr_varexp(gstr* g0, const char * (*find)(void *, const char* key), void* cooki
     int r    = 0;
     gstr g, v;
 
-    gstr_init(&g, gstr_len(g0));
-    gstr_init(&v, 64);
-
     int c = 0,
         prev;
 
+    v.str = 0;
+    if (!gstr_init(&g, gstr_len(g0)) || !gstr_init(&v, 64)) {
+        r = -ENOMEM;
+        goto fail;
+    }
+
     for (prev = c; (c = *s); prev = c, s++) {
         int n;
         const char* z;
 
         if (c != '$') {
-            gstr_append_ch(&g, c);
+            if (gstr_append_ch(&g, c) < 0) { r = -ENOMEM; goto fail; }
             continue;
         }
 
@@ -114,13 +118,14 @@ gstr_varexp(gstr* g0, const char * (*find)(void *, const char* key), void* cooki
 
         // This could be a var. Expand it.
         n = getvar(&v, s+1);
+        if (n < 0) { r = n; goto fail; }
         if (gstr_len(&v) == 0) { r = -EINVAL; goto fail; }
 
         // var is in 'v.str'. Look it up.
         z = (*find)(cookie, v.str);
         if (!z) { r = -ENOENT; goto fail; }
 
-        gstr_append_str(&g, z);
+        if (gstr_append_str(&g, z) == (size_t)-1) { r = -ENOMEM; goto fail; }
         s += n;
     }
 
diff --git a/src/unescape.c b/src/unescape.c
index 1262574..e70b692 100644
--- a/src/unescape.c
+++ b/src/unescape.c
@@ -234,12 +234,12 @@ extract_hex(int *p_val, const char *ptr)
 
             case 'a': case 'b': case 'c':
             case 'd': case 'e': case 'f':
-                z = c - 'a';
+                z = 10 + c - 'a';
                 break;
 
             case 'A': case 'B': case 'C':
             case 'D': case 'E': case 'F':
-                z = c - 'A';
+                z = 10 + c - 'A';
                 break;
 
             case 0:
-- 
2.43.0


From 03a1da68c537d19928312eb838ce54aa65e4f9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:03 +0000
Subject: [PATCH 55/64] fix: pack: repeat counts of several digits, counted
 arrays of one element, floating point values, overflow of counts, malformed
 templates

---
 src/pack.c | 80 +++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 67 insertions(+), 13 deletions(-)

diff --git a/src/pack.c b/src/pack.c
index c7ced90..adf7cf8 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -31,7 +31,7 @@
  *       i, I:    signed, unsigned 32-bit integer
  *       l, L:    signed, unsigned 64-bit integer
  *       f:       32-bit IEEE float
- *       D:       64-bit IEEE float
+ *       d, D:    64-bit IEEE float
  *       x:       padding (adds/consumes 0x0 bytes) without
  *                consuming input args.
  *       z, Z:    null-terminated string
@@ -165,7 +165,7 @@ Unpack(uint8_t *buf, size_t bufsize, const char *fmt, ...)
 #define __len_prefix(c, fmt) ({\
                                 const size_t max = ~((size_t)0) / 10;       \
                                       size_t nn  = c - '0';                 \
-                                for (++fmt, c = *fmt; c; ++fmt) {           \
+                                for (c = *++fmt; c; c = *++fmt) {           \
                                     if (!isdigit(c)) break;                 \
                                     const size_t v = c - '0';               \
                                     if (nn > max ||                         \
@@ -175,10 +175,44 @@ Unpack(uint8_t *buf, size_t bufsize, const char *fmt, ...)
                                     nn *= 10;                               \
                                     nn += v;                                \
                                 }                                           \
+                                if (nn > UINT32_MAX) return -E2BIG;         \
+                                if (c == 0)          return -EINVAL;        \
                                 nn;                                         \
                             })
 
 
+// True if 'num' elements of 'size' bytes each fit in what is left
+static inline int
+__fits(const pdata *pd, size_t num, size_t size)
+{
+    return num <= (size_t)(pd->end - pd->ptr) / size;
+}
+
+// Packers take a single element by value; fetch it from an array.
+static void *
+__elem1(const void *arr, size_t size)
+{
+    uint64_t v = 0;
+
+    switch (size) {
+        case 1:  v = *(const uint8_t *)arr;  break;
+        case 2:  v = *(const uint16_t *)arr; break;
+        case 4:  v = *(const uint32_t *)arr; break;
+        default: v = *(const uint64_t *)arr; break;
+    }
+    return (void *)(ptrdiff_t)v;
+}
+
+// Fetch a single floating point argument; these are always passed
+// as double.
+static void *
+__float1(double d, size_t size)
+{
+    float f = d;
+
+    return size == sizeof f ? __elem1(&f, sizeof f) : __elem1(&d, sizeof d);
+}
+
 // internal pack function that operates on va_list
 static int
 pack(const char *fmt, pdata *pd, va_list ap)
@@ -222,7 +256,7 @@ pack(const char *fmt, pdata *pd, va_list ap)
              * actual entity.
              */
 
-            if ((pd->ptr + p->size) > pd->end)
+            if (!__fits(pd, 1, p->size))
                return -ENOSPC;
 
             c = p->pack(p, pd, 1, (void *)(ptrdiff_t)vnum);
@@ -261,7 +295,10 @@ pack(const char *fmt, pdata *pd, va_list ap)
 
         switch (c) {
             case 'x':
-                break;  // do NOT consume an arg!
+                // do NOT consume an arg!
+                if (have_vnum)     num = vnum;
+                else if (num == 0) num = 1;
+                break;
 
             case 'z':   // fallthrough
             case 'Z':
@@ -271,15 +308,22 @@ pack(const char *fmt, pdata *pd, va_list ap)
                     if (0 == num) goto next;
                 } else {
                     // default is to copy everything include trailing '\0'
-                    if (num == 0 && arg) num = 1+strlen((const char*)arg);
+                    if (num == 0) num = 1 + (arg ? strlen((const char*)arg) : 0);
                 }
                 break;
 
             default:
+                if (!have_vnum && num <= 1 && (c == 'f' || c == 'd' || c == 'D')) {
+                    arg = __float1(va_arg(ap, double), p->size);
+                    num = 1;
+                    break;
+                }
+
                 arg = va_arg(ap, void *);
                 if (have_vnum) {
                     num = vnum;
                     if (0 == num) goto next;
+                    if (1 == num) arg = __elem1(arg, p->size);
                 } else {
                     // All other types need _atleast_ one arg.
                     // zero-length strings with no VLA will get an
@@ -290,7 +334,7 @@ pack(const char *fmt, pdata *pd, va_list ap)
 
         // pad and strings get extra validations. Most other types
         // are easy to validate.
-        if (p->size > 0 && ((pd->ptr + (num * p->size)) > pd->end))
+        if (p->size > 0 && !__fits(pd, num, p->size))
            return -ENOSPC;
 
         c = p->pack(p, pd, num, arg);
@@ -301,6 +345,9 @@ next:
         vnum = 0;
     }
 
+    // missing type descriptor after '*'
+    if (have_vnum) return -EINVAL;
+
     return 0;
 }
 
@@ -341,7 +388,7 @@ unpack(const char *fmt, pdata *pd, va_list ap)
             uint32_t *pv = va_arg(ap, uint32_t*);
 
             if (!pv) return -EINVAL;
-            if ((pd->ptr + p->size) > pd->end) return -ENOSPC;
+            if (!__fits(pd, 1, p->size)) return -ENOSPC;
 
 
             c = p->unpack(p, pd, 1, pv, 0);
@@ -369,6 +416,8 @@ unpack(const char *fmt, pdata *pd, va_list ap)
         // '\0'
         switch (c) {
             case 'x':   // we don't consume an arg!
+                if (have_vnum)     num = vnum;
+                else if (num == 0) num = 1;
                 break;
 
             default:
@@ -389,7 +438,7 @@ unpack(const char *fmt, pdata *pd, va_list ap)
 
         // pad and strings get extra validations. Most other types
         // are easy to validate.
-        if (p->size > 0 && ((pd->ptr + (num * p->size)) > pd->end))
+        if (p->size > 0 && !__fits(pd, num, p->size))
            return -ENOSPC;
 
         c = p->unpack(p, pd, num, arg, have_vnum == 1);
@@ -621,6 +670,7 @@ be_i_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
         uint32_t **p_x = arg;
 
         x = NEWZA(uint32_t, num);
+        if (!x) return -ENOMEM;
         *p_x = x;
     }
 
@@ -731,7 +781,7 @@ x_pack(const packer *p, pdata *pd, size_t num, void *arg)
     USEARG(p);
     USEARG(arg);
 
-    if ((pd->ptr + num) > pd->end) return -EINVAL;
+    if (!__fits(pd, num, 1)) return -ENOSPC;
 
     memset(pd->ptr, 0, num);
     pd->ptr += num;
@@ -745,7 +795,7 @@ x_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
     USEARG(arg);
     USEARG(alloc);
 
-    if ((pd->ptr + num) > pd->end) return -EINVAL;
+    if (!__fits(pd, num, 1)) return -ENOSPC;
 
     pd->ptr += num;
     return num;
@@ -769,7 +819,7 @@ z_pack(const packer *p, pdata *pd, size_t n, void *arg)
     // we are _never_ sent zero sized requests
     assert(n > 0);
 
-    if ((pd->ptr + n) > pd->end) return -ENOSPC;
+    if (!__fits(pd, n, 1)) return -ENOSPC;
 
     if (s) {
         size_t m = strlen(s);
@@ -819,9 +869,9 @@ z_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
     if (num == 0) {
         // We encode the trailing '\0' for 'Z'
         // And it's an error to _not_ have a trailing '\0'
-        while (*s++) {
+        do {
             if (s == pd->end) return -EINVAL;
-        }
+        } while (*s++);
     } else {
         // Exact length for either "*" or "nnZ" formats
         const size_t max = pd->end - s;
@@ -859,6 +909,8 @@ z_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
 static const packer*
 getpacker(int c, const packer* pp)
 {
+    if (c <= 0 || c > 'z') return 0;
+
     const packer *p = &pp[c];
 
     return p->typ == c ? p : 0;
@@ -902,6 +954,7 @@ static const packer le_packers[] = {
     _x('L', 8, le_l_pack, le_l_unpack),
 
     _x('f', 4, le_i_pack, le_i_unpack),
+    _x('d', 8, le_l_pack, le_l_unpack),
     _x('D', 8, le_l_pack, le_l_unpack),
 
     _x(0, 0, 0, 0)  // always in the end
@@ -926,6 +979,7 @@ static const packer be_packers[] = {
     _x('L', 8, be_l_pack, be_l_unpack),
 
     _x('f', 4, be_i_pack, be_i_unpack),
+    _x('d', 8, be_l_pack, be_l_unpack),
     _x('D', 8, be_l_pack, be_l_unpack),
 
     _x(0, 0, 0, 0)  // always in the end
-- 
2.43.0


From 136ccc42ef52bf1eca6c489387813b090c3dafad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:52 +0000
Subject: [PATCH 56/64] fix: error: truncated, empty and unformattable messages
 yield one whole line

---
 src/error.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/error.c b/src/error.c
index c0d7174..f50df96 100644
--- a/src/error.c
+++ b/src/error.c
@@ -87,15 +87,18 @@ error(int status, int err, const char *fmt, ...)
     va_start(ap, fmt);
 
     int n = vsnprintf(buf, max, fmt, ap);
-    if (n >= max || n < 0) {
-        // output truncated. Ensure we have a trailing zero!
-        buf[max] = 0;
-        n = max;
+    if (n < 0) {
+        // can't be formatted
+        n = 0;
+        buf[0] = 0;
+    } else if (n >= max) {
+        // output truncated; buf[max-1] has the trailing zero
+        n = max - 1;
     }
     va_end(ap);
 
     // erase the trailing \n; we'll add it back later.
-    if (buf[n-1] == '\n') buf[--n] = 0;
+    if (n > 0 && buf[n-1] == '\n') buf[--n] = 0;
 
     fputs(buf, stderr);
     if (err > 0) fprintf(stderr, ": %s [%d]", errstr, err);
@@ -111,16 +114,19 @@ static void
 vprint(FILE *fp, const char *fmt, va_list ap)
 {
     char buf[2048];
-    size_t max = (sizeof buf) - 2; // for \n and \0
+    int max = (sizeof buf) - 2; // for \n and \0
 
     int n = vsnprintf(buf, max, fmt, ap);
-    if (n < 0 || ((size_t)n) >= max) {
-        // output truncated. Ensure we have a trailing zero!
-        buf[max] = 0;
-        n = max;
+    if (n < 0) {
+        // can't be formatted
+        n = 0;
+        buf[0] = 0;
+    } else if (n >= max) {
+        // output truncated; buf[max-1] has the trailing zero
+        n = max - 1;
     }
 
-    if (buf[n-1] != '\n') {
+    if (n == 0 || buf[n-1] != '\n') {
         buf[n]   = '\n';
         buf[n+1] = '\0';
     }
-- 
2.43.0


From a12baf40efd6b308b2d5ee137665ee6e973fabbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:52 +0000
Subject: [PATCH 57/64] fix: prng: splitmix64 precedence, xorshift64* shift,
 never start unseeded or with state 0

---
 inc/utils/splitmix.h | 14 +++++++++++---
 src/prng/xorshift.c  |  9 +++++++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/inc/utils/splitmix.h b/inc/utils/splitmix.h
index abca409..38eb12c 100644
--- a/inc/utils/splitmix.h
+++ b/inc/utils/splitmix.h
@@ -25,6 +25,7 @@ extern "C" {
 #endif /* __cplusplus */
 
 #include <stdint.h>
+#include <stdlib.h>
 #include <sys/random.h>
 
 /*
@@ -36,8 +37,8 @@ splitmix64(uint64_t *x)
     *x += 0x9E3779B97F4A7C15;
 
     uint64_t z = *x;
-    z = (z ^ (z >> 30) * 0xBF58476D1CE4E5B9);
-    z = (z ^ (z >> 27) * 0x94D049BB133111EB);
+    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9;
+    z = (z ^ (z >> 27)) * 0x94D049BB133111EB;
 
     return z ^ (z >> 31);
 }
@@ -57,7 +58,14 @@ static uint64_t
 makeseed()
 {
     uint64_t x;
-    getentropy(&x, sizeof x);
+
+    // There is no way to report failure - and we can't return a
+    // seed that isn't random. Some generators can't be seeded with 0.
+    do {
+        if (getentropy(&x, sizeof x) != 0)
+            abort();
+    } while (x == 0);
+
     return x;
 }
 
diff --git a/src/prng/xorshift.c b/src/prng/xorshift.c
index 952891a..0836e4a 100644
--- a/src/prng/xorshift.c
+++ b/src/prng/xorshift.c
@@ -28,7 +28,12 @@
 void
 xs64star_init(xs64star* s, uint64_t seed)
 {
-    s->v = seed ? splitmix64(&seed) : makeseed();
+    if (!seed) seed = makeseed();
+
+    // the generator never leaves the state 0
+    do {
+        s->v = splitmix64(&seed);
+    } while (s->v == 0);
 }
 
 
@@ -37,7 +42,7 @@ xs64star_u64(xs64star* s)
 {
     s->v ^= s->v >> 12;
     s->v ^= s->v << 25;
-    s->v ^= s->v << 27;
+    s->v ^= s->v >> 27;
     return s->v * 2685821657736338717uLL;
 }
 
-- 
2.43.0


From d569b758ff66451aa6a2f435fb1409bc41e2d735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:52 +0000
Subject: [PATCH 58/64] fix: siphash24: hash fed in pieces equals the hash of
 the whole

---
 inc/utils/siphash.h      |  2 ++
 src/hashfunc/siphash24.c | 56 ++++++++++++++++++++++++++--------------
 2 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/inc/utils/siphash.h b/inc/utils/siphash.h
index 7905c10..1ec56d5 100644
--- a/inc/utils/siphash.h
+++ b/inc/utils/siphash.h
@@ -29,6 +29,8 @@ extern "C" {
 struct siphash24_state
 {
     uint64_t v0, v1, v2, v3;
+    uint64_t len;   // bytes seen so far
+    uint64_t tail;  // the last (len % 8) bytes - yet to be mixed in
 };
 typedef struct siphash24_state siphash24_state;
 
diff --git a/src/hashfunc/siphash24.c b/src/hashfunc/siphash24.c
index 7ebdeeb..eb5d8ee 100644
--- a/src/hashfunc/siphash24.c
+++ b/src/hashfunc/siphash24.c
@@ -48,6 +48,7 @@
 */
 
 #include <stdint.h>
+#include <string.h>
 #include "utils/siphash.h"
 
 #if defined(__BYTE_ORDER__) && defined(__ORDER_LITTLE_ENDIAN__) && \
@@ -166,46 +167,54 @@ siphash24_init(siphash24_state* st, const uint64_t* key)
     st->v1 = k1 ^ 0x646f72616e646f6dULL;
     st->v2 = k0 ^ 0x6c7967656e657261ULL;
     st->v3 = k1 ^ 0x7465646279746573ULL;
+
+    st->len  = 0;
+    st->tail = 0;
 }
 
 void
 siphash24_update(siphash24_state* st, const void* src, size_t src_sz)
 {
-    uint64_t b = ((uint64_t)src_sz) << 56;
-    const uint64_t *in = (uint64_t*)src;
+    const uint8_t *in = (const uint8_t*)src;
 
     uint64_t v0 = st->v0;
     uint64_t v1 = st->v1;
     uint64_t v2 = st->v2;
     uint64_t v3 = st->v3;
 
+    // bytes left over from the previous update
+    unsigned int n = st->len & 7;
+    uint64_t t     = st->tail;
+
+    st->len += src_sz;
+
+    while (src_sz > 0 && n > 0) {
+        t |= ((uint64_t)*in) << (8 * n);
+        in++; src_sz--;
+        if (++n == 8) {
+            v3 ^= t;
+            DOUBLE_ROUND(v0,v1,v2,v3);
+            v0 ^= t;
+            n = 0;
+            t = 0;
+        }
+    }
 
     while (src_sz >= 8)
     {
-        uint64_t mi = _le64toh(*in);
-        in += 1; src_sz -= 8;
+        uint64_t mi;
+        memcpy(&mi, in, sizeof mi);
+        mi = _le64toh(mi);
+        in += 8; src_sz -= 8;
         v3 ^= mi;
         DOUBLE_ROUND(v0,v1,v2,v3);
         v0 ^= mi;
     }
 
-    uint64_t t = 0; uint8_t *pt = (uint8_t *)&t; uint8_t *m = (uint8_t *)in;
-    switch (src_sz)
-    {
-        case 7: pt[6] = m[6]; // fallthrough
-        case 6: pt[5] = m[5]; // fallthrough
-        case 5: pt[4] = m[4]; // fallthrough
-        case 4: *((uint32_t*)&pt[0]) = *((uint32_t*)&m[0]); break;
-        case 3: pt[2] = m[2]; // fallthrough
-        case 2: pt[1] = m[1]; // fallthrough
-        case 1: pt[0] = m[0]; // fallthrough
-    }
-    b |= _le64toh(t);
-
-    v3 ^= b;
-    DOUBLE_ROUND(v0,v1,v2,v3);
-    v0 ^= b;
+    for (; src_sz > 0; src_sz--, in++, n++)
+        t |= ((uint64_t)*in) << (8 * n);
 
+    st->tail = t;
     st->v0 = v0;
     st->v1 = v1;
     st->v2 = v2;
@@ -221,6 +230,13 @@ siphash24_finish(siphash24_state* st)
     uint64_t v2 = st->v2;
     uint64_t v3 = st->v3;
 
+    // the final word: leftover bytes and the total length
+    uint64_t b = st->tail | (st->len << 56);
+
+    v3 ^= b;
+    DOUBLE_ROUND(v0,v1,v2,v3);
+    v0 ^= b;
+
     v2 ^= 0xff;
     DOUBLE_ROUND(v0,v1,v2,v3);
     DOUBLE_ROUND(v0,v1,v2,v3);
-- 
2.43.0


From c6b8305387c9f586338acfedc51bcb336174b51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:52 +0000
Subject: [PATCH 59/64] fix: fhexdump: report write errors

---
 src/hexdump.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hexdump.c b/src/hexdump.c
index c39354f..c3dd83d 100644
--- a/src/hexdump.c
+++ b/src/hexdump.c
@@ -62,9 +62,11 @@ static int
 __fp_writer(void *ctx, const char *buf, size_t n)
 {
     FILE *fp = ctx;
+
+    errno = 0;
     size_t m = fwrite(buf, n, 1, fp);
-    if (m != 1) {
-        return feof(fp) ? -EOF : ferror(fp);
+    if (m != 1 || ferror(fp)) {
+        return errno > 0 ? -errno : -EIO;
     }
     return 0;
 }
-- 
2.43.0


From eaecdaad7012a8ad1e51edee6160c5b3452a815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:52 +0000
Subject: [PATCH 60/64] fix: strsplit: report lack of memory, don't grow an
 array given with no slots

---
 src/strsplit.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/strsplit.c b/src/strsplit.c
index 3cd3137..2bff851 100644
--- a/src/strsplit.c
+++ b/src/strsplit.c
@@ -32,7 +32,8 @@ struct stra
 {
     unsigned char ** arr;
     int size;
-    int cap; /* setting to -1 indicates that this is not growable */
+    int cap;
+    int growable;
 };
 typedef struct stra stra;
 
@@ -44,27 +45,29 @@ static int __split_sqz(stra *strv, char * str, const delim *delim);
 
 
 /*
- * Initialize a new str vector.
+ * Initialize a new str vector; return true if successful, false
+ * otherwise.
  */
-static void
+static int
 _stra_init(stra * a)
 {
     a->size = 0;
     a->cap  = 16;
+    a->growable = 1;
     a->arr  = (unsigned char **) calloc(a->cap, sizeof (unsigned char *));
+    return a->arr != 0;
 }
 
 
 /*
  * Initialize from a fixed size vector 'v' of 'n' slots.
- *
- * We use negative capacity to represent fixed sizes.
  */
 static inline void
 _stra_init_from(stra* a, char**v, int n)
 {
     a->size = 0;
-    a->cap  = -n;
+    a->cap  = n;
+    a->growable = 0;
     a->arr  = (unsigned char**)v;
 }
 
@@ -72,7 +75,7 @@ _stra_init_from(stra* a, char**v, int n)
 static inline void
 _stra_fini(stra* a)
 {
-    if (a->arr && a->cap > 0)
+    if (a->arr && a->growable)
         free(a->arr);
 
     a->size = a->cap = 0;
@@ -91,7 +94,7 @@ _stra_resize(stra * a)
 
     newarr  = (unsigned char **) realloc(a->arr,
                                  newcap * sizeof (unsigned char *));
-    assert(newarr);
+    if (!newarr) return 0;
 
     memset(newarr + a->cap, 0, a->cap * sizeof (unsigned char *));
     a->cap = newcap;
@@ -104,15 +107,15 @@ _stra_resize(stra * a)
  * Return True if 'a' can hold 'n' more elements
  *
  * Don't resize if one of two conditions hold:
- *  - capacity is pinned (a->cap < 0)
+ *  - capacity is pinned (a->growable is 0)
  *  - the size is big enough to accommodate the new request
  */
 static inline int
 _stra_resize_if(stra* a, int n)
 {
     int want = a->size + n;
-    if (a->cap < 0)
-        return want <= -a->cap;
+    if (!a->growable)
+        return want <= a->cap;
 
     if (want >= a->cap)
         return _stra_resize(a);
@@ -167,7 +170,8 @@ strsplit(int *strv_size, char * str, const char * tok, int sqz_consec)
 {
     stra a;
 
-    _stra_init(&a);
+    if (!_stra_init(&a))
+        return 0;
 
     if (!__split_common(&a, str, tok, sqz_consec)) {
         _stra_fini(&a);
-- 
2.43.0


From 81207643eec1cc328bbbf6bd7b38dcb19019f241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:40 +0000
Subject: [PATCH 61/64] fix: give the block back when an object's constructor
 throws in Mempool::Alloc

---
 inc/utils/mempool.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/inc/utils/mempool.h b/inc/utils/mempool.h
index 66b8bc8..23853be 100644
--- a/inc/utils/mempool.h
+++ b/inc/utils/mempool.h
@@ -310,7 +310,13 @@ public:
         void *r = mempool_alloc(&m_pool);
         if (!r) throw std::bad_alloc();
 
-        return new(r) T(std::forward<Args>(a)...);
+        // The block must not be lost if the constructor throws.
+        try {
+            return new(r) T(std::forward<Args>(a)...);
+        } catch (...) {
+            mempool_free(&m_pool, r);
+            throw;
+        }
     }
 
     // Deallocate a fixed size block
-- 
2.43.0


From 4ca2ebaea35f0a890cbd31e315a3d724c9285c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:10 +0000
Subject: [PATCH 62/64] fix: fail instead of dying by SIGBUS when the disk is
 full while saving a filter

---
 src/hashtable/bloom_marshal.c     |  6 ++----
 src/hashtable/commit_file.h       | 28 ++++++++++++++++++++++++++++
 src/hashtable/xorfilter_marshal.c |  6 ++----
 3 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/hashtable/bloom_marshal.c b/src/hashtable/bloom_marshal.c
index 63bb12b..53ac182 100644
--- a/src/hashtable/bloom_marshal.c
+++ b/src/hashtable/bloom_marshal.c
@@ -585,10 +585,8 @@ Bloom_marshal(Bloom *b, const char *fname)
         return r;
     }
 
-    if (ftruncate(fd, sz) < 0) {
-        r = -errno;
-        goto fail;
-    }
+    r = __reserve_file(fd, sz);
+    if (r < 0) goto fail;
 
     void *mptr = mmap(0, sz, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
     if (mptr == ((void *)-1)) {
diff --git a/src/hashtable/commit_file.h b/src/hashtable/commit_file.h
index 730baf7..9ca283d 100644
--- a/src/hashtable/commit_file.h
+++ b/src/hashtable/commit_file.h
@@ -17,6 +17,7 @@
 #ifndef ___COMMIT_FILE_H__q8MB2v1pXkdYtT6g___
 #define ___COMMIT_FILE_H__q8MB2v1pXkdYtT6g___ 1
 
+#include <stdint.h>
 #include <limits.h>
 #include <string.h>
 #include <stdio.h>
@@ -24,6 +25,33 @@
 #include <fcntl.h>
 #include <errno.h>
 
+/*
+ * Make the new file 'fd' 'sz' bytes long. This writes all of it: a
+ * file that is merely extended has no disk blocks, and storing to
+ * its mapping raises SIGBUS if the disk turns out to be full.
+ *
+ * Return 0 on success, -errno on failure
+ */
+static inline int
+__reserve_file(int fd, uint64_t sz)
+{
+    static const uint8_t zero[16384];
+
+    while (sz > 0) {
+        ssize_t n = write(fd, zero, sz < sizeof zero ? sz : sizeof zero);
+
+        if (n < 0) {
+            if (errno == EINTR) continue;
+            return -errno;
+        }
+        if (n == 0) return -EIO;
+
+        sz -= n;
+    }
+    return 0;
+}
+
+
 /*
  * Flush the directory containing 'file' to disk.
  *
diff --git a/src/hashtable/xorfilter_marshal.c b/src/hashtable/xorfilter_marshal.c
index 41a5ee8..5244ce6 100644
--- a/src/hashtable/xorfilter_marshal.c
+++ b/src/hashtable/xorfilter_marshal.c
@@ -139,10 +139,8 @@ Xorfilter_marshal(Xorfilter *x, const char *fname)
     fd = mkostemp(file, 0);
     if (fd < 0) return -errno;
 
-    if (ftruncate(fd, filesz) < 0) {
-        r = -errno;
-        goto fail;
-    }
+    r = __reserve_file(fd, filesz);
+    if (r < 0) goto fail;
 
     void *mptr = mmap(0, filesz, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
     if (mptr == ((void *)-1)) {
-- 
2.43.0


From 855140fc6cbf1425e44da102753d8e0bce275419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:22 +0000
Subject: [PATCH 63/64] fix: a Bloom filter too large for any memory wrapped
 around to a small one

---
 src/hashtable/bloom_internal.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/bloom_internal.h b/src/hashtable/bloom_internal.h
index 92b116f..ff19785 100644
--- a/src/hashtable/bloom_internal.h
+++ b/src/hashtable/bloom_internal.h
@@ -146,8 +146,13 @@ make_k(double e)
 static inline uint64_t
 make_m(uint64_t n, double e)
 {
-    double z0 = -log(e) / (log(2.0) * log(2.0));
-    return n * _U64(ceil(z0));
+    double z0  = -log(e) / (log(2.0) * log(2.0));
+    uint64_t z = _U64(ceil(z0));
+    uint64_t x = UINT64_MAX / 2;
+
+    // This must not wrap around to a small number; no memory is
+    // large enough for 'x' bits.
+    return z > 0 && n > x / z ? x : n * z;
 }
 
 
-- 
2.43.0


From 3192da396b40d1f43154137a6f33ab36f19057cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:22 +0000
Subject: [PATCH 64/64] fix: gstr_init with an impossible size made a string
 without room for its terminator

---
 src/gstring.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gstring.c b/src/gstring.c
index 1831df3..5d55f60 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -58,8 +58,9 @@ __init_gstr(gstr *g, size_t n, const char *src)
     if (n == 0) n = 63;
 
     g->len = 0;
-    g->cap = NEXTPOW2(n+1);
-    g->str = NEWZA(char, g->cap);
+    // there is no power of two beyond this
+    g->cap = n <= SIZE_MAX / 2 ? NEXTPOW2(n+1) : 0;
+    g->str = g->cap > 0 ? NEWZA(char, g->cap) : 0;
     if (!g->str) {
         g->cap = 0;
         return 0;
-- 
2.43.0

