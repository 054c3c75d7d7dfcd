From 270be9ea7e8f05929e11d91961ecc2c0ce4584d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:16 +0000
Subject: [PATCH 01/30] fix: discard the awaited future when a block is
 finalized

A block finalized while pending left its entry on the chain of the future
it was waiting for. The awaited future was never told that nobody needs it
any more, and when the block held its last reference finalizing it hit the
assertion that no chained futures remain.
---
 src/dex-block.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/dex-block.c b/src/dex-block.c
index 3203ff8..f90a960 100644
--- a/src/dex-block.c
+++ b/src/dex-block.c
@@ -217,6 +217,7 @@ static void
 dex_block_finalize (DexObject *object)
 {
   DexBlock *block = DEX_BLOCK (object);
+  DexFuture *awaiting = g_steal_pointer (&block->awaiting);
 
   if (block->callback_data_destroy)
     {
@@ -226,7 +227,15 @@ dex_block_finalize (DexObject *object)
       block->callback = NULL;
     }
 
-  dex_clear (&block->awaiting);
+  /* We are still chained to a pending future, so let it know that we
+   * are going away and no longer interested in the result.
+   */
+  if (awaiting != NULL)
+    {
+      dex_future_discard (awaiting, DEX_FUTURE (block));
+      dex_unref (awaiting);
+    }
+
   dex_clear (&block->scheduler);
 
   DEX_OBJECT_CLASS (dex_block_parent_class)->finalize (object);
-- 
2.43.0


From 1b601d755f13f968f272ac67730a998957c6e495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 02/30] fix: do not discard a future that something else still
 awaits

dex_future_discard() only looked at the entry it had just cleared to find
out whether anything is still awaiting, so the first of several awaiters to
lose interest cancelled the future for all of them.
---
 src/dex-future.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dex-future.c b/src/dex-future.c
index e3e46a0..fd9984d 100644
--- a/src/dex-future.c
+++ b/src/dex-future.c
@@ -425,11 +425,13 @@ dex_future_discard (DexFuture *future,
               cf->awaiting = FALSE;
             }
 
-          has_awaiting |= cf->awaiting;
-
           g_queue_unlink (&future->chained, &cf->link);
           g_queue_push_tail_link (&discarded, &cf->link);
         }
+      else
+        {
+          has_awaiting |= cf->awaiting;
+        }
     }
 
   dex_object_unlock (future);
-- 
2.43.0


From 7c00dd30ad3c0f11040ab1753b2417f187ce0026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:37 +0000
Subject: [PATCH 03/30] fix: use the default scheduler for callbacks attached
 without one

Attaching a callback on a thread that has no scheduler left the block
without one. The callback then ran on whatever other thread without a
scheduler completed the future, and was lost with a critical warning when
a scheduler's thread completed it. Timeouts already fall back to the
default scheduler in this case.
---
 src/dex-block.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dex-block.c b/src/dex-block.c
index f90a960..b62809d 100644
--- a/src/dex-block.c
+++ b/src/dex-block.c
@@ -285,8 +285,11 @@ dex_block_new (DexFuture         *future,
 
   g_return_val_if_fail (DEX_IS_FUTURE (future), NULL);
 
+  if (scheduler == NULL && !(scheduler = dex_scheduler_get_thread_default ()))
+    scheduler = dex_scheduler_get_default ();
+
   block = (DexBlock *)dex_object_create_instance (dex_block_type);
-  block->scheduler = scheduler ? dex_ref (scheduler) : dex_scheduler_ref_thread_default ();
+  block->scheduler = dex_ref (scheduler);
   block->awaiting = future;
   block->kind = kind;
   block->callback = callback;
-- 
2.43.0


From 55542bdf7b98dd0f68e7081f23fe2c0bf384a63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:48 +0000
Subject: [PATCH 04/30] fix: do not finalize an object while another thread is
 in dex_unref()

A thread which dropped the last reference could be overtaken by another
one that acquired a full reference through a weak reference and dropped
that as well. The object was then finalized while the first thread was
still about to lock it. The same could happen the other way around, where
both threads saw a changed watermark and neither finalized the object.
---
 src/dex-object-private.h |  1 +
 src/dex-object.c         | 61 ++++++++++++++++++++++++----------------
 2 files changed, 37 insertions(+), 25 deletions(-)

diff --git a/src/dex-object-private.h b/src/dex-object-private.h
index 81a2f36..d565c74 100644
--- a/src/dex-object-private.h
+++ b/src/dex-object-private.h
@@ -96,6 +96,7 @@ typedef struct _DexObject
   DexWeakRef      *weak_refs;
   guint            weak_refs_watermark;
   _Atomic int      ref_count;
+  _Atomic guint    unrefs;
 #ifdef HAVE_SYSPROF
   gint64           ctime;
 #endif
diff --git a/src/dex-object.c b/src/dex-object.c
index db45b1c..7d34515 100644
--- a/src/dex-object.c
+++ b/src/dex-object.c
@@ -47,6 +47,9 @@ static GType dex_object_type = G_TYPE_INVALID;
 #undef DEX_TYPE_OBJECT
 #define DEX_TYPE_OBJECT dex_object_type
 
+/* Flag within DexObject.unrefs once it is certain to be finalized */
+#define UNREFS_FINALIZE (1u << 31)
+
 static void
 dex_object_finalize (DexObject *object)
 {
@@ -91,36 +94,41 @@ dex_unref (gpointer object)
   DexObject *obj = object;
   DexObjectClass *object_class;
   DexWeakRef *weak_refs;
-  guint watermark;
+  int ref_count;
 
   g_return_if_fail (object != NULL);
   g_return_if_fail (DEX_IS_OBJECT (object));
 
-  /* Fetch a watermark before we decrement so that we can be
-   * sure that if we reached zero, that anything that extended
-   * the life of the mem_block will be responsible to free
-   * the object in the end.
+  /* If there are other references, then there is nothing for this thread
+   * to do but drop ours. Fast path.
    */
-  watermark = g_atomic_int_get (&obj->weak_refs_watermark);
+  ref_count = atomic_load_explicit (&obj->ref_count, memory_order_relaxed);
+  while G_LIKELY (ref_count > 1)
+    {
+      if (atomic_compare_exchange_weak_explicit (&obj->ref_count,
+                                                 &ref_count,
+                                                 ref_count - 1,
+                                                 memory_order_release,
+                                                 memory_order_relaxed))
+        return;
+    }
 
-  /* If we decrement and it's not zero, then there is nothing
-   * for this thread to do. Fast path.
-   */
-  if G_LIKELY (atomic_fetch_sub_explicit (&obj->ref_count, 1, memory_order_release) != 1)
-    return;
+  object_class = DEX_OBJECT_GET_CLASS (object);
 
-  atomic_thread_fence (memory_order_acquire);
+  /* Once we drop our reference, a weak-ref may acquire and release a full
+   * reference on another thread before we had a chance to look at our own
+   * weak references. Make sure that nothing finalizes the object until each
+   * thread which got here is done with it.
+   */
+  atomic_fetch_add_explicit (&obj->unrefs, 1, memory_order_relaxed);
 
-  object_class = DEX_OBJECT_GET_CLASS (object);
+  if (atomic_fetch_sub_explicit (&obj->ref_count, 1, memory_order_acq_rel) != 1)
+    goto done;
 
   /* We reached zero. We need to go through our weak references and
    * acquire each of their mutexes so that we can be sure none of them
    * have raced against us to increment the value beyond 0. If they did,
    * then we can bail early and ignore any request to finalize.
-   *
-   * If the watermark is beyond ours, then we know that the weak-ref
-   * extended liveness beyond this call and we are not responsible
-   * for finalizing this object.
    */
   dex_object_lock (object);
   for (DexWeakRef *wr = obj->weak_refs; wr; wr = wr->next)
@@ -129,15 +137,16 @@ dex_unref (gpointer object)
   /* If we increased our reference count on another thread by extending the
    * lifetime of the mem_block using a weak_ref-to-full_ref, then we don't need
    * to do anything here. Just bail and move along allowing a future unref to
-   * finalize when it once again approaches zero.
+   * finalize when it once again approaches zero. The same goes if that future
+   * unref got here before us.
    */
-  if (g_atomic_int_get (&obj->ref_count) > 0 ||
-      g_atomic_int_get (&obj->weak_refs_watermark) != watermark)
+  if (atomic_load_explicit (&obj->ref_count, memory_order_acquire) > 0 ||
+      (atomic_load_explicit (&obj->unrefs, memory_order_relaxed) & UNREFS_FINALIZE) != 0)
     {
       for (DexWeakRef *wr = obj->weak_refs; wr; wr = wr->next)
         g_mutex_unlock (&wr->mutex);
       dex_object_unlock (object);
-      return;
+      goto done;
     }
 
   weak_refs = g_steal_pointer (&obj->weak_refs);
@@ -159,10 +168,13 @@ dex_unref (gpointer object)
       g_mutex_unlock (&wr->mutex);
     }
 
+  atomic_fetch_or_explicit (&obj->unrefs, UNREFS_FINALIZE, memory_order_relaxed);
+
   dex_object_unlock (object);
 
-  /* If we did not create an immortal ref, then we are safe to finalize */
-  if (g_atomic_int_get (&obj->ref_count) == 0)
+done:
+  /* The last thread to get here after the object has died finalizes it */
+  if (atomic_fetch_sub_explicit (&obj->unrefs, 1, memory_order_acq_rel) == (UNREFS_FINALIZE | 1))
     object_class->finalize (object);
 }
 
@@ -288,8 +300,7 @@ dex_weak_ref_get_locked (DexWeakRef *weak_ref)
        */
       DexObject *object = weak_ref->mem_block;
 
-      /* Increment the watermark so that any calls to dex_unref() racing
-       * against us can detect that we extended liveness. If we have raced
+      /* Track how many times we extended liveness. If that happened
        * G_MAXUINT32 times, then something nefarious is going on and we can
        * just make the object immortal.
        *
-- 
2.43.0


From fbaaadefbba93d8a5cfedd7c323d0cd2d476e3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 05/30] fix: lock objects before their weak references
 everywhere

dex_weak_ref_set() locked the weak reference and then the object while
dex_unref() locks the object and then its weak references. Re-targeting
or clearing a weak reference while another thread dropped the last
reference of the object could deadlock.
---
 src/dex-object.c | 91 ++++++++++++++++++++++++++++++------------------
 1 file changed, 58 insertions(+), 33 deletions(-)

diff --git a/src/dex-object.c b/src/dex-object.c
index 7d34515..8cd457a 100644
--- a/src/dex-object.c
+++ b/src/dex-object.c
@@ -200,28 +200,43 @@ dex_object_init (DexObject      *self,
   self->weak_refs_watermark = 1;
 }
 
-static void
+/* The lock order is always object followed by weak reference, as
+ * that is the order required by dex_unref().
+ */
+static gboolean
 dex_object_add_weak (gpointer    mem_block,
                       DexWeakRef *weak_ref)
 {
   DexObject *object = mem_block;
+  gboolean ret = FALSE;
 
   g_assert (object != NULL);
   g_assert (weak_ref != NULL);
-  g_assert (weak_ref->prev == NULL);
-  g_assert (weak_ref->next == NULL);
-  g_assert (weak_ref->mem_block == mem_block);
 
   /* Must own a full ref to acquire a weak ref */
-  g_return_if_fail (object->ref_count > 0);
+  g_return_val_if_fail (object->ref_count > 0, TRUE);
 
   dex_object_lock (object);
-  weak_ref->prev = NULL;
-  weak_ref->next = object->weak_refs;
-  if (object->weak_refs != NULL)
-    object->weak_refs->prev = weak_ref;
-  object->weak_refs = weak_ref;
+  g_mutex_lock (&weak_ref->mutex);
+
+  if (weak_ref->mem_block == NULL)
+    {
+      g_assert (weak_ref->prev == NULL);
+      g_assert (weak_ref->next == NULL);
+
+      weak_ref->mem_block = mem_block;
+      weak_ref->next = object->weak_refs;
+      if (object->weak_refs != NULL)
+        object->weak_refs->prev = weak_ref;
+      object->weak_refs = weak_ref;
+
+      ret = TRUE;
+    }
+
+  g_mutex_unlock (&weak_ref->mutex);
   dex_object_unlock (object);
+
+  return ret;
 }
 
 static void
@@ -237,23 +252,28 @@ dex_object_remove_weak (gpointer    mem_block,
   g_return_if_fail (object->ref_count > 0);
 
   dex_object_lock (object);
+  g_mutex_lock (&weak_ref->mutex);
 
-  if (weak_ref->prev != NULL)
-    weak_ref->prev->next = weak_ref->next;
+  if (weak_ref->mem_block == mem_block)
+    {
+      if (weak_ref->prev != NULL)
+        weak_ref->prev->next = weak_ref->next;
 
-  if (weak_ref->next != NULL)
-    weak_ref->next->prev = weak_ref->prev;
+      if (weak_ref->next != NULL)
+        weak_ref->next->prev = weak_ref->prev;
 
-  if (object->weak_refs == weak_ref)
-    object->weak_refs = weak_ref->next;
+      if (object->weak_refs == weak_ref)
+        object->weak_refs = weak_ref->next;
 
-  g_assert (object->weak_refs == NULL ||
-            object->weak_refs->prev == NULL);
+      g_assert (object->weak_refs == NULL ||
+                object->weak_refs->prev == NULL);
 
-  weak_ref->next = NULL;
-  weak_ref->prev = NULL;
-  weak_ref->mem_block = NULL;
+      weak_ref->next = NULL;
+      weak_ref->prev = NULL;
+      weak_ref->mem_block = NULL;
+    }
 
+  g_mutex_unlock (&weak_ref->mutex);
   dex_object_unlock (object);
 }
 
@@ -419,22 +439,27 @@ dex_weak_ref_set (DexWeakRef *weak_ref,
   g_return_if_fail (!mem_block || DEX_IS_OBJECT (mem_block));
   g_return_if_fail (!mem_block || DEX_OBJECT (mem_block)->ref_count > 0);
 
-  g_mutex_lock (&weak_ref->mutex);
+  for (;;)
+    {
+      gboolean done = TRUE;
 
-  old_mem_block = dex_weak_ref_get_locked (weak_ref);
+      old_mem_block = dex_weak_ref_get (weak_ref);
 
-  if (old_mem_block != mem_block)
-    {
-      if (old_mem_block != NULL)
-        dex_object_remove_weak (old_mem_block, weak_ref);
-      weak_ref->mem_block = mem_block;
-      if (mem_block != NULL)
-        dex_object_add_weak (mem_block, weak_ref);
-    }
+      if (old_mem_block != mem_block)
+        {
+          if (old_mem_block != NULL)
+            dex_object_remove_weak (old_mem_block, weak_ref);
+          if (mem_block != NULL)
+            done = dex_object_add_weak (mem_block, weak_ref);
+        }
 
-  g_mutex_unlock (&weak_ref->mutex);
+      dex_clear (&old_mem_block);
+
+      if (done)
+        break;
 
-  dex_clear (&old_mem_block);
+      /* Another thread set @weak_ref in the mean time, so replace that */
+    }
 }
 
 static void
-- 
2.43.0


From c472a7b8c9ca33e600bca0c2983a621af4e3cfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 06/30] fix: do not let a concurrent completion change the
 result of a set

When the member that decides a set and the last member completed on
different threads, the thread of the last member could complete the set
first: dex_future_any() rejected although a member had resolved and
dex_future_all_race() resolved although a member had rejected.
---
 src/dex-future-set.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/dex-future-set.c b/src/dex-future-set.c
index 8dd1d4a..d5b6c02 100644
--- a/src/dex-future-set.c
+++ b/src/dex-future-set.c
@@ -74,6 +74,7 @@ dex_future_set_propagate (DexFuture *future,
   const GValue *resolved = NULL;
   DexFutureStatus status;
   gboolean do_discard = FALSE;
+  gboolean lost_race = FALSE;
   GError *rejected = NULL;
   guint n_active = 0;
 
@@ -112,8 +113,23 @@ dex_future_set_propagate (DexFuture *future,
   g_assert (future_set->n_resolved + future_set->n_rejected <= future_set->n_futures);
   g_assert (rejected != NULL || resolved != NULL);
 
+  /* If a previous future already determined our result then we are racing
+   * against the thread which is about to complete with that result.
+   */
+  if ((future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_FIRST) != 0)
+    lost_race = ((future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_RESOLVE) != 0 &&
+                 future_set->n_resolved > (resolved != NULL)) ||
+                ((future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_REJECT) != 0 &&
+                 future_set->n_rejected > (rejected != NULL));
+
   dex_object_unlock (future_set);
 
+  if (lost_race)
+    {
+      g_clear_error (&rejected);
+      return TRUE;
+    }
+
   if (n_active == 0)
     {
       do_discard = TRUE;
-- 
2.43.0


From 63eaf72ed5bcefaa861fb61e1d7ca8d062dbf35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 07/30] fix: complete a delayed future only once its input has
 completed

The delayed future was chained to its input the wrong way around, so
that completing it would complete the input. Releasing it before the
input completed did not wait for the input.
---
 src/dex-delayed.c | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/dex-delayed.c b/src/dex-delayed.c
index e71806b..d5f5350 100644
--- a/src/dex-delayed.c
+++ b/src/dex-delayed.c
@@ -91,8 +91,13 @@ static void
 dex_delayed_finalize (DexObject *object)
 {
   DexDelayed *delayed = DEX_DELAYED (object);
+  DexFuture *awaiting = g_steal_pointer (&delayed->future);
 
-  dex_clear (&delayed->future);
+  if (awaiting != NULL)
+    {
+      dex_future_discard (awaiting, DEX_FUTURE (delayed));
+      dex_unref (awaiting);
+    }
 
   DEX_OBJECT_CLASS (dex_delayed_parent_class)->finalize (object);
 }
@@ -125,7 +130,7 @@ dex_delayed_new (DexFuture *future)
   delayed->corked = TRUE;
   delayed->future = dex_ref (future);
 
-  dex_future_chain (DEX_FUTURE (delayed), future);
+  dex_future_chain (future, DEX_FUTURE (delayed));
 
   return DEX_FUTURE (delayed);
 }
@@ -133,7 +138,7 @@ dex_delayed_new (DexFuture *future)
 void
 dex_delayed_release (DexDelayed *delayed)
 {
-  DexFuture *complete = NULL;
+  DexFuture *future = NULL;
 
   g_return_if_fail (DEX_IS_DELAYED (delayed));
 
@@ -142,16 +147,30 @@ dex_delayed_release (DexDelayed *delayed)
   if (delayed->corked)
     {
       delayed->corked = FALSE;
-      complete = g_steal_pointer (&delayed->future);
+
+      if (delayed->future != NULL)
+        future = dex_ref (delayed->future);
     }
 
   dex_object_unlock (delayed);
 
-  if (complete != NULL)
+  /* If our future is still pending, then keep holding on to it. We will
+   * complete when it propagates to us now that we are no longer corked.
+   */
+  if (future != NULL && !dex_future_is_pending (future))
     {
-      dex_future_complete_from (DEX_FUTURE (delayed), complete);
-      dex_clear (&complete);
+      DexFuture *completed;
+
+      dex_future_complete_from (DEX_FUTURE (delayed), future);
+
+      dex_object_lock (delayed);
+      completed = g_steal_pointer (&delayed->future);
+      dex_object_unlock (delayed);
+
+      dex_clear (&completed);
     }
+
+  dex_clear (&future);
 }
 
 /**
@@ -174,7 +193,7 @@ dex_delayed_dup_future (DexDelayed *delayed)
   g_return_val_if_fail (DEX_IS_DELAYED (delayed), NULL);
 
   dex_object_lock (delayed);
-  ret = delayed->future ? dex_ref (delayed->future) : NULL;
+  ret = delayed->corked && delayed->future ? dex_ref (delayed->future) : NULL;
   dex_object_unlock (delayed);
 
   return ret;
-- 
2.43.0


From f39369adcb9fbb9f59cce24b0ce5b4aceaed6156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:00 +0000
Subject: [PATCH 08/30] fix: keep the sent future alive for the receiver of a
 channel item

A receiver chained itself to the future that was sent and then the
channel dropped that future. If it was still pending and nothing else
held a reference, it was finalized with the receiver chained to it and
the receiver never completed.
---
 src/dex-channel.c | 56 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/src/dex-channel.c b/src/dex-channel.c
index 99f617e..50ccdcc 100644
--- a/src/dex-channel.c
+++ b/src/dex-channel.c
@@ -42,6 +42,11 @@ typedef struct _DexChannelReceiver
 {
   DexFuture parent_instance;
   GList link;
+
+  /* The future that was sent which we will complete from. It may still be
+   * pending and nothing else has to be holding on to it.
+   */
+  DexFuture *awaiting;
 } DexChannelReceiver;
 
 typedef struct _DexChannelReceiverClass
@@ -73,9 +78,47 @@ steal_queue (GQueue *queue)
   };
 }
 
+static gboolean
+dex_channel_receiver_propagate (DexFuture *future,
+                                DexFuture *completed)
+{
+  DexChannelReceiver *channel_receiver = (DexChannelReceiver *)future;
+  DexFuture *awaiting;
+
+  dex_object_lock (channel_receiver);
+  awaiting = g_steal_pointer (&channel_receiver->awaiting);
+  dex_object_unlock (channel_receiver);
+
+  dex_clear (&awaiting);
+
+  return FALSE;
+}
+
+static void
+dex_channel_receiver_finalize (DexObject *object)
+{
+  DexChannelReceiver *channel_receiver = (DexChannelReceiver *)object;
+  DexFuture *awaiting = g_steal_pointer (&channel_receiver->awaiting);
+
+  if (awaiting != NULL)
+    {
+      dex_future_discard (awaiting, (DexFuture *)channel_receiver);
+      dex_unref (awaiting);
+    }
+
+  DEX_OBJECT_CLASS (dex_channel_receiver_parent_class)->finalize (object);
+}
+
 static void
 dex_channel_receiver_class_init (DexChannelReceiverClass *channel_receiver_class)
 {
+  DexObjectClass *object_class = DEX_OBJECT_CLASS (channel_receiver_class);
+  DexFutureClass *future_class = DEX_FUTURE_CLASS (channel_receiver_class);
+
+  object_class->finalize = dex_channel_receiver_finalize;
+
+  future_class->propagate = dex_channel_receiver_propagate;
+
   success_value = (GValue) {G_TYPE_BOOLEAN, {{.v_int = TRUE}}};
 }
 
@@ -94,6 +137,17 @@ dex_channel_receiver_complete (DexChannelReceiver *channel_receiver,
                        success ? NULL : g_error_copy (&channel_closed_error));
 }
 
+static void
+dex_channel_receiver_await (DexChannelReceiver *channel_receiver,
+                            DexFuture          *future)
+{
+  dex_object_lock (channel_receiver);
+  channel_receiver->awaiting = dex_ref (future);
+  dex_object_unlock (channel_receiver);
+
+  dex_future_chain (future, (DexFuture *)channel_receiver);
+}
+
 static inline DexChannelReceiver *
 dex_channel_receiver_new (void)
 {
@@ -298,7 +352,7 @@ dex_channel_one_receive_and_unlock (DexChannel *channel)
 
   if (item != NULL)
     {
-      dex_future_chain (item->future, DEX_FUTURE (recv));
+      dex_channel_receiver_await (recv, item->future);
       dex_channel_item_free (item);
       dex_unref (recv);
     }
-- 
2.43.0


From 79b7ca9d9d74fc34dfcb6643fa2d33c26ba73837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:34 +0000
Subject: [PATCH 09/30] fix: let blocked senders proceed when draining a
 channel

dex_channel_receive_all() emptied the queue but left senders which had
been waiting for room blocked forever, with their items unreachable for
further receives.
---
 src/dex-channel.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/dex-channel.c b/src/dex-channel.c
index 50ccdcc..b363c33 100644
--- a/src/dex-channel.c
+++ b/src/dex-channel.c
@@ -498,6 +498,8 @@ dex_channel_receive_all (DexChannel *channel)
 {
   g_autoptr(GPtrArray) ret = NULL;
   GQueue stolen = G_QUEUE_INIT;
+  GQueue to_resolve = G_QUEUE_INIT;
+  guint qlen = 0;
 
   g_return_val_if_fail (DEX_IS_CHANNEL (channel), NULL);
 
@@ -519,11 +521,29 @@ dex_channel_receive_all (DexChannel *channel)
       g_ptr_array_add (ret, g_steal_pointer (&item->future));
     }
 
+  /* Advance @sendq items into the room we just made in @queue */
+  while (channel->sendq.length > 0 && channel->queue.length < channel->capacity)
+    {
+      GList *link = g_queue_pop_head_link (&channel->sendq);
+      DexChannelItem *item = link->data;
+
+      g_queue_push_tail_link (&channel->queue, link);
+      g_queue_push_tail (&to_resolve, dex_ref (item->send));
+    }
+
   dex_object_unlock (channel);
 
   while (stolen.length > 0)
     dex_channel_item_free (g_queue_pop_head_link (&stolen)->data);
 
+  while (to_resolve.length > 0)
+    {
+      DexPromise *promise = g_queue_pop_head (&to_resolve);
+
+      dex_promise_resolve_uint (promise, ++qlen);
+      dex_unref (promise);
+    }
+
   return dex_future_allv ((DexFuture **)ret->pdata, ret->len);
 
 reject_receive:
-- 
2.43.0


From 970c75fe071c02ecf2b2c50ecbe4bd01367181b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:32 +0000
Subject: [PATCH 10/30] fix: round work stealing arrays up to a power of two

Items are found with a bitmask of capacity - 1. With the capacity of 255
used by the thread pool workers, two successive items share a slot so one
of them is lost and the other one runs twice.
---
 src/dex-work-stealing-queue-private.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dex-work-stealing-queue-private.h b/src/dex-work-stealing-queue-private.h
index cfdf39e..6c89a6a 100644
--- a/src/dex-work-stealing-queue-private.h
+++ b/src/dex-work-stealing-queue-private.h
@@ -101,6 +101,12 @@ static inline DexWorkStealingArray *
 dex_work_stealing_array_new (gint64 c)
 {
   DexWorkStealingArray *work_stealing_array;
+  gint64 capacity = 1;
+
+  /* Positions are found using a mask, which needs a power of two */
+  while (capacity < c)
+    capacity *= 2;
+  c = capacity;
 
   work_stealing_array = g_aligned_alloc0 (1,
                                           sizeof (DexWorkStealingArray) + (c * sizeof (DexWorkItem)),
-- 
2.43.0


From d75a11705c9d3f88c5951e2127d80da8eb244904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:02 +0000
Subject: [PATCH 11/30] fix: stop the workers of a thread pool when it is
 dropped

The work queue loop of each worker holds a reference to the worker, so
dropping the pool never finalized them and left all threads running. Had
they been finalized, the thread would have been released twice, the set
been used after it was freed, and the always ready set source would have
kept the flush of pending operations spinning.

Stop and join the threads explicitly when the pool is finalized, run what
is left in the global queue, and release the AIO context and the work
stealing queue.
---
 src/dex-thread-pool-scheduler.c      |  8 +++-
 src/dex-thread-pool-worker-private.h |  1 +
 src/dex-thread-pool-worker.c         | 57 +++++++++++++++++++++++-----
 src/dex-work-stealing-queue.c        |  9 +++++
 4 files changed, 63 insertions(+), 12 deletions(-)

diff --git a/src/dex-thread-pool-scheduler.c b/src/dex-thread-pool-scheduler.c
index 7926420..84978b3 100644
--- a/src/dex-thread-pool-scheduler.c
+++ b/src/dex-thread-pool-scheduler.c
@@ -127,10 +127,14 @@ dex_thread_pool_scheduler_finalize (DexObject *object)
 {
   DexThreadPoolScheduler *thread_pool_scheduler = (DexThreadPoolScheduler *)object;
 
-  dex_clear (&thread_pool_scheduler->global_work_queue);
+  /* Workers use the set and the global work queue until they have stopped */
+  for (guint i = 0; i < thread_pool_scheduler->workers->len; i++)
+    dex_thread_pool_worker_stop (g_ptr_array_index (thread_pool_scheduler->workers, i));
 
-  g_clear_pointer (&thread_pool_scheduler->set, dex_thread_pool_worker_set_unref);
   g_clear_pointer (&thread_pool_scheduler->workers, g_ptr_array_unref);
+  g_clear_pointer (&thread_pool_scheduler->set, dex_thread_pool_worker_set_unref);
+
+  dex_clear (&thread_pool_scheduler->global_work_queue);
 
   DEX_OBJECT_CLASS (dex_thread_pool_scheduler_parent_class)->finalize (object);
 }
diff --git a/src/dex-thread-pool-worker-private.h b/src/dex-thread-pool-worker-private.h
index eae2f78..6da7622 100644
--- a/src/dex-thread-pool-worker-private.h
+++ b/src/dex-thread-pool-worker-private.h
@@ -37,6 +37,7 @@ typedef struct _DexThreadPoolWorkerSet DexThreadPoolWorkerSet;
 GType                   dex_thread_pool_worker_get_type  (void) G_GNUC_CONST;
 DexThreadPoolWorker    *dex_thread_pool_worker_new       (DexWorkQueue           *work_queue,
                                                           DexThreadPoolWorkerSet *set);
+void                    dex_thread_pool_worker_stop      (DexThreadPoolWorker    *thread_pool_worker);
 DexThreadPoolWorkerSet *dex_thread_pool_worker_set_new   (void);
 DexThreadPoolWorkerSet *dex_thread_pool_worker_set_ref   (DexThreadPoolWorkerSet *set);
 void                    dex_thread_pool_worker_set_unref (DexThreadPoolWorkerSet *set);
diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index 2d2a3d6..8ad446b 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -144,15 +144,28 @@ dex_thread_pool_worker_finalize_cb (gpointer data)
   return G_SOURCE_REMOVE;
 }
 
-static void
-dex_thread_pool_worker_finalize (DexObject *object)
+/*
+ * dex_thread_pool_worker_stop:
+ *
+ * Stops the worker thread and waits for it to exit.
+ *
+ * This cannot wait for the worker to be finalized because blocks created
+ * on the worker thread (including the global work queue loop) hold a
+ * reference to the worker.
+ */
+void
+dex_thread_pool_worker_stop (DexThreadPoolWorker *thread_pool_worker)
 {
-  DexThreadPoolWorker *thread_pool_worker = DEX_THREAD_POOL_WORKER (object);
   GSource *idle_source;
 
+  g_return_if_fail (DEX_IS_THREAD_POOL_WORKER (thread_pool_worker));
+
+  if (thread_pool_worker->thread == NULL)
+    return;
+
   g_assert (thread_pool_worker->thread != g_thread_self ());
 
-  /* To finalize the worker, we need to push a work item to the thread
+  /* To stop the worker, we need to push a work item to the thread
    * that will cause it to stop processing and then wait for the thread
    * to exit after processing the rest of the queue. We change the finalizing
    * bit on the worker thread so the common case (it's FALSE) doesn't require
@@ -169,20 +182,29 @@ dex_thread_pool_worker_finalize (DexObject *object)
 
   /* Now wait for the thread to process items and exit the thread */
   g_thread_join (thread_pool_worker->thread);
+  thread_pool_worker->thread = NULL;
+}
+
+static void
+dex_thread_pool_worker_finalize (DexObject *object)
+{
+  DexThreadPoolWorker *thread_pool_worker = DEX_THREAD_POOL_WORKER (object);
+
+  dex_thread_pool_worker_stop (thread_pool_worker);
 
 #ifdef G_ENABLE_DEBUG
   atomic_thread_fence (memory_order_seq_cst);
 
   g_assert (thread_pool_worker->status == DEX_THREAD_POOL_WORKER_FINISHED);
-  g_assert (dex_work_stealing_queue_empty (thread_pool_worker->queue));
+  g_assert (dex_work_stealing_queue_empty (thread_pool_worker->work_stealing_queue));
 #endif
 
   /* These are all destroyed during thread shutdown */
   g_clear_pointer (&thread_pool_worker->set_source, g_source_unref);
   g_clear_pointer (&thread_pool_worker->local_source, g_source_unref);
   g_clear_pointer (&thread_pool_worker->fiber_scheduler, g_source_unref);
+  g_clear_pointer ((GSource **)&thread_pool_worker->aio_context, g_source_unref);
 
-  g_clear_pointer (&thread_pool_worker->thread, g_thread_unref);
   g_clear_pointer (&thread_pool_worker->main_context, g_main_context_unref);
   g_clear_pointer (&thread_pool_worker->main_loop, g_main_loop_unref);
   g_clear_pointer (&thread_pool_worker->work_stealing_queue, dex_work_stealing_queue_unref);
@@ -260,6 +282,7 @@ dex_thread_pool_worker_thread_func (gpointer data)
   DexAioBackend *aio_backend;
   DexAioContext *aio_context;
   DexFuture *global_work_queue_loop;
+  DexWorkItem work_item;
   GSource *source;
 
   g_mutex_lock (&thread_pool_worker->setup_mutex);
@@ -330,17 +353,31 @@ dex_thread_pool_worker_thread_func (gpointer data)
   /* Discard our work queue loop */
   dex_clear (&global_work_queue_loop);
 
-  /* Flush out any pending operations */
-  while (g_main_context_pending (thread_pool_worker->main_context))
-    g_main_context_iteration (thread_pool_worker->main_context, FALSE);
+  /* Stop stealing from others, that source is always ready */
+  g_source_destroy (thread_pool_worker->set_source);
+
+  /* Flush out any pending operations, including what is left in the global
+   * work queue as there might be nobody else to process it.
+   */
+  do
+    {
+      while (g_main_context_pending (thread_pool_worker->main_context))
+        g_main_context_iteration (thread_pool_worker->main_context, FALSE);
+
+      if (!dex_work_queue_try_pop (thread_pool_worker->global_work_queue, &work_item))
+        break;
+
+      dex_work_item_invoke (&work_item);
+    }
+  while (TRUE);
 
   /* Remove from set now so others will not try to steal from us */
   dex_thread_pool_worker_set_remove (thread_pool_worker->set, thread_pool_worker);
 
   /* Ensure our sources will not continue on */
-  g_source_destroy (thread_pool_worker->set_source);
   g_source_destroy (thread_pool_worker->local_source);
   g_source_destroy (thread_pool_worker->fiber_scheduler);
+  g_source_destroy ((GSource *)thread_pool_worker->aio_context);
 
   thread_pool_worker->status = DEX_THREAD_POOL_WORKER_FINISHED;
   g_main_context_pop_thread_default (thread_pool_worker->main_context);
diff --git a/src/dex-work-stealing-queue.c b/src/dex-work-stealing-queue.c
index ef58cca..0c13c0c 100644
--- a/src/dex-work-stealing-queue.c
+++ b/src/dex-work-stealing-queue.c
@@ -119,10 +119,19 @@ dex_work_stealing_queue_source_dispatch (GSource     *source,
   return G_SOURCE_CONTINUE;
 }
 
+static void
+dex_work_stealing_queue_source_finalize (GSource *source)
+{
+  DexWorkStealingQueueSource *real_source = (DexWorkStealingQueueSource *)source;
+
+  g_clear_pointer (&real_source->work_stealing_queue, dex_work_stealing_queue_unref);
+}
+
 static GSourceFuncs dex_work_stealing_queue_source_funcs = {
   .prepare = dex_work_stealing_queue_source_prepare,
   .check = dex_work_stealing_queue_source_check,
   .dispatch = dex_work_stealing_queue_source_dispatch,
+  .finalize = dex_work_stealing_queue_source_finalize,
 };
 
 GSource *
-- 
2.43.0


From f15d952c4c9c48228cdcd3fa9564144241283fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:08 +0000
Subject: [PATCH 12/30] fix: handle spurious wakeups when starting a thread
 pool worker

---
 src/dex-thread-pool-worker.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index 8ad446b..ab0d93f 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -565,7 +565,8 @@ dex_thread_pool_worker_new (DexWorkQueue           *work_queue,
   thread_pool_worker->thread = g_thread_new ("dex-thread-pool-worker",
                                              dex_thread_pool_worker_thread_func,
                                              thread_pool_worker);
-  g_cond_wait (&thread_pool_worker->setup_cond, &thread_pool_worker->setup_mutex);
+  while (thread_pool_worker->status == DEX_THREAD_POOL_WORKER_INITIAL)
+    g_cond_wait (&thread_pool_worker->setup_cond, &thread_pool_worker->setup_mutex);
   failed = thread_pool_worker->status == DEX_THREAD_POOL_WORKER_FINISHED;
   g_mutex_unlock (&thread_pool_worker->setup_mutex);
 
-- 
2.43.0


From 8b4cde95027234bf54dcbbfcc69f349f484ae87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:10 +0000
Subject: [PATCH 13/30] fix: run items on the thread pool they were pushed to

Pushing to a thread pool from a thread of another thread pool queued the
item on the latter.
---
 src/dex-thread-pool-scheduler.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dex-thread-pool-scheduler.c b/src/dex-thread-pool-scheduler.c
index 84978b3..04462fe 100644
--- a/src/dex-thread-pool-scheduler.c
+++ b/src/dex-thread-pool-scheduler.c
@@ -73,7 +73,9 @@ dex_thread_pool_scheduler_push (DexScheduler *scheduler,
   DexThreadPoolScheduler *thread_pool_scheduler = DEX_THREAD_POOL_SCHEDULER (scheduler);
   DexThreadPoolWorker *worker = DEX_THREAD_POOL_WORKER_CURRENT;
 
-  if (worker != NULL)
+  /* The current thread might belong to another thread pool */
+  if (worker != NULL &&
+      g_ptr_array_find (thread_pool_scheduler->workers, worker, NULL))
     DEX_SCHEDULER_GET_CLASS (worker)->push (DEX_SCHEDULER (worker), work_item);
   else
     dex_work_queue_push (thread_pool_scheduler->global_work_queue, work_item);
-- 
2.43.0


From 49c9510a45e23b693725540707380c130d164b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:16 +0000
Subject: [PATCH 14/30] fix: reject the waiters of a semaphore that goes away

Builds with eventfd support left them pending forever, and leaked them,
when the semaphore did not use an eventfd because of the AIO backend.
---
 src/dex-semaphore.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dex-semaphore.c b/src/dex-semaphore.c
index 76d80b9..2c1d60d 100644
--- a/src/dex-semaphore.c
+++ b/src/dex-semaphore.c
@@ -150,7 +150,8 @@ dex_semaphore_finalize (DexObject *object)
       close (semaphore->eventfd);
       semaphore->eventfd = -1;
     }
-#else
+#endif
+
   while (semaphore->waiters.length > 0)
     {
       DexSemaphoreWaiter *waiter = g_queue_pop_head_link (&semaphore->waiters)->data;
@@ -159,7 +160,6 @@ dex_semaphore_finalize (DexObject *object)
                            g_error_copy (&semaphore_closed_error));
       dex_unref (waiter);
     }
-#endif
 
   DEX_OBJECT_CLASS (dex_semaphore_parent_class)->finalize (object);
 }
-- 
2.43.0


From 13a0ba4fd9b0046e4423d1a1f625f51ba218f50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:50 +0000
Subject: [PATCH 15/30] fix: reject fibers left behind by a thread pool that
 goes away

Fibers which are suspended when a thread pool worker stops kept a pointer
to the fiber scheduler, which was used after free when the future they
were awaiting completed, and their futures stayed pending forever.
---
 src/dex-fiber-private.h      |  4 ++
 src/dex-fiber.c              | 85 ++++++++++++++++++++++++++++++++++++
 src/dex-thread-pool-worker.c |  9 ++--
 3 files changed, 94 insertions(+), 4 deletions(-)

diff --git a/src/dex-fiber-private.h b/src/dex-fiber-private.h
index 12a6304..e2b1d17 100644
--- a/src/dex-fiber-private.h
+++ b/src/dex-fiber-private.h
@@ -62,6 +62,9 @@ struct _DexFiber
   /* The assigned stack */
   DexStack *stack;
 
+  /* The future being awaited, kept alive by the suspended stack */
+  DexFuture *awaiting;
+
   /* The scheduler affinity */
   DexFiberScheduler *fiber_scheduler;
 
@@ -115,5 +118,6 @@ DexFiber          *dex_fiber_new                (DexFiberFunc       func,
                                                  gsize              stack_size);
 void               dex_fiber_scheduler_register (DexFiberScheduler *fiber_scheduler,
                                                  DexFiber          *fiber);
+gboolean           dex_fiber_scheduler_shutdown (DexFiberScheduler *fiber_scheduler);
 
 G_END_DECLS
diff --git a/src/dex-fiber.c b/src/dex-fiber.c
index 5f0ea52..4ba901e 100644
--- a/src/dex-fiber.c
+++ b/src/dex-fiber.c
@@ -88,6 +88,14 @@ dex_fiber_propagate (DexFuture *future,
   g_assert (DEX_IS_FUTURE (completed));
 
   dex_object_lock (fiber);
+
+  /* The scheduler may have shutdown while we were suspended */
+  if (fiber->fiber_scheduler == NULL)
+    {
+      dex_object_unlock (fiber);
+      return TRUE;
+    }
+
   g_mutex_lock (&fiber->fiber_scheduler->mutex);
 
   g_assert (!fiber->runnable);
@@ -418,6 +426,80 @@ dex_fiber_scheduler_register (DexFiberScheduler *fiber_scheduler,
     g_main_context_wakeup (g_source_get_context ((GSource *)fiber_scheduler));
 }
 
+/*
+ * dex_fiber_scheduler_shutdown:
+ *
+ * This must be called on the thread running fibers of @fiber_scheduler before
+ * the #GSource is destroyed. Nothing can resume the fibers after that, so those
+ * which have not finished are rejected and may no longer reach the scheduler
+ * from what they were awaiting.
+ *
+ * Returns: %TRUE if there were any fibers left
+ */
+gboolean
+dex_fiber_scheduler_shutdown (DexFiberScheduler *fiber_scheduler)
+{
+  gboolean ret = FALSE;
+
+  g_return_val_if_fail (fiber_scheduler != NULL, FALSE);
+  g_return_val_if_fail (fiber_scheduler->running == NULL, FALSE);
+
+  for (;;)
+    {
+      GDestroyNotify func_data_destroy;
+      gpointer func_data;
+      DexFuture *awaiting;
+      DexFiber *fiber;
+      DexStack *stack;
+
+      g_mutex_lock (&fiber_scheduler->mutex);
+      if (!(fiber = g_queue_peek_head (&fiber_scheduler->runnable)))
+        fiber = g_queue_peek_head (&fiber_scheduler->blocked);
+      g_mutex_unlock (&fiber_scheduler->mutex);
+
+      /* Only this thread releases the reference of the scheduler */
+      if (fiber == NULL)
+        break;
+
+      dex_object_lock (fiber);
+      g_mutex_lock (&fiber_scheduler->mutex);
+      if (fiber->runnable)
+        g_queue_unlink (&fiber_scheduler->runnable, &fiber->link);
+      else
+        g_queue_unlink (&fiber_scheduler->blocked, &fiber->link);
+      fiber->runnable = FALSE;
+      fiber->exited = TRUE;
+      fiber->released = TRUE;
+      fiber->fiber_scheduler = NULL;
+      stack = g_steal_pointer (&fiber->stack);
+      awaiting = g_steal_pointer (&fiber->awaiting);
+      g_mutex_unlock (&fiber_scheduler->mutex);
+      dex_object_unlock (fiber);
+
+      if (awaiting != NULL)
+        dex_future_discard (awaiting, DEX_FUTURE (fiber));
+
+      func_data = g_steal_pointer (&fiber->func_data);
+      func_data_destroy = g_steal_pointer (&fiber->func_data_destroy);
+
+      if (func_data_destroy)
+        func_data_destroy (func_data);
+
+      dex_future_complete (DEX_FUTURE (fiber),
+                           NULL,
+                           g_error_new_literal (DEX_ERROR,
+                                                DEX_ERROR_FIBER_CANCELLED,
+                                                "The scheduler was shutdown"));
+
+      g_clear_pointer (&stack, dex_stack_free);
+      dex_unref (fiber);
+
+      ret = TRUE;
+    }
+
+  return ret;
+}
+
 static DexFiber *
 dex_fiber_current (void)
 {
@@ -438,6 +520,7 @@ dex_fiber_await (DexFiber  *fiber,
   g_mutex_lock (&fiber_scheduler->mutex);
   fiber->runnable = FALSE;
   cancelled = fiber->cancelled;
+  fiber->awaiting = cancelled ? cancelled_future : future;
   g_queue_unlink (&fiber_scheduler->runnable, &fiber->link);
   g_queue_push_tail_link (&fiber_scheduler->blocked, &fiber->link);
   g_mutex_unlock (&fiber_scheduler->mutex);
@@ -450,6 +533,8 @@ dex_fiber_await (DexFiber  *fiber,
 
   /* Swap to the scheduler to continue processing fibers */
   dex_fiber_context_switch (&fiber->context, &fiber_scheduler->context);
+
+  fiber->awaiting = NULL;
 }
 
 const GValue *
diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index ab0d93f..a758944 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -357,17 +357,18 @@ dex_thread_pool_worker_thread_func (gpointer data)
   g_source_destroy (thread_pool_worker->set_source);
 
   /* Flush out any pending operations, including what is left in the global
-   * work queue as there might be nobody else to process it.
+   * work queue as there might be nobody else to process it. After that, give
+   * up on fibers which are still suspended.
    */
   do
     {
       while (g_main_context_pending (thread_pool_worker->main_context))
         g_main_context_iteration (thread_pool_worker->main_context, FALSE);
 
-      if (!dex_work_queue_try_pop (thread_pool_worker->global_work_queue, &work_item))
+      if (dex_work_queue_try_pop (thread_pool_worker->global_work_queue, &work_item))
+        dex_work_item_invoke (&work_item);
+      else if (!dex_fiber_scheduler_shutdown ((DexFiberScheduler *)thread_pool_worker->fiber_scheduler))
         break;
-
-      dex_work_item_invoke (&work_item);
     }
   while (TRUE);
 
-- 
2.43.0


From 97f25b26fe988e665101718d397a5f140652f4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:39 +0000
Subject: [PATCH 16/30] fix: report cancellation to fibers instead of a pending
 result

An await of a cancelled fiber looked at the future it was given, which is
still pending, instead of the one telling about the cancellation, and a
fiber returning a pending future after cancellation was rejected as
pending. The cancelled flag also shared storage with flags written under
another lock, so that it could be lost.
---
 src/dex-fiber-private.h |  4 +++-
 src/dex-fiber.c         | 32 ++++++++++++++++++--------------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/dex-fiber-private.h b/src/dex-fiber-private.h
index e2b1d17..20e4c9b 100644
--- a/src/dex-fiber-private.h
+++ b/src/dex-fiber-private.h
@@ -54,7 +54,9 @@ struct _DexFiber
   guint runnable : 1;
   guint exited : 1;
   guint released : 1;
-  guint cancelled : 1;
+
+  /* Set from any thread, so it cannot share storage with the flags above */
+  int cancelled;
 
   /* The requested stack size */
   gsize stack_size;
diff --git a/src/dex-fiber.c b/src/dex-fiber.c
index 4ba901e..ad49c79 100644
--- a/src/dex-fiber.c
+++ b/src/dex-fiber.c
@@ -72,9 +72,7 @@ dex_fiber_discard (DexFuture *future)
 
   g_assert (DEX_IS_FIBER (fiber));
 
-  dex_object_lock (fiber);
-  fiber->cancelled = TRUE;
-  dex_object_unlock (fiber);
+  g_atomic_int_set (&fiber->cancelled, TRUE);
 }
 
 static gboolean
@@ -174,8 +172,11 @@ dex_fiber_start (DexFiber *fiber)
   /* Await any future returned from the fiber */
   if (future != NULL)
     {
-      dex_await_borrowed (future, NULL);
-      dex_future_complete_from (DEX_FUTURE (fiber), future);
+      const GValue *value;
+      GError *error = NULL;
+
+      value = dex_await_borrowed (future, &error);
+      dex_future_complete (DEX_FUTURE (fiber), value, error);
       dex_unref (future);
     }
   else
@@ -507,34 +508,37 @@ dex_fiber_current (void)
   return fiber_scheduler ? fiber_scheduler->running : NULL;
 }
 
-static inline void
+/* Returns the future which completed: either @future or, if the fiber was
+ * cancelled before awaiting it, a future rejected for that reason.
+ */
+static inline DexFuture *
 dex_fiber_await (DexFiber  *fiber,
                  DexFuture *future)
 {
   DexFiberScheduler *fiber_scheduler = fiber->fiber_scheduler;
-  gboolean cancelled;
 
   g_assert (DEX_IS_FIBER (fiber));
 
+  if (g_atomic_int_get (&fiber->cancelled))
+    future = cancelled_future;
+
   /* Move fiber from runnable to blocked queue */
   g_mutex_lock (&fiber_scheduler->mutex);
   fiber->runnable = FALSE;
-  cancelled = fiber->cancelled;
-  fiber->awaiting = cancelled ? cancelled_future : future;
+  fiber->awaiting = future;
   g_queue_unlink (&fiber_scheduler->runnable, &fiber->link);
   g_queue_push_tail_link (&fiber_scheduler->blocked, &fiber->link);
   g_mutex_unlock (&fiber_scheduler->mutex);
 
   /* Now request the future notify us of completion */
-  if (cancelled)
-    dex_future_chain (cancelled_future, DEX_FUTURE (fiber));
-  else
-    dex_future_chain (future, DEX_FUTURE (fiber));
+  dex_future_chain (future, DEX_FUTURE (fiber));
 
   /* Swap to the scheduler to continue processing fibers */
   dex_fiber_context_switch (&fiber->context, &fiber_scheduler->context);
 
   fiber->awaiting = NULL;
+
+  return future;
 }
 
 const GValue *
@@ -557,7 +561,7 @@ dex_await_borrowed (DexFuture  *future,
       return NULL;
     }
 
-  dex_fiber_await (fiber, future);
+  future = dex_fiber_await (fiber, future);
 
   return dex_future_get_value (future, error);
 }
-- 
2.43.0


From bb3be75071ecbc3bec373718d69650c240ed9ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:20 +0000
Subject: [PATCH 17/30] fix: reject waiters of a closed semaphore without
 holding its lock

A callback run because of the rejection which used the semaphore again
would deadlock.
---
 src/dex-semaphore.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/dex-semaphore.c b/src/dex-semaphore.c
index 2c1d60d..2e6e502 100644
--- a/src/dex-semaphore.c
+++ b/src/dex-semaphore.c
@@ -321,6 +321,8 @@ dex_semaphore_wait (DexSemaphore *semaphore)
 void
 dex_semaphore_close (DexSemaphore *semaphore)
 {
+  GQueue queue;
+
   g_return_if_fail (DEX_IS_SEMAPHORE (semaphore));
 
   dex_object_lock (semaphore);
@@ -333,20 +335,18 @@ dex_semaphore_close (DexSemaphore *semaphore)
     }
 #endif
 
-  if (semaphore->waiters.length > 0)
-    {
-      GQueue queue = semaphore->waiters;
-      semaphore->waiters = (GQueue) {NULL, NULL, 0};
-
-      while (queue.length)
-        {
-          DexSemaphoreWaiter *waiter = g_queue_pop_head_link (&queue)->data;
-          dex_future_complete (DEX_FUTURE (waiter),
-                               NULL,
-                               g_error_copy (&semaphore_closed_error));
-          dex_unref (waiter);
-        }
-    }
+  queue = semaphore->waiters;
+  semaphore->waiters = (GQueue) {NULL, NULL, 0};
 
   dex_object_unlock (semaphore);
+
+  /* Now reject the waiters outside our object lock */
+  while (queue.length > 0)
+    {
+      DexSemaphoreWaiter *waiter = g_queue_pop_head_link (&queue)->data;
+      dex_future_complete (DEX_FUTURE (waiter),
+                           NULL,
+                           g_error_copy (&semaphore_closed_error));
+      dex_unref (waiter);
+    }
 }
-- 
2.43.0


From 54037a1286b9f233dd5acbead900d98ae787ccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:15 +0000
Subject: [PATCH 18/30] fix: cancellable: disconnect the handler after
 cancellation

The handler id was cleared when the future was cancelled, so the handler
stayed connected to the GCancellable for ever, with its weak reference.

g_cancellable_disconnect() waits for running handlers, so finalizing a
future while its GCancellable is emitting deadlocked.
---
 src/dex-cancellable.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/dex-cancellable.c b/src/dex-cancellable.c
index 2c0ed74..8a8d741 100644
--- a/src/dex-cancellable.c
+++ b/src/dex-cancellable.c
@@ -56,8 +56,12 @@ dex_cancellable_finalize (DexObject *object)
 {
   DexCancellable *self = (DexCancellable *)object;
 
+  /* Not g_cancellable_disconnect(): the last reference may be dropped by
+   * the handler itself, and that would wait for the handler to return. The
+   * handler only has a weak reference, so it may run concurrently.
+   */
   if (self->handler)
-    g_cancellable_disconnect (self->cancellable, self->handler);
+    g_signal_handler_disconnect (self->cancellable, self->handler);
 
   g_clear_object (&self->cancellable);
 
@@ -93,14 +97,11 @@ dex_cancellable_cancelled_cb (GCancellable *cancellable,
   g_assert (wr != NULL);
 
   if ((self = dex_weak_ref_get (wr)))
-    {
-      self->handler = 0;
-      dex_future_complete (DEX_FUTURE (self),
-                           NULL,
-                           g_error_new_literal (G_IO_ERROR,
-                                                G_IO_ERROR_CANCELLED,
-                                                "Operation cancelled"));
-    }
+    dex_future_complete (DEX_FUTURE (self),
+                         NULL,
+                         g_error_new_literal (G_IO_ERROR,
+                                              G_IO_ERROR_CANCELLED,
+                                              "Operation cancelled"));
 }
 
 static void
-- 
2.43.0


From a24a37010659d11630084bed5d59d0f923ac07d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:20 +0000
Subject: [PATCH 19/30] fix: unix-signal: do not leak the future when the
 signal arrives

---
 src/dex-unix-signal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dex-unix-signal.c b/src/dex-unix-signal.c
index 532110c..d5834c2 100644
--- a/src/dex-unix-signal.c
+++ b/src/dex-unix-signal.c
@@ -95,6 +95,7 @@ dex_unix_signal_source_func (gpointer data)
       g_value_init (&value, G_TYPE_INT);
       g_value_set_int (&value, unix_signal->signum);
       dex_future_complete (DEX_FUTURE (unix_signal), &value, NULL);
+      dex_unref (unix_signal);
     }
 
   return G_SOURCE_REMOVE;
-- 
2.43.0


From f5ed5d4cc6912a59e00a7bdb0aa595a5e5cb4e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:56 +0000
Subject: [PATCH 20/30] fix: timeout: do not use a freed source when discarding
 a timeout that fires

---
 src/dex-timeout.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/dex-timeout.c b/src/dex-timeout.c
index d0a787c..61988c5 100644
--- a/src/dex-timeout.c
+++ b/src/dex-timeout.c
@@ -53,9 +53,19 @@ static void
 dex_timeout_discard (DexFuture *future)
 {
   DexTimeout *timeout = DEX_TIMEOUT (future);
+  GSource *source = NULL;
 
+  /* The source may be released by the thread it is dispatched from */
+  dex_object_lock (timeout);
   if (timeout->source != NULL)
-    g_source_destroy (timeout->source);
+    source = g_source_ref (timeout->source);
+  dex_object_unlock (timeout);
+
+  if (source != NULL)
+    {
+      g_source_destroy (source);
+      g_source_unref (source);
+    }
 }
 
 static void
-- 
2.43.0


From a6f43626e70222b8e2f02e1c049e2cc3d17e8af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 21/30] fix: block: keep deferred callbacks of a pool worker on
 that worker

When the recursion limit is reached, dex_block_propagate() pushes the
callback to the scheduler of the block. For a thread pool worker that is
its work stealing queue, so a sibling could steal it and run the callback
on the wrong thread. Defer it through the main context of the worker.
---
 src/dex-block.c                      | 16 +++++++++++++---
 src/dex-thread-pool-worker-private.h |  2 ++
 src/dex-thread-pool-worker.c         | 27 +++++++++++++++++++++++++++
 3 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/src/dex-block.c b/src/dex-block.c
index b62809d..287ad79 100644
--- a/src/dex-block.c
+++ b/src/dex-block.c
@@ -22,6 +22,7 @@
 #include "config.h"
 
 #include "dex-block-private.h"
+#include "dex-thread-pool-worker-private.h"
 #include "dex-thread-storage-private.h"
 
 /**
@@ -184,6 +185,7 @@ dex_block_propagate (DexFuture *future,
     {
       PropagateState state = {block, completed};
       DexThreadStorage *storage = dex_thread_storage_get ();
+      gpointer deferred;
 
       /* If we are on the same scheduler that created this block, then
        * we can execute it now.
@@ -203,9 +205,17 @@ dex_block_propagate (DexFuture *future,
       /* Otherwise we must defer it to the scheduler */
       dex_ref (block);
       dex_ref (completed);
-      dex_scheduler_push (block->scheduler,
-                          dex_block_propagate_within_scheduler,
-                          g_memdup2 (&state, sizeof state));
+      deferred = g_memdup2 (&state, sizeof state);
+
+      /* What a thread pool worker pushes to itself might get stolen by
+       * another worker, but the callback must run on this one.
+       */
+      if (block->scheduler == dex_scheduler_get_thread_default () &&
+          DEX_IS_THREAD_POOL_WORKER (block->scheduler))
+        dex_thread_pool_worker_defer (DEX_THREAD_POOL_WORKER (block->scheduler),
+                                      (DexWorkItem) { dex_block_propagate_within_scheduler, deferred });
+      else
+        dex_scheduler_push (block->scheduler, dex_block_propagate_within_scheduler, deferred);
 
       return TRUE;
     }
diff --git a/src/dex-thread-pool-worker-private.h b/src/dex-thread-pool-worker-private.h
index 6da7622..a905aba 100644
--- a/src/dex-thread-pool-worker-private.h
+++ b/src/dex-thread-pool-worker-private.h
@@ -38,6 +38,8 @@ GType                   dex_thread_pool_worker_get_type  (void) G_GNUC_CONST;
 DexThreadPoolWorker    *dex_thread_pool_worker_new       (DexWorkQueue           *work_queue,
                                                           DexThreadPoolWorkerSet *set);
 void                    dex_thread_pool_worker_stop      (DexThreadPoolWorker    *thread_pool_worker);
+void                    dex_thread_pool_worker_defer     (DexThreadPoolWorker    *thread_pool_worker,
+                                                          DexWorkItem             work_item);
 DexThreadPoolWorkerSet *dex_thread_pool_worker_set_new   (void);
 DexThreadPoolWorkerSet *dex_thread_pool_worker_set_ref   (DexThreadPoolWorkerSet *set);
 void                    dex_thread_pool_worker_set_unref (DexThreadPoolWorkerSet *set);
diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index a758944..bdfc4c7 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -127,6 +127,33 @@ dex_thread_pool_worker_push (DexScheduler *scheduler,
     }
 }
 
+/*
+ * dex_thread_pool_worker_defer:
+ *
+ * Runs @work_item from the main context of the worker, after what the
+ * worker is doing currently.
+ *
+ * Unlike dex_scheduler_push() from the worker thread, the work item cannot
+ * be stolen by another worker, so it is certain to run on this one.
+ */
+void
+dex_thread_pool_worker_defer (DexThreadPoolWorker *thread_pool_worker,
+                              DexWorkItem          work_item)
+{
+  GSource *source;
+
+  g_assert (DEX_IS_THREAD_POOL_WORKER (thread_pool_worker));
+
+  source = g_idle_source_new ();
+  g_source_set_priority (source, G_PRIORITY_DEFAULT);
+  g_source_set_callback (source,
+                         dex_thread_pool_worker_work_item_cb,
+                         g_memdup2 (&work_item, sizeof work_item),
+                         g_free);
+  g_source_attach (source, thread_pool_worker->main_context);
+  g_source_unref (source);
+}
+
 static gboolean
 dex_thread_pool_worker_finalize_cb (gpointer data)
 {
-- 
2.43.0


From c365f01b9340c5f83d945d0497ad0c5bce11e3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:48 +0000
Subject: [PATCH 22/30] fix: uring: report the errno of a failed operation

create_error() negates the error code itself.
---
 src/dex-uring-future.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dex-uring-future.c b/src/dex-uring-future.c
index 5e3010b..cd98d57 100644
--- a/src/dex-uring-future.c
+++ b/src/dex-uring-future.c
@@ -90,7 +90,7 @@ complete_ssize (DexUringFuture *uring_future,
   if (value < 0)
     dex_future_complete (DEX_FUTURE (uring_future),
                          NULL,
-                         create_error (-value));
+                         create_error (value));
   else
     dex_future_complete (DEX_FUTURE (uring_future),
                          &(GValue) { G_TYPE_INT64, {{.v_int64 = value}}},
-- 
2.43.0


From 9408e4368f141d3a9830b99119f5316e1fd20d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 23/30] fix: uring: do not leak operations queued from other
 threads

The queue holds a reference of its own which the sqe takes over, so do not
add another one when moving from one to the other.
---
 src/dex-uring-aio-backend.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dex-uring-aio-backend.c b/src/dex-uring-aio-backend.c
index e189e7e..41ea405 100644
--- a/src/dex-uring-aio-backend.c
+++ b/src/dex-uring-aio-backend.c
@@ -169,9 +169,10 @@ dex_uring_aio_context_prepare (GSource *source,
             break;
         }
 
+      /* The queue owned a reference which the sqe now takes over */
       future = g_queue_pop_head (&aio_context->queued);
       dex_uring_future_sqe (future, sqe);
-      io_uring_sqe_set_data (sqe, dex_ref (future));
+      io_uring_sqe_set_data (sqe, future);
     }
 
   if (do_submit || io_uring_sq_ready (&aio_context->ring) > 0)
-- 
2.43.0


From 9bc427dba5241ecba9d42ff89f4c29fdc69ec6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 24/30] fix: uring: release operations in flight when the
 context goes away

Each worker of a thread pool always has a read in flight to wait for work,
so dropping a pool leaked a future and what it kept alive per worker.
---
 src/dex-uring-aio-backend.c    |  8 ++++++++
 src/dex-uring-future-private.h |  1 +
 src/dex-uring-future.c         | 14 ++++++++++++++
 3 files changed, 23 insertions(+)

diff --git a/src/dex-uring-aio-backend.c b/src/dex-uring-aio-backend.c
index 41ea405..de8204d 100644
--- a/src/dex-uring-aio-backend.c
+++ b/src/dex-uring-aio-backend.c
@@ -53,6 +53,7 @@ typedef struct _DexUringAioContext
   gpointer         eventfdtag;
   GMutex           mutex;
   GQueue           queued;
+  GQueue           inflight;
   guint            ring_initialized : 1;
 } DexUringAioContext;
 
@@ -117,6 +118,7 @@ again:
       DexUringFuture *future = io_uring_cqe_get_data (cqe);
       dex_uring_future_cqe (future, cqe);
       io_uring_cqe_seen (&aio_context->ring, cqe);
+      g_queue_unlink (&aio_context->inflight, dex_uring_future_get_link (future));
       handledstack[n_handled++] = future;
 
       if G_UNLIKELY (n_handled == G_N_ELEMENTS (handledstack))
@@ -173,6 +175,7 @@ dex_uring_aio_context_prepare (GSource *source,
       future = g_queue_pop_head (&aio_context->queued);
       dex_uring_future_sqe (future, sqe);
       io_uring_sqe_set_data (sqe, future);
+      g_queue_push_tail_link (&aio_context->inflight, dex_uring_future_get_link (future));
     }
 
   if (do_submit || io_uring_sq_ready (&aio_context->ring) > 0)
@@ -208,6 +211,10 @@ dex_uring_aio_context_finalize (GSource *source)
   if (aio_context->ring_initialized)
     io_uring_queue_exit (&aio_context->ring);
 
+  /* There will be no completion for what was still in flight */
+  while (aio_context->inflight.length > 0)
+    dex_unref (g_queue_pop_head_link (&aio_context->inflight)->data);
+
   dex_clear (&aio_context->parent.aio_backend);
   g_mutex_clear (&aio_context->mutex);
 
@@ -245,6 +252,7 @@ dex_uring_aio_context_queue (DexUringAioContext *aio_context,
     {
       dex_uring_future_sqe (future, sqe);
       io_uring_sqe_set_data (sqe, dex_ref (future));
+      g_queue_push_tail_link (&aio_context->inflight, dex_uring_future_get_link (future));
     }
   else
     {
diff --git a/src/dex-uring-future-private.h b/src/dex-uring-future-private.h
index 68a71b3..8c204e7 100644
--- a/src/dex-uring-future-private.h
+++ b/src/dex-uring-future-private.h
@@ -46,5 +46,6 @@ void            dex_uring_future_sqe       (DexUringFuture      *uring_future,
 void            dex_uring_future_cqe       (DexUringFuture      *uring_future,
                                             struct io_uring_cqe *cqe);
 void            dex_uring_future_complete  (DexUringFuture      *uring_future);
+GList          *dex_uring_future_get_link  (DexUringFuture      *uring_future);
 
 G_END_DECLS
diff --git a/src/dex-uring-future.c b/src/dex-uring-future.c
index cd98d57..4d4d366 100644
--- a/src/dex-uring-future.c
+++ b/src/dex-uring-future.c
@@ -36,6 +36,7 @@ typedef enum _DexUringType
 struct _DexUringFuture
 {
   DexFuture parent_instance;
+  GList link;
   DexUringType type;
   union {
     struct {
@@ -73,6 +74,7 @@ dex_uring_future_class_init (DexUringFutureClass *uring_future_class)
 static void
 dex_uring_future_init (DexUringFuture *uring_future)
 {
+  uring_future->link.data = uring_future;
 }
 
 static GError *
@@ -161,6 +163,18 @@ dex_uring_future_sqe (DexUringFuture      *uring_future,
     }
 }
 
+/*
+ * dex_uring_future_get_link:
+ *
+ * Gets the link used by the aio context to track the future while
+ * the operation is in flight.
+ */
+GList *
+dex_uring_future_get_link (DexUringFuture *uring_future)
+{
+  return &uring_future->link;
+}
+
 DexUringFuture *
 dex_uring_future_new_read (int      fd,
                            gpointer buffer,
-- 
2.43.0


From a19c8ac48dcaacc1494eb03f4b7c112230d8afc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 25/30] fix: thread-pool-worker: release the aio context on its
 own thread

io_uring_register_ring_fd() is per thread. Releasing the context of a worker
on the thread dropping the thread pool unregistered the ring of that thread,
which could not submit any operation from there on.
---
 src/dex-thread-pool-worker.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index bdfc4c7..200a857 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -407,6 +407,11 @@ dex_thread_pool_worker_thread_func (gpointer data)
   g_source_destroy (thread_pool_worker->fiber_scheduler);
   g_source_destroy ((GSource *)thread_pool_worker->aio_context);
 
+  /* io_uring registers the ring per thread, so releasing it from another
+   * thread would unregister the ring of that thread instead.
+   */
+  g_clear_pointer ((GSource **)&thread_pool_worker->aio_context, g_source_unref);
+
   thread_pool_worker->status = DEX_THREAD_POOL_WORKER_FINISHED;
   g_main_context_pop_thread_default (thread_pool_worker->main_context);
 
-- 
2.43.0


From 5ee4cab467e75ecd0fd9ddc6ef434bb0721bb6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 26/30] fix: uring: do not truncate the count of an operation
 to 32 bits

A read of 4 GiB and one byte from a large file would have read one byte.
---
 src/dex-uring-future.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dex-uring-future.c b/src/dex-uring-future.c
index 4d4d366..0099ab8 100644
--- a/src/dex-uring-future.c
+++ b/src/dex-uring-future.c
@@ -136,6 +136,11 @@ dex_uring_future_cqe (DexUringFuture      *uring_future,
     }
 }
 
+/* The length of an sqe is 32-bit. The kernel never transfers more than
+ * this for a single read or write, no matter the interface.
+ */
+#define MAX_RW_COUNT 0x7ffff000
+
 void
 dex_uring_future_sqe (DexUringFuture      *uring_future,
                       struct io_uring_sqe *sqe)
@@ -146,7 +151,7 @@ dex_uring_future_sqe (DexUringFuture      *uring_future,
       io_uring_prep_read (sqe,
                           uring_future->read.fd,
                           uring_future->read.buffer,
-                          uring_future->read.count,
+                          MIN (uring_future->read.count, MAX_RW_COUNT),
                           uring_future->read.offset);
       break;
 
@@ -154,7 +159,7 @@ dex_uring_future_sqe (DexUringFuture      *uring_future,
       io_uring_prep_write (sqe,
                            uring_future->write.fd,
                            uring_future->write.buffer,
-                           uring_future->write.count,
+                           MIN (uring_future->write.count, MAX_RW_COUNT),
                            uring_future->write.offset);
       break;
 
-- 
2.43.0


From 2df76cdedc86b3bac47fbefbd8fb760efc64bad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 27/30] fix: async-pair: accept a ready callback without a
 source object

---
 src/dex-async-pair.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dex-async-pair.c b/src/dex-async-pair.c
index d9a218a..1abb166 100644
--- a/src/dex-async-pair.c
+++ b/src/dex-async-pair.c
@@ -80,7 +80,7 @@ dex_async_pair_ready_callback (GObject      *object,
   GError *error = NULL;
   GType gtype;
 
-  g_assert (G_IS_OBJECT (object));
+  g_assert (!object || G_IS_OBJECT (object));
   g_assert (G_IS_ASYNC_RESULT (result));
   g_assert (DEX_IS_ASYNC_PAIR (async_pair));
 
-- 
2.43.0


From 627b464abfd9758d5e956322cfff560132a31f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 28/30] fix: async-result: store the future before its callback
 can run, and keep it

---
 src/dex-async-result.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/dex-async-result.c b/src/dex-async-result.c
index e416c86..1884b81 100644
--- a/src/dex-async-result.c
+++ b/src/dex-async-result.c
@@ -334,8 +334,6 @@ dex_async_result_complete_in_idle_cb (gpointer user_data)
                           G_ASYNC_RESULT (async_result),
                           g_steal_pointer (&async_result->user_data));
 
-  dex_clear (&async_result->future);
-
   return G_SOURCE_REMOVE;
 }
 
@@ -392,7 +390,7 @@ void
 dex_async_result_await (DexAsyncResult *async_result,
                         DexFuture      *future)
 {
-  DexFuture *new_future = NULL;
+  DexFuture *result_future;
   DexFuture *cancellable;
 
   g_return_if_fail (DEX_IS_ASYNC_RESULT (async_result));
@@ -416,19 +414,21 @@ dex_async_result_await (DexAsyncResult *async_result,
   else
     cancellable = dex_cancellable_new_from_cancellable (async_result->cancellable);
 
-  /* We have to be careful about ownership here and ensure we
-   * drop our references when the callback is executed.
+  /* The callback may run on another thread before we return, so store the
+   * future it will propagate from first. That future does not reference
+   * @async_result, unlike the one which calls us back.
    */
-  g_object_ref (async_result);
-  new_future = dex_future_finally (dex_future_first (future, cancellable, NULL),
-                                   dex_async_result_await_cb,
-                                   g_object_ref (async_result),
-                                   g_object_unref);
+  result_future = dex_future_first (future, cancellable, NULL);
+
   g_mutex_lock (&async_result->mutex);
   g_assert (async_result->future == NULL);
-  async_result->future = g_steal_pointer (&new_future);
+  async_result->future = dex_ref (result_future);
   g_mutex_unlock (&async_result->mutex);
-  g_object_unref (async_result);
+
+  dex_future_disown (dex_future_finally (result_future,
+                                         dex_async_result_await_cb,
+                                         g_object_ref (async_result),
+                                         g_object_unref));
 }
 
 void
-- 
2.43.0


From 9b529740d0aeb3f75584c02f63882a36a134ab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:27 +0000
Subject: [PATCH 29/30] fix: gio: dropping a D-Bus call with descriptors
 cancels it

The pending call owned the returned future set, so the set could never be
finalized, its members never be discarded, and the call never cancelled:
a call that gets no reply was leaked for good. Give the call its own
references on the two members instead.
---
 src/dex-gio.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/dex-gio.c b/src/dex-gio.c
index 87f6d30..e77382b 100644
--- a/src/dex-gio.c
+++ b/src/dex-gio.c
@@ -1117,24 +1117,25 @@ dex_dbus_connection_call (GDBusConnection    *connection,
 }
 
 #ifdef G_OS_UNIX
+typedef struct
+{
+  DexAsyncPair *async_pair;
+  DexPromise   *promise;
+} CallWithUnixFDList;
+
 static void
 dex_dbus_connection_call_with_unix_fd_list_cb (GObject      *object,
                                                GAsyncResult *result,
                                                gpointer      user_data)
 {
-  DexFutureSet *future_set = user_data;
-  DexAsyncPair *async_pair;
-  DexPromise *promise;
+  CallWithUnixFDList *state = user_data;
+  DexAsyncPair *async_pair = state->async_pair;
+  DexPromise *promise = state->promise;
   GUnixFDList *fd_list = NULL;
   GVariant *reply = NULL;
   GError *error = NULL;
 
   g_assert (G_IS_DBUS_CONNECTION (object));
-  g_assert (DEX_IS_FUTURE_SET (future_set));
-
-  async_pair = DEX_ASYNC_PAIR (dex_future_set_get_future_at (future_set, 0));
-  promise = DEX_PROMISE (dex_future_set_get_future_at (future_set, 1));
-
   g_assert (DEX_IS_ASYNC_PAIR (async_pair));
   g_assert (DEX_IS_PROMISE (promise));
 
@@ -1154,7 +1155,9 @@ dex_dbus_connection_call_with_unix_fd_list_cb (GObject      *object,
       dex_async_pair_return_error (async_pair, error);
     }
 
-  dex_unref (future_set);
+  dex_unref (async_pair);
+  dex_unref (promise);
+  g_free (state);
 }
 
 /**
@@ -1189,6 +1192,7 @@ dex_dbus_connection_call_with_unix_fd_list (GDBusConnection    *connection,
                                             int                 timeout_msec,
                                             GUnixFDList        *fd_list)
 {
+  CallWithUnixFDList *state;
   DexAsyncPair *async_pair;
   DexPromise *promise;
   DexFuture *ret;
@@ -1202,6 +1206,13 @@ dex_dbus_connection_call_with_unix_fd_list (GDBusConnection    *connection,
   /* Will hold our GUnixFDList result */
   promise = dex_promise_new ();
 
+  /* The operation must not own the set or dropping it would never
+   * discard (and thereby cancel) the call.
+   */
+  state = g_new0 (CallWithUnixFDList, 1);
+  state->async_pair = dex_ref (async_pair);
+  state->promise = dex_ref (promise);
+
   /* Sent to user. Resolving will contain variant. */
   ret = dex_future_all (DEX_FUTURE (async_pair), DEX_FUTURE (promise), NULL);
 
@@ -1217,7 +1228,7 @@ dex_dbus_connection_call_with_unix_fd_list (GDBusConnection    *connection,
                                             fd_list,
                                             async_pair->cancellable,
                                             dex_dbus_connection_call_with_unix_fd_list_cb,
-                                            dex_ref (ret));
+                                            state);
 
   return ret;
 }
-- 
2.43.0


From 066b589fa62e48a9b35e77d5aa4b2e86100f590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:59 +0000
Subject: [PATCH 30/30] fix: posix aio: a pool dropped while its reads were in
 flight leaked them

The completed operation was queued in the context of the pool and kept that
context alive, which in turn kept the operation: the future, the source and
the main context with its descriptor were never released. And as soon as the
operation was queued, its main context could be gone when it was woken up.
---
 src/dex-posix-aio-backend.c        | 26 +++++++++++++++++++++++---
 src/dex-posix-aio-future-private.h |  2 +-
 src/dex-posix-aio-future.c         |  4 ++--
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/dex-posix-aio-backend.c b/src/dex-posix-aio-backend.c
index 77e91a8..63405ef 100644
--- a/src/dex-posix-aio-backend.c
+++ b/src/dex-posix-aio-backend.c
@@ -66,6 +66,7 @@ DEX_DEFINE_FINAL_TYPE (DexPosixAioBackend, dex_posix_aio_backend, DEX_TYPE_AIO_B
 
 static GThreadPool *io_thread_pool;
 
+/* Takes ownership of both @posix_aio_context and @posix_aio_future */
 static void
 dex_posix_aio_context_take (DexPosixAioContext *posix_aio_context,
                             DexPosixAioFuture  *posix_aio_future)
@@ -75,13 +76,26 @@ dex_posix_aio_context_take (DexPosixAioContext *posix_aio_context,
   g_assert (posix_aio_context != NULL);
   g_assert (DEX_IS_POSIX_AIO_FUTURE (posix_aio_future));
 
+  /* The future might be released by the thread of @posix_aio_context as
+   * soon as it is queued, so it cannot be used after that.
+   */
+  if ((main_context = dex_posix_aio_future_get_main_context (posix_aio_future)))
+    g_main_context_ref (main_context);
+
   g_mutex_lock (&posix_aio_context->mutex);
   g_queue_push_tail (&posix_aio_context->completed, posix_aio_future);
-  main_context = dex_posix_aio_future_get_main_context (posix_aio_future);
   g_mutex_unlock (&posix_aio_context->mutex);
 
   if (main_context)
     g_main_context_wakeup (main_context);
+
+  /* This might finalize the source along with the futures queued in it, and
+   * the main context must outlive that.
+   */
+  g_source_unref ((GSource *)posix_aio_context);
+
+  if (main_context)
+    g_main_context_unref (main_context);
 }
 
 static inline void
@@ -145,8 +159,12 @@ dex_posix_aio_context_finalize (GSource *source)
 
   g_assert (aio_context != NULL);
   g_assert (DEX_IS_POSIX_AIO_BACKEND (aio_context->parent.aio_backend));
-  g_assert (aio_context->completed.length == 0);
 
+  /* Nobody will dispatch what completed after the source was destroyed */
+  while (aio_context->completed.length > 0)
+    dex_unref (g_queue_pop_head (&aio_context->completed));
+
+  dex_clear (&aio_context->parent.aio_backend);
   g_mutex_clear (&aio_context->mutex);
 }
 
@@ -216,8 +234,10 @@ dex_posix_aio_backend_worker (gpointer data,
 
   g_assert (DEX_IS_POSIX_AIO_FUTURE (posix_aio_future));
 
-  posix_aio_context = dex_posix_aio_future_get_aio_context (posix_aio_future);
   dex_posix_aio_future_run (posix_aio_future);
+
+  /* A queued future must not keep the context alive which it is queued in */
+  posix_aio_context = dex_posix_aio_future_steal_aio_context (posix_aio_future);
   dex_posix_aio_context_take (posix_aio_context, posix_aio_future);
 }
 
diff --git a/src/dex-posix-aio-future-private.h b/src/dex-posix-aio-future-private.h
index 737d7d0..2bd64a5 100644
--- a/src/dex-posix-aio-future-private.h
+++ b/src/dex-posix-aio-future-private.h
@@ -41,7 +41,7 @@ DexPosixAioFuture  *dex_posix_aio_future_new_write        (DexPosixAioContext  *
                                                            goffset              offset);
 void                dex_posix_aio_future_run              (DexPosixAioFuture   *posix_aio_future);
 void                dex_posix_aio_future_complete         (DexPosixAioFuture   *posix_aio_future);
-DexPosixAioContext *dex_posix_aio_future_get_aio_context  (DexPosixAioFuture *posix_aio_future);
+DexPosixAioContext *dex_posix_aio_future_steal_aio_context (DexPosixAioFuture *posix_aio_future);
 GMainContext       *dex_posix_aio_future_get_main_context (DexPosixAioFuture *posix_aio_future);
 
 G_END_DECLS
diff --git a/src/dex-posix-aio-future.c b/src/dex-posix-aio-future.c
index d136f1c..433366d 100644
--- a/src/dex-posix-aio-future.c
+++ b/src/dex-posix-aio-future.c
@@ -239,11 +239,11 @@ dex_posix_aio_future_complete (DexPosixAioFuture *posix_aio_future)
 }
 
 DexPosixAioContext *
-dex_posix_aio_future_get_aio_context (DexPosixAioFuture *posix_aio_future)
+dex_posix_aio_future_steal_aio_context (DexPosixAioFuture *posix_aio_future)
 {
   g_return_val_if_fail (DEX_IS_POSIX_AIO_FUTURE (posix_aio_future), NULL);
 
-  return posix_aio_future->aio_context;
+  return g_steal_pointer (&posix_aio_future->aio_context);
 }
 
 GMainContext *
-- 
2.43.0

