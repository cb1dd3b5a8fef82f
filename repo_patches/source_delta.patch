From 46d0d89d4c800a27c78b3ddaa633d35c474aac94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 01/44] fix: GGC_ListShift returns the element, not its list
 node

---
 collections/list.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collections/list.c b/collections/list.c
index 9c8b384..465b5d7 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -176,12 +176,14 @@ void GGC_ListUnshiftList(GGC_List to, GGC_List from)
 void *GGC_ListShift(GGC_List list)
 {
     GGC_ListNode node = NULL, head = NULL;
+    void *ret = NULL;
     ggc_size_t len;
 
     GGC_PUSH_2(list, node);
 
     node = GGC_RP(list, head);
     if (node) {
+        ret = GGC_RP(node, el);
         head = GGC_RP(node, next);
         GGC_WP(list, head, head);
         if (!head)
@@ -191,7 +193,7 @@ void *GGC_ListShift(GGC_List list)
         GGC_WD(list, length, len);
     }
 
-    return node;
+    return ret;
 }
 
 /* insert an element after the specified one, in the given list */
-- 
2.43.0


From 6b7a29500c98d92ab636338d76b38810b92f2c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 02/44] fix: inserting after the last list node updates the
 list's tail

---
 collections/list.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collections/list.c b/collections/list.c
index 465b5d7..2e02f4a 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -210,6 +210,8 @@ void GGC_ListInsertAfter(GGC_List list, GGC_ListNode after, void *value)
     next = GGC_RP(after, next);
     GGC_WP(node, next, next);
     GGC_WP(after, next, node);
+    if (!next)
+        GGC_WP(list, tail, node);
 
     len = GGC_RD(list, length) + 1;
     GGC_WD(list, length, len);
@@ -238,6 +240,8 @@ void GGC_ListInsertAfterList(GGC_List to, GGC_ListNode after, GGC_List from)
     next = GGC_RP(after, next);
     GGC_WP(after, next, head);
     GGC_WP(tail, next, next);
+    if (!next)
+        GGC_WP(to, tail, tail);
 
     /* then set the length properly */
     tolen = GGC_RD(to, length) + fromlen;
-- 
2.43.0


From 7750febd5db474a2a641c773c8a8700104e3fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 03/44] fix: adding an empty list to a list leaves it as it is

---
 collections/list.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/collections/list.c b/collections/list.c
index 2e02f4a..051a0f6 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -70,6 +70,11 @@ void GGC_ListPushList(GGC_List to, GGC_List from)
         return;
     }
 
+    if (!GGC_RP(from, head)) {
+        /* nothing to add */
+        return;
+    }
+
     /* they both exist, so we actually need to append */
     tolen = GGC_RD(to, length);
     fromlen = GGC_RD(from, length);
@@ -146,6 +151,11 @@ void GGC_ListUnshiftList(GGC_List to, GGC_List from)
         return;
     }
 
+    if (!GGC_RP(from, head)) {
+        /* nothing to add */
+        return;
+    }
+
     /* they both exist, so we actually need to prepend */
     tolen = GGC_RD(to, length);
     fromlen = GGC_RD(from, length);
@@ -227,6 +237,11 @@ void GGC_ListInsertAfterList(GGC_List to, GGC_ListNode after, GGC_List from)
 
     GGC_PUSH_6(to, after, from, head, tail, next);
 
+    if (!GGC_RP(from, head)) {
+        /* nothing to insert */
+        return;
+    }
+
     /* pull them out of the old list */
     fromlen = GGC_RD(from, length);
     head = GGC_RP(from, head);
-- 
2.43.0


From b71e74f94735007642146b87652a60d6759b4bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 04/44] fix: GGC_GLOBALIZE roots the frame's pointers once, not
 twice

---
 roots.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/roots.c b/roots.c
index 75b7db0..f19fe5c 100644
--- a/roots.c
+++ b/roots.c
@@ -48,6 +48,10 @@ void ggggc_globalize()
     }
     ggggc_pointerStackGlobals->next = gPointerStack;
     ggggc_pointerStackGlobals = gPointerStack;
+
+    /* these are now rooted globally, so must not be rooted (and thus updated
+     * after compaction) a second time while the frame is still pushed */
+    ggggc_pointerStack->size = 0;
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From 4d98d787768bc3330e92e5f8290172e156d7c126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 05/44] fix: GGC_PTR describes pointers beyond the width of an
 int

---
 ggggc/gc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ggggc/gc.h b/ggggc/gc.h
index 6870515..d8925d0 100644
--- a/ggggc/gc.h
+++ b/ggggc/gc.h
@@ -229,7 +229,7 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
 #define GGGGC_OFFSETOF(type, member) \
     ((ggc_size_t) &((type) 0)->member ## __ptr / sizeof(ggc_size_t))
 #define GGC_PTR(type, member) \
-    | (1<<GGGGC_OFFSETOF(type, member))
+    | ((ggc_size_t)1<<GGGGC_OFFSETOF(type, member))
 #define GGC_NO_PTRS | 0
 
 /* macros for array types */
-- 
2.43.0


From e26fb3339866a41f380e6de0f7f51c04951df4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 06/44] fix: GGC_LENGTH reads the array's length

---
 ggggc/gc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ggggc/gc.h b/ggggc/gc.h
index d8925d0..b16e5cb 100644
--- a/ggggc/gc.h
+++ b/ggggc/gc.h
@@ -353,7 +353,7 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
 #define GGC_RAP(object, index)  GGGGC_RP(object, a__ptrs[(index)])
 #define GGC_RAD(object, index)  GGGGC_RD(object, a__data[(index)])
 #define GGC_RUP(object)         ((object)->header.descriptor__ptr->user__ptr)
-#define GGC_LENGTH(object)      ((object)->header.descriptor__ptr->length)
+#define GGC_LENGTH(object)      ((object)->length)
 
 /* because the write barrier forces you to use identifiers, an identifier
  * version of NULL */
-- 
2.43.0


From 3145b8c293f64c5677ce4c23a5374a9f5a966efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 07/44] fix: descriptors for types of more than a word's worth
 of words have no stray pointers

---
 allocator.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/allocator.c b/allocator.c
index dfb161f..28af708 100644
--- a/allocator.c
+++ b/allocator.c
@@ -268,9 +268,29 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
  * given pointer layout */
 struct GGGGC_Descriptor *ggggc_allocateDescriptor(ggc_size_t size, ggc_size_t pointers)
 {
-    ggc_size_t pointersA[1];
+    ggc_size_t *pointersA;
+    ggc_size_t dPWords, i;
+    struct GGGGC_Descriptor *ret;
+
+    /* beyond the first word, there are no pointers */
+    dPWords = GGGGC_DESCRIPTOR_WORDS_REQ(size);
+    if (dPWords < 1) dPWords = 1;
+#ifdef alloca
+    pointersA = (ggc_size_t *)
+        alloca(sizeof(ggc_size_t) * dPWords);
+#else
+    pointersA = (ggc_size_t *)
+        malloc(sizeof(ggc_size_t) * dPWords);
+    if (!pointersA) abort();
+#endif
     pointersA[0] = pointers;
-    return ggggc_allocateDescriptorL(size, pointersA);
+    for (i = 1; i < dPWords; i++) pointersA[i] = 0;
+
+    ret = ggggc_allocateDescriptorL(size, pointersA);
+#ifndef alloca
+    free(pointersA);
+#endif
+    return ret;
 }
 
 /* descriptor allocator when more than one word is required to describe the
-- 
2.43.0


From 3543741dac839b7661a390edceaf7fd166fd523c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 08/44] fix: GGC_PUSH_N sets the size of its pointer stack
 entry

---
 ggggc/push.h | 1 +
 pushgen.c    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ggggc/push.h b/ggggc/push.h
index a1bdb02..a268ac3 100644
--- a/ggggc/push.h
+++ b/ggggc/push.h
@@ -778,6 +778,7 @@ do { \
         alloca(sizeof(struct GGGGC_PointerStack) + sizeof(void *) * ggggc_n); \
     void *ggggc_pptrs[] = (void*[]) pptrs; \
     ggggc_pstack_cur->next = ggggc_pointerStack; \
+    ggggc_pstack_cur->size = ggggc_n; \
     memcpy(ggggc_pstack_cur->pointers, ggggc_pptrs, sizeof(void *) * ggggc_n); \
     ggggc_pstack_cur->pointers[ggggc_n] = NULL; \
     ggggc_pointerStack = ggggc_pstack_cur; \
diff --git a/pushgen.c b/pushgen.c
index ebe3daa..65873a4 100644
--- a/pushgen.c
+++ b/pushgen.c
@@ -83,6 +83,7 @@ int main()
            "        alloca(sizeof(struct GGGGC_PointerStack) + sizeof(void *) * ggggc_n); \\\n"
            "    void *ggggc_pptrs[] = (void*[]) pptrs; \\\n"
            "    ggggc_pstack_cur->next = ggggc_pointerStack; \\\n"
+           "    ggggc_pstack_cur->size = ggggc_n; \\\n"
            "    memcpy(ggggc_pstack_cur->pointers, ggggc_pptrs, sizeof(void *) * ggggc_n); \\\n"
            "    ggggc_pstack_cur->pointers[ggggc_n] = NULL; \\\n"
            "    ggggc_pointerStack = ggggc_pstack_cur; \\\n"
-- 
2.43.0


From 63490f3b4154d4b63f580d27c89f7a0a33ec0a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 09/44] fix: blocking with no other threads running does not
 crash on an empty world barrier

---
 threads.c         | 22 +++++++++++++++-------
 threads/macosx.c  |  4 +---
 threads/posix.c   |  4 +---
 threads/windows.c |  4 +---
 4 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/threads.c b/threads.c
index 4065b26..0714e50 100644
--- a/threads.c
+++ b/threads.c
@@ -37,6 +37,18 @@ GGC_END_TYPE(ThreadInfo,
     GGC_PTR(ThreadInfo, arg)
     )
 
+/* change the number of threads in the world barrier. Must be called with
+ * ggggc_worldBarrierLock held. When every thread is blocked, there's nobody to
+ * stop, and barriers can't have a count of 0, so there's no barrier. */
+static void changeThreadCount(int by)
+{
+    if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
+    else if (ggggc_threadCount > 0) ggc_barrier_destroy(&ggggc_worldBarrier);
+    ggggc_threadCount += by;
+    if (ggggc_threadCount > 0)
+        ggc_barrier_init(&ggggc_worldBarrier, ggggc_threadCount);
+}
+
 /* general purpose thread wrapper */
 static void *ggggcThreadWrapper(void *arg)
 {
@@ -48,8 +60,7 @@ static void *ggggcThreadWrapper(void *arg)
     /* now remove this thread from the thread barrier */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
         GGC_YIELD();
-    ggc_barrier_destroy(&ggggc_worldBarrier);
-    ggc_barrier_init(&ggggc_worldBarrier, --ggggc_threadCount);
+    changeThreadCount(-1);
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
     /* and give back its pools */
@@ -69,9 +80,7 @@ void ggc_pre_blocking()
         GGC_YIELD();
 
     /* take ourselves out of contention */
-    if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
-    else ggc_barrier_destroy(&ggggc_worldBarrier);
-    ggc_barrier_init(&ggggc_worldBarrier, --ggggc_threadCount);
+    changeThreadCount(-1);
 
     /* add our roots and pools */
     blockedPoolListNode.pool = ggggc_gen0;
@@ -97,8 +106,7 @@ void ggc_post_blocking()
      * though. */
 
     /* add ourselves back to the world barrier */
-    ggc_barrier_destroy(&ggggc_worldBarrier);
-    ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
+    changeThreadCount(1);
 
     /* remove our roots and pools from the list */
     if (ggggc_blockedThreadPool0s == &blockedPoolListNode) {
diff --git a/threads/macosx.c b/threads/macosx.c
index d672f93..423ab5b 100644
--- a/threads/macosx.c
+++ b/threads/macosx.c
@@ -78,9 +78,7 @@ int ggc_thread_create(
     /* update our thread barrier */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
         GGC_YIELD();
-    if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
-    else ggc_barrier_destroy(&ggggc_worldBarrier);
-    ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
+    changeThreadCount(1);
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
     /* spawn the pthread */
diff --git a/threads/posix.c b/threads/posix.c
index 34f6449..111b74d 100644
--- a/threads/posix.c
+++ b/threads/posix.c
@@ -57,9 +57,7 @@ int ggc_thread_create(
     /* update our thread barrier */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
         GGC_YIELD();
-    if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
-    else ggc_barrier_destroy(&ggggc_worldBarrier);
-    ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
+    changeThreadCount(1);
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
     /* spawn the pthread */
diff --git a/threads/windows.c b/threads/windows.c
index 15e82f7..448171c 100644
--- a/threads/windows.c
+++ b/threads/windows.c
@@ -84,9 +84,7 @@ int ggc_thread_create(
     /* update our thread barrier */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
         GGC_YIELD();
-    if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
-    else ggc_barrier_destroy(&ggggc_worldBarrier);
-    ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
+    changeThreadCount(1);
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
     /* spawn the thread */
-- 
2.43.0


From a0e29954fe2ab8adb0c671b4181289adf7d7a9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 10/44] fix: a thread which could not be created is not waited
 for by the collector

---
 threads.c         | 9 +++++++++
 threads/macosx.c  | 6 +++++-
 threads/posix.c   | 6 +++++-
 threads/windows.c | 4 +++-
 4 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/threads.c b/threads.c
index 0714e50..6a08f5b 100644
--- a/threads.c
+++ b/threads.c
@@ -69,6 +69,15 @@ static void *ggggcThreadWrapper(void *arg)
     return 0;
 }
 
+/* take back a thread from the world barrier that failed to start */
+static void threadNotCreated()
+{
+    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
+        GGC_YIELD();
+    changeThreadCount(-1);
+    ggc_mutex_unlock(&ggggc_worldBarrierLock);
+}
+
 static ggc_thread_local struct GGGGC_PoolList blockedPoolListNode;
 static ggc_thread_local struct GGGGC_PointerStackList blockedPointerStackListNode;
 
diff --git a/threads/macosx.c b/threads/macosx.c
index 423ab5b..4777660 100644
--- a/threads/macosx.c
+++ b/threads/macosx.c
@@ -67,6 +67,7 @@ int ggc_thread_create(
         GGC_ThreadArg arg
 ) {
     ThreadInfo ti = NULL;
+    int err;
 
     GGC_PUSH_2(arg, ti);
 
@@ -82,8 +83,11 @@ int ggc_thread_create(
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
     /* spawn the pthread */
-    if ((errno = pthread_create(thread, NULL, ggggcThreadWrapper, ti)))
+    if ((err = pthread_create(thread, NULL, ggggcThreadWrapper, ti))) {
+        threadNotCreated();
+        errno = err;
         return -1;
+    }
 
     return 0;
 }
diff --git a/threads/posix.c b/threads/posix.c
index 111b74d..1933435 100644
--- a/threads/posix.c
+++ b/threads/posix.c
@@ -46,6 +46,7 @@ int ggc_thread_create(
         GGC_ThreadArg arg
 ) {
     ThreadInfo ti = NULL;
+    int err;
 
     GGC_PUSH_2(arg, ti);
 
@@ -61,8 +62,11 @@ int ggc_thread_create(
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
     /* spawn the pthread */
-    if ((errno = pthread_create(thread, NULL, ggggcThreadWrapper, ti)))
+    if ((err = pthread_create(thread, NULL, ggggcThreadWrapper, ti))) {
+        threadNotCreated();
+        errno = err;
         return -1;
+    }
 
     return 0;
 }
diff --git a/threads/windows.c b/threads/windows.c
index 448171c..64505b4 100644
--- a/threads/windows.c
+++ b/threads/windows.c
@@ -89,8 +89,10 @@ int ggc_thread_create(
 
     /* spawn the thread */
     *thread = CreateThread(NULL, 0, (LPTHREAD_START_ROUTINE) ggggcThreadWrapper, ti, 0, NULL);
-    if (!*thread)
+    if (!*thread) {
+        threadNotCreated();
         return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 7d86e452248b54db6ea34ab3f1e0cc089056ca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 11/44] fix: define ggc_sem_wait on POSIX systems

---
 threads/posix.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/threads/posix.c b/threads/posix.c
index 1933435..98f3e23 100644
--- a/threads/posix.c
+++ b/threads/posix.c
@@ -35,6 +35,11 @@ BLOCKING(
 )
 #endif
 
+BLOCKING(
+    ggc_sem_wait(ggc_sem_t *sem),
+    sem_wait(sem) ? errno : 0
+)
+
 BLOCKING(
     ggc_mutex_lock(ggc_mutex_t *mutex),
     pthread_mutex_lock(mutex)
-- 
2.43.0


From a7e141acd6ebeffa6afc4a4b3aed2a72197d3caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 12/44] fix: ggc_barrier_wait succeeds in every waiting thread

---
 threads/posix.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/threads/posix.c b/threads/posix.c
index 98f3e23..3d200ad 100644
--- a/threads/posix.c
+++ b/threads/posix.c
@@ -29,9 +29,16 @@ int func \
 }
 
 #if _POSIX_BARRIERS
+static int barrierWait(pthread_barrier_t *barrier)
+{
+    int ret = pthread_barrier_wait(barrier);
+    /* one waiter gets this value, but it's not an error */
+    return (ret == PTHREAD_BARRIER_SERIAL_THREAD) ? 0 : ret;
+}
+
 BLOCKING(
     ggc_barrier_wait(void *barrier),
-    pthread_barrier_wait((pthread_barrier_t *) barrier)
+    barrierWait((pthread_barrier_t *) barrier)
 )
 #endif
 
-- 
2.43.0


From 3d8aa2498313ada21ae315a589f303a6da3a81e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 13/44] fix: JIT pointer stacks of blocked threads are roots

---
 threads.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/threads.c b/threads.c
index 6a08f5b..4ae5c9d 100644
--- a/threads.c
+++ b/threads.c
@@ -80,6 +80,9 @@ static void threadNotCreated()
 
 static ggc_thread_local struct GGGGC_PoolList blockedPoolListNode;
 static ggc_thread_local struct GGGGC_PointerStackList blockedPointerStackListNode;
+#ifdef GGGGC_FEATURE_JITPSTACK
+static ggc_thread_local struct GGGGC_JITPointerStackList blockedJITPointerStackListNode;
+#endif
 
 /* call this before blocking */
 void ggc_pre_blocking()
@@ -98,6 +101,12 @@ void ggc_pre_blocking()
     blockedPointerStackListNode.pointerStack = ggggc_pointerStack;
     blockedPointerStackListNode.next = ggggc_blockedThreadPointerStacks;
     ggggc_blockedThreadPointerStacks = &blockedPointerStackListNode;
+#ifdef GGGGC_FEATURE_JITPSTACK
+    blockedJITPointerStackListNode.cur = ggc_jitPointerStack;
+    blockedJITPointerStackListNode.top = ggc_jitPointerStackEnd;
+    blockedJITPointerStackListNode.next = ggggc_blockedThreadJITPointerStacks;
+    ggggc_blockedThreadJITPointerStacks = &blockedJITPointerStackListNode;
+#endif
 
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
@@ -107,6 +116,9 @@ void ggc_post_blocking()
 {
     struct GGGGC_PoolList *plCur;
     struct GGGGC_PointerStackList *pslCur;
+#ifdef GGGGC_FEATURE_JITPSTACK
+    struct GGGGC_JITPointerStackList **jpslCur;
+#endif
 
     /* get a lock on the thread count etc */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0);
@@ -142,6 +154,14 @@ void ggc_post_blocking()
         }
 
     }
+#ifdef GGGGC_FEATURE_JITPSTACK
+    for (jpslCur = &ggggc_blockedThreadJITPointerStacks; *jpslCur; jpslCur = &(*jpslCur)->next) {
+        if (*jpslCur == &blockedJITPointerStackListNode) {
+            *jpslCur = (*jpslCur)->next;
+            break;
+        }
+    }
+#endif
 
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
-- 
2.43.0


From 756617666dd35e0e2a136990060ef7bc893fab47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 14/44] fix: tagged values on the JIT pointer stack are left
 alone

---
 collector/gembc.c      | 4 ++--
 collector/portablems.c | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index b2e5496..ee4fd91 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -509,7 +509,7 @@ collect:
     for (jpslCur = ggggc_rootJITPointerStackList; jpslCur; jpslCur = jpslCur->next) {
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
-            if (!IS_TAGGED(*((void *) jpsCur)))
+            if (!IS_TAGGED(*jpsCur))
                 TOSEARCH_ADD(jpsCur);
 #else
             int wordIdx;
@@ -987,7 +987,7 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
     for (jpslCur = ggggc_rootJITPointerStackList; jpslCur; jpslCur = jpslCur->next) {
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
-            if (*jpsCur)
+            if (*jpsCur && !IS_TAGGED(*jpsCur))
                 FOLLOW_COMPACTED_OBJECT(*jpsCur);
 #else
             int wordIdx;
diff --git a/collector/portablems.c b/collector/portablems.c
index 9893de6..3ba4825 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -585,8 +585,8 @@ void ggggc_collect0(unsigned char gen)
     for (jpslCur = ggggc_rootJITPointerStackList; jpslCur; jpslCur = jpslCur->next) {
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
-            if (*jpsCur && !IS_TAGGED(*((void *) jpsCur)))
-                mark(*jpsCur);
+            if (*jpsCur && !IS_TAGGED(*jpsCur))
+                mark((struct GGGGC_Header *) *jpsCur);
 #else
             int wordIdx;
             size_t tags = *((ggc_size_t *) jpsCur);
@@ -600,7 +600,7 @@ void ggggc_collect0(unsigned char gen)
                 jpsCur++;
                 /* Lowest bit indicates pointer */
                 if ((tag & 0x1) == 0 && *jpsCur)
-                    mark(*jpsCur);
+                    mark((struct GGGGC_Header *) *jpsCur);
             }
 #endif /* GGGGC_FEATURE_EXTTAG */
         }
-- 
2.43.0


From 1003977309f22cc1a7626651fbf224344bd4e2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 15/44] fix: new and reused pools start with no finalizers or
 survivors

---
 allocator.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/allocator.c b/allocator.c
index 28af708..beb9677 100644
--- a/allocator.c
+++ b/allocator.c
@@ -125,6 +125,10 @@ struct GGGGC_Pool *ggggc_newPool(int mustSucceed)
     /* set it up */
     ret->next = NULL;
     ret->free = ret->start;
+    ret->survivors = 0;
+#ifdef GGGGC_FEATURE_FINALIZERS
+    ret->finalizers = NULL;
+#endif
     ret->end = (ggc_size_t *) ((unsigned char *) ret + GGGGC_POOL_BYTES);
 
     return ret;
-- 
2.43.0


From b10fa8ca718ccdb7d6dc1060a27e710efb7fa979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 16/44] fix: finalizers do not run on objects kept by a full
 collection or in older generations

---
 allocator.c       |  5 +++++
 collector/gembc.c | 16 +++++++++-------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/allocator.c b/allocator.c
index beb9677..48d6b8a 100644
--- a/allocator.c
+++ b/allocator.c
@@ -92,7 +92,12 @@ struct GGGGC_Pool *ggggc_newPool(int mustSucceed)
 {
     struct GGGGC_Pool *ret;
 #ifdef GGGGC_DEBUG_TINY_HEAP
+#ifdef GGGGC_FEATURE_FINALIZERS
+    /* leave room for the finalizers themselves */
+    static ggc_thread_local int allocationsLeft = GGGGC_GENERATIONS * 2;
+#else
     static ggc_thread_local int allocationsLeft = GGGGC_GENERATIONS;
+#endif
 
     if (allocationsLeft-- <= 0) {
         allocationsLeft = 0;
diff --git a/collector/gembc.c b/collector/gembc.c
index ee4fd91..f1db3e3 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -251,8 +251,9 @@ void ggggc_postCompact(struct GGGGC_Pool *);
 static struct ToSearch toSearchList;
 
 #ifdef GGGGC_FEATURE_FINALIZERS
-/* macro to handle the finalizers for a given pool */
-#define FINALIZER_POOL() do { \
+/* macro to handle the finalizers for a given pool. survived is how to determine
+ * if obj (after following any forwarding) survived this collection. */
+#define FINALIZER_POOL(survived) do { \
     finalizer = (GGGGC_FinalizerEntry) poolCur->finalizers; \
     poolCur->finalizers = NULL; \
     while (finalizer) { \
@@ -264,7 +265,8 @@ static struct ToSearch toSearchList;
         \
         /* grab the object */ \
         obj = (struct GGGGC_Header *) finalizer->obj__ptr; \
-        if (IS_FORWARDED_OBJECT(obj)) { \
+        FOLLOW_FORWARDED_OBJECT(obj); \
+        if (survived) { \
             /* it survived, keep the finalizer */ \
             finalizer->next__ptr = survivingFinalizers; \
             survivingFinalizers = finalizer; \
@@ -642,12 +644,12 @@ collect:
             /* add all the finalizers themselves */
             for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
                 for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
+                    FINALIZER_POOL(GGGGC_GEN_OF(obj) > gen);
                 }
             }
             for (genCur = 1; genCur <= gen; genCur++) {
                 for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
+                    FINALIZER_POOL(GGGGC_GEN_OF(obj) > gen);
                 }
             }
 
@@ -931,12 +933,12 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
             /* add all the finalizers themselves */
             for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
                 for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
+                    FINALIZER_POOL(IS_MARKED(obj));
                 }
             }
             for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) {
                 for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
+                    FINALIZER_POOL(IS_MARKED(obj));
                 }
             }
 
-- 
2.43.0


From 9fa73cfc4527c22cacb85a34ac1acea188321ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 17/44] fix: always check finalizers, even if the last pointer
 searched is NULL

---
 collector/gembc.c | 118 +++++++++++++++++++++++++---------------------
 1 file changed, 64 insertions(+), 54 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index f1db3e3..7e148f8 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -557,10 +557,41 @@ collect:
 #endif
 
     /* now test all our pointers */
-    while (toSearch->used) {
+    while (toSearch->used
+#ifdef GGGGC_FEATURE_FINALIZERS
+           || !finalizersChecked
+#endif
+           ) {
         void **ptr;
         struct GGGGC_Header *obj;
 
+#ifdef GGGGC_FEATURE_FINALIZERS
+        /* perhaps check finalizers */
+        if (!toSearch->used) {
+            GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
+
+            finalizersChecked = 1;
+
+            /* add all the finalizers themselves */
+            for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
+                for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
+                    FINALIZER_POOL(GGGGC_GEN_OF(obj) > gen);
+                }
+            }
+            for (genCur = 1; genCur <= gen; genCur++) {
+                for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
+                    FINALIZER_POOL(GGGGC_GEN_OF(obj) > gen);
+                }
+            }
+
+            /* then make sure the finalizer queues get promoted */
+            TOSEARCH_ADD(&survivingFinalizers);
+            TOSEARCH_ADD(&survivingFinalizersTail);
+            TOSEARCH_ADD(&readyFinalizers);
+            continue;
+        }
+#endif /* GGGGC_FEATURE_FINALIZERS */
+
         TOSEARCH_POP(void **, ptr);
         obj = (struct GGGGC_Header *) *ptr;
         if (obj == NULL) continue;
@@ -633,32 +664,6 @@ collect:
             abort();
         }
 #endif
-
-#ifdef GGGGC_FEATURE_FINALIZERS
-        /* perhaps check finalizers */
-        if (!toSearch->used && !finalizersChecked) {
-            GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
-
-            finalizersChecked = 1;
-
-            /* add all the finalizers themselves */
-            for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
-                for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL(GGGGC_GEN_OF(obj) > gen);
-                }
-            }
-            for (genCur = 1; genCur <= gen; genCur++) {
-                for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL(GGGGC_GEN_OF(obj) > gen);
-                }
-            }
-
-            /* then make sure the finalizer queues get promoted */
-            TOSEARCH_ADD(&survivingFinalizers);
-            TOSEARCH_ADD(&survivingFinalizersTail);
-            TOSEARCH_ADD(&readyFinalizers);
-        }
-#endif /* GGGGC_FEATURE_FINALIZERS */
     }
 #endif /* GGGGC_GENERATIONS > 1 */
 
@@ -892,11 +897,42 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 #endif /* GGGGC_FEATURE_JITPSTACK */
 
     /* now mark */
-    while (toSearch->used) {
+    while (toSearch->used
+#ifdef GGGGC_FEATURE_FINALIZERS
+           || !finalizersChecked
+#endif
+           ) {
         void **ptr;
         struct GGGGC_Header *obj;
         ggc_size_t lastMark;
 
+#ifdef GGGGC_FEATURE_FINALIZERS
+        /* possibly start handling finalizers */
+        if (!toSearch->used) {
+            GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
+
+            finalizersChecked = 1;
+
+            /* add all the finalizers themselves */
+            for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
+                for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
+                    FINALIZER_POOL(IS_MARKED(obj));
+                }
+            }
+            for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) {
+                for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
+                    FINALIZER_POOL(IS_MARKED(obj));
+                }
+            }
+
+            /* then make sure the finalizer queues get promoted */
+            TOSEARCH_ADD(&survivingFinalizers);
+            TOSEARCH_ADD(&survivingFinalizersTail);
+            TOSEARCH_ADD(&readyFinalizers);
+            continue;
+        }
+#endif /* GGGGC_FEATURE_FINALIZERS */
+
         TOSEARCH_POP(void **, ptr);
         obj = (struct GGGGC_Header *) *ptr;
         if (obj == NULL) continue;
@@ -922,32 +958,6 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
             /* add its pointers */
             ADD_OBJECT_POINTERS(obj, descriptor);
         }
-
-#ifdef GGGGC_FEATURE_FINALIZERS
-        /* possibly start handling finalizers */
-        if (!toSearch->used && !finalizersChecked) {
-            GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
-
-            finalizersChecked = 1;
-
-            /* add all the finalizers themselves */
-            for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
-                for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL(IS_MARKED(obj));
-                }
-            }
-            for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) {
-                for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL(IS_MARKED(obj));
-                }
-            }
-
-            /* then make sure the finalizer queues get promoted */
-            TOSEARCH_ADD(&survivingFinalizers);
-            TOSEARCH_ADD(&survivingFinalizersTail);
-            TOSEARCH_ADD(&readyFinalizers);
-        }
-#endif /* GGGGC_FEATURE_FINALIZERS */
     }
 
     /* find all our sizes, for later compaction */
-- 
2.43.0


From 66726104589e403ec5dc5d51b7b109557ac20de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 18/44] fix: surviving finalizers do not replace those already
 in the same pool

---
 collector/gembc.c | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 7e148f8..d858b39 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -283,6 +283,30 @@ static struct ToSearch toSearchList;
         finalizer = nextFinalizer; \
     } \
 } while(0)
+
+/* keep a list of finalizers in the pool of its first entry, along with any
+ * finalizers that pool already has */
+static void keepFinalizers(GGGGC_FinalizerEntry finalizers)
+{
+    struct GGGGC_Header *obj = (struct GGGGC_Header *) finalizers;
+    struct GGGGC_Pool *pool;
+    GGGGC_FinalizerEntry first, last;
+
+    if (!obj) return;
+
+    FOLLOW_FORWARDED_OBJECT(obj);
+    first = last = (GGGGC_FinalizerEntry) obj;
+    pool = GGGGC_POOL_OF(first);
+
+    /* find the end of this list */
+    while ((obj = (struct GGGGC_Header *) last->next__ptr)) {
+        FOLLOW_FORWARDED_OBJECT(obj);
+        last = (GGGGC_FinalizerEntry) obj;
+    }
+
+    last->next__ptr = (GGGGC_FinalizerEntry) pool->finalizers;
+    pool->finalizers = first;
+}
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
@@ -625,14 +649,8 @@ collect:
             if (!nobj) {
 #ifdef GGGGC_FEATURE_FINALIZERS
                 /* preserve all finalizers */
-                if (survivingFinalizers) {
-                    poolCur = GGGGC_POOL_OF(survivingFinalizers);
-                    poolCur->finalizers = survivingFinalizers;
-                    survivingFinalizersTail->next__ptr = readyFinalizers;
-                } else if (readyFinalizers) {
-                    poolCur = GGGGC_POOL_OF(readyFinalizers);
-                    poolCur->finalizers = readyFinalizers;
-                }
+                keepFinalizers(survivingFinalizers);
+                keepFinalizers(readyFinalizers);
                 survivingFinalizers = survivingFinalizersTail =
                     readyFinalizers = NULL;
 #endif
@@ -671,10 +689,7 @@ postCollect:
 
 #ifdef GGGGC_FEATURE_FINALIZERS
     /* preserve surviving finalizers */
-    if (survivingFinalizers) {
-        poolCur = GGGGC_POOL_OF(survivingFinalizers);
-        poolCur->finalizers = survivingFinalizers;
-    }
+    keepFinalizers(survivingFinalizers);
 #endif
 
     /* heuristically expand too-small generations */
-- 
2.43.0


From 8947da300576380dac005447ffafb7a40e90db25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 19/44] fix: descriptor allocation does not collect while
 holding a lock, or return a stale descriptor

---
 allocator.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/allocator.c b/allocator.c
index 48d6b8a..5c71961 100644
--- a/allocator.c
+++ b/allocator.c
@@ -238,14 +238,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
     if (ddSize != size)
         ddd = ggggc_allocateDescriptorDescriptor(ddSize);
 
-    /* otherwise, need to allocate one. First lock the space */
-    ggc_mutex_lock_raw(&ggggc_descriptorDescriptorsLock);
-    if (ggggc_descriptorDescriptors[size]) {
-        ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);
-        return ggggc_descriptorDescriptors[size];
-    }
-
-    /* allocate the descriptor descriptor */
+    /* otherwise, need to allocate one. This may collect, so it's done without
+     * holding any lock */
     ret = (struct GGGGC_Descriptor *) ggggc_mallocRaw(&ddd, ddSize);
 
     /* make it correct */
@@ -262,7 +256,12 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
     ret->tags[GGGGC_OFFSETOF(struct GGGGC_Descriptor *, user)] = 0;
 #endif
 
-    /* put it in the list */
+    /* put it in the list, unless another thread was faster */
+    ggc_mutex_lock_raw(&ggggc_descriptorDescriptorsLock);
+    if (ggggc_descriptorDescriptors[size]) {
+        ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);
+        return ggggc_descriptorDescriptors[size];
+    }
     ggggc_descriptorDescriptors[size] = ret;
     ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);
     {
@@ -270,7 +269,7 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
         GGC_GLOBALIZE();
     }
 
-    return ret;
+    return ggggc_descriptorDescriptors[size];
 }
 
 /* allocate a descriptor for an object of the given size in words with the
@@ -451,14 +450,20 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDA(ggc_size_t size)
 /* allocate a descriptor from a descriptor slot */
 struct GGGGC_Descriptor *ggggc_allocateDescriptorSlot(struct GGGGC_DescriptorSlot *slot)
 {
+    struct GGGGC_Descriptor *descriptor;
+
     if (slot->descriptor) return slot->descriptor;
+
+    /* this may collect, so it's done without holding any lock */
+    descriptor = ggggc_allocateDescriptor(slot->size, slot->pointers);
+
+    /* put it in the slot, unless another thread was faster */
     ggc_mutex_lock_raw(&slot->lock);
     if (slot->descriptor) {
         ggc_mutex_unlock(&slot->lock);
         return slot->descriptor;
     }
-
-    slot->descriptor = ggggc_allocateDescriptor(slot->size, slot->pointers);
+    slot->descriptor = descriptor;
     ggc_mutex_unlock(&slot->lock);
 
     /* make the slot descriptor a root */
-- 
2.43.0


From 76ece2302ee4edb855fb8f37282276b5915e3f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 20/44] fix: descriptors stay rooted after the thread which
 first used them exits

---
 allocator.c            | 12 +++---------
 collector/gembc.c      |  7 ++++++-
 collector/portablems.c |  8 ++++++++
 ggggc-internals.h      |  7 +++++++
 globals.c              |  1 +
 roots.c                | 20 ++++++++++++++++++++
 6 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/allocator.c b/allocator.c
index 5c71961..7e2e0f0 100644
--- a/allocator.c
+++ b/allocator.c
@@ -263,11 +263,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
         return ggggc_descriptorDescriptors[size];
     }
     ggggc_descriptorDescriptors[size] = ret;
+    ggggc_globalRoot(&ggggc_descriptorDescriptors[size]);
     ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);
-    {
-        GGC_PUSH_1(ggggc_descriptorDescriptors[size]);
-        GGC_GLOBALIZE();
-    }
 
     return ggggc_descriptorDescriptors[size];
 }
@@ -464,13 +461,10 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorSlot(struct GGGGC_DescriptorSlo
         return slot->descriptor;
     }
     slot->descriptor = descriptor;
-    ggc_mutex_unlock(&slot->lock);
 
     /* make the slot descriptor a root */
-    {
-        GGC_PUSH_1(slot->descriptor);
-        GGC_GLOBALIZE();
-    }
+    ggggc_globalRoot(&slot->descriptor);
+    ggc_mutex_unlock(&slot->lock);
 
     return slot->descriptor;
 }
diff --git a/collector/gembc.c b/collector/gembc.c
index d858b39..56e58d5 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -436,7 +436,7 @@ void ggggc_collect0(unsigned char gen)
 {
     struct GGGGC_PoolList pool0Node, *plCur;
     struct GGGGC_Pool *poolCur;
-    struct GGGGC_PointerStackList pointerStackNode, *pslCur;
+    struct GGGGC_PointerStackList pointerStackNode, globalRootsNode, *pslCur;
     struct GGGGC_PointerStack *psCur;
     struct ToSearch *toSearch;
     unsigned char genCur;
@@ -491,6 +491,11 @@ void ggggc_collect0(unsigned char gen)
     /* wait for them to fill roots */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
 
+    /* with the world stopped, nobody is adding process-wide roots */
+    globalRootsNode.pointerStack = ggggc_globalRoots;
+    globalRootsNode.next = ggggc_rootPointerStackList;
+    ggggc_rootPointerStackList = &globalRootsNode;
+
 #ifdef GGGGC_DEBUG_REPORT_COLLECTIONS
     report(gen, "pre-collection");
 #endif
diff --git a/collector/portablems.c b/collector/portablems.c
index 3ba4825..045cadf 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -141,6 +141,9 @@ void *ggggc_malloc(struct GGGGC_Descriptor *descriptor)
     return ret;
 }
 
+/* the process-wide roots, during a collection */
+static struct GGGGC_PointerStackList globalRootsNode;
+
 /* generalized stop-the-world */
 static void stopTheWorld(
     struct GGGGC_PoolList *pool0Node,
@@ -185,6 +188,11 @@ static void stopTheWorld(
 
     /* wait for them to fill roots */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
+
+    /* with the world stopped, nobody is adding process-wide roots */
+    globalRootsNode.pointerStack = ggggc_globalRoots;
+    globalRootsNode.next = ggggc_rootPointerStackList;
+    ggggc_rootPointerStackList = &globalRootsNode;
 }
 
 /* generalized restart-the-world */
diff --git a/ggggc-internals.h b/ggggc-internals.h
index 8f8f058..1985e1b 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -49,6 +49,13 @@ void ggggc_freeGeneration(struct GGGGC_Pool *proto);
 /* run a collection */
 void ggggc_collect0(unsigned char gen);
 
+/* make the pointer at this (permanent) location a root for as long as the
+ * process runs, rather than for as long as the current thread runs */
+void ggggc_globalRoot(void *ptr);
+
+/* the roots so added. Changes are protected by ggggc_rootsLock. */
+extern struct GGGGC_PointerStack *ggggc_globalRoots;
+
 /* ggggc_worldBarrierLock protects:
  *  ggggc_worldBarrier
  *  ggggc_threadCount
diff --git a/globals.c b/globals.c
index 136fb25..40a9fb8 100644
--- a/globals.c
+++ b/globals.c
@@ -14,6 +14,7 @@ ggc_mutex_t ggggc_worldBarrierLock = GGC_MUTEX_INITIALIZER;
 ggc_mutex_t ggggc_rootsLock = GGC_MUTEX_INITIALIZER;
 struct GGGGC_PoolList *ggggc_rootPool0List;
 struct GGGGC_PointerStackList *ggggc_rootPointerStackList;
+struct GGGGC_PointerStack *ggggc_globalRoots;
 struct GGGGC_PoolList *ggggc_blockedThreadPool0s;
 struct GGGGC_PointerStackList *ggggc_blockedThreadPointerStacks;
 #ifdef GGGGC_FEATURE_JITPSTACK
diff --git a/roots.c b/roots.c
index f19fe5c..95c3a67 100644
--- a/roots.c
+++ b/roots.c
@@ -22,6 +22,7 @@
 #include <sys/types.h>
 
 #include "ggggc/gc.h"
+#include "ggggc-internals.h"
 
 #ifdef __cplusplus
 extern "C" {
@@ -54,6 +55,25 @@ void ggggc_globalize()
     ggggc_pointerStack->size = 0;
 }
 
+/* make a permanent location a root, no matter which threads live */
+void ggggc_globalRoot(void *ptr)
+{
+    struct GGGGC_PointerStack *root;
+
+    root = (struct GGGGC_PointerStack *) malloc(sizeof(struct GGGGC_PointerStack));
+    if (!root) {
+        perror("malloc");
+        abort();
+    }
+    root->size = 1;
+    root->pointers[0] = ptr;
+
+    ggc_mutex_lock_raw(&ggggc_rootsLock);
+    root->next = ggggc_globalRoots;
+    ggggc_globalRoots = root;
+    ggc_mutex_unlock(&ggggc_rootsLock);
+}
+
 #ifdef __cplusplus
 }
 #endif
-- 
2.43.0


From 11394775d0a80a7d0626accb11d0b24bb739ba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 21/44] fix: the table of descriptor descriptors has room for
 externally tagged descriptors

---
 ggggc-internals.h | 2 +-
 globals.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ggggc-internals.h b/ggggc-internals.h
index 1985e1b..5f46353 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -114,7 +114,7 @@ extern struct GGGGC_Pool *ggggc_gens[GGGGC_GENERATIONS];
 extern struct GGGGC_Pool *ggggc_pools[GGGGC_GENERATIONS];
 
 /* descriptor descriptors */
-extern struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_WORDS_PER_POOL/GGGGC_BITS_PER_WORD+sizeof(struct GGGGC_Descriptor)];
+extern struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_DESCRIPTOR_WORDS_REQ(GGGGC_WORDS_PER_POOL)+sizeof(struct GGGGC_Descriptor)];
 
 /* and a lock for the descriptor descriptors */
 extern ggc_mutex_t ggggc_descriptorDescriptorsLock;
diff --git a/globals.c b/globals.c
index 40a9fb8..0cf3581 100644
--- a/globals.c
+++ b/globals.c
@@ -25,5 +25,5 @@ ggc_thread_local struct GGGGC_Pool *ggggc_gen0;
 ggc_thread_local struct GGGGC_Pool *ggggc_pool0;
 struct GGGGC_Pool *ggggc_gens[GGGGC_GENERATIONS];
 struct GGGGC_Pool *ggggc_pools[GGGGC_GENERATIONS];
-struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_WORDS_PER_POOL/GGGGC_BITS_PER_WORD+sizeof(struct GGGGC_Descriptor)];
+struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_DESCRIPTOR_WORDS_REQ(GGGGC_WORDS_PER_POOL)+sizeof(struct GGGGC_Descriptor)];
 ggc_mutex_t ggggc_descriptorDescriptorsLock;
-- 
2.43.0


From d4070f70123be215f667967d23695ec331bb1238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 22/44] fix: finalizer functions pop their pointers without GNU
 C cleanup

---
 allocator.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/allocator.c b/allocator.c
index 7e2e0f0..bec8e0c 100644
--- a/allocator.c
+++ b/allocator.c
@@ -503,6 +503,8 @@ void ggggc_finalize(void *obj, ggc_finalizer_t finalizer)
     next = (GGGGC_FinalizerEntry) pool->finalizers;
     GGC_WP(entry, next, next);
     pool->finalizers = entry;
+
+    GGC_POP();
 }
 
 /* and function for running finalizers */
@@ -522,6 +524,8 @@ void ggggc_runFinalizers(GGGGC_FinalizerEntry finalizers)
 
         finalizer = GGC_RP(finalizer, next);
     }
+
+    GGC_POP();
 }
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
-- 
2.43.0


From 9a3c4397e8e9af6d8ffbf768242335bde128eceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 23/44] fix: portablems finalizers compile with JIT pointer
 stacks and as C++

---
 collector/portablems.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index 045cadf..bca8772 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -209,6 +209,9 @@ struct GGGGC_Pool *ggggc_poolOf(void *obj)
 {
     struct GGGGC_PoolList *plCur, pool0Node;
     struct GGGGC_PointerStackList pointerStackNode;
+#ifdef GGGGC_FEATURE_JITPSTACK
+    struct GGGGC_JITPointerStackList jitPointerStackNode;
+#endif
 
     /* hopefully it's a local pool, so we can simply find it */
     struct GGGGC_Pool *pool;
@@ -220,7 +223,12 @@ struct GGGGC_Pool *ggggc_poolOf(void *obj)
     /* Not a local pool. We have to stop the world to scan all the other
      * threads' pools, and in portablems, the only way to do that is a complete
      * collection. */
-    stopTheWorld(&pool0Node, &pointerStackNode);
+    stopTheWorld(
+        &pool0Node, &pointerStackNode
+#ifdef GGGGC_FEATURE_JITPSTACK
+        , &jitPointerStackNode
+#endif
+    );
 
     for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
         for (pool = plCur->pool; pool; pool = pool->next) {
@@ -648,7 +656,7 @@ void ggggc_collect0(unsigned char gen)
         struct GGGGC_Pool *pool;
         for (pool = plCur->pool; pool; pool = pool->next) {
             if (pool->finalizers)
-                mark(pool->finalizers);
+                mark((struct GGGGC_Header *) pool->finalizers);
         }
     }
     if (readyFinalizers)
-- 
2.43.0


From 5cb35163a2522ccc538f8f0eb03442225e45b6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 24/44] fix: scanning the remembered set does not read past the
 end of a full pool

---
 collector/gembc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 56e58d5..94b1275 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -573,7 +573,7 @@ collect:
                         ADD_OBJECT_POINTERS(obj, obj->descriptor__ptr);
                         obj = (struct GGGGC_Header *)
                             ((ggc_size_t) obj + obj->descriptor__ptr->size * sizeof(ggc_size_t));
-                        if (obj->descriptor__ptr == NULL) break;
+                        if ((ggc_size_t *) obj >= poolCur->free) break;
                     }
                 }
             }
-- 
2.43.0


From aa40700b1409e95099a491759f8d04bede77ce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 25/44] fix: compaction does not read past the end of a chunk

---
 collector/gembc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 94b1275..c1edcd6 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -1190,7 +1190,7 @@ void ggggc_compact(struct GGGGC_Pool *pool)
             *btEnd++ = *bt++;
 
             /* and copy in the data */
-            for (j = 0; j < sizeof(struct BreakTableEl) / sizeof(ggc_size_t); j++)
+            for (j = 0; j < sizeof(struct BreakTableEl) / sizeof(ggc_size_t) && i + j < chSize; j++)
                 pool->free[i+j] = cur[i+j];
         }
 
-- 
2.43.0


From 1f4bbc9bf6facbdefa09170309a307351ac4262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 26/44] fix: memory corruption checking accepts a break table
 which exactly fits

---
 collector/gembc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index c1edcd6..b724a97 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -1203,14 +1203,14 @@ void ggggc_compact(struct GGGGC_Pool *pool)
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
         if ((ggc_size_t *) bt < pool->free) abort();
-        if ((ggc_size_t *) btEnd >= cur + fchSize) abort();
+        if ((ggc_size_t *) btEnd > cur + fchSize) abort();
 #endif
 
         if (cur >= pool->end) break;
     }
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
-    if ((ggc_size_t *) btEnd >= pool->end) abort();
+    if ((ggc_size_t *) btEnd > pool->end) abort();
 #endif
 
     pool->breakTableSize = btEnd - bt;
-- 
2.43.0


From a49c0cb6403f6c85a37ba612c4cf98ae5776e977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 27/44] fix: the mmap allocator notices when mmap fails

---
 allocator/mmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocator/mmap.c b/allocator/mmap.c
index d78474e..4ed7cfc 100644
--- a/allocator/mmap.c
+++ b/allocator/mmap.c
@@ -23,7 +23,7 @@ static void *allocPool(int mustSucceed)
 
     /* allocate enough space that we can align it later */
     space = (unsigned char *) mmap(NULL, GGGGC_POOL_BYTES*2, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANON, -1, 0);
-    if (space == NULL) {
+    if (space == MAP_FAILED) {
         if (mustSucceed) {
             perror("mmap");
             abort();
-- 
2.43.0


From dbb536f9191ce1a364e5eb2b82f9435b4991155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 28/44] fix: the malloc allocator releases its lock when malloc
 fails

---
 allocator/malloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/allocator/malloc.c b/allocator/malloc.c
index 1aab88b..26936a7 100644
--- a/allocator/malloc.c
+++ b/allocator/malloc.c
@@ -37,6 +37,7 @@ static void *allocPool(int mustSucceed)
                 perror("malloc");
                 abort();
             }
+            ggc_mutex_unlock(&poolLock);
             return NULL;
         }
         spaceEnd = space + GGGGC_POOL_BYTES * i;
-- 
2.43.0


From 5811b9a99a946e2bf6078d5f12d103841ec197a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:46 +0000
Subject: [PATCH 29/44] fix: portablems sweeps the heaps of blocked threads

---
 collector/portablems.c | 70 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 68 insertions(+), 2 deletions(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index bca8772..bfcb679 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -195,11 +195,20 @@ static void stopTheWorld(
     ggggc_rootPointerStackList = &globalRootsNode;
 }
 
+static void clearOther(struct GGGGC_Pool *pool);
+
 /* generalized restart-the-world */
 static void restartTheWorld()
 {
+    struct GGGGC_PoolList *plCur;
+
     /* free the other threads */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
+
+    /* everybody's done sweeping, so finish sweeping for blocked threads */
+    for (plCur = ggggc_blockedThreadPool0s; plCur; plCur = plCur->next)
+        clearOther(plCur->pool);
+
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
 
@@ -530,6 +539,59 @@ static void sweep(struct GGGGC_Pool *pool)
         lastFree->next = NULL;
 }
 
+/* Threads which are blocked cannot sweep their own heaps, so the collecting
+ * thread must do so for them. Otherwise, objects they use would stay marked,
+ * and be taken as already marked (along with everything they refer to) by the
+ * next collection, and objects they don't use would outlive their descriptors.
+ * Their free lists are theirs, however, so the newly freed objects are only
+ * added to the free list when they next sweep for themselves. */
+
+/* sweep another thread's heap */
+static void sweepOther(struct GGGGC_Pool *pool)
+{
+    for (; pool; pool = pool->next) {
+        ggc_size_t *cur = pool->start, size;
+        pool->survivors = 0;
+        while (cur < pool->end) {
+            struct FreeListNode *fl = (struct FreeListNode *) (void *) cur;
+            if (fl->zero & 1) {
+                /* marked, so still in use */
+                fl->zero--;
+                size = ((struct GGGGC_Header *) (void *) cur)->descriptor__ptr->size;
+                pool->survivors += size;
+            } else if (fl->zero == 0) {
+                /* already free */
+                size = fl->size;
+            } else {
+                /* Free this object. Like in sweep, its size can't be put in the
+                 * correct place yet. */
+                size = ((struct GGGGC_Header *) (void *) cur)->descriptor__ptr->size;
+                fl->zero = (size << 1) | 1;
+            }
+            cur += size;
+        }
+    }
+}
+
+/* finish freeing the objects found by sweepOther */
+static void clearOther(struct GGGGC_Pool *pool)
+{
+    for (; pool; pool = pool->next) {
+        ggc_size_t *cur = pool->start;
+        while (cur < pool->end) {
+            struct FreeListNode *fl = (struct FreeListNode *) (void *) cur;
+            if (fl->zero & 1) {
+                fl->size = fl->zero >> 1;
+                fl->zero = 0;
+            }
+            if (fl->zero)
+                cur += ((struct GGGGC_Header *) (void *) cur)->descriptor__ptr->size;
+            else
+                cur += fl->size;
+        }
+    }
+}
+
 /* clear the free list after sweeping */
 void clearFreeList()
 {
@@ -566,8 +628,8 @@ void ggggc_collect0(unsigned char gen)
     struct GGGGC_JITPointerStackList jitPointerStackNode, *jpslCur;
     void **jpsCur;
 #endif
-#ifdef GGGGC_FEATURE_FINALIZERS
     struct GGGGC_PoolList *plCur;
+#ifdef GGGGC_FEATURE_FINALIZERS
     GGGGC_FinalizerEntry readyFinalizers = NULL;
 #endif
 
@@ -666,7 +728,11 @@ void ggggc_collect0(unsigned char gen)
     /* indicate that we're now ready to sweep */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
 
-    /* sweep our own heap */
+    /* sweep the heaps of blocked threads */
+    for (plCur = ggggc_blockedThreadPool0s; plCur; plCur = plCur->next)
+        sweepOther(plCur->pool);
+
+    /* and sweep our own heap */
     sweep(ggggc_gen0);
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
-- 
2.43.0


From 69a1999a35eb7dbd4f72ca77de1680d2aad7e8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 30/44] fix: objects allocated by a thread which has exited
 survive while they are in use

---
 allocator.c            | 46 +++++++++++++++++++++++++++++++++++++++-
 collector/gembc.c      | 16 +++++++++++---
 collector/portablems.c | 48 +++++++++++++++++++++++++++++++++++++-----
 ggggc-internals.h      | 18 +++++++++++++++-
 globals.c              |  1 +
 threads.c              |  7 +++---
 6 files changed, 123 insertions(+), 13 deletions(-)

diff --git a/allocator.c b/allocator.c
index bec8e0c..3065c80 100644
--- a/allocator.c
+++ b/allocator.c
@@ -177,7 +177,51 @@ void ggggc_expandPoolList(struct GGGGC_Pool *poolList,
     }
 }
 
-/* free a generation (used when a thread exits) */
+/* Pools of threads which have exited. Other threads may still be using the
+ * objects in them, so they're only free once a collection has emptied them. */
+
+/* leave behind a list of pools without an owner */
+void ggggc_orphanPools(struct GGGGC_Pool *pool)
+{
+    struct GGGGC_Pool *last = pool;
+    if (!pool) return;
+    while (last->next) last = last->next;
+    ggc_mutex_lock_raw(&freePoolsLock);
+    last->next = ggggc_orphanPool0s;
+    ggggc_orphanPool0s = pool;
+    ggc_mutex_unlock(&freePoolsLock);
+}
+
+/* take over a pool left behind by another thread, if there is one */
+struct GGGGC_Pool *ggggc_adoptPool()
+{
+    struct GGGGC_Pool *ret;
+    ggc_mutex_lock_raw(&freePoolsLock);
+    ret = ggggc_orphanPool0s;
+    if (ret) {
+        ggggc_orphanPool0s = ret->next;
+        ret->next = NULL;
+    }
+    ggc_mutex_unlock(&freePoolsLock);
+    return ret;
+}
+
+/* after collection, leave behind those pools in a list which are still in use,
+ * and free the rest */
+void ggggc_reorphanPools(struct GGGGC_Pool *pool)
+{
+    struct GGGGC_Pool *next;
+    for (; pool; pool = next) {
+        next = pool->next;
+        pool->next = NULL;
+        if (pool->free > pool->start)
+            ggggc_orphanPools(pool);
+        else
+            ggggc_freeGeneration(pool);
+    }
+}
+
+/* free a generation (used when nothing in it is used any more) */
 void ggggc_freeGeneration(struct GGGGC_Pool *pool)
 {
     if (!pool) return;
diff --git a/collector/gembc.c b/collector/gembc.c
index b724a97..629eb13 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -76,7 +76,9 @@ retry:
     if (ggggc_pool0) {
         pool = ggggc_pool0;
     } else {
-        ggggc_gen0 = ggggc_pool0 = pool = ggggc_newPoolGen(0, 1);
+        pool = ggggc_adoptPool();
+        if (!pool) pool = ggggc_newPoolGen(0, 1);
+        ggggc_gen0 = ggggc_pool0 = pool;
     }
 
     /* do we have enough space? */
@@ -434,7 +436,7 @@ static void report(unsigned char gen, const char *when)
 /* run a generation 0 collection */
 void ggggc_collect0(unsigned char gen)
 {
-    struct GGGGC_PoolList pool0Node, *plCur;
+    struct GGGGC_PoolList pool0Node, orphanNode, *plCur;
     struct GGGGC_Pool *poolCur;
     struct GGGGC_PointerStackList pointerStackNode, globalRootsNode, *pslCur;
     struct GGGGC_PointerStack *psCur;
@@ -491,7 +493,11 @@ void ggggc_collect0(unsigned char gen)
     /* wait for them to fill roots */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
 
-    /* with the world stopped, nobody is adding process-wide roots */
+    /* with the world stopped, nobody is adding process-wide roots or adopting
+     * orphaned pools */
+    orphanNode.pool = ggggc_orphanPool0s;
+    orphanNode.next = ggggc_rootPool0List;
+    ggggc_rootPool0List = &orphanNode;
     globalRootsNode.pointerStack = ggggc_globalRoots;
     globalRootsNode.next = ggggc_rootPointerStackList;
     ggggc_rootPointerStackList = &globalRootsNode;
@@ -745,6 +751,10 @@ postCollect:
     memoryCorruptionCheck("post-collection");
 #endif
 
+    /* free the pools we emptied which nobody owns */
+    ggggc_orphanPool0s = NULL;
+    ggggc_reorphanPools(orphanNode.pool);
+
     /* free the other threads */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
diff --git a/collector/portablems.c b/collector/portablems.c
index bfcb679..731df9c 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -52,6 +52,29 @@ static struct GGGGC_Pool *ggggc_newPoolFree(int mustSucceed)
     return pool;
 }
 
+/* adopt a pool left behind by another thread, and add its free space to the
+ * free list */
+static struct GGGGC_Pool *adoptPoolFree()
+{
+    struct GGGGC_Pool *pool = ggggc_adoptPool();
+    ggc_size_t *cur;
+
+    if (!pool) return NULL;
+
+    for (cur = pool->start; cur < pool->end;) {
+        struct FreeListNode *node = (struct FreeListNode *) (void *) cur;
+        if (node->zero) {
+            cur += ((struct GGGGC_Header *) (void *) cur)->descriptor__ptr->size;
+        } else {
+            cur += node->size;
+            node->next = freeList;
+            freeList = node;
+        }
+    }
+
+    return pool;
+}
+
 /* allocate an object */
 void *ggggc_mallocRaw(struct GGGGC_Descriptor **descriptor, ggc_size_t size)
 {
@@ -91,7 +114,9 @@ retry:
         /* Not enough space. Collect and maybe allocate more. */
         if (!ggggc_gen0) {
             /* We don't have any space at all! */
-            ggggc_gen0 = ggggc_pool0 = ggggc_newPoolFree(1);
+            ggggc_gen0 = ggggc_pool0 = adoptPoolFree();
+            if (!ggggc_gen0)
+                ggggc_gen0 = ggggc_pool0 = ggggc_newPoolFree(1);
             goto retry;
         }
 
@@ -141,8 +166,9 @@ void *ggggc_malloc(struct GGGGC_Descriptor *descriptor)
     return ret;
 }
 
-/* the process-wide roots, during a collection */
+/* the process-wide roots and orphaned pools, during a collection */
 static struct GGGGC_PointerStackList globalRootsNode;
+static struct GGGGC_PoolList orphanNode;
 
 /* generalized stop-the-world */
 static void stopTheWorld(
@@ -189,7 +215,12 @@ static void stopTheWorld(
     /* wait for them to fill roots */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
 
-    /* with the world stopped, nobody is adding process-wide roots */
+    /* with the world stopped, nobody is adding process-wide roots or adopting
+     * orphaned pools */
+    orphanNode.pool = ggggc_orphanPool0s;
+    ggggc_orphanPool0s = NULL;
+    orphanNode.next = ggggc_rootPool0List;
+    ggggc_rootPool0List = &orphanNode;
     globalRootsNode.pointerStack = ggggc_globalRoots;
     globalRootsNode.next = ggggc_rootPointerStackList;
     ggggc_rootPointerStackList = &globalRootsNode;
@@ -201,13 +232,19 @@ static void clearOther(struct GGGGC_Pool *pool);
 static void restartTheWorld()
 {
     struct GGGGC_PoolList *plCur;
+    struct GGGGC_Pool *pool;
 
     /* free the other threads */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
 
-    /* everybody's done sweeping, so finish sweeping for blocked threads */
+    /* everybody's done sweeping, so finish sweeping for blocked threads, and
+     * those which have exited */
     for (plCur = ggggc_blockedThreadPool0s; plCur; plCur = plCur->next)
         clearOther(plCur->pool);
+    clearOther(orphanNode.pool);
+    for (pool = orphanNode.pool; pool; pool = pool->next)
+        pool->free = pool->survivors ? pool->end : pool->start;
+    ggggc_reorphanPools(orphanNode.pool);
 
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
@@ -728,9 +765,10 @@ void ggggc_collect0(unsigned char gen)
     /* indicate that we're now ready to sweep */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
 
-    /* sweep the heaps of blocked threads */
+    /* sweep the heaps of blocked threads, and those which have exited */
     for (plCur = ggggc_blockedThreadPool0s; plCur; plCur = plCur->next)
         sweepOther(plCur->pool);
+    sweepOther(orphanNode.pool);
 
     /* and sweep our own heap */
     sweep(ggggc_gen0);
diff --git a/ggggc-internals.h b/ggggc-internals.h
index 5f46353..b9579d9 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -43,9 +43,20 @@ void ggggc_expandPoolList(struct GGGGC_Pool *poolList,
                           struct GGGGC_Pool *(*newPool)(struct GGGGC_Pool *),
                           int ratio);
 
-/* free a generation (used when a thread exits) */
+/* free a generation (used when nothing in it is used any more) */
 void ggggc_freeGeneration(struct GGGGC_Pool *proto);
 
+/* leave behind a list of pools without an owner (used when a thread exits, with
+ * ggggc_worldBarrierLock held) */
+void ggggc_orphanPools(struct GGGGC_Pool *pool);
+
+/* take over a pool left behind by another thread, if there is one */
+struct GGGGC_Pool *ggggc_adoptPool(void);
+
+/* after collection, leave behind those pools in a list which are still in use,
+ * and free the rest */
+void ggggc_reorphanPools(struct GGGGC_Pool *pool);
+
 /* run a collection */
 void ggggc_collect0(unsigned char gen);
 
@@ -107,6 +118,11 @@ extern ggc_thread_local struct GGGGC_Pool *ggggc_gen0;
 /* the current allocation pool for generation 0 */
 extern ggc_thread_local struct GGGGC_Pool *ggggc_pool0;
 
+/* the generation 0 pools of threads which have exited. These are roots for
+ * ggggc_rootPool0List, like those of blocked threads, until they're adopted by
+ * another thread or emptied by a collection. */
+extern struct GGGGC_Pool *ggggc_orphanPool0s;
+
 /* the later-generation pools are shared */
 extern struct GGGGC_Pool *ggggc_gens[GGGGC_GENERATIONS];
 
diff --git a/globals.c b/globals.c
index 0cf3581..6f95813 100644
--- a/globals.c
+++ b/globals.c
@@ -23,6 +23,7 @@ struct GGGGC_JITPointerStackList *ggggc_blockedThreadJITPointerStacks;
 #endif
 ggc_thread_local struct GGGGC_Pool *ggggc_gen0;
 ggc_thread_local struct GGGGC_Pool *ggggc_pool0;
+struct GGGGC_Pool *ggggc_orphanPool0s;
 struct GGGGC_Pool *ggggc_gens[GGGGC_GENERATIONS];
 struct GGGGC_Pool *ggggc_pools[GGGGC_GENERATIONS];
 struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_DESCRIPTOR_WORDS_REQ(GGGGC_WORDS_PER_POOL)+sizeof(struct GGGGC_Descriptor)];
diff --git a/threads.c b/threads.c
index 4ae5c9d..d2814e8 100644
--- a/threads.c
+++ b/threads.c
@@ -61,10 +61,11 @@ static void *ggggcThreadWrapper(void *arg)
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
         GGC_YIELD();
     changeThreadCount(-1);
-    ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
-    /* and give back its pools */
-    ggggc_freeGeneration(ggggc_gen0);
+    /* and leave behind its pools, in case others are using objects in them */
+    ggggc_orphanPools(ggggc_gen0);
+    ggggc_gen0 = ggggc_pool0 = NULL;
+    ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
     return 0;
 }
-- 
2.43.0


From c9c4770ea90885ba06d80c20a050400ebcc22f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 31/44] fix: allocation makes progress when collection does not
 make enough contiguous space

---
 collector/gembc.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 629eb13..a5bba20 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -70,6 +70,7 @@ void *ggggc_mallocRaw(struct GGGGC_Descriptor **descriptor, /* descriptor to pro
                       ) {
     struct GGGGC_Pool *pool;
     struct GGGGC_Header *ret;
+    int collections = 0;
 
 retry:
     /* get our allocation pool */
@@ -99,12 +100,22 @@ retry:
         ggggc_pool0 = pool = pool->next;
         goto retry;
 
-    } else {
+    } else if (pool->end - pool->start < size) {
+        /* no pool has enough space */
+        fprintf(stderr, "GC: Out of memory!\n");
+        abort();
+
+    } else if (collections < GGGGC_GENERATIONS) {
         /* need to collect, which means we need to actually be a GC-safe function */
         GGC_PUSH_1(*descriptor);
         ggggc_collect0(0);
         GGC_POP();
-        pool = ggggc_pool0;
+        collections++;
+        goto retry;
+
+    } else {
+        /* collecting isn't making enough contiguous space, so make more */
+        ggggc_pool0 = pool->next = ggggc_newPoolGen(0, 1);
         goto retry;
 
     }
-- 
2.43.0


From 8a4b468d02989bdf1ad4b98f37fdd1c0b41b859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 32/44] fix: portablems works with memory corruption checking

---
 collector/portablems.c | 29 +++++++++++++++++++----------
 ggggc/gc-portablems.h  |  4 ++++
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index 731df9c..0716be6 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -25,9 +25,14 @@
 
 #include "ggggc-internals.h"
 
-/* Free list. Free list elements are stored as [0, size in words, next]. */
+/* Free list. Free list elements are stored as [0, size in words, next]. The
+ * size has to be in the same location as a descriptor's size. */
 struct FreeListNode {
-    ggc_size_t zero, size;
+    ggc_size_t zero;
+#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
+    ggc_size_t memoryCorruptionCheck; /* unused, as free space isn't checked */
+#endif
+    ggc_size_t size;
     struct FreeListNode *next;
 };
 static ggc_thread_local struct FreeListNode *freeList = NULL;
@@ -337,7 +342,8 @@ static void memoryCorruptionCheckObj(const char *when, struct GGGGC_Header *obj)
             {
                 /* it's a pointer */
                 struct GGGGC_Header *nobj = (struct GGGGC_Header *) objVp[curWord];
-                if (nobj && nobj->ggggc_memoryCorruptionCheck != GGGGC_MEMORY_CORRUPTION_VAL) {
+                if (nobj && !IS_TAGGED(nobj) &&
+                    nobj->ggggc_memoryCorruptionCheck != GGGGC_MEMORY_CORRUPTION_VAL) {
                     fprintf(stderr, "GGGGC: Memory corruption (%s nested)!\n", when);
                     abort();
                 }
@@ -401,7 +407,7 @@ static void memoryCorruptionCheck(const char *when)
             ggc_size_t i;
             for (i = 0; i < psCur->size; i++) {
                 struct GGGGC_Header *obj = *((struct GGGGC_Header **) psCur->pointers[i]);
-                if (obj)
+                if (obj && !IS_TAGGED(obj))
                     memoryCorruptionCheckObj(when, obj);
             }
         }
@@ -773,20 +779,23 @@ void ggggc_collect0(unsigned char gen)
     /* and sweep our own heap */
     sweep(ggggc_gen0);
 
+    restartTheWorld();
+
+    /* clear our freelist */
+    clearFreeList();
+
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
+    /* other threads are running, so only our own heap can be checked */
     {
         struct FreeListNode *f;
+        struct GGGGC_Pool *pool;
         for (f = freeList; f; f = f->next)
             memset(f + 1, 0, f->size * sizeof(ggc_size_t) - sizeof(struct FreeListNode));
+        for (pool = ggggc_gen0; pool; pool = pool->next)
+            memoryCorruptionCheckPool("post-collection", pool);
     }
-    memoryCorruptionCheck("post-collection");
 #endif
 
-    restartTheWorld();
-
-    /* clear our freelist */
-    clearFreeList();
-
 #ifdef GGGGC_FEATURE_FINALIZERS
     /* run any finalizers */
     if (readyFinalizers)
diff --git a/ggggc/gc-portablems.h b/ggggc/gc-portablems.h
index d7bf443..1b4fa30 100644
--- a/ggggc/gc-portablems.h
+++ b/ggggc/gc-portablems.h
@@ -26,7 +26,11 @@
 /* our freelist entries are three words, to make them easily distinguishable
  * from objects (the first word is zero) */
 #undef GGGGC_MINIMUM_OBJECT_SIZE
+#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
+#define GGGGC_MINIMUM_OBJECT_SIZE 4 /* room for the canary */
+#else
 #define GGGGC_MINIMUM_OBJECT_SIZE 3
+#endif
 
 /* portablems does not have generations */
 #undef GGGGC_GENERATIONS
-- 
2.43.0


From 3e52f46bf2e3e236b6e11962fd29e16b1aec139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 33/44] fix: generic barriers compile as C

---
 gen-barriers.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gen-barriers.c b/gen-barriers.c
index c0363a2..2e0c196 100644
--- a/gen-barriers.c
+++ b/gen-barriers.c
@@ -23,7 +23,8 @@ int ggc_barrier_destroy(ggc_barrier_t *barrier)
 
 int ggc_barrier_init(ggc_barrier_t *barrier, unsigned long ct)
 {
-    barrier->lock = GGC_MUTEX_INITIALIZER;
+    ggc_mutex_t lock = GGC_MUTEX_INITIALIZER;
+    barrier->lock = lock;
     barrier->cur = 0;
     barrier->ct = ct;
     ggc_sem_init(&barrier->waiters, 0);
-- 
2.43.0


From 05049e33c43065f2eac2ad1c2cb6d31a678bb716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 34/44] fix: a generation pool which is exactly full keeps its
 first object's location

---
 collector/gembc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index a5bba20..d4ccad6 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -1318,8 +1318,9 @@ void ggggc_postCompact(struct GGGGC_Pool *pool)
     }
 
 #if GGGGC_GENERATIONS > 1
-    /* and perhaps set firstObject for the free space */
-    if (pool->gen) {
+    /* and perhaps set firstObject for the free space, if there is any (the end
+     * of the pool isn't in any of its cards) */
+    if (pool->gen && pool->free < pool->end) {
         card = GGGGC_CARD_OF(pool->free);
         if (card != lastCard)
             pool->firstObject[card] = ((ggc_size_t) pool->free & GGGGC_CARD_INNER_MASK) / sizeof(ggc_size_t);
-- 
2.43.0


From 4bfd3ad9dee233a294094c04ef543f82eb6038ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:43 +0000
Subject: [PATCH 35/44] GGGGC_VERIF hook: report when the world is stopped and
 restarted

---
 collector/gembc.c      | 3 +++
 collector/portablems.c | 3 +++
 ggggc-internals.h      | 9 +++++++++
 3 files changed, 15 insertions(+)

diff --git a/collector/gembc.c b/collector/gembc.c
index d4ccad6..584fffb 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -503,6 +503,7 @@ void ggggc_collect0(unsigned char gen)
 
     /* wait for them to fill roots */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
+    GGGGC_VERIF_COLLECT(1);
 
     /* with the world stopped, nobody is adding process-wide roots or adopting
      * orphaned pools */
@@ -766,6 +767,8 @@ postCollect:
     ggggc_orphanPool0s = NULL;
     ggggc_reorphanPools(orphanNode.pool);
 
+    GGGGC_VERIF_COLLECT(0);
+
     /* free the other threads */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
diff --git a/collector/portablems.c b/collector/portablems.c
index 0716be6..8a4e450 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -219,6 +219,7 @@ static void stopTheWorld(
 
     /* wait for them to fill roots */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
+    GGGGC_VERIF_COLLECT(1);
 
     /* with the world stopped, nobody is adding process-wide roots or adopting
      * orphaned pools */
@@ -239,6 +240,8 @@ static void restartTheWorld()
     struct GGGGC_PoolList *plCur;
     struct GGGGC_Pool *pool;
 
+    GGGGC_VERIF_COLLECT(0);
+
     /* free the other threads */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
 
diff --git a/ggggc-internals.h b/ggggc-internals.h
index b9579d9..a68fb83 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -135,6 +135,15 @@ extern struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_DESCRIPTOR_WOR
 /* and a lock for the descriptor descriptors */
 extern ggc_mutex_t ggggc_descriptorDescriptorsLock;
 
+/* verification hook: called by the collecting thread with 1 once the world is
+ * stopped, and with 0 just before it's restarted */
+#ifdef GGGGC_VERIF
+void ggggc_verif_collect(int begin);
+#define GGGGC_VERIF_COLLECT(begin) ggggc_verif_collect(begin)
+#else
+#define GGGGC_VERIF_COLLECT(begin) ((void) 0)
+#endif
+
 /* list of pointers to search and associated macros */
 #define TOSEARCH_SZ 1024
 struct ToSearch {
-- 
2.43.0


From 21bf65d19b2c1cd8c0e6349717adeaac41bb0f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 36/44] fix: GGC_PUSH_N compiles in C newer than C89

---
 ggggc/push.h | 2 +-
 pushgen.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ggggc/push.h b/ggggc/push.h
index a268ac3..3de0d5d 100644
--- a/ggggc/push.h
+++ b/ggggc/push.h
@@ -776,7 +776,7 @@ do { \
     struct GGGGC_PointerStack *ggggc_pstack_cur = \
         (struct GGGGC_PointerStack *) \
         alloca(sizeof(struct GGGGC_PointerStack) + sizeof(void *) * ggggc_n); \
-    void *ggggc_pptrs[] = (void*[]) pptrs; \
+    void **ggggc_pptrs = (void*[]) pptrs; \
     ggggc_pstack_cur->next = ggggc_pointerStack; \
     ggggc_pstack_cur->size = ggggc_n; \
     memcpy(ggggc_pstack_cur->pointers, ggggc_pptrs, sizeof(void *) * ggggc_n); \
diff --git a/pushgen.c b/pushgen.c
index 65873a4..1931f25 100644
--- a/pushgen.c
+++ b/pushgen.c
@@ -81,7 +81,7 @@ int main()
            "    struct GGGGC_PointerStack *ggggc_pstack_cur = \\\n"
            "        (struct GGGGC_PointerStack *) \\\n"
            "        alloca(sizeof(struct GGGGC_PointerStack) + sizeof(void *) * ggggc_n); \\\n"
-           "    void *ggggc_pptrs[] = (void*[]) pptrs; \\\n"
+           "    void **ggggc_pptrs = (void*[]) pptrs; \\\n"
            "    ggggc_pstack_cur->next = ggggc_pointerStack; \\\n"
            "    ggggc_pstack_cur->size = ggggc_n; \\\n"
            "    memcpy(ggggc_pstack_cur->pointers, ggggc_pptrs, sizeof(void *) * ggggc_n); \\\n"
-- 
2.43.0


From 27f7b09f05cc698978f0afd117273414c4a35383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:31 +0000
Subject: [PATCH 37/44] fix: objects too large to describe are refused cleanly

The table of descriptor descriptors was indexed out of its bounds, the
description allocated on the stack, and the size in words could overflow,
before the size was ever compared to what a pool can hold.
---
 allocator.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/allocator.c b/allocator.c
index 3065c80..256219e 100644
--- a/allocator.c
+++ b/allocator.c
@@ -236,6 +236,14 @@ void ggggc_freeGeneration(struct GGGGC_Pool *pool)
     ggc_mutex_unlock(&freePoolsLock);
 }
 
+/* No object may be larger than a pool. This must be checked before anything is
+ * sized by how large an object would be. */
+static void tooLarge(void)
+{
+    fprintf(stderr, "GC: Out of memory!\n");
+    abort();
+}
+
 struct GGGGC_Array {
     struct GGGGC_Header header;
     ggc_size_t length;
@@ -244,8 +252,11 @@ struct GGGGC_Array {
 /* allocate a pointer array (size is in words) */
 void *ggggc_mallocPointerArray(ggc_size_t sz)
 {
-    struct GGGGC_Descriptor *descriptor = ggggc_allocateDescriptorPA(sz + 1 + sizeof(struct GGGGC_Header)/sizeof(ggc_size_t));
-    struct GGGGC_Array *ret = (struct GGGGC_Array *) ggggc_malloc(descriptor);
+    struct GGGGC_Descriptor *descriptor;
+    struct GGGGC_Array *ret;
+    if (sz > GGGGC_WORDS_PER_POOL) tooLarge();
+    descriptor = ggggc_allocateDescriptorPA(sz + 1 + sizeof(struct GGGGC_Header)/sizeof(ggc_size_t));
+    ret = (struct GGGGC_Array *) ggggc_malloc(descriptor);
     ret->length = sz;
     return ret;
 }
@@ -253,10 +264,14 @@ void *ggggc_mallocPointerArray(ggc_size_t sz)
 /* allocate a data array */
 void *ggggc_mallocDataArray(ggc_size_t nmemb, ggc_size_t size)
 {
-    ggc_size_t sz = ((nmemb*size)+sizeof(ggc_size_t)-1)/sizeof(ggc_size_t);
-    struct GGGGC_Descriptor *descriptor = ggggc_allocateDescriptorDA(
+    ggc_size_t sz;
+    struct GGGGC_Descriptor *descriptor;
+    struct GGGGC_Array *ret;
+    if (size && nmemb > GGGGC_POOL_BYTES / size) tooLarge();
+    sz = ((nmemb*size)+sizeof(ggc_size_t)-1)/sizeof(ggc_size_t);
+    descriptor = ggggc_allocateDescriptorDA(
         sz + 1 + GGGGC_WORD_SIZEOF(struct GGGGC_Header));
-    struct GGGGC_Array *ret = (struct GGGGC_Array *) ggggc_malloc(descriptor);
+    ret = (struct GGGGC_Array *) ggggc_malloc(descriptor);
     ret->length = nmemb;
     return ret;
 }
@@ -321,6 +336,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptor(ggc_size_t size, ggc_size_t po
     ggc_size_t dPWords, i;
     struct GGGGC_Descriptor *ret;
 
+    if (size > GGGGC_WORDS_PER_POOL) tooLarge();
+
     /* beyond the first word, there are no pointers */
     dPWords = GGGGC_DESCRIPTOR_WORDS_REQ(size);
     if (dPWords < 1) dPWords = 1;
@@ -354,6 +371,7 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorL(ggc_size_t size, const ggc_si
      * would cause us to read past the end of pointers */
     if (size < GGGGC_MINIMUM_OBJECT_SIZE)
         size = GGGGC_MINIMUM_OBJECT_SIZE;
+    if (size > GGGGC_WORDS_PER_POOL) tooLarge();
 
     /* the size of the descriptor */
     if (pointers)
@@ -417,6 +435,7 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorT(ggc_size_t size, const unsign
      * would cause us to read past the end of pointers */
     if (size < GGGGC_MINIMUM_OBJECT_SIZE)
         size = GGGGC_MINIMUM_OBJECT_SIZE;
+    if (size > GGGGC_WORDS_PER_POOL) tooLarge();
 
     /* the size of the descriptor */
     if (tags)
-- 
2.43.0


From d68a7839fda1b0028515a418221b3af9c4b07f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:55 +0000
Subject: [PATCH 38/44] fix: finalizer lists may span generations, so their
 links are remembered and searched

After a full collection started by the allocator, a list of finalizers could
have entries of several generations in any order. The next young collection
then wrote references to young entries into old ones, without their ever being
searched or remembered, so that they dangled.
---
 collector/gembc.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 584fffb..626af20 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -264,6 +264,23 @@ void ggggc_postCompact(struct GGGGC_Pool *);
 static struct ToSearch toSearchList;
 
 #ifdef GGGGC_FEATURE_FINALIZERS
+/* macro to link finalizer to the rest of a list. The list may have finalizers
+ * of any generation, in any order, so this is a write like any other: next__ptr
+ * has to be searched even if the finalizer itself isn't. */
+#if GGGGC_GENERATIONS > 1
+#define FINALIZER_REMEMBER(finalizer) do { \
+    if (GGGGC_GEN_OF(finalizer)) \
+        GGGGC_POOL_OF(finalizer)->remember[GGGGC_CARD_OF(finalizer)] = 1; \
+} while(0)
+#else
+#define FINALIZER_REMEMBER(finalizer) do { } while(0)
+#endif
+#define FINALIZER_LINK(finalizer, next) do { \
+    (finalizer)->next__ptr = (next); \
+    FINALIZER_REMEMBER(finalizer); \
+    TOSEARCH_ADD(&(finalizer)->next__ptr); \
+} while(0)
+
 /* macro to handle the finalizers for a given pool. survived is how to determine
  * if obj (after following any forwarding) survived this collection. */
 #define FINALIZER_POOL(survived) do { \
@@ -281,14 +298,14 @@ static struct ToSearch toSearchList;
         FOLLOW_FORWARDED_OBJECT(obj); \
         if (survived) { \
             /* it survived, keep the finalizer */ \
-            finalizer->next__ptr = survivingFinalizers; \
+            FINALIZER_LINK(finalizer, survivingFinalizers); \
             survivingFinalizers = finalizer; \
             if (!survivingFinalizersTail) \
                 survivingFinalizersTail = finalizer; \
             \
         } else { \
             /* object died, add this to ready finalizers */ \
-            finalizer->next__ptr = readyFinalizers; \
+            FINALIZER_LINK(finalizer, readyFinalizers); \
             readyFinalizers = finalizer; \
             \
         } \
@@ -318,6 +335,7 @@ static void keepFinalizers(GGGGC_FinalizerEntry finalizers)
     }
 
     last->next__ptr = (GGGGC_FinalizerEntry) pool->finalizers;
+    FINALIZER_REMEMBER(last);
     pool->finalizers = first;
 }
 #endif /* GGGGC_FEATURE_FINALIZERS */
-- 
2.43.0


From 1ed44b2fcdc50b1444ff9cfcd4654c43d4318a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 39/44] fix: garbage awaiting finalization doesn't make the
 heap grow without bound

The space of objects which a collection only kept for their finalizers was
counted as in use, so a program dropping enough finalizable objects made the
heap double again and again.
---
 collector/gembc.c | 57 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 626af20..092db43 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -61,6 +61,14 @@ static struct GGGGC_Pool *newPoolGenProto(struct GGGGC_Pool *proto) {
 #endif
 }
 
+/* number of collections after which everything unreachable is gone. Objects with
+ * finalizers are only gone in the collection after their finalizers have run. */
+#ifdef GGGGC_FEATURE_FINALIZERS
+#define MAX_COLLECTIONS (GGGGC_GENERATIONS + 1)
+#else
+#define MAX_COLLECTIONS GGGGC_GENERATIONS
+#endif
+
 /* NOTE: there is code duplication between ggggc_malloc and ggggc_mallocGen1
  * because I can't trust a compiler to inline and optimize for the 0 case */
 
@@ -105,7 +113,7 @@ retry:
         fprintf(stderr, "GC: Out of memory!\n");
         abort();
 
-    } else if (collections < GGGGC_GENERATIONS) {
+    } else if (collections < MAX_COLLECTIONS) {
         /* need to collect, which means we need to actually be a GC-safe function */
         GGC_PUSH_1(*descriptor);
         ggggc_collect0(0);
@@ -278,7 +286,18 @@ static struct ToSearch toSearchList;
 #define FINALIZER_LINK(finalizer, next) do { \
     (finalizer)->next__ptr = (next); \
     FINALIZER_REMEMBER(finalizer); \
-    TOSEARCH_ADD(&(finalizer)->next__ptr); \
+} while(0)
+#define FINALIZER_SEARCH(list) do { \
+    GGGGC_FinalizerEntry *link; \
+    for (link = (list); *link; link = &(*link)->next__ptr) \
+        TOSEARCH_ADD(link); \
+} while(0)
+
+/* objects which only survive until their finalizers have run, after all others,
+ * are no reason to expand */
+#define COUNT_SURVIVOR(obj, descriptor) do { \
+    if (finalizersChecked < 2) \
+        GGGGC_POOL_OF(obj)->survivors += (descriptor)->size; \
 } while(0)
 
 /* macro to handle the finalizers for a given pool. survived is how to determine
@@ -338,6 +357,12 @@ static void keepFinalizers(GGGGC_FinalizerEntry finalizers)
     FINALIZER_REMEMBER(last);
     pool->finalizers = first;
 }
+
+#else /* !GGGGC_FEATURE_FINALIZERS */
+#define COUNT_SURVIVOR(obj, descriptor) do { \
+    GGGGC_POOL_OF(obj)->survivors += (descriptor)->size; \
+} while(0)
+
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
@@ -624,13 +649,20 @@ collect:
     /* now test all our pointers */
     while (toSearch->used
 #ifdef GGGGC_FEATURE_FINALIZERS
-           || !finalizersChecked
+           || finalizersChecked < 2
 #endif
            ) {
         void **ptr;
         struct GGGGC_Header *obj;
 
 #ifdef GGGGC_FEATURE_FINALIZERS
+        /* finally, promote those finalizers which are ready */
+        if (!toSearch->used && finalizersChecked) {
+            finalizersChecked = 2;
+            FINALIZER_SEARCH(&readyFinalizers);
+            continue;
+        }
+
         /* perhaps check finalizers */
         if (!toSearch->used) {
             GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
@@ -650,9 +682,8 @@ collect:
             }
 
             /* then make sure the finalizer queues get promoted */
-            TOSEARCH_ADD(&survivingFinalizers);
+            FINALIZER_SEARCH(&survivingFinalizers);
             TOSEARCH_ADD(&survivingFinalizersTail);
-            TOSEARCH_ADD(&readyFinalizers);
             continue;
         }
 #endif /* GGGGC_FEATURE_FINALIZERS */
@@ -683,7 +714,7 @@ collect:
             FOLLOW_FORWARDED_DESCRIPTOR(descriptor);
 
             /* mark it as surviving */
-            GGGGC_POOL_OF(obj)->survivors += descriptor->size;
+            COUNT_SURVIVOR(obj, descriptor);
 
             /* allocate in the new generation */
             nobj = (struct GGGGC_Header *) ggggc_mallocGen1(descriptor->size, gen + 1);
@@ -961,7 +992,7 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
     /* now mark */
     while (toSearch->used
 #ifdef GGGGC_FEATURE_FINALIZERS
-           || !finalizersChecked
+           || finalizersChecked < 2
 #endif
            ) {
         void **ptr;
@@ -969,6 +1000,13 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
         ggc_size_t lastMark;
 
 #ifdef GGGGC_FEATURE_FINALIZERS
+        /* finally, keep those finalizers which are ready */
+        if (!toSearch->used && finalizersChecked) {
+            finalizersChecked = 2;
+            FINALIZER_SEARCH(&readyFinalizers);
+            continue;
+        }
+
         /* possibly start handling finalizers */
         if (!toSearch->used) {
             GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
@@ -988,9 +1026,8 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
             }
 
             /* then make sure the finalizer queues get promoted */
-            TOSEARCH_ADD(&survivingFinalizers);
+            FINALIZER_SEARCH(&survivingFinalizers);
             TOSEARCH_ADD(&survivingFinalizersTail);
-            TOSEARCH_ADD(&readyFinalizers);
             continue;
         }
 #endif /* GGGGC_FEATURE_FINALIZERS */
@@ -1015,7 +1052,7 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 
             /* then mark it */
             MARK(obj);
-            GGGGC_POOL_OF(obj)->survivors += descriptor->size;
+            COUNT_SURVIVOR(obj, descriptor);
 
             /* add its pointers */
             ADD_OBJECT_POINTERS(obj, descriptor);
-- 
2.43.0


From 2138f61e75d8ba60b065b05c0fc5b73267622e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:28 +0000
Subject: [PATCH 40/44] fix: Destroying a portable barrier waits until
 everybody has left it

The world barrier is replaced as soon as one thread has left it, but the
leader of the round, and others waiting for it, were still using it, and then
waited forever.
---
 gen-barriers.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gen-barriers.c b/gen-barriers.c
index 2e0c196..4090837 100644
--- a/gen-barriers.c
+++ b/gen-barriers.c
@@ -18,6 +18,10 @@
 
 int ggc_barrier_destroy(ggc_barrier_t *barrier)
 {
+    /* the leader of the last round holds the lock until everybody has left */
+    ggc_mutex_lock_raw(&barrier->lock);
+    ggc_mutex_unlock(&barrier->lock);
+
     return ggc_sem_destroy(&barrier->waiters);
 }
 
-- 
2.43.0


From ae6b3a481b01b309a72e2783542a008dd507e419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 41/44] fix: threads are counted only once created, so that no
 collection waits for one which never is

---
 threads.c         |  9 ---------
 threads/macosx.c  | 11 +++++------
 threads/posix.c   | 11 +++++------
 threads/windows.c | 14 +++++---------
 4 files changed, 15 insertions(+), 30 deletions(-)

diff --git a/threads.c b/threads.c
index d2814e8..4eb6592 100644
--- a/threads.c
+++ b/threads.c
@@ -70,15 +70,6 @@ static void *ggggcThreadWrapper(void *arg)
     return 0;
 }
 
-/* take back a thread from the world barrier that failed to start */
-static void threadNotCreated()
-{
-    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
-        GGC_YIELD();
-    changeThreadCount(-1);
-    ggc_mutex_unlock(&ggggc_worldBarrierLock);
-}
-
 static ggc_thread_local struct GGGGC_PoolList blockedPoolListNode;
 static ggc_thread_local struct GGGGC_PointerStackList blockedPointerStackListNode;
 #ifdef GGGGC_FEATURE_JITPSTACK
diff --git a/threads/macosx.c b/threads/macosx.c
index 4777660..06fc8c7 100644
--- a/threads/macosx.c
+++ b/threads/macosx.c
@@ -76,15 +76,14 @@ int ggc_thread_create(
     GGC_WD(ti, func, func);
     GGC_WP(ti, arg, arg);
 
-    /* update our thread barrier */
+    /* spawn the pthread, and update our thread barrier if it's there. Nobody
+     * can stop the world meanwhile */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
         GGC_YIELD();
-    changeThreadCount(1);
+    err = pthread_create(thread, NULL, ggggcThreadWrapper, ti);
+    if (!err) changeThreadCount(1);
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
-
-    /* spawn the pthread */
-    if ((err = pthread_create(thread, NULL, ggggcThreadWrapper, ti))) {
-        threadNotCreated();
+    if (err) {
         errno = err;
         return -1;
     }
diff --git a/threads/posix.c b/threads/posix.c
index 3d200ad..a5f3bff 100644
--- a/threads/posix.c
+++ b/threads/posix.c
@@ -67,15 +67,14 @@ int ggc_thread_create(
     GGC_WD(ti, func, func);
     GGC_WP(ti, arg, arg);
 
-    /* update our thread barrier */
+    /* spawn the pthread, and update our thread barrier if it's there. Nobody
+     * can stop the world meanwhile */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
         GGC_YIELD();
-    changeThreadCount(1);
+    err = pthread_create(thread, NULL, ggggcThreadWrapper, ti);
+    if (!err) changeThreadCount(1);
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
-
-    /* spawn the pthread */
-    if ((err = pthread_create(thread, NULL, ggggcThreadWrapper, ti))) {
-        threadNotCreated();
+    if (err) {
         errno = err;
         return -1;
     }
diff --git a/threads/windows.c b/threads/windows.c
index 64505b4..c4be1e7 100644
--- a/threads/windows.c
+++ b/threads/windows.c
@@ -81,18 +81,14 @@ int ggc_thread_create(
     GGC_WD(ti, func, func);
     GGC_WP(ti, arg, arg);
 
-    /* update our thread barrier */
+    /* spawn the thread, and update our thread barrier if it's there. Nobody can
+     * stop the world meanwhile */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
         GGC_YIELD();
-    changeThreadCount(1);
-    ggc_mutex_unlock(&ggggc_worldBarrierLock);
-
-    /* spawn the thread */
     *thread = CreateThread(NULL, 0, (LPTHREAD_START_ROUTINE) ggggcThreadWrapper, ti, 0, NULL);
-    if (!*thread) {
-        threadNotCreated();
-        return -1;
-    }
+    if (*thread) changeThreadCount(1);
+    ggc_mutex_unlock(&ggggc_worldBarrierLock);
+    if (!*thread) return -1;
 
     return 0;
 }
-- 
2.43.0


From cd85e5d4d39e367e9ac6c716ed27ee00a6e29566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 42/44] fix: a generation which can't have its first pool is
 collected rather than out of memory

When a generation other than 0 had no pool yet (or any more), promotion to it
demanded one from the system and stopped the program if it was refused,
although collecting that generation too, as is done when its pools are full,
may need none.
---
 collector/gembc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 092db43..1775cfe 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -144,7 +144,8 @@ retry:
     if (ggggc_pools[gen]) {
         pool = ggggc_pools[gen];
     } else {
-        ggggc_gens[gen] = ggggc_pools[gen] = pool = ggggc_newPoolGen(gen, 1);
+        ggggc_gens[gen] = ggggc_pools[gen] = pool = ggggc_newPoolGen(gen, 0);
+        if (!pool) return NULL;
     }
 
     /* do we have enough space? */
-- 
2.43.0


From aae0d45756ac6130efb3a8591278b9a5cfef8971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 43/44] fix: sbrk pools are aligned and distinct when several
 threads allocate

Nothing kept threads from moving the break between each other's alignment
and allocation, so that pools could be unaligned.
---
 allocator/sbrk.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/allocator/sbrk.c b/allocator/sbrk.c
index 3ef2478..7758a1f 100644
--- a/allocator/sbrk.c
+++ b/allocator/sbrk.c
@@ -61,19 +61,27 @@ static void mallocBump()
 
 static void *allocPool(int mustSucceed)
 {
+    static ggc_mutex_t poolLock = GGC_MUTEX_INITIALIZER;
     void *ret;
-    size_t offset = poolOffset();
+    size_t offset;
 
-    mallocBump();
+    ggc_mutex_lock_raw(&poolLock);
+    do {
+        mallocBump();
 
-    offset = poolOffset();
-    if (offset != 0) {
-        /* align manually */
-        fprintf(stderr, "WARNING: Wasting %d bytes\n", (int) offset);
-        sbrk(offset);
-    }
+        offset = poolOffset();
+        if (offset != 0) {
+            /* align manually */
+            fprintf(stderr, "WARNING: Wasting %d bytes\n", (int) offset);
+            sbrk(offset);
+        }
+
+        ret = sbrk(GGGGC_POOL_BYTES);
+
+        /* try again if something else moved the break meanwhile */
+    } while (ret != (void *) -1 && ((size_t) ret & GGGGC_POOL_INNER_MASK));
+    ggc_mutex_unlock(&poolLock);
 
-    ret = sbrk(GGGGC_POOL_BYTES);
     if (ret == (void *) -1) {
         if (mustSucceed) {
             perror("sbrk");
-- 
2.43.0


From e1d0af495d1758c00da1b6bfbe0e8c39c35c35cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 44/44] fix: copying a member to the same member in C++ uses
 the write barrier

The unnamed struct which stands for a member in C++ had an implicit copy
assignment, so that a->m = b->m wrote a's member without the barrier: an older
object's reference was not remembered, and its target could be lost.
---
 ggggc/gc.h | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/ggggc/gc.h b/ggggc/gc.h
index b16e5cb..3e8d5eb 100644
--- a/ggggc/gc.h
+++ b/ggggc/gc.h
@@ -272,9 +272,7 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
 
 #ifdef __cplusplus
 #define GGC_MDATA(type, name) \
-        union { \
-            type name ## __data; \
-            struct { \
+        struct name ## __accessor { \
                 inline operator type () { \
                     ggggc_current_struct *that = (ggggc_current_struct *) (void *) ( \
                         (char *) (void *) this - \
@@ -289,13 +287,18 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
                     ); \
                     GGC_WD(that, name, x); \
                 } \
+                inline void operator=(const name ## __accessor &other) { \
+                    type x = other.data; \
+                    *this = x; \
+                } \
                 type data; \
-            } name; \
+        }; \
+        union { \
+            type name ## __data; \
+            name ## __accessor name; \
         }
 #define GGC_MPTR(type, name) \
-        union { \
-            type name ## __ptr; \
-            struct { \
+        struct name ## __accessor { \
                 inline operator type () { \
                     ggggc_current_struct *that = (ggggc_current_struct *) (void *) ( \
                         (char *) (void *) this - \
@@ -310,8 +313,15 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
                     ); \
                     GGC_WP(that, name, x); \
                 } \
+                inline void operator=(const name ## __accessor &other) { \
+                    type x = other.data; \
+                    *this = x; \
+                } \
                 type data; \
-            } name; \
+        }; \
+        union { \
+            type name ## __ptr; \
+            name ## __accessor name; \
         }
 
 #else
-- 
2.43.0

