From e9b63c3a802f0480b9b6e5e30ca303b215613f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 01/21] fix: SimQueue copies of DeqState no longer share the
 array of return values

---
 libconcurrent/includes/simqueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/includes/simqueue.h b/libconcurrent/includes/simqueue.h
index b0deecc..5dc7cf3 100644
--- a/libconcurrent/includes/simqueue.h
+++ b/libconcurrent/includes/simqueue.h
@@ -41,12 +41,12 @@ typedef struct EnqState {
 typedef struct DeqState {
     /// @brief The applied vector of toggles.
     ToggleVector applied;
+    /// @brief A pointer to the array of return values.
+    RetVal *ret;
     /// @brief In case you want to copy this struct, start from here.
     uint64_t copy_point;
     /// @brief A pointer to the head of the queue.
     Node *head;
-    /// @brief A pointer to the array of return values.
-    RetVal *ret;
 #ifdef DEBUG
     int32_t counter;
 #endif
-- 
2.43.0


From 9ac4897a607a12eda78d9c592ce85082dbbba977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 02/21] fix: hash tables delete the requested key when it is
 second in its cell

---
 libconcurrent/concurrent/clhhash.c | 2 +-
 libconcurrent/concurrent/dsmhash.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/clhhash.c b/libconcurrent/concurrent/clhhash.c
index b053460..dab189a 100644
--- a/libconcurrent/concurrent/clhhash.c
+++ b/libconcurrent/concurrent/clhhash.c
@@ -74,7 +74,7 @@ static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
             cur = cur->next;
         }
         if (found) {
-            if (top != prev)
+            if (cur != top)
                 prev->next = cur->next;
             else
                 cells[arg.cell].ptr = cur->next;
diff --git a/libconcurrent/concurrent/dsmhash.c b/libconcurrent/concurrent/dsmhash.c
index b3ac042..6789356 100644
--- a/libconcurrent/concurrent/dsmhash.c
+++ b/libconcurrent/concurrent/dsmhash.c
@@ -77,7 +77,7 @@ static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
             cur = cur->next;
         }
         if (found) {
-            if (top != prev)
+            if (cur != top)
                 prev->next = cur->next;
             else
                 cells[arg.cell].ptr = cur->next;
-- 
2.43.0


From 0aec01ef3382ea3e543d3e1ec47f77182e7bea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 03/21] fix: hash tables map negative keys to a valid cell

---
 libconcurrent/concurrent/clhhash.c | 4 +++-
 libconcurrent/concurrent/dsmhash.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/clhhash.c b/libconcurrent/concurrent/clhhash.c
index dab189a..f4d7c23 100644
--- a/libconcurrent/concurrent/clhhash.c
+++ b/libconcurrent/concurrent/clhhash.c
@@ -25,7 +25,9 @@ inline void CLHHashThreadStateInit(CLHHash *hash, CLHHashThreadState *th_state,
 }
 
 static inline int64_t hash_func(CLHHash *hash, int64_t key) {
-    return key % hash->size;
+    int64_t cell = key % hash->size;
+
+    return (cell < 0) ? cell + hash->size : cell;
 }
 
 static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
diff --git a/libconcurrent/concurrent/dsmhash.c b/libconcurrent/concurrent/dsmhash.c
index 6789356..be50111 100644
--- a/libconcurrent/concurrent/dsmhash.c
+++ b/libconcurrent/concurrent/dsmhash.c
@@ -29,7 +29,9 @@ inline void DSMHashThreadStateInit(DSMHash *hash, DSMHashThreadState *th_state,
 }
 
 static inline int64_t hash_func(DSMHash *hash, int64_t key) {
-    return key % hash->size;
+    int64_t cell = key % hash->size;
+
+    return (cell < 0) ? cell + hash->size : cell;
 }
 
 static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
-- 
2.43.0


From 91527eff180e8a42127d604c0169fb49cff6d584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 04/21] fix: FC passes the pid of the thread that announced the
 request to sfunc

---
 libconcurrent/concurrent/fc.c | 3 ++-
 libconcurrent/includes/fc.h   | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/libconcurrent/concurrent/fc.c b/libconcurrent/concurrent/fc.c
index 316331f..62ed39a 100644
--- a/libconcurrent/concurrent/fc.c
+++ b/libconcurrent/concurrent/fc.c
@@ -53,6 +53,7 @@ RetVal FCApplyOp(FCStruct *lock, FCThreadState *st_thread, RetVal (*sfunc)(void
 
     request = st_thread->node;
     request->val = arg;
+    request->pid = pid;
     synchNonTSOFence();
     request->pending = true;
     synchStoreFence();
@@ -82,7 +83,7 @@ RetVal FCApplyOp(FCStruct *lock, FCThreadState *st_thread, RetVal (*sfunc)(void
     for (i = 0; i < FC_COMBINING_ROUNDS; i++) {
         for (cur = lock->head; cur != NULL; cur = cur->next) {
             if (cur->pending) {
-                cur->val = sfunc(state, cur->val, pid);
+                cur->val = sfunc(state, cur->val, cur->pid);
                 synchNonTSOFence();
                 cur->pending = false;
                 cur->age = count;
diff --git a/libconcurrent/includes/fc.h b/libconcurrent/includes/fc.h
index 5386c08..8375486 100644
--- a/libconcurrent/includes/fc.h
+++ b/libconcurrent/includes/fc.h
@@ -25,6 +25,7 @@ typedef struct HalfFCRequest {
     volatile struct FCRequest *next;
     volatile ArgVal val;
     volatile int age;
+    volatile int pid;
     volatile bool active;
     volatile bool pending;
 } HalfFCRequest;
@@ -36,6 +37,8 @@ typedef struct FCRequest {
     volatile ArgVal val;
     /// @brief The age of the current announcement record.
     volatile int age;
+    /// @brief The pid of the thread that announced the request.
+    volatile int pid;
     /// @brief If the request is active or not.
     volatile bool active;
     /// @brief If the request is pending or not.
-- 
2.43.0


From 81c5f2bf00c53196c5d55faa1c872abf9a2d4b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 05/21] fix: FCQueue enqueues the given value, dequeues in FIFO
 order and recycles nodes

---
 libconcurrent/concurrent/fcqueue.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/libconcurrent/concurrent/fcqueue.c b/libconcurrent/concurrent/fcqueue.c
index b5d0faf..b6406ce 100644
--- a/libconcurrent/concurrent/fcqueue.c
+++ b/libconcurrent/concurrent/fcqueue.c
@@ -7,13 +7,12 @@
 inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid);
 inline static RetVal serialDequeue(void *state, ArgVal arg, int pid);
 
-static const int GUARD = INT_MIN;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void FCQueueStructInit(FCQueueStruct *queue_object_struct, uint32_t nthreads) {
     FCStructInit(&queue_object_struct->enqueue_struct, nthreads);
     FCStructInit(&queue_object_struct->dequeue_struct, nthreads);
-    queue_object_struct->guard.val = GUARD;
+    queue_object_struct->guard.val = GUARD_VALUE;
     queue_object_struct->guard.next = NULL;
     queue_object_struct->first = &queue_object_struct->guard;
     queue_object_struct->last = &queue_object_struct->guard;
@@ -28,29 +27,36 @@ void FCQueueThreadStateInit(FCQueueStruct *object_struct, FCQueueThreadState *lo
 inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid) {
     FCQueueStruct *st = (FCQueueStruct *)state;
     Node *node;
-    
+
     node = synchAllocObj(&pool_node);
     node->next = NULL;
     node->val = arg;
     st->last->next = node;
     st->last = node;
-    return -1;
+    synchNonTSOFence();
+    return ENQUEUE_SUCCESS;
 }
 
 inline static RetVal serialDequeue(void *state, ArgVal arg, int pid) {
     FCQueueStruct *st = (FCQueueStruct *)state;
-    Node *node = (Node *)st->first;
-    
+    volatile Node *node, *prev;
+
     if (st->first->next != NULL){
+        prev = st->first;
         st->first = st->first->next;
+        node = st->first;
+        if (node->val == GUARD_VALUE)
+            return serialDequeue(state, arg, pid);
+        synchNonTSOFence();
+        synchRecycleObj(&pool_node, (Node *)prev);
         return node->val;
     } else {
-        return -1;
+        return EMPTY_QUEUE;
     }
 }
 
 void FCQueueApplyEnqueue(FCQueueStruct *object_struct, FCQueueThreadState *lobject_struct, ArgVal arg, int pid) {
-    FCApplyOp(&object_struct->enqueue_struct, &lobject_struct->enqueue_thread_state, serialEnqueue, object_struct, (ArgVal) pid, pid);
+    FCApplyOp(&object_struct->enqueue_struct, &lobject_struct->enqueue_thread_state, serialEnqueue, object_struct, (ArgVal) arg, pid);
 }
 
 RetVal FCQueueApplyDequeue(FCQueueStruct *object_struct, FCQueueThreadState *lobject_struct, int pid) {
-- 
2.43.0


From deee9ffc06410cca3a6278b8c2e4ea4d36621bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 06/21] fix: FCStack returns EMPTY_STACK on an empty stack and
 recycles popped nodes

---
 libconcurrent/concurrent/fcstack.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/concurrent/fcstack.c b/libconcurrent/concurrent/fcstack.c
index 9d58279..62a26d9 100644
--- a/libconcurrent/concurrent/fcstack.c
+++ b/libconcurrent/concurrent/fcstack.c
@@ -24,9 +24,13 @@ inline static RetVal serialPushPop(void *state, ArgVal arg, int pid) {
         volatile Node *node = st->top;
 
         if (st->top != NULL) {
+            RetVal ret = node->val;
             st->top = st->top->next;
-            return node->val;
-        } else return -1;
+            synchNonTSOFence();
+            synchRecycleObj(&pool_node, (void *)node);
+            return ret;
+        } else
+            return EMPTY_STACK;
     } else {
         FCStackStruct *st = (FCStackStruct *)state;
         Node *node;
@@ -35,8 +39,9 @@ inline static RetVal serialPushPop(void *state, ArgVal arg, int pid) {
         node->next = st->top;
         node->val = arg;
         st->top = node;
- 
-        return 0;
+        synchNonTSOFence();
+
+        return PUSH_SUCCESS;
     }
 }
 
-- 
2.43.0


From a741e9e5f897b658f32a802e0f95a168da8ae95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 07/21] fix: combining stacks do not take a push of INT_MIN for
 a pop

---
 libconcurrent/concurrent/ccstack.c   | 2 +-
 libconcurrent/concurrent/dsmstack.c  | 2 +-
 libconcurrent/concurrent/fcstack.c   | 2 +-
 libconcurrent/concurrent/hstack.c    | 2 +-
 libconcurrent/concurrent/oscistack.c | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libconcurrent/concurrent/ccstack.c b/libconcurrent/concurrent/ccstack.c
index 03f49f1..abf9a8f 100644
--- a/libconcurrent/concurrent/ccstack.c
+++ b/libconcurrent/concurrent/ccstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void CCStackInit(CCStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/dsmstack.c b/libconcurrent/concurrent/dsmstack.c
index e5fad18..231294e 100644
--- a/libconcurrent/concurrent/dsmstack.c
+++ b/libconcurrent/concurrent/dsmstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void DSMSStackInit(DSMStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/fcstack.c b/libconcurrent/concurrent/fcstack.c
index 62a26d9..adbb783 100644
--- a/libconcurrent/concurrent/fcstack.c
+++ b/libconcurrent/concurrent/fcstack.c
@@ -4,7 +4,7 @@
 #include <pool.h>
 #include <queue-stack.h>
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void FCStackInit(FCStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/hstack.c b/libconcurrent/concurrent/hstack.c
index 9a382da..ba9371b 100644
--- a/libconcurrent/concurrent/hstack.c
+++ b/libconcurrent/concurrent/hstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void HStackInit(HStackStruct *stack_object_struct, uint32_t nthreads, uint32_t numa_nodes) {
diff --git a/libconcurrent/concurrent/oscistack.c b/libconcurrent/concurrent/oscistack.c
index e4193b4..08e06d6 100644
--- a/libconcurrent/concurrent/oscistack.c
+++ b/libconcurrent/concurrent/oscistack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 
 void OsciStackInit(OsciStackStruct *stack_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(stack_object_struct->object_struct), nthreads, fibers_per_thread);
-- 
2.43.0


From 14eb196332a7b1f515a9dcc458188a0ef4228044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 08/21] fix: HSynch keeps the NUMA node of a thread per
 instance and sizes its nodes for all threads

---
 libconcurrent/concurrent/hsynch.c | 17 ++++++++++-------
 libconcurrent/includes/hsynch.h   |  2 ++
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/libconcurrent/concurrent/hsynch.c b/libconcurrent/concurrent/hsynch.c
index bb58103..e72243f 100644
--- a/libconcurrent/concurrent/hsynch.c
+++ b/libconcurrent/concurrent/hsynch.c
@@ -10,8 +10,6 @@
 #define HSYNCH_HELP_FACTOR            10
 #define HSYNCH_DEFAULT_NUMA_NODE_SIZE 8
 
-static __thread int node_of_thread = 0;
-
 RetVal HSynchApplyOp(HSynchStruct *l, HSynchThreadState *st_thread, RetVal (*sfunc)(void *, ArgVal, int), void *state, ArgVal arg, int pid) {
     volatile HSynchNode *p;
     volatile HSynchNode *cur;
@@ -24,7 +22,7 @@ RetVal HSynchApplyOp(HSynchStruct *l, HSynchThreadState *st_thread, RetVal (*sfu
     next_node->locked = true;
     next_node->completed = false;
 
-    cur = (volatile HSynchNode *)synchSWAP(&l->Tail[node_of_thread].ptr, next_node);
+    cur = (volatile HSynchNode *)synchSWAP(&l->Tail[st_thread->numa_node].ptr, next_node);
     cur->arg_ret = arg;
     cur->pid = pid;
     cur->next = (HSynchNode *)next_node;
@@ -71,6 +69,7 @@ RetVal HSynchApplyOp(HSynchStruct *l, HSynchThreadState *st_thread, RetVal (*sfu
 void HSynchThreadStateInit(HSynchStruct *l, HSynchThreadState *st_thread, int pid) {
     HSynchNode *last_node = NULL;
     uint32_t node_index = 0;
+    int node_of_thread = 0;
 
 #ifdef SYNCH_NUMA_SUPPORT
     if (l->numa_policy) {
@@ -98,18 +97,22 @@ void HSynchThreadStateInit(HSynchStruct *l, HSynchThreadState *st_thread, int pi
     node_of_thread = pid / l->numa_node_size;
 #endif
 
+    // The mapping of threads to cores may use more NUMA nodes than those of the (fictitious) topology of this instance
+    node_of_thread %= l->numa_nodes;
+    st_thread->numa_node = node_of_thread;
+    // Any number of threads may run on the same NUMA node
     if (l->nodes[node_of_thread] == NULL) {
-        HSynchNode *ptr = synchGetAlignedMemory(CACHE_LINE_SIZE, (l->numa_node_size + 2) * sizeof(HSynchNode));
+        HSynchNode *ptr = synchGetAlignedMemory(CACHE_LINE_SIZE, (l->nthreads + 1) * sizeof(HSynchNode));
 
-        last_node = &ptr[l->numa_node_size + 1];
+        last_node = &ptr[l->nthreads];
         last_node->next = NULL;
         last_node->locked = false;
         last_node->completed = false;
 
         if (synchCASPTR(&l->nodes[node_of_thread], NULL, ptr) == false) 
-            synchFreeMemory(ptr, (l->numa_node_size + 2) * sizeof(HSynchNode));
+            synchFreeMemory(ptr, (l->nthreads + 1) * sizeof(HSynchNode));
     }
-    last_node = l->nodes[node_of_thread] + l->numa_node_size + 1;
+    last_node = l->nodes[node_of_thread] + l->nthreads;
     synchCASPTR(&l->Tail[node_of_thread].ptr, NULL, last_node);
     node_index = synchFAA32(&l->node_indexes[node_of_thread], 1);
     st_thread->next_node = l->nodes[node_of_thread] + node_index;
diff --git a/libconcurrent/includes/hsynch.h b/libconcurrent/includes/hsynch.h
index 69df39f..cd787a0 100644
--- a/libconcurrent/includes/hsynch.h
+++ b/libconcurrent/includes/hsynch.h
@@ -62,6 +62,8 @@ typedef union HSynchNodePtr {
 typedef struct HSynchThreadState {
     /// @brief pointer to an empty request that would be used for announcing future requests.
     HSynchNode *next_node;
+    /// @brief The Numa node (of the topology used by the instance) that the thread belongs to.
+    int32_t numa_node;
 } HSynchThreadState;
 
 ///  @brief HSynchStruct stores the state of an instance of the a HSynch combining object.
-- 
2.43.0


From d34be2cb91353fe07682670eb85241cb74712aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 09/21] fix: synchStartThreadsN sets the scheduling mode of
 each run from scratch

---
 libconcurrent/primitives/threadtools.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index 63823d1..34f859e 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -211,6 +211,7 @@ int synchStartThreadsN(uint32_t nthreads, void *(*func)(void *), uint32_t uthrea
         __uthreads = uthreads;
         __uthread_sched = true;
         __system_oversubscription = true;
+        __noop_resched = false;
         synchBarrierSet(&bar, nthreads / uthreads + 1);
         for (i = 0; i < (nthreads / uthreads) - 1; i++) {
             last_thread_id = pthread_create(&__threads[i], NULL, uthreadWrapper, (void *)(i * uthreads));
@@ -223,10 +224,8 @@ int synchStartThreadsN(uint32_t nthreads, void *(*func)(void *), uint32_t uthrea
         uthreadWrapper((void *)(i * uthreads));
     } else {
         __uthread_sched = false;
-        if (__nthreads > __ncores)
-            __system_oversubscription = true;
-        else
-            __noop_resched = true;
+        __system_oversubscription = (__nthreads > __ncores);
+        __noop_resched = !__system_oversubscription;
         synchBarrierSet(&bar, nthreads + 1);
         for (i = 0; i < nthreads - 1; i++) {
             last_thread_id = pthread_create(&__threads[i], NULL, kthreadWrapper, (void *)i);
-- 
2.43.0


From ad14454518e036f1271d3e91ca389710f02395d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 10/21] fix: NUMA_SPARSE_SMT_PREFER placement does not pin two
 threads to the same core

---
 libconcurrent/primitives/threadtools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index 34f859e..a82e680 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -106,7 +106,7 @@ inline uint32_t synchPreferredCoreOfThread(uint32_t pid) {
                 uint32_t double_nodes = 2 * nodes;
                 uint32_t half_node_size = node_size / 2;
 
-                preferred_core = (pid % node_size) * half_node_size + (pid / double_nodes);
+                preferred_core = (pid % double_nodes) * half_node_size + (pid / double_nodes);
             } else preferred_core = (pid / nodes) + (pid % nodes) * (node_size);
         } else if (__schedule_policy == SYNCH_THREAD_PLACEMENT_NUMA_DENSE) {
             preferred_core = pid;
-- 
2.43.0


From b1ac9141fecf7b76690658db9253671f8f8a177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 11/21] fix: synchBarrierLastLeave waits until every thread has
 left

---
 libconcurrent/primitives/barrier.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/barrier.c b/libconcurrent/primitives/barrier.c
index 4cee31a..b5c1213 100644
--- a/libconcurrent/primitives/barrier.c
+++ b/libconcurrent/primitives/barrier.c
@@ -45,7 +45,7 @@ inline void synchBarrierLeave(SynchBarrier *bar) {
 
 inline void synchBarrierLastLeave(SynchBarrier *bar) {
     synchBarrierLeave(bar);
-    while (bar->arrive != 0 && bar->leave != 0) {
+    while (bar->arrive != 0 || bar->leave != 0) {
         synchResched();
     }
 }
-- 
2.43.0


From 65df0f861ab1dc685aac795fe792060c8ce7e996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 12/21] fix: fibers free the whole stack of every fiber that
 finishes

---
 libconcurrent/primitives/uthreads.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/primitives/uthreads.c b/libconcurrent/primitives/uthreads.c
index c60c44c..41c85f7 100644
--- a/libconcurrent/primitives/uthreads.c
+++ b/libconcurrent/primitives/uthreads.c
@@ -42,6 +42,13 @@ inline static void switch_to_fiber(Fiber *prev, Fiber *cur) {
     }
 }
 
+static void free_recycled_stack(void) {
+    if (FIBER_RECYCLE != NULL) {
+        synchFreeMemory(FIBER_RECYCLE, FIBER_STACK);
+        FIBER_RECYCLE = NULL;
+    }
+}
+
 void synchFiberYield(void) {
     int prev_fiber;
 
@@ -53,10 +60,7 @@ void synchFiberYield(void) {
         currentFiber = (currentFiber + 1) % MAX_FIBERS;
     } while (FIBER_LIST[currentFiber].active == false);
     switch_to_fiber(&FIBER_LIST[prev_fiber], &FIBER_LIST[currentFiber]);
-    if (FIBER_RECYCLE != NULL) {
-        synchFreeMemory(FIBER_RECYCLE, sizeof(Fiber));
-        FIBER_RECYCLE = NULL;
-    }
+    free_recycled_stack();
 }
 
 static void fiber_start_func(FiberData *context) {
@@ -73,6 +77,7 @@ static void fiber_start_func(FiberData *context) {
     func((void *)arg); // Execute fiber with function func
     if (N_FIBERS == 1) // This check is not useful, since
         return;        // main thread never calls fiber_start_func
+    free_recycled_stack(); // Another fiber may have finished just before
     FIBER_RECYCLE = FIBER_LIST[currentFiber].context.uc_stack.ss_sp;
     FIBER_LIST[currentFiber].active = false;
     N_FIBERS--;
-- 
2.43.0


From 3bb321def3ecf0647c7088f2d663d251d71a4b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 13/21] fix: synchSpawnFiber does not overwrite a fiber that is
 still active

---
 libconcurrent/primitives/uthreads.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/libconcurrent/primitives/uthreads.c b/libconcurrent/primitives/uthreads.c
index 41c85f7..cb433d0 100644
--- a/libconcurrent/primitives/uthreads.c
+++ b/libconcurrent/primitives/uthreads.c
@@ -91,23 +91,26 @@ static void fiber_start_func(FiberData *context) {
 int synchSpawnFiber(void *(*func)(void *), long arg) {
     ucontext_t tmp;
     FiberData context;
+    int slot = 1;
 
     if (N_FIBERS == MAX_FIBERS)
         return -1;
+    while (FIBER_LIST[slot].active) // A fiber that is not the last one may have finished
+        slot++;
 
-    getcontext(&(FIBER_LIST[N_FIBERS].context));
-    FIBER_LIST[N_FIBERS].active = true;
-    FIBER_LIST[N_FIBERS].context.uc_link = NULL;
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_sp = synchGetMemory(FIBER_STACK);
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_size = FIBER_STACK;
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_flags = 0;
+    getcontext(&(FIBER_LIST[slot].context));
+    FIBER_LIST[slot].active = true;
+    FIBER_LIST[slot].context.uc_link = NULL;
+    FIBER_LIST[slot].context.uc_stack.ss_sp = synchGetMemory(FIBER_STACK);
+    FIBER_LIST[slot].context.uc_stack.ss_size = FIBER_STACK;
+    FIBER_LIST[slot].context.uc_stack.ss_flags = 0;
 
     context.func = func;
     context.arg = arg;
-    context.cur = &FIBER_LIST[N_FIBERS].jmp;
+    context.cur = &FIBER_LIST[slot].jmp;
     context.prev = &tmp;
-    makecontext(&FIBER_LIST[N_FIBERS].context, (void (*)())fiber_start_func, 1, &context);
-    swapcontext(&tmp, &FIBER_LIST[N_FIBERS].context);
+    makecontext(&FIBER_LIST[slot].context, (void (*)())fiber_start_func, 1, &context);
+    swapcontext(&tmp, &FIBER_LIST[slot].context);
     N_FIBERS++;
     return 1;
 }
-- 
2.43.0


From 1cd67b191ec4f65af3f9530ef3ed148e93b0c4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 14/21] fix: pool links its blocks, so that they are reused and
 destroyed

---
 libconcurrent/primitives/pool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libconcurrent/primitives/pool.c b/libconcurrent/primitives/pool.c
index a4b4a1b..e54b041 100644
--- a/libconcurrent/primitives/pool.c
+++ b/libconcurrent/primitives/pool.c
@@ -58,6 +58,7 @@ void *synchAllocObj(SynchPoolStruct *pool) {
             } else {
                 SynchPoolBlock *new_block = get_new_block(pool->obj_size);
                 new_block->metadata.back = pool->cur_block;
+                pool->cur_block->metadata.next = new_block;
                 pool->cur_block = new_block;
             }
             ret = synchAllocObj(pool);
-- 
2.43.0


From fa05b2dd8fa5342e83efb790b2bf0271ad332873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 15/21] fix: synchFreeMemory frees the memory given by
 synchGetAlignedMemory

---
 libconcurrent/primitives/primitives.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/libconcurrent/primitives/primitives.c b/libconcurrent/primitives/primitives.c
index 377f726..cb04386 100644
--- a/libconcurrent/primitives/primitives.c
+++ b/libconcurrent/primitives/primitives.c
@@ -159,11 +159,15 @@ inline void *synchGetAlignedMemory(size_t align, size_t size) {
     void *p;
 
 #ifdef SYNCH_NUMA_SUPPORT
-    p = numa_alloc_local(size + align);
-    long plong = (long)p;
-    plong += align;
-    plong &= ~(align - 1);
-    p = (void *)plong;
+    if (align <= numa_pagesize()) {
+        p = numa_alloc_local(size); // This is page-aligned, thus synchFreeMemory is able to free it
+    } else {
+        p = numa_alloc_local(size + align);
+        long plong = (long)p;
+        plong += align;
+        plong &= ~(align - 1);
+        p = (void *)plong;
+    }
 #else
     p = (void *)memalign(align, size);
 #endif
-- 
2.43.0


From 8b133e4a24185021fd7ea9e1c3b2f0e2f9c1467a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 16/21] fix: OsciInit computes the groups of fibers from the
 fibers per thread that it uses

---
 libconcurrent/concurrent/osci.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/osci.c b/libconcurrent/concurrent/osci.c
index e56672e..a136573 100644
--- a/libconcurrent/concurrent/osci.c
+++ b/libconcurrent/concurrent/osci.c
@@ -126,11 +126,11 @@ void OsciInit(OsciStruct *l, uint32_t nthreads, uint32_t fibers_per_thread) {
     int i;
 
     l->nthreads = nthreads;
-    if (fibers_per_thread <= nthreads)
+    if (fibers_per_thread >= 1 && fibers_per_thread <= nthreads)
         l->fibers_per_thread = fibers_per_thread;
     else
         l->fibers_per_thread = 1;
-    l->groups_of_fibers = (nthreads / fibers_per_thread) + (nthreads % fibers_per_thread != 0 ? 1 : 0);
+    l->groups_of_fibers = (nthreads / l->fibers_per_thread) + (nthreads % l->fibers_per_thread != 0 ? 1 : 0);
 #ifdef DEBUG
     l->rounds = l->counter = 0;
 #endif
-- 
2.43.0


From f5184a32b80b264a0075ed1027d229568a3ba591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 17/21] fix: OsciQueue and OsciStack provide a pool of nodes
 for each fiber

---
 libconcurrent/concurrent/osciqueue.c | 2 +-
 libconcurrent/concurrent/oscistack.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/osciqueue.c b/libconcurrent/concurrent/osciqueue.c
index 0e43ece..8ba0ee1 100644
--- a/libconcurrent/concurrent/osciqueue.c
+++ b/libconcurrent/concurrent/osciqueue.c
@@ -7,7 +7,7 @@ inline static RetVal serialDequeue(void *state, ArgVal arg, int pid);
 void OsciQueueInit(OsciQueueStruct *queue_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(queue_object_struct->enqueue_struct), nthreads, fibers_per_thread);
     OsciInit(&queue_object_struct->dequeue_struct, nthreads, fibers_per_thread);
-    queue_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, queue_object_struct->enqueue_struct.groups_of_fibers * sizeof(SynchPoolStruct));
+    queue_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, nthreads * sizeof(SynchPoolStruct));
     queue_object_struct->guard.val = GUARD_VALUE;
     queue_object_struct->guard.next = NULL;
     queue_object_struct->first = &queue_object_struct->guard;
diff --git a/libconcurrent/concurrent/oscistack.c b/libconcurrent/concurrent/oscistack.c
index 08e06d6..e27afed 100644
--- a/libconcurrent/concurrent/oscistack.c
+++ b/libconcurrent/concurrent/oscistack.c
@@ -7,7 +7,7 @@ static const ArgVal POP_OP = GUARD_VALUE;
 
 void OsciStackInit(OsciStackStruct *stack_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(stack_object_struct->object_struct), nthreads, fibers_per_thread);
-    stack_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, stack_object_struct->object_struct.groups_of_fibers * sizeof(SynchPoolStruct));
+    stack_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, nthreads * sizeof(SynchPoolStruct));
     stack_object_struct->top = NULL;
 }
 
-- 
2.43.0


From 504509c058e25daf75709a7aa28cd2df0b8d6622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 18/21] fix: threads start on machines whose NUMA nodes have an
 odd number of cores

---
 libconcurrent/primitives/threadtools.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index a82e680..7593628 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -77,6 +77,13 @@ inline static void *kthreadWrapper(void *arg) {
     return NULL;
 }
 
+#ifdef SYNCH_NUMA_SUPPORT
+inline static bool isSMTDetected(uint32_t ncpus, uint32_t nodes) {
+    // SMT or HyperThreading implies that each NUMA node has an even number of processing elements
+    return ncpus % (2 * nodes) == 0 && numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2);
+}
+#endif
+
 inline uint32_t synchPreferredCoreOfThread(uint32_t pid) {
     uint32_t preferred_core = 0;
 
@@ -89,7 +96,7 @@ inline uint32_t synchPreferredCoreOfThread(uint32_t pid) {
         uint32_t node_size = ncpus / nodes;
 
         if (__schedule_policy == SYNCH_THREAD_PLACEMENT_NUMA_SPARSE) {
-            if (numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2)) { // SMT or HyperThreading detected
+            if (isSMTDetected(ncpus, nodes)) { // SMT or HyperThreading detected
                 uint32_t half_node_size = node_size / 2;
                 uint32_t offset = 0;
                 uint32_t half_cpu_id = pid;
@@ -102,7 +109,7 @@ inline uint32_t synchPreferredCoreOfThread(uint32_t pid) {
                 preferred_core += offset;
             } else preferred_core = (pid / nodes) + (pid % nodes) * (node_size);
         } else if (__schedule_policy == SYNCH_THREAD_PLACEMENT_NUMA_SPARSE_SMT_PREFER) {
-            if (numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2)) { // SMT or HyperThreading detected
+            if (isSMTDetected(ncpus, nodes)) { // SMT or HyperThreading detected
                 uint32_t double_nodes = 2 * nodes;
                 uint32_t half_node_size = node_size / 2;
 
@@ -134,7 +141,7 @@ inline uint32_t synchPreferredNumaNodeOfThread(uint32_t pid) {
     uint32_t nodes = numa_num_task_nodes();
     uint32_t node_size = ncpus / nodes;
 
-    if (numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2)) { // SMT or HyperThreading detected
+    if (isSMTDetected(ncpus, nodes)) { // SMT or HyperThreading detected
         uint32_t half_node_size = node_size / 2;
 
         if (preferred_core < ncpus / 2)
-- 
2.43.0


From d3e048677ca229d4a1aa58650bd3ce2814ff1a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:08 +0000
Subject: [PATCH 19/21] fix: emulated fetch&add re-reads the word on every
 attempt

The cast dropped the volatile qualifier of the word, so compilers hoisted the
load out of the retry loop and an interrupted operation never completed.
---
 libconcurrent/primitives/primitives.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/primitives/primitives.c b/libconcurrent/primitives/primitives.c
index cb04386..26a9f13 100644
--- a/libconcurrent/primitives/primitives.c
+++ b/libconcurrent/primitives/primitives.c
@@ -306,7 +306,7 @@ inline int32_t _FAA32(volatile int32_t *A, int32_t B) {
     int32_t new_val;
 
     while (true) {
-        old_val = *((int32_t *volatile)A);
+        old_val = *((volatile int32_t *)A);
         new_val = old_val + B;
         if (*A == old_val && synchCAS32(A, old_val, new_val) == true) break;
     }
@@ -332,7 +332,7 @@ inline int64_t _FAA64(volatile int64_t *A, int64_t B) {
     int64_t new_val;
 
     while (true) {
-        old_val = *((int64_t *volatile)A);
+        old_val = *((volatile int64_t *)A);
         new_val = old_val + B;
         if (*A == old_val && synchCAS64(A, old_val, new_val) == true) break;
     }
-- 
2.43.0


From 181631222e48634611835d4b01f90336c1cd0dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:52 +0000
Subject: [PATCH 20/21] fix: accept the documented option --backoff

The help text lists --backoff as a synonym of -b, but as it was not in the
table of options it was taken for an ambiguous prefix of --backoff_low and
--backoff_high, and the benchmark exited.
---
 libconcurrent/primitives/bench_args.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libconcurrent/primitives/bench_args.c b/libconcurrent/primitives/bench_args.c
index ed9e5ce..32071ff 100644
--- a/libconcurrent/primitives/bench_args.c
+++ b/libconcurrent/primitives/bench_args.c
@@ -34,6 +34,7 @@ void synchParseArguments(SynchBenchArgs *bench_args, int argc, char *argv[]) {
              {"runs", required_argument, 0, 'r'},
              {"max_work", required_argument, 0, 'w'},
              {"backoff_low", required_argument, 0, 'l'},
+             {"backoff", required_argument, 0, 'b'},
              {"backoff_high", required_argument, 0, 'b'},
              {"numa_nodes", required_argument, 0, 'n'},
              {"help", no_argument, 0, 'h'},
-- 
2.43.0


From 9b213fce46f628895888a47e7e3407c61c12a54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:05 +0000
Subject: [PATCH 21/21] fix: do not count the atomics that accumulate the
 statistics

synchStopCPUCounters added three of its own synchFAA64 operations (and, with
SYNCH_EMULATE_FAA, their CAS operations) to the counters of each thread.
---
 libconcurrent/primitives/stats.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/primitives/stats.c b/libconcurrent/primitives/stats.c
index ff64f66..02650c4 100644
--- a/libconcurrent/primitives/stats.c
+++ b/libconcurrent/primitives/stats.c
@@ -106,10 +106,16 @@ void synchStartCPUCounters(int id) {
 
 void synchStopCPUCounters(int id) {
 #ifdef DEBUG
-    synchFAA64(&__total_failed_cas, __failed_cas);
-    synchFAA64(&__total_executed_cas, __executed_cas);
-    synchFAA64(&__total_executed_swap, __executed_swap);
-    synchFAA64(&__total_executed_faa, __executed_faa);
+    // synchFAA64 is counted as well, so the counters should be read before they are accumulated
+    int64_t failed_cas = __failed_cas;
+    int64_t executed_cas = __executed_cas;
+    int64_t executed_swap = __executed_swap;
+    int64_t executed_faa = __executed_faa;
+
+    synchFAA64(&__total_failed_cas, failed_cas);
+    synchFAA64(&__total_executed_cas, executed_cas);
+    synchFAA64(&__total_executed_swap, executed_swap);
+    synchFAA64(&__total_executed_faa, executed_faa);
 #endif
 
 #ifdef SYNCH_TRACK_CPU_COUNTERS
-- 
2.43.0

