From 7cd5d4581e6536d7e6c2a389732550e9a7c53c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 01/50] fix: index-mode work could hang because index 0 reads
 as 'no more work'

GetNextWorkIndex hands out BlockNext starting at 0 but returns 0 for 'nothing
left', so whichever thread drew the first index left without doing anything.
With no other thread available (one CPU, no worker woken) the caller waited
for ever.
---
 src/atop/threads.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/atop/threads.h b/src/atop/threads.h
index 20214c0..78315bb 100644
--- a/src/atop/threads.h
+++ b/src/atop/threads.h
@@ -1115,7 +1115,8 @@ public:
         }
 
         pWorkItem->BlocksCompleted = 0;
-        pWorkItem->BlockNext = 0;
+        // In custom mode the indexes run from 1 to len: GetNextWorkIndex uses 0 to say there is no more work
+        pWorkItem->BlockNext = bGenericMode ? 0 : 1;
         pWorkItem->BlockSize = BlockSize;
 
         int32_t threads = (threadWakeup + 1);
-- 
2.43.0


From 12b66fe4010fe067f685ad51100a8a22122d2a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 02/50] fix: a late worker could run with a finished or
 recycled work item

A worker that read the published work index but had not started yet could
enter DoWork after the caller had returned, using the callback arguments on
the caller's stack, or pick up a ring slot that was being refilled for another
operation. Work items now count the workers inside; the caller closes the item
before it returns, and a slot that is still in use is never handed out again.
---
 src/atop/common_inc.h |  2 +
 src/atop/sort.cpp     |  2 +
 src/atop/threads.cpp  | 22 +++++-----
 src/atop/threads.h    | 93 +++++++++++++++++++++++++++++++++----------
 4 files changed, 90 insertions(+), 29 deletions(-)

diff --git a/src/atop/common_inc.h b/src/atop/common_inc.h
index 998c531..7f1b8b9 100644
--- a/src/atop/common_inc.h
+++ b/src/atop/common_inc.h
@@ -178,6 +178,8 @@ typedef unsigned char       BYTE;
 #define InterlockedIncrement64(val) (__sync_fetch_and_add(val, 1) + 1)
 #define InterlockedIncrement(val) (__sync_fetch_and_add(val, 1) + 1)
 #define InterlockedDecrement(val) (__sync_fetch_and_add(val, -1) - 1)
+#define InterlockedDecrement64(val) (__sync_fetch_and_add(val, -1) - 1)
+#define InterlockedCompareExchange64(val, exchange, comparand) (__sync_val_compare_and_swap(val, comparand, exchange))
 #define AtopInterlockedOr(val, bitpos) (__sync_fetch_and_or(val, bitpos))
 #define AtopInterlockedAnd(val, bitpos) (__sync_fetch_and_and(val, bitpos))
 #define AtopInterlockedXor(val, bitpos) (__sync_fetch_and_xor(val, bitpos))
diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 4f7416c..ad1c6f9 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -2020,6 +2020,7 @@ par_amergesort(
             pWorkSpace = WORKSPACE_ALLOC(allocSize);
 
             if (pWorkSpace == NULL) {
+                pWorkItem->Release();
                 return -1;
             }
 
@@ -2149,6 +2150,7 @@ par_sort(
         pWorkSpace = WORKSPACE_ALLOC(allocSize);
 
         if (pWorkSpace == NULL) {
+            pWorkItem->Release();
             return -1;
         }
 
diff --git a/src/atop/threads.cpp b/src/atop/threads.cpp
index e3f670b..23696ce 100644
--- a/src/atop/threads.cpp
+++ b/src/atop/threads.cpp
@@ -110,16 +110,20 @@ WorkerThreadFunction(void* lpParam)
 
         // See if work to do
         if (workIndex > workIndexCompleted) {
-            stMATH_WORKER_ITEM* pWorkItem = pWorkerRing->GetExistingWorkItem();
-
-            // check if the work was for our thread
-            if ((int64_t)core <= pWorkItem->ThreadWakeup) {
-                LOGGING("Pos Waking %d %d %lld\n", core, pool, workIndex);
-                didSomeWork = pWorkItem->DoWork(core, pWorkerRing->MainWorkIndex);
-            }
-            else {
-                LOGGING("Not Waking %d %d %lld\n", core, pool, workIndex);
+            stMATH_WORKER_ITEM* pWorkItem = pWorkerRing->GetExistingWorkItem(workIndex);
+
+            // the item may be finished already, or waiting to be used for another operation
+            if (pWorkItem->Enter()) {
+                // check if the work was for our thread
+                if ((int64_t)core <= pWorkItem->ThreadWakeup) {
+                    LOGGING("Pos Waking %d %d %lld\n", core, pool, workIndex);
+                    didSomeWork = pWorkItem->DoWork(core, workIndex);
+                }
+                else {
+                    LOGGING("Not Waking %d %d %lld\n", core, pool, workIndex);
 
+                }
+                pWorkItem->Leave();
             }
         }
 
diff --git a/src/atop/threads.h b/src/atop/threads.h
index 78315bb..34be7ae 100644
--- a/src/atop/threads.h
+++ b/src/atop/threads.h
@@ -250,6 +250,57 @@ struct stMATH_WORKER_ITEM {
     // This should help with L1,L2 caches
     stWorkerChannel     WorkerChannel[MAX_WORKER_HANDLES];
 
+    // Who may use this item (atomic)
+    // ITEM_FREE:     nobody, it can be reserved
+    // ITEM_RESERVED: the thread filling it in
+    // >= 0:          it is published, the value is how many worker threads are inside DoWork
+    static const int64_t ITEM_FREE = -1;
+    static const int64_t ITEM_RESERVED = -2;
+    volatile int64_t    WorkersInside;
+
+    //==============================================================
+    // Returns TRUE if the caller may now fill in this item
+    FORCE_INLINE BOOL Reserve() {
+        return InterlockedCompareExchange64(&WorkersInside, ITEM_RESERVED, ITEM_FREE) == ITEM_FREE;
+    }
+
+    //==============================================================
+    // The item is filled in: workers may enter
+    FORCE_INLINE void Open() {
+        InterlockedCompareExchange64(&WorkersInside, 0, ITEM_RESERVED);
+    }
+
+    //==============================================================
+    // Give back an item that was reserved but never published
+    FORCE_INLINE void Release() {
+        InterlockedCompareExchange64(&WorkersInside, ITEM_FREE, ITEM_RESERVED);
+    }
+
+    //==============================================================
+    // Waits for the workers inside to leave, no worker can enter afterwards
+    FORCE_INLINE void Close() {
+        while (InterlockedCompareExchange64(&WorkersInside, ITEM_FREE, 0) != 0) {
+            YieldProcessor();
+        }
+    }
+
+    //==============================================================
+    // Called by a worker thread before it looks at the item
+    // Returns FALSE if there is no published work in this item
+    FORCE_INLINE BOOL Enter() {
+        int64_t inside = WorkersInside;
+        while (inside >= 0) {
+            int64_t seen = InterlockedCompareExchange64(&WorkersInside, inside + 1, inside);
+            if (seen == inside) return TRUE;
+            inside = seen;
+        }
+        return FALSE;
+    }
+
+    FORCE_INLINE void Leave() {
+        InterlockedDecrement64(&WorkersInside);
+    }
+
     //==============================================================
     FORCE_INLINE int64_t GetWorkBlock() {
         int64_t val = InterlockedIncrement64(&BlockNext);
@@ -430,7 +481,6 @@ struct stWorkerRing {
     static const int64_t   RING_BUFFER_MASK = 1023;
 
     // Uee atomic instructions to guard threading
-    volatile int64_t       ExclusiveLock;
     volatile int64_t       MainWorkIndex;
 
     // Thread pools wait on the tracker address
@@ -444,7 +494,6 @@ struct stWorkerRing {
     stMATH_WORKER_ITEM      WorkerQueue[RING_BUFFER_SIZE];
 
     void Init(stGlobalWorkerParams* pGlobalParams) {
-        ExclusiveLock = 0;
         MainWorkIndex = 0;
 
         pParams = pGlobalParams;
@@ -461,6 +510,7 @@ struct stWorkerRing {
             WorkerQueue[i].TotalElements = 0;
             WorkerQueue[i].BlockNext = 0;
             WorkerQueue[i].BlocksCompleted = 0;
+            WorkerQueue[i].WorkersInside = stMATH_WORKER_ITEM::ITEM_FREE;
         }
 
     }
@@ -469,17 +519,24 @@ struct stWorkerRing {
         pParams->Cancelled = 1;
     }
 
+    // Returns NULL if all items are in use
     FORCE_INLINE stMATH_WORKER_ITEM* GetWorkItem() {
-        int64_t workIndex = InterlockedIncrement64(&MainWorkIndex);
-        stMATH_WORKER_ITEM* pWorkItem = &WorkerQueue[workIndex & RING_BUFFER_MASK];
-        pWorkItem->WorkIndex = workIndex;
-        pWorkItem->ZigZag = pParams->ZigZag;
-        return pWorkItem;
+        for (int64_t i = 0; i < RING_BUFFER_SIZE; i++) {
+            int64_t workIndex = InterlockedIncrement64(&MainWorkIndex);
+            stMATH_WORKER_ITEM* pWorkItem = &WorkerQueue[workIndex & RING_BUFFER_MASK];
+            // skip items another application thread is still busy with
+            if (pWorkItem->Reserve()) {
+                pWorkItem->WorkIndex = workIndex;
+                pWorkItem->ZigZag = pParams->ZigZag;
+                return pWorkItem;
+            }
+        }
+        return NULL;
     }
 
-    FORCE_INLINE stMATH_WORKER_ITEM* GetExistingWorkItem() {
-        // Note: not safe when multiproc used
-        return  &WorkerQueue[MainWorkIndex  & RING_BUFFER_MASK];
+    FORCE_INLINE stMATH_WORKER_ITEM* GetExistingWorkItem(int64_t workIndex) {
+        // The caller must Enter() the item before using it
+        return  &WorkerQueue[workIndex & RING_BUFFER_MASK];
     }
 
     FORCE_INLINE void WakeupWorkItem(int pool, int32_t maxThreadsToWake) {
@@ -533,6 +590,7 @@ struct stWorkerRing {
             pParams->ZigZag ^= 1;
 
         THREADLOGGING("on work item %lld, waking %d\n", workIndex, maxThreadsToWake);
+        pWorkItem->Open();
         Pool[0].WorkIndex = workIndex;
         if (maxThreadsToWake > 3) {
             WakeupWorkItem(0, 3);
@@ -1061,16 +1119,8 @@ public:
 
         stWorkerRing* pstRing = pWorkerRings[0];
 
-        // Grab atomic lock in case of threading inside threading
-        if (AtopInterlockedOr(&pstRing->ExclusiveLock, 1) == 0) {
-
-            // Otherwise allow parallel processing
-            stMATH_WORKER_ITEM* pWorkItem = pstRing->GetWorkItem();
-            pstRing->ExclusiveLock = 0;
-            return pWorkItem;
-        }
-        // could not grab lock
-        return NULL;
+        // Otherwise allow parallel processing
+        return pstRing->GetWorkItem();
     }
 
     //------------------------------------------------------------------------------
@@ -1166,6 +1216,9 @@ public:
         // Mark this as completed
         pWorkerRings[0]->CompleteWorkItem(threadWakeup, pWorkItem);
 
+        // The item refers to memory of our caller: no worker may be using it once we return
+        pWorkItem->Close();
+
     }
 
 
-- 
2.43.0


From 81326faa39186d2df40035fedc3d13607fbc8371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 03/50] fix: in-place 8-bit comparisons compared the first
 elements twice

CompareInt8 fell through to the strided loop after the vector loop, comparing
the first len % 32 elements again. With the output in place of an input that
gave wrong answers.
---
 src/atop/ops_compare.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/atop/ops_compare.cpp b/src/atop/ops_compare.cpp
index e857711..bb1f551 100644
--- a/src/atop/ops_compare.cpp
+++ b/src/atop/ops_compare.cpp
@@ -1238,6 +1238,7 @@ static void CompareInt8(void* pDataIn, void* pDataIn2, void* pDataOut, int64_t l
                     for (int64_t i = 0; i < len; i++) {
                         pDataOutX[i] = COMPARE(pDataInX[i], pDataIn2X[i]);
                     }
+                    return;
                 }
             }
     }
-- 
2.43.0


From 569faf0d4c4c40b5de3288b71e0b094be6d7a891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 04/50] fix: accumulate and overlapping outputs were computed
 out of order by threads

---
 src/pnumpy/_pnumpy.cpp | 44 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index b73b4c1..8188951 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -632,6 +632,29 @@ GetReduceStartVal(int funcop, int atype) {
 }
 
 
+//============================================================================
+// Returns true when the output overlaps an input in any other way than element for element.
+// Then an element may depend on the ones computed before it (for instance in ufunc.accumulate)
+// and the loop cannot be split among threads.
+static bool
+OutputOverlapsInput(const char* pInput, npy_intp strideIn, const char* pOutput, npy_intp strideOut, npy_intp n) {
+    // upper limit for the size of one element
+    const npy_intp maxItemSize = 16;
+
+    if (pInput == pOutput && strideIn == strideOut && strideOut != 0) {
+        return false;
+    }
+    npy_intp lastIn = strideIn * (n - 1);
+    npy_intp lastOut = strideOut * (n - 1);
+    const char* pInFirst = lastIn < 0 ? pInput + lastIn : pInput;
+    const char* pInLast = lastIn < 0 ? pInput : pInput + lastIn;
+    const char* pOutFirst = lastOut < 0 ? pOutput + lastOut : pOutput;
+    const char* pOutLast = lastOut < 0 ? pOutput : pOutput + lastOut;
+
+    return pOutFirst < pInLast + maxItemSize && pInFirst < pOutLast + maxItemSize;
+}
+
+
 //============================================================================
 // For binary math functions like add, sbutract, multiply.
 // 2 inputs and 1 output
@@ -640,7 +663,12 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
     if (!g_Settings.LedgerEnabled) {
         stUFunc* pstUFunc = &g_UFuncLUT[funcop][atype];
         npy_intp n = dimensions[0];
-        stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(n);
+        stMATH_WORKER_ITEM* pWorkItem = NULL;
+
+        if (IS_BINARY_REDUCE ||
+            (!OutputOverlapsInput(args[0], steps[0], args[2], steps[2], n) && !OutputOverlapsInput(args[1], steps[1], args[2], steps[2], n))) {
+            pWorkItem = THREADER->GetWorkItem(n);
+        }
         LOGGING("called with %d %d   funcp: %p  len:%lld   inputs: %p %p %p  steps: %lld %lld %lld  pWorkItem: %p\n", funcop, atype, g_UFuncLUT[funcop][atype].pOldFunc, (long long)n, args[0], args[1], args[2], (long long)steps[0], (long long)steps[1], (long long)steps[2], pWorkItem);
 
         if (IS_BINARY_REDUCE) {
@@ -807,9 +835,17 @@ static void AtopCompareMathFunction(char** args, const npy_intp* dimensions, con
         // LOGGING("comparison called with %d %d   funcp: %p  len: %lld\n", funcop, atype, g_CompFuncLUT[funcop][atype].pOldFunc, (long long)dimensions[0]);
         stUFunc* pstUFunc = &g_CompFuncLUT[funcop][atype];
         npy_intp n = dimensions[0];
-        stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(n);
+        stMATH_WORKER_ITEM* pWorkItem = NULL;
         ANY_TWO_FUNC pBinaryFunc = pstUFunc->pBinaryFunc;
 
+        if (OutputOverlapsInput(args[0], steps[0], args[2], steps[2], n) || OutputOverlapsInput(args[1], steps[1], args[2], steps[2], n)) {
+            // reduce or accumulate: one element after the other
+            pBinaryFunc = NULL;
+        }
+        else {
+            pWorkItem = THREADER->GetWorkItem(n);
+        }
+
         // Check if threading allowed
         if (!pWorkItem) {
             // Threading not allowed
@@ -878,7 +914,7 @@ static void AtopUnaryMathFunction(char** args, const npy_intp* dimensions, const
         UNARY_FUNC pUnaryFunc = pstUFunc->pUnaryFunc;
         LOGGING("unary called with %d %d   funcp: %p  len: %lld  inputs: %p %p  steps: %lld %lld\n", funcop, atype, g_UFuncLUT[funcop][atype].pOldFunc, n, args[0], args[1], (int64_t)steps[0], (int64_t)steps[1]);
 
-        stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(n);
+        stMATH_WORKER_ITEM* pWorkItem = OutputOverlapsInput(args[0], steps[0], args[1], steps[1], n) ? NULL : THREADER->GetWorkItem(n);
         int64_t strideOut = steps[1];
         if (strideOut == 0) {
             pUnaryFunc = NULL;
@@ -942,7 +978,7 @@ static void AtopTrigMathFunction(char** args, const npy_intp* dimensions, const
         UNARY_FUNC pUnaryFunc = pstUFunc->pUnaryFunc;
         //printf("trig called with %d %d   funcp: %p  len: %lld  inputs: %p %p  steps: %lld %lld\n", funcop, atype, pstUFunc->pOldFunc, n, args[0], args[1], (int64_t)steps[0], (int64_t)steps[1]);
 
-        stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(n);
+        stMATH_WORKER_ITEM* pWorkItem = OutputOverlapsInput(args[0], steps[0], args[1], steps[1], n) ? NULL : THREADER->GetWorkItem(n);
         int64_t strideOut = steps[1];
         if (strideOut == 0) {
             pUnaryFunc = NULL;
-- 
2.43.0


From 457f42ed94aabedec46896dfa4540364f96a4544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 05/50] fix: reduce of unaligned uint64 arrays crashed on an
 aligned load

---
 src/atop/ops_binary.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index d59e778..55cc994 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -209,8 +209,8 @@ inline void ReduceMathOpFast(void* pDataIn1X, void* pDataOutX, void* pStartVal,
             pDataIn256 += NUM_LOOPS_UNROLLED;
 
             while (pDataIn256 < pEnd_256) {
-                m0 = MATH_OP256(m0, pDataIn256[0]);
-                m1 = MATH_OP256(m1, pDataIn256[1]);
+                m0 = MATH_OP256(m0, LOADU(pDataIn256));
+                m1 = MATH_OP256(m1, LOADU(pDataIn256 + 1));
                 pDataIn256 += NUM_LOOPS_UNROLLED;
             }
 
-- 
2.43.0


From 73f5efd1e1ee3bfa1f6d65ce1caccdb9b252e17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 06/50] fix: float32 sum and product read past the 4 partial
 results

---
 src/atop/ops_binary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index 55cc994..eed3863 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -267,7 +267,7 @@ inline void ReduceMathOpFastUpcast(void* pDataIn1X, void* pDataOutX, void* pStar
         // TJD: testing indicates unrolling size of 2 is 3% faster
         const int64_t NUM_LOOPS_UNROLLED = 2;
         const int64_t chunkSize = NUM_LOOPS_UNROLLED * (sizeof(U256) / sizeof(DOWNCAST));
-        int64_t perReg = sizeof(U256) / sizeof(DOWNCAST);
+        int64_t perReg = sizeof(U256d) / sizeof(UPCAST);
 
         // NOTE: numpy uses the output val to seed the first input
         UPCAST startval = *(DOWNCAST*)pStartVal;
-- 
2.43.0


From 4db1e32c3469bd7d335f22695cb55f4bc62aaa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 07/50] fix: reductions that are not associative were split
 among threads

---
 src/pnumpy/_pnumpy.cpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 8188951..1c69746 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -605,6 +605,7 @@ char*
 GetReduceStartVal(int funcop, int atype) {
     switch (funcop) {
     case BINARY_OPERATION::ADD:
+    case BINARY_OPERATION::BITWISE_XOR:
         return g_startval_zero;
 
     case BINARY_OPERATION::MUL:
@@ -632,6 +633,29 @@ GetReduceStartVal(int funcop, int atype) {
 }
 
 
+//============================================================================
+// Returns true when the chunks of a reduction can be reduced separately and then combined.
+// The others (for instance subtract, divide, power, shift) must run one element after the other.
+static bool
+CanThreadReduce(int funcop) {
+    switch (funcop) {
+    case BINARY_OPERATION::ADD:
+    case BINARY_OPERATION::MUL:
+    case BINARY_OPERATION::MIN:
+    case BINARY_OPERATION::MAX:
+    case BINARY_OPERATION::NANMIN:
+    case BINARY_OPERATION::NANMAX:
+    case BINARY_OPERATION::LOGICAL_AND:
+    case BINARY_OPERATION::LOGICAL_OR:
+    case BINARY_OPERATION::BITWISE_AND:
+    case BINARY_OPERATION::BITWISE_XOR:
+    case BINARY_OPERATION::BITWISE_OR:
+        return true;
+    }
+    return false;
+}
+
+
 //============================================================================
 // Returns true when the output overlaps an input in any other way than element for element.
 // Then an element may depend on the ones computed before it (for instance in ufunc.accumulate)
@@ -665,7 +689,7 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
         npy_intp n = dimensions[0];
         stMATH_WORKER_ITEM* pWorkItem = NULL;
 
-        if (IS_BINARY_REDUCE ||
+        if (IS_BINARY_REDUCE ? CanThreadReduce(funcop) :
             (!OutputOverlapsInput(args[0], steps[0], args[2], steps[2], n) && !OutputOverlapsInput(args[1], steps[1], args[2], steps[2], n))) {
             pWorkItem = THREADER->GetWorkItem(n);
         }
@@ -745,13 +769,16 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
                     // possible bug -- check how big dimensions is for reduce
                     npy_intp dimensions[1];
 
+                    // the threaded results are contiguous
+                    npy_intp newsteps[3] = { 0, (npy_intp)itemsize, 0 };
+
                     newargs[0] = newargs[2] = op1;
                     newargs[1] = pReduceOfReduce;
 
                     // todo, check if only 1 dimension for reduce
                     dimensions[0] = chunks;
 
-                    pstUFunc->pOldFunc(newargs, dimensions, steps, innerloop);
+                    pstUFunc->pOldFunc(newargs, dimensions, newsteps, innerloop);
                 }
                 // Free if not on the stack
                 POSSIBLY_STACK_FREE(allocsize, pReduceOfReduce);
-- 
2.43.0


From b5edc5181517241086647b3b88e7e65e1c201db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 08/50] fix: minimum and maximum lost nan

---
 src/atop/ops_binary.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index eed3863..452cfac 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -61,6 +61,11 @@ template<typename T> static const inline T SubOp(T x, T y) { return x - y; }
 template<typename T> static const inline T MulOp(T x, T y) { return x * y; }
 template<typename T> static const inline T MinOp(T x, T y) { return x < y? x : y; }
 template<typename T> static const inline T MaxOp(T x, T y) { return x > y? x : y; }
+// NOTE: numpy returns nan if either is nan
+template<> const inline float MinOp<float>(float x, float y) { return (x != x || std::isless(x, y)) ? x : y; }
+template<> const inline double MinOp<double>(double x, double y) { return (x != x || std::isless(x, y)) ? x : y; }
+template<> const inline float MaxOp<float>(float x, float y) { return (x != x || std::isgreater(x, y)) ? x : y; }
+template<> const inline double MaxOp<double>(double x, double y) { return (x != x || std::isgreater(x, y)) ? x : y; }
 template<typename T> static const inline double DivOp(T x, T y) { return (double)x / (double)y; }
 template<typename T> static const inline float DivOp(float x, T y) { return x / y; }
 template<typename T> static const inline long double DivOp(long double x, T y) { return x / y; }
@@ -143,8 +148,8 @@ static const inline __m256i MIN_OP_256u16(__m256i x, __m256i y) { return _mm256_
 static const inline __m256i MIN_OP_256i16(__m256i x, __m256i y) { return _mm256_min_epi16(x, y); }
 static const inline __m256i MIN_OP_256i32(__m256i x, __m256i y) { return _mm256_min_epi32(x, y); }
 static const inline __m256i MIN_OP_256u32(__m256i x, __m256i y) { return _mm256_min_epu32(x, y); }
-static const inline __m256  MIN_OP_256f32(__m256 x, __m256 y) { return _mm256_min_ps(x, y); }
-static const inline __m256d MIN_OP_256f64(__m256d x, __m256d y) { return _mm256_min_pd(x, y); }
+static const inline __m256  MIN_OP_256f32(__m256 x, __m256 y) { return _mm256_blendv_ps(y, x, _mm256_or_ps(_mm256_cmp_ps(x, x, _CMP_UNORD_Q), _mm256_cmp_ps(x, y, _CMP_LT_OQ))); }
+static const inline __m256d MIN_OP_256f64(__m256d x, __m256d y) { return _mm256_blendv_pd(y, x, _mm256_or_pd(_mm256_cmp_pd(x, x, _CMP_UNORD_Q), _mm256_cmp_pd(x, y, _CMP_LT_OQ))); }
 
 static const inline __m256i MAX_OP_256i8(__m256i x, __m256i y) { return _mm256_max_epi8(x, y); }
 static const inline __m256i MAX_OP_256u8(__m256i x, __m256i y) { return _mm256_max_epu8(x, y); }
@@ -152,8 +157,8 @@ static const inline __m256i MAX_OP_256u16(__m256i x, __m256i y) { return _mm256_
 static const inline __m256i MAX_OP_256i16(__m256i x, __m256i y) { return _mm256_max_epi16(x, y); }
 static const inline __m256i MAX_OP_256i32(__m256i x, __m256i y) { return _mm256_max_epi32(x, y); }
 static const inline __m256i MAX_OP_256u32(__m256i x, __m256i y) { return _mm256_max_epu32(x, y); }
-static const inline __m256  MAX_OP_256f32(__m256 x, __m256 y) { return _mm256_max_ps(x, y); }
-static const inline __m256d MAX_OP_256f64(__m256d x, __m256d y) { return _mm256_max_pd(x, y); }
+static const inline __m256  MAX_OP_256f32(__m256 x, __m256 y) { return _mm256_blendv_ps(y, x, _mm256_or_ps(_mm256_cmp_ps(x, x, _CMP_UNORD_Q), _mm256_cmp_ps(x, y, _CMP_GT_OQ))); }
+static const inline __m256d MAX_OP_256f64(__m256d x, __m256d y) { return _mm256_blendv_pd(y, x, _mm256_or_pd(_mm256_cmp_pd(x, x, _CMP_UNORD_Q), _mm256_cmp_pd(x, y, _CMP_GT_OQ))); }
 
 // mask off low 32bits
 static const __m256i masklo = _mm256_set1_epi64x(0xFFFFFFFFLL);
-- 
2.43.0


From c7d425eff87b02159d97127f551b71a3a449a6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 09/50] fix: sort read the array instead of the native,
 contiguous buffer it was given

---
 src/pnumpy/_pnumpy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 1c69746..ca98b97 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -1096,7 +1096,7 @@ static int AtopSortMathFunction(void* pDest, npy_intp length, void* pArrayObject
                         if (PyArray_ITEMSIZE(pSrcObject) == itemsize && PyArray_STRIDE(pSrcObject, 0) == itemsize) {
                             SORT_MODE sortmode = (SORT_MODE)sortkind;
                             int result =
-                                Sort(sortmode, atype, PyArray_BYTES(pSrcObject), ArrayLength(pSrcObject), PyArray_STRIDE(pSrcObject, 1), PyArray_ITEMSIZE(pSrcObject), pDest, PyArray_ITEMSIZE(pSrcObject));
+                                Sort(sortmode, atype, pDest, length, itemsize, itemsize, pDest, itemsize);
 
                             LOGGING("result is %d  %d   len: %lld\n", result, atype, length);
                             if (result >= 0)
-- 
2.43.0


From bc7094e51748eaffe862f1b3b04f172503a6e0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 10/50] fix: threaded sort of a strided array read the wrong
 elements

---
 src/atop/sort.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index ad1c6f9..176ad17 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1573,6 +1573,9 @@ struct MERGE_STEP_ONE_CALLBACK {
     int64_t AllocChunk;
     int64_t TypeSizeInput;
 
+    // distance between the values to sort (only used when the values are copied)
+    int64_t StridesIn;
+
     // not valid for inplace sorting, otherwise is sizeof(int32) or sizeof(int64) depending on index size
     int64_t TypeSizeOutput;
 
@@ -1804,10 +1807,9 @@ static int64_t ParMergeInPlaceThreadCallback(struct stMATH_WORKER_ITEM* pstWorke
         char* pWorkSpace1 = Callback->pWorkSpace + (index * Callback->AllocChunk * itemSizeInput);
 
         // Copy data over
-        // TODO: Fix for strided data
         // For a pure inplace sort, pSrcData will be the same as pData
         if (pSrcData != pData)
-            CopyData(pSrcData + (pFirst * itemSizeInput), MergeSize, Callback->TypeSizeInput, Callback->StrLen, pData + (pFirst * itemSizeInput), Callback->TypeSizeOutput);
+            CopyData(pSrcData + (pFirst * Callback->StridesIn), MergeSize, Callback->StridesIn, Callback->StrLen, pData + (pFirst * itemSizeInput), Callback->TypeSizeOutput);
 
         if (Callback->SortCallbackOne.sortfunc) {
             Callback->SortCallbackOne.sortfunc(pData + (pFirst * itemSizeInput), MergeSize);
@@ -2170,6 +2172,7 @@ par_sort(
         stParMergeCallback.AllocChunk = allocChunk;
         stParMergeCallback.pWorkSpace = (char*)pWorkSpace;
         stParMergeCallback.TypeSizeInput = itemSize;
+        stParMergeCallback.StridesIn = stridesIn;
         stParMergeCallback.TypeSizeOutput = stridesOut;
 
         // This will notify the worker threads of a new work item
-- 
2.43.0


From dd0bb0c65c95495b04babe5b32bc8174b1867f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 11/50] fix: threaded sort merged strings as if they were
 single characters

---
 src/atop/sort.cpp | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 176ad17..dbe9ab0 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1421,6 +1421,42 @@ ParInPlaceMerge(void* pValue1, int64_t totalLen, int64_t strlen, void* pWorkSpac
 
 }
 
+//---------------------------------------------------------------------------
+// Called to combine the result of the left and right merge
+// T is unsigned char or uint32_t, strlen is the size of one string in bytes
+//
+template <typename T>
+static void
+ParInPlaceMergeString(void* pValue1, int64_t totalLen, int64_t strlen, void* pWorkSpace1) {
+    char* pl = (char*)pValue1;
+    char* pr = pl + (totalLen * strlen);
+    char* pm = pl + ((totalLen >> 1) * strlen);
+
+    // quickcheck to see if we have to copy
+    if (STRING_LT((T*)pm, (T*)(pm - strlen), strlen)) {
+
+        char* pj = (char*)pWorkSpace1;
+        char* pi = pj + (pm - pl);
+        char* pk = pl;
+
+        MEMCPYR(pj, pl, pm - pl);
+
+        while (pj < pi && pm < pr) {
+            if (STRING_LT((T*)pm, (T*)pj, strlen)) {
+                STRING_COPY(pk, pm, strlen);
+                pm += strlen;
+            }
+            else {
+                STRING_COPY(pk, pj, strlen);
+                pj += strlen;
+            }
+            pk += strlen;
+        }
+
+        MEMCPYR(pk, pj, pi - pj);
+    }
+}
+
 typedef int(*SORT_FUNCTION)(void* pValue, int64_t length);
 typedef int(*SORT_FUNCTION_STRING)(void* pValue, int64_t length, int64_t strlen);
 struct SORT_FUNCTION_ANY {
@@ -2128,7 +2164,8 @@ par_sort(
     int64_t         itemSize,
     void*           pOut,
     int64_t         stridesOut,
-    SORT_FUNCTION_ANY   pSortFunction)
+    SORT_FUNCTION_ANY   pSortFunction,
+    SORT_STEP_TWO   pMergeFunction = ParInPlaceMerge<DATATYPE>)
 {
     // If size is large, go parallel
     LOGGING("Parallel version  %p  %p  %p\n", pSortFunction.sortfunc, pOut , pValues);
@@ -2163,7 +2200,7 @@ par_sort(
         stParMergeCallback.SortCallbackOne = pSortFunction;
 
         // second pass is a mergesort in place
-        stParMergeCallback.SortCallbackTwo = ParInPlaceMerge<DATATYPE>;
+        stParMergeCallback.SortCallbackTwo = pMergeFunction;
 
         stParMergeCallback.pValues = pValues;
         stParMergeCallback.pToSort = pOut;
@@ -2482,9 +2519,9 @@ extern "C" int Sort(
     case ATOP_HALF_FLOAT:
         return par_sort<atop_half>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
     case ATOP_STRING:
-        return par_sort<unsigned char>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
+        return par_sort<unsigned char>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction, ParInPlaceMergeString<unsigned char>);
     case ATOP_UNICODE:
-        return par_sort<uint32_t>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
+        return par_sort<uint32_t>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction, ParInPlaceMergeString<uint32_t>);
     default:
         LOGGING("SortArray does not understand type %d\n", atype);
         return -1;
-- 
2.43.0


From 32bb21e2e88268e87b27407accc4f165931233af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 12/50] fix: stable argsort misplaced values when there were
 nans

---
 src/atop/sort.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index dbe9ab0..87c4286 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1162,7 +1162,7 @@ amergesort0_(UINDEX* pl, UINDEX* pr, const T* v, UINDEX* pw)
         // moving from workspace into left
 
         while (pw < pwEnd && pm < pr) {
-            if (v[*pm] < v[*pw]) {
+            if (COMPARE_LT(v[*pm], v[*pw])) {
                 *pl++ = *pm++;
             }
             else {
-- 
2.43.0


From ce75135519d79dba38403d49c855e0b0635f2ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 13/50] fix: threaded argsort of strings could skip a merge it
 needed

---
 src/atop/sort.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 87c4286..716f3e5 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1286,9 +1286,9 @@ ParMergeMergeString(void* pValue1, void* pToSort1, int64_t totalLen, int64_t str
     UINDEX* pi, * pj, * pk, * pm;
     pm = pl + ((pr - pl) >> 1);
 
-    PLOGGING("Comparing %s to %s  ALSO %s\n", pValue + (*pm) * strlen, pValue + (*pm - 1) * strlen, pValue + (*pm + 1) * strlen);
+    PLOGGING("Comparing %s to %s  ALSO %s\n", pValue + (*pm) * strlen, pValue + (*(pm - 1)) * strlen, pValue + (*(pm + 1)) * strlen);
 
-    if ( STRING_LT((DATATYPE)(pValue + (*pm) * strlen), (DATATYPE)(pValue + (*pm - 1) * strlen), strlen)) {
+    if ( STRING_LT((DATATYPE)(pValue + (*pm) * strlen), (DATATYPE)(pValue + (*(pm - 1)) * strlen), strlen)) {
 
         // copy the left to workspace
         MEMCPYR(pWorkSpace, pl, (pm - pl) * sizeof(UINDEX));
-- 
2.43.0


From 6526af3c1c584cf2ec4df6b1e3bdd1ed4e82c2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 14/50] fix: pnumpy.sort and lexsort misread byte-swapped
 arrays

---
 src/pnumpy/sorting.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index ddee8af..bcbed35 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -396,6 +396,10 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
                 PyErr_Format(PyExc_ValueError, "LexSort cannot handle type %d\n",dtype);
                 return NULL;
             }
+            if (!PyArray_ISNOTSWAPPED(mlp.aInfo[i].pObject)) {
+                PyErr_Format(PyExc_ValueError, "LexSort cannot handle byte-swapped arrays");
+                return NULL;
+            }
         }
 
 
@@ -540,6 +544,10 @@ extern "C" PyObject* sort(PyObject* self, PyObject* args, PyObject* kwargs) {
         PyErr_Format(PyExc_ValueError, "Sort cannot handle type %d\n", dtype);
         return NULL;
     }
+    if (!PyArray_ISNOTSWAPPED(inArrValues)) {
+        PyErr_Format(PyExc_ValueError, "Sort cannot handle byte-swapped arrays");
+        return NULL;
+    }
     int ndimValue;
     int64_t strideValue = 0;
 
-- 
2.43.0


From 196620b9a59f775ae9c9e471694435244311c1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 15/50] fix: lexsort returned a result with an exception set

---
 src/pnumpy/sorting.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index bcbed35..8c94e4b 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -372,6 +372,10 @@ template<typename UINDEX>
 PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
     CMultiListPrepare mlp(args);
 
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
+
     if (mlp.aInfo && mlp.tupleSize > 0) {
         int64_t    arraySize1 = mlp.totalRows;
 
@@ -486,6 +490,7 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
 
             return (PyObject*)result;
         }
+        return NULL;
     }
 
     Py_INCREF(Py_None);
-- 
2.43.0


From a1e0499dd59d46a050ef84f868e04965a2b5d8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 16/50] fix: recarray_to_colmajor raised NameError

---
 src/pnumpy/recarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/recarray.py b/src/pnumpy/recarray.py
index e18c49b..53e9829 100644
--- a/src/pnumpy/recarray.py
+++ b/src/pnumpy/recarray.py
@@ -36,7 +36,7 @@ def recarray_to_colmajor(item, parallel=True):
                 break;
 
         d={}
-        if successs and parallel:
+        if success and parallel:
             offsets=[]
             arrays=np.empty(len(item.dtype.fields), dtype='O')
             arrlen = len(item)
-- 
2.43.0


From 713f37d8246430e24bed2c5e4cdff943c1ca1f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 17/50] fix: recarray_to_colmajor failed on strided and
 multi-dimensional arrays

---
 src/pnumpy/recarray.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pnumpy/recarray.py b/src/pnumpy/recarray.py
index 53e9829..d09ba01 100644
--- a/src/pnumpy/recarray.py
+++ b/src/pnumpy/recarray.py
@@ -35,6 +35,10 @@ def recarray_to_colmajor(item, parallel=True):
                 success = False
                 break;
 
+        # the parallel routine walks one dimension without gaps
+        if item.strides != (item.dtype.itemsize,):
+            success = False
+
         d={}
         if success and parallel:
             offsets=[]
-- 
2.43.0


From 94b8c732d5e988a60dea7b74c3eafe6f300b6e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 18/50] fix: recarray_to_colmajor crashed when its workspace
 could not be allocated

---
 src/pnumpy/conversions.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pnumpy/conversions.cpp b/src/pnumpy/conversions.cpp
index 037b3e4..bb96523 100644
--- a/src/pnumpy/conversions.cpp
+++ b/src/pnumpy/conversions.cpp
@@ -77,6 +77,9 @@ recarray_to_colmajor(PyObject* self, PyObject* args) {
 
     // TODO allocate this on the stack
     pstOffset = (stRecarrayOffsets*)WORKSPACE_ALLOC(sizeof(stRecarrayOffsets) * numArrays);
+    if (!pstOffset) {
+        return PyErr_NoMemory();
+    }
 
     for (int64_t i = 0; i < numArrays; i++) {
         // Consider adding pOffsets here
-- 
2.43.0


From db8126b29ce45608b8579c048da88b368e48fa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 19/50] fix: boolean indexing used missing chunk counts when
 threading was switched on halfway

---
 src/pnumpy/getitem.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index b708352..840cc68 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -189,10 +189,15 @@ int64_t BooleanCount(PyArrayObject* aIndex, int64_t** ppChunkCount) {
             // 1-byte boolean TRUE values in the current chunk.
             // This means the current function is just responsible for parallelizing over the chunks
             // but doesn't do any real "math" itself.
+            // When threading is off, this is called once for all the chunks.
             int64_t strides = callbackArg->strideBoolean;
-            int64_t total = SumBooleanMask(&pBooleanMask[start * strides], length, strides);
-
-            pChunkCount[start / THREADER->WORK_ITEM_CHUNK] = total;
+            const int64_t chunkSize = THREADER->WORK_ITEM_CHUNK;
+            do {
+                int64_t chunkLength = length < chunkSize ? length : chunkSize;
+                pChunkCount[start / chunkSize] = SumBooleanMask(&pBooleanMask[start * strides], chunkLength, strides);
+                start += chunkLength;
+                length -= chunkLength;
+            } while (length > 0);
             return TRUE;
         };
 
@@ -201,11 +206,10 @@ int64_t BooleanCount(PyArrayObject* aIndex, int64_t** ppChunkCount) {
         stBSCallback.pBooleanMask = pBooleanMask;
         stBSCallback.strideBoolean = PyArray_STRIDE(aIndex, 0);
 
-        BOOL didMtWork = THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBSCallback, &stBSCallback);
+        THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBSCallback, &stBSCallback);
 
         *ppChunkCount = pChunkCount;
-        // if multithreading turned off...
-        return didMtWork ? chunks : 1;
+        return chunks;
     }
     // out of memory
     return 0;
-- 
2.43.0


From 54593d3f617ab88b80fe4755517be42a07d4fa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 20/50] fix: boolean indexing misplaced the last elements of
 strided strings and other wide items

---
 src/pnumpy/getitem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 840cc68..579ad04 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -479,7 +479,7 @@ BooleanIndexInternal(
                         for (int64_t i = 0; i < blength; i++) {
                             if (*pBooleanMask++) {
                                 memcpy(pValuesOut, pValuesIn, itemSize);
-                                pValuesOut += strideValues;
+                                pValuesOut += itemSize;
                             }
                             pValuesIn += strideValues;
                         }
-- 
2.43.0


From 3cf6749673656092b1f56f2067becaf6908506bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 21/50] fix: boolean indexing walked multi-dimensional arrays
 by the row stride

---
 src/pnumpy/getitem.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 579ad04..dad4a44 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -143,6 +143,13 @@ int64_t SumBooleanMask(const int8_t* const pData, const int64_t length, const in
     return result;
 }
 
+//===================================================
+// Distance in bytes between consecutive elements of a one dimensional
+// or (any other number of dimensions) contiguous array
+static int64_t FlatStride(PyArrayObject* inArr) {
+    return PyArray_NDIM(inArr) == 1 ? PyArray_STRIDE(inArr, 0) : PyArray_ITEMSIZE(inArr);
+}
+
 //===================================================
 // Input: boolean array
 // Output: chunk count and ppChunkCount
@@ -204,7 +211,7 @@ int64_t BooleanCount(PyArrayObject* aIndex, int64_t** ppChunkCount) {
         BSCallbackStruct stBSCallback;
         stBSCallback.pChunkCount = pChunkCount;
         stBSCallback.pBooleanMask = pBooleanMask;
-        stBSCallback.strideBoolean = PyArray_STRIDE(aIndex, 0);
+        stBSCallback.strideBoolean = FlatStride(aIndex);
 
         THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBSCallback, &stBSCallback);
 
@@ -568,8 +575,8 @@ BooleanIndexInternal(
             stBICallback.pValuesIn = (char*)PyArray_BYTES(aValues);
             stBICallback.pValuesOut = (char*)PyArray_BYTES(pReturnArray);
             stBICallback.itemSize = PyArray_ITEMSIZE(aValues);
-            stBICallback.strideBoolean = PyArray_STRIDE(aIndex, 0);
-            stBICallback.strideValues = PyArray_STRIDE(aValues, 0);
+            stBICallback.strideBoolean = FlatStride(aIndex);
+            stBICallback.strideValues = FlatStride(aValues);
 
             THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBICallback2, &stBICallback);
         }
-- 
2.43.0


From 0081debce581dc95171477fd5106e2d82db73c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 22/50] fix: getitem treated unsigned indexes as signed

---
 src/pnumpy/getitem.cpp | 48 +++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index dad4a44..58e4234 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -954,12 +954,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     case NPY_UINT8:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int8_t>;
-        case 2:  return GetItemUInt<int16_t, int8_t>;
-        case 4:  return GetItemUInt<int32_t, int8_t>;
-        case 8:  return GetItemUInt<int64_t, int8_t>;
-        case 16:  return GetItemUInt<__m128, int8_t>;
-        default: return GetItemUIntVariable<int8_t>;
+        case 1:  return GetItemUInt<int8_t, uint8_t>;
+        case 2:  return GetItemUInt<int16_t, uint8_t>;
+        case 4:  return GetItemUInt<int32_t, uint8_t>;
+        case 8:  return GetItemUInt<int64_t, uint8_t>;
+        case 16:  return GetItemUInt<__m128, uint8_t>;
+        default: return GetItemUIntVariable<uint8_t>;
         }
         break;
 
@@ -975,12 +975,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     case NPY_UINT16:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int16_t>;
-        case 2:  return GetItemUInt<int16_t, int16_t>;
-        case 4:  return GetItemUInt<int32_t, int16_t>;
-        case 8:  return GetItemUInt<int64_t, int16_t>;
-        case 16:  return GetItemUInt<__m128, int16_t>;
-        default: return GetItemUIntVariable<int16_t>;
+        case 1:  return GetItemUInt<int8_t, uint16_t>;
+        case 2:  return GetItemUInt<int16_t, uint16_t>;
+        case 4:  return GetItemUInt<int32_t, uint16_t>;
+        case 8:  return GetItemUInt<int64_t, uint16_t>;
+        case 16:  return GetItemUInt<__m128, uint16_t>;
+        default: return GetItemUIntVariable<uint16_t>;
         }
         break;
 
@@ -996,12 +996,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     CASE_NPY_UINT32:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int32_t>;
-        case 2:  return GetItemUInt<int16_t, int32_t>;
-        case 4:  return GetItemUInt<int32_t, int32_t>;
-        case 8:  return GetItemUInt<int64_t, int32_t>;
-        case 16:  return GetItemUInt<__m128, int32_t>;
-        default: return GetItemUIntVariable<int32_t>;
+        case 1:  return GetItemUInt<int8_t, uint32_t>;
+        case 2:  return GetItemUInt<int16_t, uint32_t>;
+        case 4:  return GetItemUInt<int32_t, uint32_t>;
+        case 8:  return GetItemUInt<int64_t, uint32_t>;
+        case 16:  return GetItemUInt<__m128, uint32_t>;
+        default: return GetItemUIntVariable<uint32_t>;
         }
         break;
 
@@ -1017,12 +1017,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     CASE_NPY_UINT64:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int64_t>;
-        case 2:  return GetItemUInt<int16_t, int64_t>;
-        case 4:  return GetItemUInt<int32_t, int64_t>;
-        case 8:  return GetItemUInt<int64_t, int64_t>;
-        case 16:  return GetItemUInt<__m128, int64_t>;
-        default: return GetItemUIntVariable<int64_t>;
+        case 1:  return GetItemUInt<int8_t, uint64_t>;
+        case 2:  return GetItemUInt<int16_t, uint64_t>;
+        case 4:  return GetItemUInt<int32_t, uint64_t>;
+        case 8:  return GetItemUInt<int64_t, uint64_t>;
+        case 16:  return GetItemUInt<__m128, uint64_t>;
+        default: return GetItemUIntVariable<uint64_t>;
         }
         break;
     }
-- 
2.43.0


From 87265a795da540213c9eeeb3567721e4d67e0b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 23/50] fix: threaded getitem of a strided array wrote to the
 wrong place

---
 src/pnumpy/getitem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 58e4234..1778b3d 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -917,7 +917,7 @@ static int64_t GetItemCallback(struct stMATH_WORKER_ITEM* pstWorkerItem, int cor
         // Calculate how much to adjust the pointers to get to the data for this work block
         int64_t blockStart = workBlock * pstWorkerItem->BlockSize;
 
-        int64_t valueAdj = blockStart * strideValue;
+        int64_t valueAdj = blockStart * valueItemSize;   // the output is contiguous
         int64_t indexAdj = blockStart * strideIndex;
 
         LOGGING("%d : workBlock %lld   blocksize: %lld    lenx: %lld  %lld  %lld  %lld %lld\n", core, workBlock, pstWorkerItem->BlockSize, lenX, typeSizeValues, typeSizeIndex, valueAdj, indexAdj);
-- 
2.43.0


From f7c822057c3ed291f18bb36510806cca88103eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 24/50] fix: getitem with unsigned indexes skipped every other
 wide item and overran its output

---
 src/pnumpy/getitem.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 1778b3d..c1cfa4a 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -837,7 +837,6 @@ static void GetItemUIntVariable(void* aValues, void* aIndex, void* aDataOut, int
             //    memcpy(pDataOut, pSrc, itemSize);
 
             pIndex++;
-            pDataOut += itemSize;
         }
     }
     else {
@@ -863,7 +862,6 @@ static void GetItemUIntVariable(void* aValues, void* aIndex, void* aDataOut, int
                 *pDataOut++ = *pSrc++;
             }
             pIndex = STRIDE_NEXT(const INDEX, pIndex, strideIndex);
-            pDataOut += itemSize;
         }
     }
 }
-- 
2.43.0


From c8f9d09039128814e6609e0453816ef49a5f7784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 25/50] fix: getitem crashed on 16 byte items that were not
 aligned

---
 src/pnumpy/getitem.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index c1cfa4a..fda7673 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -934,6 +934,9 @@ static int64_t GetItemCallback(struct stMATH_WORKER_ITEM* pstWorkerItem, int cor
 
 
 
+// 16 byte items (complex, strings, void) need not be aligned, unlike __m128
+struct ITEM16 { int64_t low; int64_t high; };
+
 //------------------------------------------------------------
 // itemSize is Values itemSize
 // indexType is Index type
@@ -946,7 +949,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int8_t>;
         case 4:  return GetItemInt<int32_t, int8_t>;
         case 8:  return GetItemInt<int64_t, int8_t>;
-        case 16:  return GetItemInt<__m128, int8_t>;
+        case 16:  return GetItemInt<ITEM16, int8_t>;
         default: return GetItemIntVariable<int8_t>;
         }
         break;
@@ -956,7 +959,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint8_t>;
         case 4:  return GetItemUInt<int32_t, uint8_t>;
         case 8:  return GetItemUInt<int64_t, uint8_t>;
-        case 16:  return GetItemUInt<__m128, uint8_t>;
+        case 16:  return GetItemUInt<ITEM16, uint8_t>;
         default: return GetItemUIntVariable<uint8_t>;
         }
         break;
@@ -967,7 +970,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int16_t>;
         case 4:  return GetItemInt<int32_t, int16_t>;
         case 8:  return GetItemInt<int64_t, int16_t>;
-        case 16:  return GetItemInt<__m128, int16_t>;
+        case 16:  return GetItemInt<ITEM16, int16_t>;
         default: return GetItemIntVariable<int16_t>;
         }
         break;
@@ -977,7 +980,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint16_t>;
         case 4:  return GetItemUInt<int32_t, uint16_t>;
         case 8:  return GetItemUInt<int64_t, uint16_t>;
-        case 16:  return GetItemUInt<__m128, uint16_t>;
+        case 16:  return GetItemUInt<ITEM16, uint16_t>;
         default: return GetItemUIntVariable<uint16_t>;
         }
         break;
@@ -988,7 +991,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int32_t>;
         case 4:  return GetItemInt<int32_t, int32_t>;
         case 8:  return GetItemInt<int64_t, int32_t>;
-        case 16:  return GetItemInt<__m128, int32_t>;
+        case 16:  return GetItemInt<ITEM16, int32_t>;
         default: return GetItemIntVariable<int32_t>;
         }
         break;
@@ -998,7 +1001,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint32_t>;
         case 4:  return GetItemUInt<int32_t, uint32_t>;
         case 8:  return GetItemUInt<int64_t, uint32_t>;
-        case 16:  return GetItemUInt<__m128, uint32_t>;
+        case 16:  return GetItemUInt<ITEM16, uint32_t>;
         default: return GetItemUIntVariable<uint32_t>;
         }
         break;
@@ -1009,7 +1012,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int64_t>;
         case 4:  return GetItemInt<int32_t, int64_t>;
         case 8:  return GetItemInt<int64_t, int64_t>;
-        case 16:  return GetItemInt<__m128, int64_t>;
+        case 16:  return GetItemInt<ITEM16, int64_t>;
         default: return GetItemIntVariable<int64_t>;
         }
         break;
@@ -1019,7 +1022,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint64_t>;
         case 4:  return GetItemUInt<int32_t, uint64_t>;
         case 8:  return GetItemUInt<int64_t, uint64_t>;
-        case 16:  return GetItemUInt<__m128, uint64_t>;
+        case 16:  return GetItemUInt<ITEM16, uint64_t>;
         default: return GetItemUIntVariable<uint64_t>;
         }
         break;
-- 
2.43.0


From 0818be73519c585697b7f82cb4c1eaa4a8090d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:10 +0000
Subject: [PATCH 26/50] fix: getitem and boolean indexing lost units, byte
 order and fields of the dtype

---
 src/pnumpy/common.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index 8cb9acb..9c34a8c 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -157,14 +157,12 @@ PyArrayObject* AllocateNumpyArray(int ndim, npy_intp* dims, int32_t numpyType, i
 //-----------------------------------------------------------------------------------
 // NOTE: will only allocate 1 dim arrays
 PyArrayObject* AllocateLikeResize(PyArrayObject* inArr, npy_intp rowSize) {
-    int numpyType = PyArray_TYPE(inArr);
+    // same dtype, including its fields, units and byte order
+    PyArray_Descr* descr = PyArray_DESCR(inArr);
+    Py_INCREF(descr);
 
-    PyArrayObject* result = NULL;
-
-    int64_t itemSize = PyArray_ITEMSIZE(inArr);
-    result = AllocateNumpyArray(1, &rowSize, numpyType, itemSize);
-
-    return result;
+    // this steals the reference to descr
+    return (PyArrayObject*)PyArray_NewFromDescr(pPyArray_Type, descr, 1, &rowSize, NULL, NULL, 0, NULL);
 }
 
 //-----------------------------------------------------------------------------------
-- 
2.43.0


From 24876682b62a141e93840ca1adaeb19e5586caab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:10 +0000
Subject: [PATCH 27/50] fix: getitem of object arrays dropped references, byte
 swapped indexes were misread

---
 src/pnumpy/getitem.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index fda7673..2fd1200 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -579,6 +579,9 @@ BooleanIndexInternal(
             stBICallback.strideValues = FlatStride(aValues);
 
             THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBICallback2, &stBICallback);
+
+            // the result holds its own references to the objects copied
+            PyArray_INCREF(pReturnArray);
         }
     }  else {
         // ran out of memory
@@ -1091,6 +1094,17 @@ getitem(PyObject* self, PyObject* args)
         return BooleanIndexInternal(aValues, aIndex);
     }
 
+    if (PyDataType_REFCHK(PyArray_DESCR(aValues))) {
+        // there is no default for objects
+        PyErr_Format(PyExc_ValueError, "Dont know how to handle object arrays %d using index dtype: %d", numpyValuesType, numpyIndexType);
+        return NULL;
+    }
+
+    if (!PyArray_ISNOTSWAPPED(aIndex)) {
+        PyErr_Format(PyExc_ValueError, "Dont know how to handle a byte swapped index dtype: %d", numpyIndexType);
+        return NULL;
+    }
+
     int ndimValue;
     int ndimIndex;
     int64_t strideValue = 0;
-- 
2.43.0


From 6d5af4ec023bc6e0cd59266720899b113bd24b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 28/50] fix: getitem default was wrong for complex, long
 double, string and structure dtypes

GetDefaultForType had no invalid value for several dtypes and let the gather
kernels read past an 8 byte integer, and ConvertScalarObject wrote a 32 byte
register to an unaligned buffer (crash) and ignored string defaults. Hold the
default in a one element array of the same dtype and let NumPy convert it.
---
 src/pnumpy/common.cpp  | 31 ++++++++++++++++++++++---------
 src/pnumpy/getitem.cpp | 31 +++++++++++++++++++------------
 2 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index 9c34a8c..a140610 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -30,21 +30,38 @@ static uint8_t  gDefaultUInt8 = 0xFF;
 
 static float  gDefaultFloat = NAN;
 static double gDefaultDouble = NAN;
+static long double gDefaultLongDouble = NAN;
+static uint16_t gDefaultHalf = 0x7E00;
+static float  gDefaultCFloat[2] = { NAN, 0 };
+static double gDefaultCDouble[2] = { NAN, 0 };
+static long double gDefaultCLongDouble[2] = { NAN, 0 };
 static int8_t   gDefaultBool = 0;
-static char   gString[1024] = { 0,0,0,0 };
 
 //----------------------------------------------------
 // returns pointer to a data type (of same size in memory) that holds the invalid value for the type
-// does not yet handle strings
+// returns NULL if the type has no invalid value (strings, structures): use zeros
 void* GetDefaultForType(int numpyInType) {
-    void* pgDefault = &gDefaultInt64;
+    void* pgDefault = NULL;
 
     switch (numpyInType) {
     case NPY_FLOAT:  pgDefault = &gDefaultFloat;
         break;
-    case NPY_LONGDOUBLE:
     case NPY_DOUBLE: pgDefault = &gDefaultDouble;
         break;
+    case NPY_LONGDOUBLE: pgDefault = &gDefaultLongDouble;
+        break;
+    case NPY_HALF:   pgDefault = &gDefaultHalf;
+        break;
+    case NPY_CFLOAT: pgDefault = &gDefaultCFloat;
+        break;
+    case NPY_CDOUBLE: pgDefault = &gDefaultCDouble;
+        break;
+    case NPY_CLONGDOUBLE: pgDefault = &gDefaultCLongDouble;
+        break;
+        // not a time
+    case NPY_DATETIME:
+    case NPY_TIMEDELTA: pgDefault = &gDefaultInt64;
+        break;
         // BOOL should not really have an invalid value inhabiting the type
     case NPY_BOOL:   pgDefault = &gDefaultBool;
         break;
@@ -64,12 +81,8 @@ void* GetDefaultForType(int numpyInType) {
         break;
     CASE_NPY_UINT64: pgDefault = &gDefaultUInt64;
         break;
-    case NPY_STRING: pgDefault = &gString;
-        break;
-    case NPY_UNICODE: pgDefault = &gString;
-        break;
     default:
-        printf("!!! likely problem in GetDefaultForType\n");
+        break;
     }
 
     return pgDefault;
diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 2fd1200..e074d3e 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -1149,21 +1149,27 @@ getitem(PyObject* self, PyObject* args)
 
         if (outArray) {
             void* pDataOut = PyArray_BYTES(outArray);
-            void* pDefault = GetDefaultForType(numpyValuesType);
-
-            // reserve a full 16 bytes for default in case we have oneS
-            char tempDefault[128];
+            // One element of the same dtype which holds the default
+            PyArrayObject* defaultArray = AllocateLikeResize(aValues, 1);
+            if (!defaultArray) {
+                Py_DECREF(outArray);
+                return NULL;
+            }
+            void* pDefault = PyArray_BYTES(defaultArray);
+            memset(pDefault, 0, aValueItemSize);
 
             // Check if a default value was passed in as third parameter
             if (defaultValue != Py_None) {
-                BOOL result;
-                int64_t itemSize;
-                void* pTempData = NULL;
-                // Try to convert the scalar
-                result = ConvertScalarObject(defaultValue, &tempDefault, numpyValuesType, &pTempData, &itemSize);
-                if (result) {
-                    // Assign the new default for out of range indexes
-                    pDefault = &tempDefault;
+                if (PyArray_SETITEM(defaultArray, (char*)pDefault, defaultValue) < 0) {
+                    Py_DECREF(defaultArray);
+                    Py_DECREF(outArray);
+                    return NULL;
+                }
+            }
+            else {
+                void* pInvalid = GetDefaultForType(numpyValuesType);
+                if (pInvalid) {
+                    PyArray_DESCR(defaultArray)->f->copyswap(pDefault, pInvalid, !PyArray_ISNOTSWAPPED(defaultArray), defaultArray);
                 }
             }
 
@@ -1206,6 +1212,7 @@ getitem(PyObject* self, PyObject* args)
                 //g_cMathWorker->WorkMain(pWorkItem, aIndexLength);
             }
 
+            Py_DECREF(defaultArray);
             return (PyObject*)outArray;
         }
         PyErr_Format(PyExc_ValueError, "GetItem ran out of memory %d %d", numpyValuesType, numpyIndexType);
-- 
2.43.0


From 53d52f698776cef1c6e6b54be78bc337a95b3bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:21 +0000
Subject: [PATCH 29/50] fix: the indexing hook ignored the shape of boolean
 masks

values[mask] with a mask that selects rows of a two dimensional array returned
a flat array once the hook was enabled.
---
 src/pnumpy/_pnumpy.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index ca98b97..41f1be1 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -1751,8 +1751,10 @@ PyObject * GetItemHook(PyObject* aValues, PyObject* aIndex) {
 
         PyObject* result = NULL;
         if (numpyIndexType == NPY_BOOL) {
-            // special path for boolean
-            result = BooleanIndexInternal((PyArrayObject*)aValues, (PyArrayObject*)aIndex);
+            // special path for boolean, when the mask selects elements (not rows)
+            if (PyArray_SAMESHAPE((PyArrayObject*)aValues, (PyArrayObject*)aIndex)) {
+                result = BooleanIndexInternal((PyArrayObject*)aValues, (PyArrayObject*)aIndex);
+            }
             if (result) {
                 return result;
             }
-- 
2.43.0


From 03eedd1f19cb128bbea7a8cd21774f7ebdf4bea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:48 +0000
Subject: [PATCH 30/50] fix: floating-point errors raised by worker threads
 were lost

np.errstate only looks at the status of the calling thread, so whether a
division by zero was reported depended on which thread took the block.
---
 src/atop/threads.cpp |  2 ++
 src/atop/threads.h   | 29 ++++++++++++++++++++++++++---
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/atop/threads.cpp b/src/atop/threads.cpp
index 23696ce..105b999 100644
--- a/src/atop/threads.cpp
+++ b/src/atop/threads.cpp
@@ -117,7 +117,9 @@ WorkerThreadFunction(void* lpParam)
                 // check if the work was for our thread
                 if ((int64_t)core <= pWorkItem->ThreadWakeup) {
                     LOGGING("Pos Waking %d %d %lld\n", core, pool, workIndex);
+                    feclearexcept(FE_ALL_EXCEPT);
                     didSomeWork = pWorkItem->DoWork(core, workIndex);
+                    pWorkItem->AddFloatStatus(fetestexcept(FE_ALL_EXCEPT));
                 }
                 else {
                     LOGGING("Not Waking %d %d %lld\n", core, pool, workIndex);
diff --git a/src/atop/threads.h b/src/atop/threads.h
index 34be7ae..28b3362 100644
--- a/src/atop/threads.h
+++ b/src/atop/threads.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "common_inc.h"
+#include <fenv.h>
 
 #if defined(__GNUC__)
 #if __GNUC_PREREQ(4, 4) || (__clang__ > 0 && __clang_major__ >= 3) || !defined(__GNUC__)
@@ -258,6 +259,9 @@ struct stMATH_WORKER_ITEM {
     static const int64_t ITEM_RESERVED = -2;
     volatile int64_t    WorkersInside;
 
+    // Floating point exceptions raised by worker threads (atomic or)
+    volatile int64_t    FloatStatus;
+
     //==============================================================
     // Returns TRUE if the caller may now fill in this item
     FORCE_INLINE BOOL Reserve() {
@@ -278,10 +282,25 @@ struct stMATH_WORKER_ITEM {
 
     //==============================================================
     // Waits for the workers inside to leave, no worker can enter afterwards
-    FORCE_INLINE void Close() {
-        while (InterlockedCompareExchange64(&WorkersInside, ITEM_FREE, 0) != 0) {
+    // Returns the floating point exceptions the workers raised
+    FORCE_INLINE int Close() {
+        while (InterlockedCompareExchange64(&WorkersInside, ITEM_RESERVED, 0) != 0) {
             YieldProcessor();
         }
+        int status = (int)FloatStatus;
+        Release();
+        return status;
+    }
+
+    //==============================================================
+    // Called by a worker thread to hand over the floating point exceptions it raised
+    FORCE_INLINE void AddFloatStatus(int status) {
+        int64_t old = FloatStatus;
+        while ((old | status) != old) {
+            int64_t seen = InterlockedCompareExchange64(&FloatStatus, old | status, old);
+            if (seen == old) return;
+            old = seen;
+        }
     }
 
     //==============================================================
@@ -1165,6 +1184,7 @@ public:
         }
 
         pWorkItem->BlocksCompleted = 0;
+        pWorkItem->FloatStatus = 0;
         // In custom mode the indexes run from 1 to len: GetNextWorkIndex uses 0 to say there is no more work
         pWorkItem->BlockNext = bGenericMode ? 0 : 1;
         pWorkItem->BlockSize = BlockSize;
@@ -1217,7 +1237,10 @@ public:
         pWorkerRings[0]->CompleteWorkItem(threadWakeup, pWorkItem);
 
         // The item refers to memory of our caller: no worker may be using it once we return
-        pWorkItem->Close();
+        int floatStatus = pWorkItem->Close();
+
+        // Exceptions are kept per thread, the caller checks this one
+        if (floatStatus) feraiseexcept(floatStatus);
 
     }
 
-- 
2.43.0


From 5dce244f78aa4a351b2ab405d98b0b19981febcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 31/50] fix: the ledger switched itself back on after
 ledger_disable

Every operation turned the global switch off and on again around itself, so a
ledger_disable (or enable) during an operation of another thread was undone,
and operations of other threads went unrecorded.
---
 src/pnumpy/_pnumpy.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 41f1be1..fce839c 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -347,12 +347,16 @@ stArangeFunc g_ArangeFuncLUT[ATOP_LAST];
 // set to 0 to disable
 stSettings g_Settings = { 1, 0, 0, 0, 0, 0, 0 };
 
+// true while this thread records an operation: the operation itself runs as if the ledger was off
+static thread_local bool g_InLedger = false;
+#define LEDGER_ACTIVE()   (g_Settings.LedgerEnabled && !g_InLedger)
+
 // Macro used just before call a ufunc
-#define LEDGER_START()    g_Settings.LedgerEnabled = 0; int64_t ledgerStartTime = __rdtsc();
+#define LEDGER_START()    g_InLedger = true; int64_t ledgerStartTime = __rdtsc();
 
 // Macro used just after ufunc call returns
-#define LEDGER_END(_cat_) g_Settings.LedgerEnabled = 1; LedgerRecord(_cat_, ledgerStartTime, (int64_t)__rdtsc(), args, dimensions, steps, innerloop, funcop, atype);
-#define LEDGER_END2(_cat_) g_Settings.LedgerEnabled = 1; LedgerRecord2(_cat_, ledgerStartTime, (int64_t)__rdtsc(), atype, length);
+#define LEDGER_END(_cat_) g_InLedger = false; LedgerRecord(_cat_, ledgerStartTime, (int64_t)__rdtsc(), args, dimensions, steps, innerloop, funcop, atype);
+#define LEDGER_END2(_cat_) g_InLedger = false; LedgerRecord2(_cat_, ledgerStartTime, (int64_t)__rdtsc(), atype, length);
 
 //------------------------------------------------------------------------------
 //  Concurrent callback from multiple threads
@@ -684,7 +688,7 @@ OutputOverlapsInput(const char* pInput, npy_intp strideIn, const char* pOutput,
 // 2 inputs and 1 output
 static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, const npy_intp* steps, void* innerloop, int funcop, int atype) {
 
-    if (!g_Settings.LedgerEnabled) {
+    if (!LEDGER_ACTIVE()) {
         stUFunc* pstUFunc = &g_UFuncLUT[funcop][atype];
         npy_intp n = dimensions[0];
         stMATH_WORKER_ITEM* pWorkItem = NULL;
@@ -858,7 +862,7 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
 //=============================================================
 // All simple compare functions that we hook hit this routine
 static void AtopCompareMathFunction(char** args, const npy_intp* dimensions, const npy_intp* steps, void* innerloop, int funcop, int atype) {
-    if (!g_Settings.LedgerEnabled) {
+    if (!LEDGER_ACTIVE()) {
         // LOGGING("comparison called with %d %d   funcp: %p  len: %lld\n", funcop, atype, g_CompFuncLUT[funcop][atype].pOldFunc, (long long)dimensions[0]);
         stUFunc* pstUFunc = &g_CompFuncLUT[funcop][atype];
         npy_intp n = dimensions[0];
@@ -935,7 +939,7 @@ static void AtopCompareMathFunction(char** args, const npy_intp* dimensions, con
 // For unary math functions like abs, sqrt
 // 1 input and 1 output
 static void AtopUnaryMathFunction(char** args, const npy_intp* dimensions, const npy_intp* steps, void* innerloop, int funcop, int atype) {
-    if (!g_Settings.LedgerEnabled) {
+    if (!LEDGER_ACTIVE()) {
         npy_intp n = dimensions[0];
         stUFunc* pstUFunc = &g_UnaryFuncLUT[funcop][atype];
         UNARY_FUNC pUnaryFunc = pstUFunc->pUnaryFunc;
@@ -999,7 +1003,7 @@ static void AtopUnaryMathFunction(char** args, const npy_intp* dimensions, const
 // All trig and log like function that we hook hit this routine
 //
 static void AtopTrigMathFunction(char** args, const npy_intp* dimensions, const npy_intp* steps, void* innerloop, int funcop, int atype) {
-    if (!g_Settings.LedgerEnabled) {
+    if (!LEDGER_ACTIVE()) {
         npy_intp n = dimensions[0];
         stUFunc* pstUFunc = &g_TrigFuncLUT[funcop][atype];
         UNARY_FUNC pUnaryFunc = pstUFunc->pUnaryFunc;
@@ -1076,7 +1080,7 @@ static int AtopSortMathFunction(void* pDest, npy_intp length, void* pArrayObject
     //if (!pArrayObject)
     //    printf("pArrayObject is null!\n");
     LOGGING("sort called %d %d   dest:%p  dest:%p\n", sortkind, atype, pDest, PyArray_BYTES((PyArrayObject*)pArrayObject));
-    if (!g_Settings.LedgerEnabled) {
+    if (!LEDGER_ACTIVE()) {
         stSortFunc* pSortFunc = &g_SortFuncLUT[sortkind][atype];
 
         if (g_Settings.AtopEnabled) {
@@ -1121,7 +1125,7 @@ static int AtopSortMathFunction(void* pDest, npy_intp length, void* pArrayObject
 // All argsort like functions that we hook hit this routine
 static int AtopArgSortMathFunction(void* pValue, npy_intp* pInt64Buffer, npy_intp length, void* pArrayObject, int sortkind, int atype) {
     LOGGING("argsort called %d %d   src:%p\n", sortkind, atype, pValue);
-    if (!g_Settings.LedgerEnabled) {
+    if (!LEDGER_ACTIVE()) {
         stArgSortFunc* pArgSortFunc = &g_ArgSortFuncLUT[sortkind][atype];
         if (g_Settings.AtopEnabled) {
             PyArrayObject* pSrcObject = (PyArrayObject*)pArrayObject;
@@ -1167,7 +1171,7 @@ static int AtopArgSortMathFunction(void* pValue, npy_intp* pInt64Buffer, npy_int
 // All argminmax like functions that we hook hit this routine
 static int AtopArgMinMaxMathFunction(void* pValue, npy_intp length, npy_intp* something, void* pArrayObject, int kind, int atype) {
     LOGGING("argminmax called %d %d   src:%p\n", kind, atype, pValue);
-    if (!g_Settings.LedgerEnabled) {
+    if (!LEDGER_ACTIVE()) {
         stArgMinMaxFunc* pArgMinMaxFunc = &g_ArgMinMaxFuncLUT[kind][atype];
         if (g_Settings.AtopEnabled) {
         }
@@ -1184,7 +1188,7 @@ static int AtopArgMinMaxMathFunction(void* pValue, npy_intp length, npy_intp* so
 // All arange like functions that we hook hit this routine
 static int AtopArangeMathFunction(void* pValue, npy_intp length, void* unused, int atype) {
     LOGGING("Arange called %d   src:%p\n", atype, pValue);
-    if (!g_Settings.LedgerEnabled) {
+    if (!LEDGER_ACTIVE()) {
         stArangeFunc* pArangeFunc = &g_ArangeFuncLUT[atype];
         if (g_Settings.AtopEnabled) {
             int itemsize = convert_atop_to_itemsize[atype];
-- 
2.43.0


From 61aaf749e7f402db5d0f979415f7f68c3bf8ee83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:19 +0000
Subject: [PATCH 32/50] fix: threaded sort ignored that a part could not be
 sorted for lack of memory

---
 src/atop/sort.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 716f3e5..cffa263 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1615,6 +1615,9 @@ struct MERGE_STEP_ONE_CALLBACK {
     // not valid for inplace sorting, otherwise is sizeof(int32) or sizeof(int64) depending on index size
     int64_t TypeSizeOutput;
 
+    // set by any thread which could not sort its part (out of memory)
+    volatile int64_t SortFailed = 0;
+
     // used to synchronize parallel merges
     MERGE_SPLITTER  MergeSplitter;
     //int64_t EndPositions[9];
@@ -1847,12 +1850,14 @@ static int64_t ParMergeInPlaceThreadCallback(struct stMATH_WORKER_ITEM* pstWorke
         if (pSrcData != pData)
             CopyData(pSrcData + (pFirst * Callback->StridesIn), MergeSize, Callback->StridesIn, Callback->StrLen, pData + (pFirst * itemSizeInput), Callback->TypeSizeOutput);
 
+        int sortResult;
         if (Callback->SortCallbackOne.sortfunc) {
-            Callback->SortCallbackOne.sortfunc(pData + (pFirst * itemSizeInput), MergeSize);
+            sortResult = Callback->SortCallbackOne.sortfunc(pData + (pFirst * itemSizeInput), MergeSize);
         }
         else {
-            Callback->SortCallbackOne.sortstringfunc(pData + (pFirst * itemSizeInput), MergeSize, strLen);
+            sortResult = Callback->SortCallbackOne.sortstringfunc(pData + (pFirst * itemSizeInput), MergeSize, strLen);
         }
+        if (sortResult < 0) Callback->SortFailed = 1;
 
         if (IsBuddyBitSet(index, &Callback->MergeSplitter.Level[0])) {
             // Move to next level -- 4 things to sort
@@ -2218,7 +2223,7 @@ par_sort(
 
         // Free temp memory used
         WORKSPACE_FREE(pWorkSpace);
-        return 0;
+        return stParMergeCallback.SortFailed ? -1 : 0;
     }
 
     // No threading path
-- 
2.43.0


From d4ef2096dd8c64a3bedc0caefe9a4db6efd7ea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 33/50] fix: lexsort returned unsorted indexes when memory ran
 out

---
 src/atop/sort.cpp      | 11 +++++++++--
 src/pnumpy/sorting.cpp |  9 +++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index cffa263..1312bbe 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1992,6 +1992,9 @@ par_amergesort(
             int64_t             sizeofT;
             int64_t             sizeofUINDEX;
 
+            // set by any thread which could not sort its partition (out of memory)
+            volatile int64_t    sortFailed;
+
         } psort;
 
         psort.funcSingleMerge = single_amergesort<T, UINDEX>;
@@ -2001,6 +2004,7 @@ par_amergesort(
         psort.pToSort = (char*)pToSort;
         psort.strlen = strlen;
         psort.sortType = sortType;
+        psort.sortFailed = 0;
 
         psort.sizeofUINDEX = sizeof(UINDEX);
         if (strlen > 0) {
@@ -2030,18 +2034,21 @@ par_amergesort(
 
             // shift the data pointers to match the partition
             // call a single threaded merge
-            callbackArg->funcSingleMerge(
+            if (callbackArg->funcSingleMerge(
                 callbackArg->pValues + (partStart * callbackArg->sizeofT),
                 callbackArg->pToSort + (partStart * callbackArg->sizeofUINDEX),
                 partLength,
                 callbackArg->strlen,
-                callbackArg->sortType);
+                callbackArg->sortType) < 0) {
+                callbackArg->sortFailed = 1;
+            }
 
             return 1;
         };
 
         THREADER->DoMultiThreadedWork((int)cutOffLength, lambdaPSCallback, &psort);
 
+        if (psort.sortFailed) return -1;
     }
     else {
 
diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index 8c94e4b..843eaad 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -479,12 +479,17 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
             // Thus, the last array is the last sort, and therefore determines the primary sort order
             for (UINDEX i = 0; i < mlp.tupleSize; i++) {
                 int atype = dtype_to_atop(mlp.aInfo[i].NumpyDType);
+                int sortResult;
                 // For each array...
                 if (sizeof(UINDEX) == 4) {
-                    SortIndex32(pCutOffs, cutOffLength, mlp.aInfo[i].pData, arraySize1, (int32_t*)pDataOut, sortmode, atype, mlp.aInfo[i].ItemSize);
+                    sortResult = SortIndex32(pCutOffs, cutOffLength, mlp.aInfo[i].pData, arraySize1, (int32_t*)pDataOut, sortmode, atype, mlp.aInfo[i].ItemSize);
                 }
                 else {
-                    SortIndex64(pCutOffs, cutOffLength, mlp.aInfo[i].pData, arraySize1, (int64_t*)pDataOut, sortmode, atype, mlp.aInfo[i].ItemSize);
+                    sortResult = SortIndex64(pCutOffs, cutOffLength, mlp.aInfo[i].pData, arraySize1, (int64_t*)pDataOut, sortmode, atype, mlp.aInfo[i].ItemSize);
+                }
+                if (sortResult < 0) {
+                    Py_DECREF(result);
+                    return PyErr_NoMemory();
                 }
             }
 
-- 
2.43.0


From e16d2645e20cfd37b7287baa37e40c3a85320995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 34/50] fix: a failed allocation in BuildArrayInfo crashed

---
 src/pnumpy/common.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index a140610..f927069 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -654,6 +654,11 @@ ArrayInfo* BuildArrayInfo(
     // NOTE: If the list is empty, this will allocate 0 memory (which C99 says can return NULL
     ArrayInfo* aInfo = AllocArrayInfo(tupleSize);
 
+    if (!aInfo) {
+        PyErr_NoMemory();
+        return NULL;
+    }
+
     int64_t totalItemSize = 0;
 
     // Build a list of array information so we can rotate it
-- 
2.43.0


From 08f2d2894f64a2170d8a90d3ad4754dd6584e136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 35/50] fix: arange overwrote its first two values while other
 threads read them

For instance a float32 arange whose step overflows to inf started with nan,
and the rest was inf or nan depending on which thread was first.
---
 src/atop/fill.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/atop/fill.cpp b/src/atop/fill.cpp
index eca8480..ae16f5b 100644
--- a/src/atop/fill.cpp
+++ b/src/atop/fill.cpp
@@ -70,6 +70,9 @@ ArangeFillType(char *pBufferV, void* pFirstV, void* pNextValueV, int64_t start,
 
     delta -= first;
 
+    // The first two values are there already, other threads read them
+    if (start < 2) start = 2;
+
     // TOOD: vectorize this code
     for (int64_t i = start; i < length; i++) {
         pBuffer[i] = (TYPE)(first + i * delta);
-- 
2.43.0


From adb928dfabf0ae762b0d22453bf4d2129f4b640f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:33 +0000
Subject: [PATCH 36/50] fix: lexsort refused a key of one element taken from a
 strided array

---
 src/pnumpy/common.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index f927069..14ad3da 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -727,14 +727,15 @@ ArrayInfo* BuildArrayInfo(
                         PyErr_Format(PyExc_ValueError, "BuildArrayInfo array must have ndim ==1 instead of %d", aInfo[i].NDim);
                         goto EXIT_ROUTINE;
                     }
-                    if (itemSize != stride0) {
+                    // the stride of a single element does not matter
+                    if (itemSize != stride0 && aInfo[i].ArrayLength > 1) {
                         PyErr_Format(PyExc_ValueError, "BuildArrayInfo array strides must match itemsize -- %lld %lld", itemSize, stride0);
                         goto EXIT_ROUTINE;
                     }
                 }
                 else {
 
-                    if (itemSize != stride0) {
+                    if (itemSize != stride0 && aInfo[i].ArrayLength > 1) {
                         // If 2 dims and Fortran, then strides will not match
                         // TODO: better check
                         if (aInfo[i].NDim == 1) {
-- 
2.43.0


From 5edfc19c283936743724376951e3ab2be934eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:15 +0000
Subject: [PATCH 37/50] fix: sin, cos, exp and log in double precision, and of
 float32 out of range

---
 src/atop/ops_trig.cpp | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/atop/ops_trig.cpp b/src/atop/ops_trig.cpp
index faa1dc5..a18ed4f 100644
--- a/src/atop/ops_trig.cpp
+++ b/src/atop/ops_trig.cpp
@@ -1,4 +1,5 @@
 #include "common_inc.h"
+#include <cfloat>
 #include <cmath>
 #include "invalids.h"
 #include "thread"
@@ -134,15 +135,29 @@ template<typename T> static const inline float ATANH_OP(float x) { return atanhf
 //template<typename T> static const inline __m256  EXP_OP_256(__m256 x) { return _mm256_exp_ps(x); }
 //template<typename T> static const inline __m256d EXP_OP_256(__m256d x) { return _mm256_exp_pd(x); }
 
+// True when every lane is inside [low, high] (never true for nan)
+static const inline bool ALL_BETWEEN(__m256 x, float low, float high) {
+    return _mm256_movemask_ps(_mm256_and_ps(
+        _mm256_cmp_ps(x, _mm256_set1_ps(low), _CMP_GE_OQ),
+        _mm256_cmp_ps(x, _mm256_set1_ps(high), _CMP_LE_OQ))) == 0xff;
+}
+
+// Calls the scalar routine for each lane
+template<const float MATH_OP(float)> static const inline __m256 EACH_LANE(__m256 x) {
+    float lanes[8];
+    _mm256_storeu_ps(lanes, x);
+    for (int i = 0; i < 8; i++) lanes[i] = MATH_OP(lanes[i]);
+    return _mm256_loadu_ps(lanes);
+}
+
 // Our custom sped up routines
-template<typename T> static const inline __m256  SIN_OP_256(__m256 x) { return sin256_ps(x);}
-template<typename T> static const inline __m256d SIN_OP_256(__m256d x) { return sin256_pd(x); }
-template<typename T> static const inline __m256  COS_OP_256(__m256 x) { return cos256_ps(x); }
-template<typename T> static const inline __m256d COS_OP_256(__m256d x) { return cos256_pd(x); }
-template<typename T> static const inline __m256  LOG_OP_256(__m256 x) { return log256_ps(x); }
-template<typename T> static const inline __m256d LOG_OP_256(__m256d x) { return log256_pd(x); }
-template<typename T> static const inline __m256  EXP_OP_256(__m256 x) { return exp256_ps(x); }
-template<typename T> static const inline __m256d EXP_OP_256(__m256d x) { return exp256_pd(x); }
+// They are polynomials in single precision: there is none for double, and outside the range where
+// the polynomial holds (overflow, underflow, nan, inf, log of 0 or below, large angles) the lanes
+// are calculated one by one.
+template<typename T> static const inline __m256  SIN_OP_256(__m256 x) { return ALL_BETWEEN(x, -8192.0f, 8192.0f) ? sin256_ps(x) : EACH_LANE<SIN_OP<float>>(x); }
+template<typename T> static const inline __m256  COS_OP_256(__m256 x) { return ALL_BETWEEN(x, -8192.0f, 8192.0f) ? cos256_ps(x) : EACH_LANE<COS_OP<float>>(x); }
+template<typename T> static const inline __m256  LOG_OP_256(__m256 x) { return ALL_BETWEEN(x, FLT_MIN, FLT_MAX) ? log256_ps(x) : EACH_LANE<LOG_OP<float>>(x); }
+template<typename T> static const inline __m256  EXP_OP_256(__m256 x) { return ALL_BETWEEN(x, -87.0f, 88.0f) ? exp256_ps(x) : EACH_LANE<EXP_OP<float>>(x); }
 
 #if defined(RT_COMPILER_MSVC)
 
@@ -585,7 +600,6 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
         *wantedOutType = atopInType1;
         switch (atopInType1) {
         case ATOP_FLOAT:  return UnaryOpFast<float, __m256, SIN_OP<float>, SIN_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, SIN_OP<double>, SIN_OP_256<__m256d>>;
         }
         break;
 
@@ -593,7 +607,6 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
         *wantedOutType = atopInType1;
         switch (atopInType1) {
         case ATOP_FLOAT:  return UnaryOpFast<float, __m256, COS_OP<float>, COS_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, COS_OP<double>, COS_OP_256<__m256d>>;
         }
         break;
     case TRIG_OPERATION::TAN:
@@ -704,7 +717,6 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
         *wantedOutType = atopInType1;
         switch (atopInType1) {
         case ATOP_FLOAT:  return UnaryOpFast<float, __m256, EXP_OP<float>, EXP_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, EXP_OP<double>, EXP_OP_256<__m256d>>;
         }
         break;
 
@@ -732,7 +744,6 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
         *wantedOutType = atopInType1;
         switch (atopInType1) {
         case ATOP_FLOAT:  return UnaryOpFast<float, __m256, LOG_OP<float>, LOG_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, LOG_OP<double>, LOG_OP_256<__m256d>>;
         }
         break;
 
-- 
2.43.0


From 277e33fa9960139544e898095e2e9455d4ef088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:26 +0000
Subject: [PATCH 38/50] fix: floor_divide of floats differed from numpy for
 infinities and rounded quotients

---
 src/atop/ops_binary.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index 452cfac..138443a 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -82,9 +82,20 @@ template<typename T> static const inline T FloorDivOp(T x, T y) {
     }
     else return 0;
 }
-template<typename T> static const inline long double FloorDivOp(long double x, long double y) { if (y == y) return floorl(x / y); else return NAN; }
-template<typename T> static const inline double FloorDivOp(double x, double y) { if (y == y) return floor(x / y); else return NAN; }
-template<typename T> static const inline float FloorDivOp(float x, float y) { if (y == y) return floorf(x / y); else return NAN; }
+// The floor of the exact quotient as numpy calculates it (dividing first may round up to the next integer)
+template<typename T> static const inline T FloorDivFloat(T x, T y) {
+    if (y == 0) return x / y;
+    T mod = std::fmod(x, y);
+    T div = (x - mod) / y;
+    if (mod != 0 && ((y < 0) != (mod < 0))) div -= (T)1;
+    if (div == 0) return std::copysign((T)0, x / y);
+    T floordiv = std::floor(div);
+    if (div - floordiv > (T)0.5) floordiv += (T)1;
+    return floordiv;
+}
+template<typename T> static const inline long double FloorDivOp(long double x, long double y) { return FloorDivFloat(x, y); }
+template<typename T> static const inline double FloorDivOp(double x, double y) { return FloorDivFloat(x, y); }
+template<typename T> static const inline float FloorDivOp(float x, float y) { return FloorDivFloat(x, y); }
 
 // bitwise operations
 template<typename T> static const inline T AndOp(T x, T y) { return x & y; }
-- 
2.43.0


From efb3a01ba5c6055a899e00be607a33c50ea106ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:34 +0000
Subject: [PATCH 39/50] fix: rint of doubles rounded halves away from zero

---
 src/atop/ops_unary.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/atop/ops_unary.cpp b/src/atop/ops_unary.cpp
index 7d249fc..276c800 100644
--- a/src/atop/ops_unary.cpp
+++ b/src/atop/ops_unary.cpp
@@ -208,9 +208,10 @@ template<typename T> static const inline bool ISNORMAL_OP(T x) { return std::isn
 template<typename T> static const inline bool ISNOTNORMAL_OP(T x) { return !std::isnormal(x); }
 template<typename T> static const inline bool ISNANORZERO_OP(T x) { return x == 0.0 || std::isnan(x); }
 
-template<typename T> static const inline long double ROUND_OP(long double x) { return roundl(x); }
-template<typename T> static const inline double ROUND_OP(double x) { return round(x); }
-template<typename T> static const inline float ROUND_OP(float x) { return roundf(x); }
+// np.rint: halves go to the nearest even value
+template<typename T> static const inline long double ROUND_OP(long double x) { return rintl(x); }
+template<typename T> static const inline double ROUND_OP(double x) { return rint(x); }
+template<typename T> static const inline float ROUND_OP(float x) { return rintf(x); }
 
 template<typename T> static const inline long double FLOOR_OP(long double x) { return floorl(x); }
 template<typename T> static const inline double FLOOR_OP(double x) { return floor(x); }
-- 
2.43.0


From f11702b66e8b4f373ad6803d3404b23eeab2bff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:15 +0000
Subject: [PATCH 40/50] fix: the CPUs were counted in an uninitialised mask
 when sched_getaffinity failed

---
 src/atop/threads.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/atop/threads.cpp b/src/atop/threads.cpp
index 105b999..8346df0 100644
--- a/src/atop/threads.cpp
+++ b/src/atop/threads.cpp
@@ -566,7 +566,10 @@ extern "C" {
     BOOL GetProcessAffinityMask(HANDLE hProcess, uint64_t* lpProcessAffinityMask, uint64_t* lpSystemAffinityMask) {
 #if defined(RT_OS_LINUX) || defined(RT_OS_FREEBSD)
         cpu_set_t cpuset;
-        sched_getaffinity(getpid(), sizeof(cpuset), &cpuset);
+        // On failure (more CPUs than the set can hold) no CPU can be told
+        if (sched_getaffinity(getpid(), sizeof(cpuset), &cpuset) != 0) {
+            CPU_ZERO(&cpuset);
+        }
 
         *lpProcessAffinityMask = 0;
         *lpSystemAffinityMask = 0;
-- 
2.43.0


From a785a633f2839824f6ec47a57ed2ccb12b655718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 41/50] fix: counting the CPUs raised when a source could not
 be read

---
 src/pnumpy/cpu.py | 73 +++++++++++++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 28 deletions(-)

diff --git a/src/pnumpy/cpu.py b/src/pnumpy/cpu.py
index 6eadfb7..83fdf0c 100644
--- a/src/pnumpy/cpu.py
+++ b/src/pnumpy/cpu.py
@@ -15,6 +15,9 @@ __all__ = [
 def open_binary(fname, **kwargs):
     return open(fname, "rb", **kwargs)
 
+def open_text(fname, **kwargs):
+    return open(fname, "r", **kwargs)
+
 def cpu_physical_linux():
     """Return the number of physical cores in the system.
     None may be returned on failure.
@@ -29,8 +32,12 @@ def cpu_physical_linux():
     p1 = "/sys/devices/system/cpu/cpu[0-9]*/topology/core_cpus_list"
     p2 = "/sys/devices/system/cpu/cpu[0-9]*/topology/thread_siblings_list"
     for path in glob.glob(p1) or glob.glob(p2):
-        with open_binary(path) as f:
-            ls.add(f.read().strip())
+        try:
+            with open_binary(path) as f:
+                ls.add(f.read().strip())
+        except OSError:
+            # the cpu was taken offline after its directory was listed
+            pass
     result = len(ls)
     if result != 0:
         return result
@@ -38,22 +45,26 @@ def cpu_physical_linux():
     # Method #2
     mapping = {}
     current_info = {}
-    with open_binary('/proc/cpuinfo') as f:
-        for line in f:
-            line = line.strip().lower()
-            if not line:
-                # new section
-                try:
-                    mapping[current_info[b'physical id']] = \
-                        current_info[b'cpu cores']
-                except KeyError:
-                    pass
-                current_info = {}
-            else:
-                # ongoing section
-                if line.startswith((b'physical id', b'cpu cores')):
-                    key, value = line.split(b'\t:', 1)
-                    current_info[key] = int(value)
+    try:
+        with open_binary('/proc/cpuinfo') as f:
+            for line in f:
+                line = line.strip().lower()
+                if not line:
+                    # new section
+                    try:
+                        mapping[current_info[b'physical id']] = \
+                            current_info[b'cpu cores']
+                    except KeyError:
+                        pass
+                    current_info = {}
+                else:
+                    # ongoing section
+                    if line.startswith((b'physical id', b'cpu cores')):
+                        key, value = line.split(b'\t:', 1)
+                        current_info[key] = int(value)
+    except (OSError, ValueError):
+        # missing, unreadable or not in the expected format
+        return None
 
     result = sum(mapping.values())
     return result or None  # mimic os.cpu_count()
@@ -65,22 +76,28 @@ def cpu_count_linux():
     """
     try:
         num= os.sysconf("SC_NPROCESSORS_ONLN")
-    except ValueError:
+    except (ValueError, OSError):
         # as a second fallback we try to parse /proc/cpuinfo
         num = 0
-        with open_binary('/proc/cpuinfo') as f:
-            for line in f:
-                if line.lower().startswith(b'processor'):
-                    num += 1
+        try:
+            with open_binary('/proc/cpuinfo') as f:
+                for line in f:
+                    if line.lower().startswith(b'processor'):
+                        num += 1
+        except OSError:
+            num = 0
 
         # try to parse /proc/stat as a last resort
         if num == 0:
             search = re.compile(r'cpu\d')
-            with open_text('/proc/stat') as f:
-                for line in f:
-                    line = line.split(' ')[0]
-                    if search.match(line):
-                        num += 1
+            try:
+                with open_text('/proc/stat') as f:
+                    for line in f:
+                        line = line.split(' ')[0]
+                        if search.match(line):
+                            num += 1
+            except OSError:
+                num = 0
 
         if num == 0:
             # mimic os.cpu_count()
-- 
2.43.0


From 36fec058e3bb63695abfd9c0874187096e8d8e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 42/50] fix: benchmark left atop and threading switched on

---
 src/pnumpy/benchmark.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/pnumpy/benchmark.py b/src/pnumpy/benchmark.py
index eb24d7b..ed20119 100644
--- a/src/pnumpy/benchmark.py
+++ b/src/pnumpy/benchmark.py
@@ -103,18 +103,25 @@ def benchmark_func(
     benchmark_func(np.add, sizes=[2**16])
     benchmark_func(np.sqrt, unary=True)
     '''
-    # disable atop and threading
-    atop_disable()
-    thread_disable()
-    # get original time
-    t0=benchmark_timeit(func=func, ctypes=ctypes, scalar=scalar, unary=unary, reduct=reduct,  outdtype=outdtype, recycle=recycle, sizes=sizes)
-
-    # now possibly enable atop and threading
-    if atop:
-        atop_enable()
-    if thread:
-        thread_enable()
-    t1=benchmark_timeit(func=func, ctypes=ctypes, scalar=scalar, unary=unary, reduct=reduct, outdtype=outdtype, recycle=recycle, sizes=sizes)
+    # the switches are left as they were found
+    was_atop = atop_isenabled()
+    was_thread = thread_isenabled()
+    try:
+        # disable atop and threading
+        atop_disable()
+        thread_disable()
+        # get original time
+        t0=benchmark_timeit(func=func, ctypes=ctypes, scalar=scalar, unary=unary, reduct=reduct,  outdtype=outdtype, recycle=recycle, sizes=sizes)
+
+        # now possibly enable atop and threading
+        if atop:
+            atop_enable()
+        if thread:
+            thread_enable()
+        t1=benchmark_timeit(func=func, ctypes=ctypes, scalar=scalar, unary=unary, reduct=reduct, outdtype=outdtype, recycle=recycle, sizes=sizes)
+    finally:
+        (atop_enable if was_atop else atop_disable)()
+        (thread_enable if was_thread else thread_disable)()
     return t0/t1
 
 def benchmark(
-- 
2.43.0


From 60b8a83e7dc800c1481691c2fadb836fa4442845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:02 +0000
Subject: [PATCH 43/50] fix: pnumpy.sort with axis=None returned the array
 unsorted

---
 src/pnumpy/sort.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/pnumpy/sort.py b/src/pnumpy/sort.py
index 7906b55..aa7aa73 100644
--- a/src/pnumpy/sort.py
+++ b/src/pnumpy/sort.py
@@ -198,12 +198,6 @@ def sort(a, axis=-1, kind=None, order=None):
         # flatten returns (1, N) for np.matrix, so always use the last axis
         a = asanyarray(a).flatten()
         axis = -1
-        try:
-            # attempt a parallel sort
-            sort(a, kind=kind)
-            return a
-        except Exception:
-            pass
     else:
         a = asanyarray(a).copy(order="K")
 
-- 
2.43.0


From 87fc30d18a07ca6b09937a2ff0e2fe972980e80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:02 +0000
Subject: [PATCH 44/50] fix: lexsort wrote outside the result when its cutoffs
 were not ascending

---
 src/pnumpy/sorting.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index 843eaad..99cf62b 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -189,6 +189,11 @@ int64_t* GetCutOffs(PyObject* kwargs, int64_t& cutoffLength) {
     if (pCutOffs != NULL) {
         switch (PyArray_TYPE(pCutOffs)) {
         CASE_NPY_INT64:
+            // read in place, without strides
+            if (!PyArray_ISCARRAY_RO(pCutOffs)) {
+                cutoffLength = -1;
+                return NULL;
+            }
             cutoffLength = ArrayLength(pCutOffs);
             return (int64_t*)PyArray_BYTES(pCutOffs);
         default:
@@ -383,14 +388,25 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
         int64_t* pCutOffs = GetCutOffs(kwargs, cutOffLength);
         SORT_MODE sortmode = (SORT_MODE)GetKind(kwargs, SORT_MODE_MERGE);
 
-        if (pCutOffs && pCutOffs[cutOffLength - 1] != arraySize1) {
-            PyErr_Format(PyExc_ValueError, "LexSort last cutoff length does not match array length %lld", arraySize1);
-            return NULL;
-        }
         if (cutOffLength == -1) {
             PyErr_Format(PyExc_ValueError, "LexSort 'cutoffs' must be an array of type int64_t");
             return NULL;
         }
+        if (pCutOffs) {
+            if (cutOffLength == 0 || pCutOffs[cutOffLength - 1] != arraySize1) {
+                PyErr_Format(PyExc_ValueError, "LexSort last cutoff length does not match array length %lld", arraySize1);
+                return NULL;
+            }
+            // the partitions are written and sorted side by side, none may end before it starts
+            int64_t lastPos = 0;
+            for (int64_t i = 0; i < cutOffLength; i++) {
+                if (pCutOffs[i] < lastPos) {
+                    PyErr_Format(PyExc_ValueError, "LexSort 'cutoffs' must be ascending and not negative");
+                    return NULL;
+                }
+                lastPos = pCutOffs[i];
+            }
+        }
 
         // Check types that we can sort
         for (UINDEX i = 0; i < mlp.tupleSize; i++) {
-- 
2.43.0


From 99678a9d1ea5f5e7b59f2662d7f3f3e38c4904a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:02 +0000
Subject: [PATCH 45/50] fix: lexsort read outside its keys when index= was out
 of bounds, strided or byte-swapped

---
 src/pnumpy/sorting.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index 99cf62b..a78c862 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -451,6 +451,26 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
                 return NULL;
             }
 
+            // the index is read and written in place, without strides
+            if (!PyArray_ISCARRAY(index)) {
+                PyErr_Format(PyExc_ValueError, "LexSort 'index' must be a contiguous and writeable array");
+                return NULL;
+            }
+
+            // cutoffs cover every row
+            if (pCutOffs && indexLength != arraySize1) {
+                PyErr_Format(PyExc_ValueError, "LexSort 'index' must match the array length when there are cutoffs");
+                return NULL;
+            }
+
+            const UINDEX* pIndex = (const UINDEX*)PyArray_BYTES(index);
+            for (int64_t i = 0; i < indexLength; i++) {
+                if (pIndex[i] < 0 || pIndex[i] >= arraySize1) {
+                    PyErr_Format(PyExc_IndexError, "LexSort 'index' holds %lld which is out of bounds for size %lld", (long long)pIndex[i], (long long)arraySize1);
+                    return NULL;
+                }
+            }
+
             // reduce what we sort to the startindex
             arraySize1 = indexLength;
             result = index;
-- 
2.43.0


From 23e9e81f053d9ac6cabb5d0afce0ff8f84cd6865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:02 +0000
Subject: [PATCH 46/50] fix: lexsort crashed when a key was None or an array of
 no dimensions

---
 src/pnumpy/common.cpp  | 3 ++-
 src/pnumpy/sorting.cpp | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index 14ad3da..5a1c7d1 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -719,8 +719,9 @@ ArrayInfo* BuildArrayInfo(
                 //    goto EXIT_ROUTINE;
                 //}
 
-                int64_t stride0 = PyArray_STRIDE((PyArrayObject*)inObject, 0);
                 int64_t itemSize = aInfo[i].ItemSize;
+                // an array of no dimensions has no strides
+                int64_t stride0 = aInfo[i].NDim > 0 ? PyArray_STRIDE((PyArrayObject*)inObject, 0) : itemSize;
 
                 if (checkrows) {
                     if (aInfo[i].NDim != 1) {
diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index a78c862..c4120ca 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -410,6 +410,11 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
 
         // Check types that we can sort
         for (UINDEX i = 0; i < mlp.tupleSize; i++) {
+            // None has no array
+            if (!mlp.aInfo[i].pObject) {
+                PyErr_Format(PyExc_ValueError, "LexSort cannot sort None");
+                return NULL;
+            }
             int dtype = mlp.aInfo[i].NumpyDType;
             int atype = dtype_to_atop(dtype);
             if (atype == -1 || (atype > ATOP_LONGDOUBLE && (atype != ATOP_STRING && atype != ATOP_UNICODE))) {
-- 
2.43.0


From 09225670d55930b5c655aed23cf12fabb3f85516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:02 +0000
Subject: [PATCH 47/50] fix: lexsort returned None when there was no key

---
 src/pnumpy/sorting.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index c4120ca..cbb7634 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -539,8 +539,7 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
         return NULL;
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    return PyErr_Format(PyExc_TypeError, "LexSort needs at least one key");
 }
 
 
-- 
2.43.0


From c39e96eb09d251bdb8344dbe089a187255f15fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:16 +0000
Subject: [PATCH 48/50] fix: lexsort of half floats raised MemoryError

---
 src/pnumpy/sorting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index cbb7634..a62d05c 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -417,7 +417,7 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
             }
             int dtype = mlp.aInfo[i].NumpyDType;
             int atype = dtype_to_atop(dtype);
-            if (atype == -1 || (atype > ATOP_LONGDOUBLE && (atype != ATOP_STRING && atype != ATOP_UNICODE))) {
+            if (atype == -1 || atype == ATOP_HALF_FLOAT || (atype > ATOP_LONGDOUBLE && (atype != ATOP_STRING && atype != ATOP_UNICODE))) {
                 PyErr_Format(PyExc_ValueError, "LexSort cannot handle type %d\n",dtype);
                 return NULL;
             }
-- 
2.43.0


From 43981e7019ff10c905e9e2b2147b96bbcf03b13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:16 +0000
Subject: [PATCH 49/50] fix: recarray_to_colmajor divided by zero when a record
 has no bytes

---
 src/pnumpy/conversions.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pnumpy/conversions.cpp b/src/pnumpy/conversions.cpp
index bb96523..59cf6a9 100644
--- a/src/pnumpy/conversions.cpp
+++ b/src/pnumpy/conversions.cpp
@@ -90,13 +90,15 @@ recarray_to_colmajor(PyObject* self, PyObject* args) {
 
     char* pStartOffset = PyArray_BYTES(inArr);
 
-    // Call atop to finish the work
-    RecArrayToColMajor(
-        pstOffset,
-        pStartOffset,
-        totalRows,
-        numArrays,
-        itemSize);
+    // Call atop to finish the work, records of no bytes hold nothing to copy
+    if (itemSize > 0) {
+        RecArrayToColMajor(
+            pstOffset,
+            pStartOffset,
+            totalRows,
+            numArrays,
+            itemSize);
+    }
 
     WORKSPACE_FREE(pstOffset);
 
-- 
2.43.0


From 540b3207153314b3f4d50e52f8c63235cef6e145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:16 +0000
Subject: [PATCH 50/50] fix: recarray_to_colmajor returned a field with a title
 twice

---
 src/pnumpy/recarray.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pnumpy/recarray.py b/src/pnumpy/recarray.py
index d09ba01..0049906 100644
--- a/src/pnumpy/recarray.py
+++ b/src/pnumpy/recarray.py
@@ -26,7 +26,8 @@ def recarray_to_colmajor(item, parallel=True):
     if item.dtype.char == 'V':
         # warnings.warn(f"Converting numpy record array. Performance may suffer.")
         # flip row-major to column-major
-        list_types = [*item.dtype.fields.values()]
+        # a field with a title is listed twice in fields, but once in names
+        list_types = [item.dtype.fields[name] for name in item.dtype.names]
         success = True
         for t in list_types:
             val = t[0].char
@@ -42,10 +43,10 @@ def recarray_to_colmajor(item, parallel=True):
         d={}
         if success and parallel:
             offsets=[]
-            arrays=np.empty(len(item.dtype.fields), dtype='O')
+            arrays=np.empty(len(item.dtype.names), dtype='O')
             arrlen = len(item)
             count =0
-            for name, v in item.dtype.fields.items():
+            for name, v in zip(item.dtype.names, list_types):
                 offsets.append(v[1])
                 arr= np.empty(arrlen, dtype=v[0])
                 arrays[count] = arr
-- 
2.43.0

