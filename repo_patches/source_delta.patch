From f0d7bf50a0dba6925e4332c3f8d924de92b64226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 001/108] fix: free blocks are coalesced only within the heap
 that owns them

A worker freeing a block could merge it with a buddy sitting in another
heap's freelist, so that the same memory was handed out twice.
---
 core/heap.c | 84 +++++++++++++++++++++++++++--------------------------
 1 file changed, 43 insertions(+), 41 deletions(-)

diff --git a/core/heap.c b/core/heap.c
index 4eb09e2..b250a16 100644
--- a/core/heap.c
+++ b/core/heap.c
@@ -186,8 +186,11 @@ inline __attribute__((always_inline)) nil_t heap_insert_block(heap_p heap, block
 
     block->prev = NULL;
     block->next = heap->freelist[order];
-    block->used = 0;
     block->order = order;
+    // A free block belongs to the heap whose freelist holds it. Publish the owner before the block
+    // is seen as free: another heap may be inspecting this header as the buddy of its own block.
+    block->heap_id = heap->id;
+    __atomic_store_n(&block->used, 0, __ATOMIC_RELEASE);
 
     if (heap->freelist[order] != NULL)
         heap->freelist[order]->prev = block;
@@ -222,6 +225,31 @@ inline __attribute__((always_inline)) nil_t heap_split_block(heap_p heap, block_
     }
 }
 
+// Put a block into the freelists, coalescing it with its free buddies owned by the same heap
+static nil_t heap_release_block(heap_p heap, block_p block, i64_t order) {
+    block_p buddy;
+
+    for (;; order++) {
+        // check if we are at the root block (no buddies left)
+        if (block->pool_order == order)
+            return heap_insert_block(heap, block, order);
+
+        // calculate buddy and prefetch its metadata
+        buddy = BUDDYOF(block, order);
+        __builtin_prefetch(buddy, 0, 1);  // read, low temporal locality
+
+        // buddy is used, or is of different order, or sits in a freelist of another heap, so we can't merge
+        if (__atomic_load_n(&buddy->used, __ATOMIC_ACQUIRE) || buddy->order != order || buddy->heap_id != heap->id)
+            return heap_insert_block(heap, block, order);
+
+        // merge blocks: remove buddy from its freelist.
+        heap_remove_block(heap, buddy, order);
+
+        // check if buddy is lower address than block (means it is of higher order), if so, swap them
+        block = (buddy < block) ? buddy : block;
+    }
+}
+
 // Flush slab caches back to freelists for coalescing
 static nil_t heap_flush_slabs(heap_p heap) {
     i64_t i;
@@ -230,8 +258,7 @@ static nil_t heap_flush_slabs(heap_p heap) {
     for (i = 0; i < SLAB_ORDERS; i++) {
         while (heap->slabs[i].count > 0) {
             block = heap->slabs[i].stack[--heap->slabs[i].count];
-            // heap_insert_block will set used=0
-            heap_insert_block(heap, block, SLAB_ORDER_MIN + i);
+            heap_release_block(heap, block, SLAB_ORDER_MIN + i);
         }
     }
 }
@@ -338,7 +365,7 @@ raw_p __attribute__((hot)) heap_alloc(i64_t size) {
 }
 
 __attribute__((hot)) nil_t heap_free(raw_p ptr) {
-    block_p block, buddy;
+    block_p block;
     i64_t fd, res;
     i64_t order;
     c8_t filename[64];
@@ -391,25 +418,7 @@ __attribute__((hot)) nil_t heap_free(raw_p ptr) {
         return;
     }
 
-    for (;; order++) {
-        // check if we are at the root block (no buddies left)
-        if (block->pool_order == order)
-            return heap_insert_block(heap, block, order);
-
-        // calculate buddy and prefetch its metadata
-        buddy = BUDDYOF(block, order);
-        __builtin_prefetch(buddy, 0, 1);  // read, low temporal locality
-
-        // buddy is used, or buddy is of different order, so we can't merge
-        if (buddy->used || buddy->order != order)
-            return heap_insert_block(heap, block, order);
-
-        // merge blocks: remove buddy from its freelist.
-        heap_remove_block(heap, buddy, order);
-
-        // check if buddy is lower address than block (means it is of higher order), if so, swap them
-        block = (buddy < block) ? buddy : block;
-    }
+    heap_release_block(heap, block, order);
 }
 
 __attribute__((hot)) raw_p heap_realloc(raw_p ptr, i64_t new_size) {
@@ -510,6 +519,7 @@ nil_t heap_borrow(heap_p heap) {
 
         heap->freelist[i]->next = NULL;
         heap->freelist[i]->prev = NULL;
+        heap->freelist[i]->heap_id = heap->id;
         heap->avail |= BSIZEOF(i);
     }
 
@@ -525,13 +535,14 @@ nil_t heap_borrow(heap_p heap) {
 
         heap->freelist[i]->next = NULL;
         heap->freelist[i]->prev = NULL;
+        heap->freelist[i]->heap_id = heap->id;
         heap->avail |= BSIZEOF(i);
     }
 }
 
 nil_t heap_merge(heap_p heap) {
     i64_t i;
-    block_p block, next, last;
+    block_p block, next;
     heap_p h = VM->heap;  // Cache heap pointer (destination heap)
 
     // Transfer slab caches back to main heap (if room), else flush to freelist
@@ -543,7 +554,7 @@ nil_t heap_merge(heap_p heap) {
         // Flush remaining to main heap's freelist
         while (heap->slabs[i].count > 0) {
             block = heap->slabs[i].stack[--heap->slabs[i].count];
-            heap_insert_block(h, block, SLAB_ORDER_MIN + i);
+            heap_release_block(h, block, SLAB_ORDER_MIN + i);
         }
     }
 
@@ -557,26 +568,17 @@ nil_t heap_merge(heap_p heap) {
     }
     heap->foreign_blocks = NULL;
 
-    // Merge freelists: O(1) prepend by finding tail, linking to main head
+    // Hand the worker's free blocks over, joining them with main's free buddies
     for (i = MIN_BLOCK_ORDER; i <= MAX_POOL_ORDER; i++) {
-        if (heap->freelist[i] == NULL)
-            continue;
-
-        // Find tail of worker's freelist
-        last = heap->freelist[i];
-        while (last->next != NULL)
-            last = last->next;
-
-        // Link: worker_tail -> main_head, main_head = worker_head
-        last->next = h->freelist[i];
-        if (h->freelist[i] != NULL)
-            h->freelist[i]->prev = last;
-
-        h->freelist[i] = heap->freelist[i];
+        block = heap->freelist[i];
         heap->freelist[i] = NULL;
+        while (block != NULL) {
+            next = block->next;
+            heap_release_block(h, block, i);
+            block = next;
+        }
     }
 
-    h->avail |= heap->avail;
     heap->avail = 0;
 }
 
-- 
2.43.0


From 7ffc383e51d2a5752e5d2497e8e62bf1aea76760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 002/108] fix: shrinking a block that has to move copies only
 what fits

heap_realloc of a foreign or file-backed block to a smaller size copied
the whole old block over the end of the new one.
---
 core/heap.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/heap.c b/core/heap.c
index b250a16..4b88edb 100644
--- a/core/heap.c
+++ b/core/heap.c
@@ -447,6 +447,10 @@ __attribute__((hot)) raw_p heap_realloc(raw_p ptr, i64_t new_size) {
             return NULL;
         }
 
+        // the block may be moved to a smaller one as well
+        if (block->order > order)
+            old_size = BSIZEOF(order);
+
         memcpy(new_ptr, ptr, old_size - sizeof(struct obj_t));
         heap_free(ptr);
 
-- 
2.43.0


From 872ab4c114ab0d4600fdf1b2b3b63f51152b5679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 003/108] fix: executors take tasks only from a started run

A worker woken late by one run could pop tasks of the next one while
main was still pushing them: tasks ran without atomic reference
counting, and growing the queues under such a worker lost results
(panic 'corrupted: -1') or freed memory in use. A worker that had not
reached its wait yet could miss the stop request for good.
---
 core/pool.c | 33 +++++++++++++++++++++++----------
 core/pool.h |  3 +++
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/core/pool.c b/core/pool.c
index 9450dcd..492a6ec 100644
--- a/core/pool.c
+++ b/core/pool.c
@@ -168,7 +168,7 @@ obj_p pool_call_task_fn(raw_p fn, i64_t argc, raw_p argv[]) {
 raw_p executor_run(raw_p arg) {
     executor_t *executor = (executor_t *)arg;
     task_data_t data;
-    i64_t i, tasks_count;
+    i64_t i, tasks_count, run_id = 0;
     obj_p res;
     vm_p vm;
 
@@ -181,14 +181,21 @@ raw_p executor_run(raw_p arg) {
 
     for (;;) {
         mutex_lock(&executor->pool->mutex);
-        cond_wait(&executor->pool->run, &executor->pool->mutex);
+
+        // wait for a run this executor has not joined yet: a wakeup may come late (the run is over, the
+        // next one is being prepared), early (this thread was not waiting yet) or without any reason
+        while (executor->pool->state != RUN_STATE_STOPPED &&
+               (!executor->pool->running || executor->pool->run_id == run_id))
+            cond_wait(&executor->pool->run, &executor->pool->mutex);
 
         if (executor->pool->state == RUN_STATE_STOPPED) {
             mutex_unlock(&executor->pool->mutex);
             break;
         }
 
+        run_id = executor->pool->run_id;
         tasks_count = executor->pool->tasks_count;
+        executor->pool->active_count++;
         mutex_unlock(&executor->pool->mutex);
 
         // process tasks
@@ -205,12 +212,11 @@ raw_p executor_run(raw_p arg) {
             mpmc_push(executor->pool->result_queue, data);
         }
 
-        if (i > 0) {
-            mutex_lock(&executor->pool->mutex);
-            executor->pool->done_count += i;
-            cond_signal(&executor->pool->done);
-            mutex_unlock(&executor->pool->mutex);
-        }
+        mutex_lock(&executor->pool->mutex);
+        executor->pool->done_count += i;
+        executor->pool->active_count--;
+        cond_signal(&executor->pool->done);
+        mutex_unlock(&executor->pool->mutex);
     }
 
     vm_destroy(__VM);
@@ -228,6 +234,9 @@ pool_p pool_create(i64_t thread_count) {
     pool->executors_count = thread_count;
     pool->done_count = 0;
     pool->tasks_count = 0;
+    pool->run_id = 0;
+    pool->running = B8_FALSE;
+    pool->active_count = 0;
     pool->task_queue = mpmc_create(DEFAULT_MPMC_SIZE);
     pool->result_queue = mpmc_create(DEFAULT_MPMC_SIZE);
     pool->state = RUN_STATE_RUNNING;
@@ -380,6 +389,8 @@ obj_p pool_run(pool_p pool) {
 
     tasks_count = pool->tasks_count;
     executors_count = pool->executors_count;
+    pool->run_id++;
+    pool->running = B8_TRUE;
 
     // wake up needed executors
     if (executors_count < tasks_count) {
@@ -408,10 +419,12 @@ obj_p pool_run(pool_p pool) {
 
     pool->done_count += i;
 
-    // wait for all tasks to be done
-    while (pool->done_count < tasks_count)
+    // wait for all tasks to be done and for all executors to leave the queues and their heaps alone
+    while (pool->done_count < tasks_count || pool->active_count > 0)
         cond_wait(&pool->done, &pool->mutex);
 
+    pool->running = B8_FALSE;
+
     // collect results
     res = LIST(tasks_count);
 
diff --git a/core/pool.h b/core/pool.h
index cac2f16..4ac8cc1 100644
--- a/core/pool.h
+++ b/core/pool.h
@@ -87,6 +87,9 @@ typedef struct pool_t {
     i64_t done_count;        // Number of done VMs
     i64_t executors_count;   // Number of executors
     i64_t tasks_count;       // Number of tasks
+    i64_t run_id;            // Sequence number of the last started run
+    b8_t running;            // Tasks may be taken by executors
+    i64_t active_count;      // Number of executors (besides main) inside of a run
     mpmc_p task_queue;       // Pool's task queue
     mpmc_p result_queue;     // Pool's result queue
     executor_t executors[];  // Array of executors
-- 
2.43.0


From bc1946997aa7f97067af211e022dac3f1b2a80a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 004/108] fix: locations of errors nobody printed do not pile
 up

Every failed evaluation appended source locations to the VM's trace,
which only printing an error released: a server answering failing
requests, a program catching errors or an executor running failing
tasks leaked them, and the next printed error showed them all.
---
 core/eval.c | 13 +++++++++++++
 core/eval.h |  1 +
 core/ipc.c  |  1 +
 core/pool.c |  3 +++
 4 files changed, 18 insertions(+)

diff --git a/core/eval.c b/core/eval.c
index 7bcbac5..d73b9ec 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -200,6 +200,16 @@ obj_p amend(obj_p sym, obj_p val) {
 // Error Handling
 // ============================================================================
 
+// Forget locations of an error nobody has printed
+nil_t error_trace_reset(nil_t) {
+    vm_p vm = VM;
+
+    if (vm != NULL && vm->trace != NULL_OBJ) {
+        drop_obj(vm->trace);
+        vm->trace = NULL_OBJ;
+    }
+}
+
 nil_t error_add_loc(obj_p err, i64_t id, ctx_t *ctx) {
     obj_p loc, nfo;
     span_t span;
@@ -938,6 +948,7 @@ obj_p eval_str_w_attr(lit_p str, i64_t len, obj_p nfo_arg) {
     vm_p vm = VM;
     obj_p saved_nfo = vm ? vm->nfo : NULL_OBJ;
 
+    error_trace_reset();
     timeit_reset();
     timeit_span_start("top-level");
 
@@ -1014,6 +1025,8 @@ obj_p try_obj(obj_p obj, obj_p ctch) {
         obj_p *pfn;
         obj_p fn = ctch;
 
+        error_trace_reset();
+
         switch (fn->type) {
             case TYPE_LAMBDA:
             call_catch:
diff --git a/core/eval.h b/core/eval.h
index 96307f6..0ad8613 100644
--- a/core/eval.h
+++ b/core/eval.h
@@ -135,6 +135,7 @@ obj_p ray_cond(obj_p *x, i64_t n);
 
 // Error handling
 nil_t error_add_loc(obj_p err, i64_t id, ctx_t *ctx);
+nil_t error_trace_reset(nil_t);
 
 // Thread utilities
 b8_t ray_is_main_thread(nil_t);
diff --git a/core/ipc.c b/core/ipc.c
index 2b21bb9..6a252bf 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -385,6 +385,7 @@ obj_p ipc_process_msg(poll_p poll, selector_p selector, obj_p msg) {
         drop_obj(msg);
     } else {
         LOG_TRACE("Evaluating object message");
+        error_trace_reset();
         res = eval_obj(msg);
         drop_obj(msg);
     }
diff --git a/core/pool.c b/core/pool.c
index 492a6ec..bf6520f 100644
--- a/core/pool.c
+++ b/core/pool.c
@@ -212,6 +212,9 @@ raw_p executor_run(raw_p arg) {
             mpmc_push(executor->pool->result_queue, data);
         }
 
+        // nobody will print locations gathered by failed tasks
+        error_trace_reset();
+
         mutex_lock(&executor->pool->mutex);
         executor->pool->done_count += i;
         executor->pool->active_count--;
-- 
2.43.0


From 3004b1f91aff5c9fff4c20aa2995664ccbccc0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 005/108] fix: an error inside a lambda restores the stacks of
 its caller

Operands of the failed expression stayed on the program stack, so the
caller dropped them instead of its own arguments, and the return stack
was popped twice: catching an error corrupted later calls, and catching
a thousand of them overran the stack.
---
 core/eval.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/eval.c b/core/eval.c
index d73b9ec..7add815 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -682,6 +682,8 @@ obj_p call(obj_p fn, i64_t arity) {
     vm_p vm = VM;
     obj_p saved_fn = vm->fn;
     i64_t saved_fp = vm->fp;
+    i32_t saved_sp = vm->sp;
+    i32_t saved_rp = vm->rp;
     UNUSED(arity);
 
     // Compile on first call - bytecode is cached in the lambda for reuse
@@ -701,8 +703,12 @@ obj_p call(obj_p fn, i64_t arity) {
     // Execute bytecode
     res = vm_eval(fn);
 
-    // Pop frame and restore context
-    vm->rp--;
+    // Drop whatever a failed evaluation has left above the arguments
+    while (vm->sp > saved_sp)
+        drop_obj(vm->ps[--vm->sp]);
+
+    // Pop frame and restore context (unwinding of an error may have popped the frame already)
+    vm->rp = saved_rp;
     vm->fn = saved_fn;
     vm->fp = saved_fp;
 
-- 
2.43.0


From 8d96437f9292ea4a84d41061025cb75e054269dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 006/108] fix: recursion that exhausts the program stack is an
 error

Only the return stack was checked, and not for calls made by builtins:
deeper recursion overran the program stack and crashed.
---
 core/eval.c | 8 ++++++--
 core/eval.h | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/eval.c b/core/eval.c
index 7add815..0e74ab9 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -499,7 +499,7 @@ callf:
         }
     }
     // Check for stack overflow
-    if (UNLIKELY(vm->rp >= VM_STACK_SIZE)) {
+    if (UNLIKELY(vm->rp >= VM_STACK_SIZE || !vm_stack_enough(VM_STACK_GAP))) {
         drop_obj(x);
         r = err_limit(VM_STACK_SIZE);
         bc_error_add_loc(r, vm->fn, ip - 1);
@@ -521,7 +521,7 @@ callf:
 
 OP_CALLS:
     // Self-recursive call - check for stack overflow
-    if (UNLIKELY(vm->rp >= VM_STACK_SIZE)) {
+    if (UNLIKELY(vm->rp >= VM_STACK_SIZE || !vm_stack_enough(VM_STACK_GAP))) {
         r = err_limit(VM_STACK_SIZE);
         bc_error_add_loc(r, vm->fn, ip - 1);
         return vm_error_unwind(vm, r);
@@ -686,6 +686,10 @@ obj_p call(obj_p fn, i64_t arity) {
     i32_t saved_rp = vm->rp;
     UNUSED(arity);
 
+    // Check for stack overflow
+    if (UNLIKELY(vm->rp >= VM_STACK_SIZE || !vm_stack_enough(VM_STACK_GAP)))
+        return err_limit(VM_STACK_SIZE);
+
     // Compile on first call - bytecode is cached in the lambda for reuse
     if (lam->bc == NULL_OBJ) {
         res = cc_compile(fn);
diff --git a/core/eval.h b/core/eval.h
index 0ad8613..fec2d48 100644
--- a/core/eval.h
+++ b/core/eval.h
@@ -36,6 +36,7 @@
 struct query_ctx_t;
 
 #define VM_STACK_SIZE 1024
+#define VM_STACK_GAP 64  // room a new frame must find on the program stack for its operands
 
 // Bytecode opcodes - grouped by category
 typedef enum op_type_t {
-- 
2.43.0


From e3b7c4ad8c28cbdd32d4bb39b9d21906cb280bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 007/108] fix: let-bound locals belong to a call, not to the
 lambda shared by calls and threads

---
 core/eval.c | 36 ++++++++++++++++++++++++++----------
 core/eval.h |  8 +++++---
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/core/eval.c b/core/eval.c
index 0e74ab9..e9be93d 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -47,6 +47,7 @@ vm_p vm_create(i32_t id, struct pool_t *pool) {
     vm->fp = 0;
     vm->rp = 0;
     vm->fn = NULL_OBJ;
+    vm->env = NULL_OBJ;
     vm->id = id;
     vm->pool = pool;
     // Cold fields
@@ -95,8 +96,7 @@ nil_t vm_destroy(vm_p vm) {
 // Returns pointer to value slot, or NULL if not found
 // - offset < nargs: return stack pointer at fp_offset + offset
 // - offset >= nargs: return env->values pointer
-static obj_p *resolve_in_env(obj_p fn, i64_t sym, i64_t fp_offset) {
-    obj_p env;
+static obj_p *resolve_in_env(obj_p fn, obj_p env, i64_t sym, i64_t fp_offset) {
     i64_t i, n;
     vm_p vm = VM;
 
@@ -114,7 +114,6 @@ static obj_p *resolve_in_env(obj_p fn, i64_t sym, i64_t fp_offset) {
     }
 
     // Then check let-bound locals in env
-    env = AS_LAMBDA(fn)->env;
     if (env != NULL_OBJ && env->type == TYPE_DICT) {
         n = AS_LIST(env)[0]->len;
         for (i = 0; i < n; i++) {
@@ -143,14 +142,14 @@ obj_p *resolve(i64_t sym) {
         return &vm->fn;
 
     // Search in current lambda's env (args + let-bound locals)
-    result = resolve_in_env(fn, sym, vm->fp);
+    result = resolve_in_env(fn, vm->env, sym, vm->fp);
     if (result != NULL)
         return result;
 
     // Walk up return stack - check each parent lambda's env
     for (frame = vm->rp; frame > 0; frame--) {
         fn = vm->rs[frame - 1].fn;
-        result = resolve_in_env(fn, sym, vm->rs[frame - 1].fp);
+        result = resolve_in_env(fn, vm->rs[frame - 1].env, sym, vm->rs[frame - 1].fp);
         if (result != NULL)
             return result;
     }
@@ -179,9 +178,9 @@ obj_p amend(obj_p sym, obj_p val) {
     obj_p *env_slot;
     vm_p vm = VM;
 
-    // Add to current lambda's env, or globals if at top level
+    // Add to env of the current call, or globals if at top level
     if (vm->fn != NULL_OBJ) {
-        env_slot = &AS_LAMBDA(vm->fn)->env;
+        env_slot = &vm->env;
         if (*env_slot != NULL_OBJ)
             set_obj(env_slot, sym, clone_obj(val));
         else {
@@ -305,6 +304,12 @@ static inline obj_p unwrap(obj_p obj, i64_t id) {
     return obj;
 }
 
+// Leave the current call: forget its let-bound locals, back to those of the caller
+static inline nil_t vm_env_restore(vm_p vm, ctx_t *rs) {
+    drop_obj(vm->env);
+    vm->env = rs->env;
+}
+
 // Unwind return stack on error, adding trace frames for each caller
 static inline obj_p vm_error_unwind(vm_p vm, obj_p err) {
     ctx_t *rs;
@@ -315,6 +320,7 @@ static inline obj_p vm_error_unwind(vm_p vm, obj_p err) {
             vm->rp--;
             vm->fn = rs->fn;
             vm->fp = rs->fp;
+            vm_env_restore(vm, rs);
             break;
         }
         // Add caller's location to trace
@@ -322,6 +328,7 @@ static inline obj_p vm_error_unwind(vm_p vm, obj_p err) {
         vm->rp--;
         vm->fn = rs->fn;
         vm->fp = rs->fp;
+        vm_env_restore(vm, rs);
     }
     return err;
 }
@@ -388,6 +395,7 @@ OP_RET:
         ip = rs->ip;
         vm->fp = rs->fp;
         vm->fn = rs->fn;
+        vm_env_restore(vm, rs);
         bc = AS_U8(AS_LAMBDA(vm->fn)->bc);
         consts = AS_LIST(AS_LAMBDA(vm->fn)->consts);
         // Add caller's location to trace if error is propagating
@@ -510,6 +518,8 @@ callf:
     rs->ip = ip;
     rs->fp = vm->fp;
     rs->fn = vm->fn;
+    rs->env = vm->env;
+    vm->env = NULL_OBJ;
     // Switch to new function
     vm->fp = vm->sp - AS_LAMBDA(x)->args->len;
     vm->fn = x;
@@ -530,6 +540,8 @@ OP_CALLS:
     rs->ip = ip;
     rs->fp = vm->fp;
     rs->fn = vm->fn;
+    rs->env = vm->env;
+    vm->env = NULL_OBJ;
     vm->fp = vm->sp - AS_LAMBDA(vm->fn)->args->len;
     ip = 0;
     next();
@@ -602,7 +614,7 @@ OP_CALLD:
 OP_LOADENV:
     // Load from env by offset
     // - offset < nargs: load from stack (args passed on stack)
-    // - offset >= nargs: load from lambda->env values (let-bound locals)
+    // - offset >= nargs: load from env values (let-bound locals)
     n = bc[ip++];
     {
         i64_t nargs = AS_LAMBDA(vm->fn)->args->len;
@@ -612,7 +624,7 @@ OP_LOADENV:
             push(clone_obj(x));
         } else {
             // Let-bound locals in env values
-            obj_p env = AS_LAMBDA(vm->fn)->env;
+            obj_p env = vm->env;
             if (env != NULL_OBJ && env->type == TYPE_DICT) {
                 i64_t local_idx = n - nargs;
                 obj_p values = AS_LIST(env)[1];
@@ -635,7 +647,7 @@ OP_STOREENV:
     n = bc[ip++];
     {
         i64_t nargs = AS_LAMBDA(vm->fn)->args->len;
-        obj_p env = AS_LAMBDA(vm->fn)->env;
+        obj_p env = vm->env;
         x = pop();  // value to store
 
         if (n < nargs) {
@@ -701,8 +713,10 @@ obj_p call(obj_p fn, i64_t arity) {
     // ip = -1 marks this as an external call (OP_RET will return to vm_eval top level)
     vm->rs[vm->rp].fn = saved_fn;
     vm->rs[vm->rp].fp = saved_fp;
+    vm->rs[vm->rp].env = vm->env;
     vm->rs[vm->rp].ip = -1;  // External call marker
     vm->rp++;
+    vm->env = NULL_OBJ;
 
     // Execute bytecode
     res = vm_eval(fn);
@@ -712,6 +726,8 @@ obj_p call(obj_p fn, i64_t arity) {
         drop_obj(vm->ps[--vm->sp]);
 
     // Pop frame and restore context (unwinding of an error may have popped the frame already)
+    if (vm->rp > saved_rp)
+        vm_env_restore(vm, &vm->rs[saved_rp]);
     vm->rp = saved_rp;
     vm->fn = saved_fn;
     vm->fp = saved_fp;
diff --git a/core/eval.h b/core/eval.h
index fec2d48..a87d47d 100644
--- a/core/eval.h
+++ b/core/eval.h
@@ -67,9 +67,10 @@ typedef enum op_type_t {
 struct pool_t;
 struct heap_t;
 
-// Return stack frame - compact for cache efficiency (16 bytes)
+// Return stack frame
 typedef struct ctx_t {
-    obj_p fn;  // function pointer (lambda->env has the environment)
+    obj_p fn;   // function pointer
+    obj_p env;  // let-bound locals of the function
     i32_t fp;  // frame pointer (max VM_STACK_SIZE = 1024)
     i32_t ip;  // instruction pointer (max bytecode ~64KB)
 } ctx_t;
@@ -85,7 +86,8 @@ typedef struct vm_t {
     i32_t rp;  // return stack pointer
     i32_t id;  // VM id (thread index)
     // Pointers (40 bytes)
-    obj_p fn;                       // current function (fn->env has local variables)
+    obj_p fn;                       // current function
+    obj_p env;                      // let-bound locals of the current call (NULL_OBJ or dict)
     struct heap_t *heap;            // heap pointer
     struct pool_t *pool;            // pool pointer
     struct query_ctx_t *query_ctx;  // query context stack (for table column resolution)
-- 
2.43.0


From c7249011f15d6011e950ca9afcea520e6b2a5f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 008/108] fix: threads that make the first call of a lambda at
 once do not replace each other's bytecode

---
 core/cc.c   | 28 ++++++++++++++++++++++++----
 core/eval.c |  4 ++--
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/core/cc.c b/core/cc.c
index 460d1ed..c89e557 100644
--- a/core/cc.c
+++ b/core/cc.c
@@ -29,6 +29,7 @@
 #include "vary.h"
 #include "nfo.h"
 #include "env.h"
+#include "atomic.h"
 #include "error.h"
 
 // Add location info from compiler context when a compile error occurs
@@ -398,6 +399,7 @@ obj_p cc_compile(obj_p lambda) {
     obj_p result;
     i64_t body_len;
     obj_p *body_exprs;
+    b8_t published;
 
     // Initialize compiler context
     cc_ctx_t cc = {
@@ -458,10 +460,28 @@ obj_p cc_compile(obj_p lambda) {
         return result;
     }
 
-    // Store compiled bytecode, constants, and debug info in lambda
-    fn->bc = cc.bc;
-    fn->consts = cc.consts;
-    fn->dbg = cc.dbg;
+    // Store compiled bytecode, constants, and debug info in lambda, unless another thread which makes its
+    // first call too has done so: it may be running that code already
+    static i64_t publish_lock = 0;
+    i64_t rounds = 0;
+
+    while (__atomic_exchange_n(&publish_lock, 1, __ATOMIC_ACQUIRE))
+        backoff_spin(&rounds);
+
+    published = fn->bc != NULL_OBJ;
+    if (!published) {
+        fn->consts = cc.consts;
+        fn->dbg = cc.dbg;
+        __atomic_store_n(&fn->bc, cc.bc, __ATOMIC_RELEASE);
+    }
+
+    __atomic_store_n(&publish_lock, 0, __ATOMIC_RELEASE);
+
+    if (published) {
+        drop_obj(cc.bc);
+        drop_obj(cc.consts);
+        drop_obj(cc.dbg);
+    }
 
     // Don't pre-create env dict - let runtime handle it via amend()
     // env_names was just for compile-time offset lookups (args)
diff --git a/core/eval.c b/core/eval.c
index e9be93d..138c3e0 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -498,7 +498,7 @@ OP_CALLF:
     }
 callf:
     // Compile if not already compiled
-    if (UNLIKELY(AS_LAMBDA(x)->bc == NULL_OBJ)) {
+    if (UNLIKELY(__atomic_load_n(&AS_LAMBDA(x)->bc, __ATOMIC_ACQUIRE) == NULL_OBJ)) {
         r = cc_compile(x);
         if (UNLIKELY(IS_ERR(r))) {
             drop_obj(x);
@@ -703,7 +703,7 @@ obj_p call(obj_p fn, i64_t arity) {
         return err_limit(VM_STACK_SIZE);
 
     // Compile on first call - bytecode is cached in the lambda for reuse
-    if (lam->bc == NULL_OBJ) {
+    if (__atomic_load_n(&lam->bc, __ATOMIC_ACQUIRE) == NULL_OBJ) {
         res = cc_compile(fn);
         if (IS_ERR(res))
             return res;
-- 
2.43.0


From 03f2cf7256eb07621fc8d813e86d4ac3b4c836ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 009/108] fix: a parallel map inside of a parallel map runs on
 its executor alone

---
 core/iter.c | 8 ++++----
 core/pool.c | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/iter.c b/core/iter.c
index 2630c6f..224952b 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -145,8 +145,8 @@ obj_p pmap_unary_fn(unary_f fn, i64_t attrs, obj_p x) {
         return NULL_OBJ;
 
     pool = pool_get();
-    if (pool == NULL)
-        return map_unary_fn(fn, attrs, x);  // Fallback when pool not initialized
+    if (pool == NULL || rc_sync_get())
+        return map_unary_fn(fn, attrs, x);  // Fallback when pool not initialized or runs already
     num_chunks = pool_get_executors_count(pool);
 
     // Limit chunks to number of elements
@@ -557,8 +557,8 @@ obj_p pmap_lambda(obj_p f, obj_p *x, i64_t n) {
         return NULL_OBJ;
 
     pool = pool_get();
-    if (pool == NULL)
-        return map_lambda(f, x, n);  // Fallback when pool not initialized
+    if (pool == NULL || rc_sync_get())
+        return map_lambda(f, x, n);  // Fallback when pool not initialized or runs already
     num_chunks = pool_get_executors_count(pool);
 
     // Limit chunks to number of elements
diff --git a/core/pool.c b/core/pool.c
index bf6520f..3f1fc8d 100644
--- a/core/pool.c
+++ b/core/pool.c
@@ -500,7 +500,8 @@ i64_t pool_split_by(pool_p pool, i64_t input_len, i64_t groups_len) {
 }
 
 i64_t pool_get_executors_count(pool_p pool) {
-    if (pool == NULL)
+    // Inside of a run the other executors are not available
+    if (pool == NULL || rc_sync_get())
         return 1;
     else
         return pool->executors_count;
-- 
2.43.0


From 9b5ee0fec5fc8594a2d1742b6b79bc862e005e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 010/108] fix: the error of a failed parallel task keeps its
 details

---
 core/pool.c | 19 +++++++++++++++++++
 core/pool.h |  2 ++
 2 files changed, 21 insertions(+)

diff --git a/core/pool.c b/core/pool.c
index 3f1fc8d..819556a 100644
--- a/core/pool.c
+++ b/core/pool.c
@@ -165,6 +165,18 @@ obj_p pool_call_task_fn(raw_p fn, i64_t argc, raw_p argv[]) {
     }
 }
 
+// Keep the error of the failed task with the lowest number: that is the one pool_run returns
+static nil_t pool_save_error(pool_p pool, i64_t id) {
+    mutex_lock(&pool->mutex);
+
+    if (id < pool->err_id) {
+        pool->err_id = id;
+        pool->err = VM->err;
+    }
+
+    mutex_unlock(&pool->mutex);
+}
+
 raw_p executor_run(raw_p arg) {
     executor_t *executor = (executor_t *)arg;
     task_data_t data;
@@ -208,6 +220,8 @@ raw_p executor_run(raw_p arg) {
 
             // execute task
             res = pool_call_task_fn(data.fn, data.argc, data.argv);
+            if (IS_ERR(res))
+                pool_save_error(executor->pool, data.id);
             data.result = res;
             mpmc_push(executor->pool->result_queue, data);
         }
@@ -240,6 +254,7 @@ pool_p pool_create(i64_t thread_count) {
     pool->run_id = 0;
     pool->running = B8_FALSE;
     pool->active_count = 0;
+    pool->err_id = 0;
     pool->task_queue = mpmc_create(DEFAULT_MPMC_SIZE);
     pool->result_queue = mpmc_create(DEFAULT_MPMC_SIZE);
     pool->state = RUN_STATE_RUNNING;
@@ -393,6 +408,7 @@ obj_p pool_run(pool_p pool) {
     tasks_count = pool->tasks_count;
     executors_count = pool->executors_count;
     pool->run_id++;
+    pool->err_id = tasks_count;
     pool->running = B8_TRUE;
 
     // wake up needed executors
@@ -414,6 +430,8 @@ obj_p pool_run(pool_p pool) {
 
         // execute task
         res = pool_call_task_fn(data.fn, data.argc, data.argv);
+        if (IS_ERR(res))
+            pool_save_error(pool, data.id);
         data.result = res;
         mpmc_push(pool->result_queue, data);
     }
@@ -452,6 +470,7 @@ obj_p pool_run(pool_p pool) {
     // Check res for errors
     for (i = 0; i < tasks_count; i++) {
         if (IS_ERR(AS_LIST(res)[i])) {
+            VM->err = pool->err;
             e = clone_obj(AS_LIST(res)[i]);
             drop_obj(res);
             return e;
diff --git a/core/pool.h b/core/pool.h
index 4ac8cc1..077dcd9 100644
--- a/core/pool.h
+++ b/core/pool.h
@@ -90,6 +90,8 @@ typedef struct pool_t {
     i64_t run_id;            // Sequence number of the last started run
     b8_t running;            // Tasks may be taken by executors
     i64_t active_count;      // Number of executors (besides main) inside of a run
+    i64_t err_id;            // Lowest number of a failed task of the run
+    err_t err;               // Its error
     mpmc_p task_queue;       // Pool's task queue
     mpmc_p result_queue;     // Pool's result queue
     executor_t executors[];  // Array of executors
-- 
2.43.0


From 7fddd848e25f801eb31c5c020efe284bd19607eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 011/108] fix: tasks of a parallel run see the names of the
 lambda and query which started it

---
 core/eval.c | 41 +++++++++++++++++++++++++++++------------
 core/eval.h | 11 +++++++++++
 core/pool.c | 10 ++++++++++
 core/pool.h |  1 +
 4 files changed, 51 insertions(+), 12 deletions(-)

diff --git a/core/eval.c b/core/eval.c
index 138c3e0..ed89a6b 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -55,6 +55,7 @@ vm_p vm_create(i32_t id, struct pool_t *pool) {
     vm->trace = NULL_OBJ;
     vm->timeit = NULL;     // Lazy allocated when timing enabled
     vm->query_ctx = NULL;  // No active query context
+    vm->scope = NULL;      // Not in a parallel run
     vm->rc_sync = 0;       // Single-threaded by default
 
     // Set VM for this thread so heap_create can use it
@@ -96,9 +97,8 @@ nil_t vm_destroy(vm_p vm) {
 // Returns pointer to value slot, or NULL if not found
 // - offset < nargs: return stack pointer at fp_offset + offset
 // - offset >= nargs: return env->values pointer
-static obj_p *resolve_in_env(obj_p fn, obj_p env, i64_t sym, i64_t fp_offset) {
+static obj_p *resolve_in_env(vm_p vm, obj_p fn, obj_p env, i64_t sym, i64_t fp_offset) {
     i64_t i, n;
-    vm_p vm = VM;
 
     if (fn == NULL_OBJ)
         return NULL;
@@ -130,26 +130,43 @@ static obj_p *resolve_in_env(obj_p fn, obj_p env, i64_t sym, i64_t fp_offset) {
     return NULL;
 }
 
+// Helper: resolve symbol in a lambda and the ones which have called it
+static obj_p *resolve_in_frames(vm_p vm, obj_p fn, obj_p env, i64_t sym, i64_t fp, i64_t rp) {
+    obj_p *result;
+    i64_t frame;
+
+    // Search in current lambda's env (args + let-bound locals)
+    result = resolve_in_env(vm, fn, env, sym, fp);
+    if (result != NULL)
+        return result;
+
+    // Walk up return stack - check each parent lambda's env
+    for (frame = rp; frame > 0; frame--) {
+        result = resolve_in_env(vm, vm->rs[frame - 1].fn, vm->rs[frame - 1].env, sym, vm->rs[frame - 1].fp);
+        if (result != NULL)
+            return result;
+    }
+
+    return NULL;
+}
+
 obj_p *resolve(i64_t sym) {
-    i64_t j, frame;
-    obj_p fn, *result;
+    i64_t j;
+    obj_p *result;
     i64_t i, n;
     vm_p vm = VM;
-
-    fn = vm->fn;
+    scope_t *scope = vm->scope;
 
     if (sym == SYMBOL_SELF)
         return &vm->fn;
 
-    // Search in current lambda's env (args + let-bound locals)
-    result = resolve_in_env(fn, vm->env, sym, vm->fp);
+    result = resolve_in_frames(vm, vm->fn, vm->env, sym, vm->fp, vm->rp);
     if (result != NULL)
         return result;
 
-    // Walk up return stack - check each parent lambda's env
-    for (frame = vm->rp; frame > 0; frame--) {
-        fn = vm->rs[frame - 1].fn;
-        result = resolve_in_env(fn, vm->rs[frame - 1].env, sym, vm->rs[frame - 1].fp);
+    // In a parallel run: lambdas its starter was in
+    if (scope != NULL) {
+        result = resolve_in_frames(scope->vm, scope->fn, scope->env, sym, scope->fp, scope->rp);
         if (result != NULL)
             return result;
     }
diff --git a/core/eval.h b/core/eval.h
index a87d47d..ff7e8d6 100644
--- a/core/eval.h
+++ b/core/eval.h
@@ -75,6 +75,16 @@ typedef struct ctx_t {
     i32_t ip;  // instruction pointer (max bytecode ~64KB)
 } ctx_t;
 
+// Where a parallel run was started: names its tasks may refer to
+typedef struct scope_t {
+    struct vm_t *vm;                // VM that started the run
+    obj_p fn;                       // its current function,
+    obj_p env;                      // let-bound locals,
+    i32_t fp;                       // frame pointer,
+    i32_t rp;                       // return stack pointer
+    struct query_ctx_t *query_ctx;  // and query context stack
+} scope_t;
+
 // Virtual machine state - layout optimized for cache efficiency
 typedef struct vm_t {
     // === First cache line (64 bytes) ===
@@ -96,6 +106,7 @@ typedef struct vm_t {
     obj_p ps[VM_STACK_SIZE];  // program stack
     ctx_t rs[VM_STACK_SIZE];  // return stack
     // === COLD section ===
+    scope_t *scope;  // where the run this VM takes part in was started, or NULL
     obj_p nfo;    // error source info
     obj_p trace;  // error stack trace
     err_t err;    // last error context (no allocation)
diff --git a/core/pool.c b/core/pool.c
index 819556a..43545a6 100644
--- a/core/pool.c
+++ b/core/pool.c
@@ -208,6 +208,8 @@ raw_p executor_run(raw_p arg) {
         run_id = executor->pool->run_id;
         tasks_count = executor->pool->tasks_count;
         executor->pool->active_count++;
+        vm->scope = &executor->pool->scope;
+        vm->query_ctx = executor->pool->scope.query_ctx;
         mutex_unlock(&executor->pool->mutex);
 
         // process tasks
@@ -228,6 +230,8 @@ raw_p executor_run(raw_p arg) {
 
         // nobody will print locations gathered by failed tasks
         error_trace_reset();
+        vm->scope = NULL;
+        vm->query_ctx = NULL;
 
         mutex_lock(&executor->pool->mutex);
         executor->pool->done_count += i;
@@ -409,6 +413,12 @@ obj_p pool_run(pool_p pool) {
     executors_count = pool->executors_count;
     pool->run_id++;
     pool->err_id = tasks_count;
+    pool->scope = (scope_t){.vm = VM,
+                            .fn = VM->fn,
+                            .env = VM->env,
+                            .fp = VM->fp,
+                            .rp = VM->rp,
+                            .query_ctx = VM->query_ctx};
     pool->running = B8_TRUE;
 
     // wake up needed executors
diff --git a/core/pool.h b/core/pool.h
index 077dcd9..5e1bd41 100644
--- a/core/pool.h
+++ b/core/pool.h
@@ -92,6 +92,7 @@ typedef struct pool_t {
     i64_t active_count;      // Number of executors (besides main) inside of a run
     i64_t err_id;            // Lowest number of a failed task of the run
     err_t err;               // Its error
+    scope_t scope;           // Where the run was started
     mpmc_p task_queue;       // Pool's task queue
     mpmc_p result_queue;     // Pool's result queue
     executor_t executors[];  // Array of executors
-- 
2.43.0


From ce3d715d9b27f03fdd62695fa6f019fe6fd6b453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 012/108] fix: last of a group is taken from the last part, not
 the first, when parts are merged

---
 core/aggr.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index e876b48..2af3755 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -906,7 +906,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, i16, i16, if ($out[$y] == NULL_I16) $out[$y] = $in[$x]);
+            res = AGGR_COLLECT(parts, n, i16, i16, if ($in[$x] != NULL_I16) $out[$y] = $in[$x]);
             res->type = val->type;
             drop_obj(parts);
             return res;
@@ -916,7 +916,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, i32, i32, if ($out[$y] == NULL_I32) $out[$y] = $in[$x]);
+            res = AGGR_COLLECT(parts, n, i32, i32, if ($in[$x] != NULL_I32) $out[$y] = $in[$x]);
             res->type = val->type;
             drop_obj(parts);
             return res;
@@ -927,7 +927,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, i64, i64, if ($out[$y] == NULL_I64) $out[$y] = $in[$x]);
+            res = AGGR_COLLECT(parts, n, i64, i64, if ($in[$x] != NULL_I64) $out[$y] = $in[$x]);
             drop_obj(parts);
             if (val->type == TYPE_ENUM) {
                 ek = ray_key(val);
@@ -958,7 +958,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, f64, f64, if (ISNANF64($out[$y])) $out[$y] = $in[$x]);
+            res = AGGR_COLLECT(parts, n, f64, f64, if (!ISNANF64($in[$x])) $out[$y] = $in[$x]);
             drop_obj(parts);
             return res;
         case TYPE_GUID:
@@ -966,7 +966,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             if (IS_ERR(parts))
                 return parts;
             res = AGGR_COLLECT(parts, n, guid, guid,
-                               if (memcmp($out[$y], NULL_GUID, sizeof(guid_t)) == 0)
+                               if (memcmp($in[$x], NULL_GUID, sizeof(guid_t)) != 0)
                                    memcpy($out[$y], $in[$x], sizeof(guid_t)));
             drop_obj(parts);
             return res;
@@ -974,7 +974,10 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, list, list, if ($out[$y] == NULL_OBJ) $out[$y] = clone_obj($in[$x]));
+            res = AGGR_COLLECT(parts, n, list, list, if ($in[$x] != NULL_OBJ) {
+                drop_obj($out[$y]);
+                $out[$y] = clone_obj($in[$x]);
+            });
             drop_obj(parts);
             return res;
         case TYPE_PARTEDLIST:
@@ -1054,22 +1057,22 @@ obj_p aggr_last(obj_p val, obj_p index) {
         case TYPE_PARTEDI64:
         case TYPE_PARTEDTIMESTAMP:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i64, i64,
-                              if ($out[$y] == NULL_I64) $out[$y] = $in[$x]);
+                              if ($in[$x] != NULL_I64) $out[$y] = $in[$x]);
         case TYPE_PARTEDF64:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, f64, f64,
-                              if (ISNANF64($out[$y])) $out[$y] = $in[$x]);
+                              if (!ISNANF64($in[$x])) $out[$y] = $in[$x]);
         case TYPE_PARTEDGUID:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, guid, guid,
-                              if (memcmp($out[$y], NULL_GUID, sizeof(guid_t)) == 0)
+                              if (memcmp($in[$x], NULL_GUID, sizeof(guid_t)) != 0)
                                   memcpy($out[$y], $in[$x], sizeof(guid_t)));
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME:
         case TYPE_PARTEDI32:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i32, i32,
-                              if ($out[$y] == NULL_I32) $out[$y] = $in[$x]);
+                              if ($in[$x] != NULL_I32) $out[$y] = $in[$x]);
         case TYPE_PARTEDI16:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i16, i16,
-                              if ($out[$y] == NULL_I16) $out[$y] = $in[$x]);
+                              if ($in[$x] != NULL_I16) $out[$y] = $in[$x]);
         default:
             return err_type(0, 0, 0, 0);
     }
-- 
2.43.0


From bef0d18c96ba2ee954f49d40e39727a675836999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 013/108] fix: group of a type that cannot be grouped is an
 error

---
 core/compose.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/compose.c b/core/compose.c
index 0c6f832..787c8bd 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -1072,9 +1072,21 @@ obj_p ray_group(obj_p x) {
     obj_p k, v, index;
 
     index = index_group(x, NULL_OBJ);
+    if (IS_ERR(index))
+        return index;
+
     v = aggr_row(x, index);
+    if (IS_ERR(v)) {
+        drop_obj(index);
+        return v;
+    }
+
     k = aggr_first(x, index);
     drop_obj(index);
+    if (IS_ERR(k)) {
+        drop_obj(v);
+        return k;
+    }
 
     return dict(k, v);
 }
-- 
2.43.0


From 3a0859985b12dca2e9a0dfe1a0b220369d4ece1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 014/108] fix: order of groups does not depend on the number of
 executors

---
 core/index.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/core/index.c b/core/index.c
index 4d27587..36ba0c8 100644
--- a/core/index.c
+++ b/core/index.c
@@ -2714,6 +2714,26 @@ obj_p index_group_list_radix(obj_p obj, obj_p filter, i64_t *hashes, i64_t len)
                first_ids + partition_first_base[p], 
                partition_groups[p] * sizeof(i64_t));
     }
+
+    // Number the groups by their first appearance, as the single-threaded path does
+    i64_t *order = (i64_t *)heap_alloc(total_groups * sizeof(i64_t));
+    i64_t *firsts_tmp = (i64_t *)heap_alloc(total_groups * sizeof(i64_t));
+    i64_t g = 0;
+
+    for (i = 0; i < total_groups; i++)
+        order[i] = NULL_I64;
+
+    for (i = 0; i < len; i++) {
+        if (order[xo[i]] == NULL_I64) {
+            firsts_tmp[g] = firsts_arr[xo[i]];
+            order[xo[i]] = g++;
+        }
+        xo[i] = order[xo[i]];
+    }
+
+    memcpy(firsts_arr, firsts_tmp, total_groups * sizeof(i64_t));
+    heap_free(order);
+    heap_free(firsts_tmp);
     timeit_tick("radix remap");
 
     // Cleanup
-- 
2.43.0


From 388fa47c308de5dbf12b0ef46f7028b3a5f308da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 015/108] fix: first of a group skips nulls whatever the number
 of executors

---
 core/aggr.c | 48 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/core/aggr.c b/core/aggr.c
index 2af3755..736fb72 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -438,6 +438,52 @@ obj_p aggr_first_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p a
     }
 }
 
+// Check that the first value of each group is not null (otherwise the group is to be searched for one that is not)
+static b8_t aggr_first_ids_valid(obj_p val, i64_t *first_ids, i64_t *filter_ids, i64_t n) {
+    i64_t i, id;
+
+    for (i = 0; i < n; i++) {
+        id = filter_ids ? filter_ids[first_ids[i]] : first_ids[i];
+
+        switch (val->type) {
+            case TYPE_U8:
+            case TYPE_B8:
+            case TYPE_C8:
+                if (AS_U8(val)[id] == 0)
+                    return B8_FALSE;
+                break;
+            case TYPE_I16:
+                if (AS_I16(val)[id] == NULL_I16)
+                    return B8_FALSE;
+                break;
+            case TYPE_I32:
+            case TYPE_DATE:
+            case TYPE_TIME:
+                if (AS_I32(val)[id] == NULL_I32)
+                    return B8_FALSE;
+                break;
+            case TYPE_I64:
+            case TYPE_SYMBOL:
+            case TYPE_TIMESTAMP:
+                if (AS_I64(val)[id] == NULL_I64)
+                    return B8_FALSE;
+                break;
+            case TYPE_F64:
+                if (ISNANF64(AS_F64(val)[id]))
+                    return B8_FALSE;
+                break;
+            case TYPE_GUID:
+                if (memcmp(AS_GUID(val)[id], NULL_GUID, sizeof(guid_t)) == 0)
+                    return B8_FALSE;
+                break;
+            default:
+                break;
+        }
+    }
+
+    return B8_TRUE;
+}
+
 obj_p aggr_first(obj_p val, obj_p index) {
     i64_t i, j, n, l;
     i64_t *xo, *xe, *first_ids, *filter_ids;
@@ -448,7 +494,7 @@ obj_p aggr_first(obj_p val, obj_p index) {
     // Fast path: if first indices are precomputed, use them directly
     first_ids = index_group_first_ids(index);
     filter_ids = index_group_filter_ids(index);
-    if (first_ids != NULL) {
+    if (first_ids != NULL && aggr_first_ids_valid(val, first_ids, filter_ids, n)) {
         switch (val->type) {
             case TYPE_U8:
             case TYPE_B8:
-- 
2.43.0


From bdf62666ebe8f17d2a0f001a035f9953505b183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 016/108] fix: values of any type can be hashed

---
 core/hash.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/hash.c b/core/hash.c
index 4a9d51e..f951a05 100644
--- a/core/hash.c
+++ b/core/hash.c
@@ -290,8 +290,17 @@ u64_t hash_index_obj(obj_p obj) {
             for (i = 0, hash = 0xcbf29ce484222325ull; i < len; i++)
                 hash = hash_index_u64((u64_t)AS_F64(obj)[i], hash);
             return hash;
+        case TYPE_U8:
+        case TYPE_B8:
+            return str_hash((lit_p)AS_U8(obj), obj->len);
+        case TYPE_LIST:
+            len = obj->len;
+            for (i = 0, hash = 0xcbf29ce484222325ull; i < len; i++)
+                hash = hash_index_u64(hash_index_obj(AS_LIST(obj)[i]), hash);
+            return hash;
         default:
-            PANIC("type: %d", obj->type);
+            // values of other types are told apart by comparison alone
+            return (u64_t)(u8_t)obj->type;
     }
 }
 
-- 
2.43.0


From fad13d917924d89fe5fd6cb0dc8162a3a0c6a9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 017/108] fix: page-aligned chunks do not run past the end of a
 vector

---
 core/index.c |  6 ++++++
 core/pool.c  | 12 ++++++++++++
 core/pool.h  |  1 +
 3 files changed, 19 insertions(+)

diff --git a/core/index.c b/core/index.c
index 36ba0c8..f2f6871 100644
--- a/core/index.c
+++ b/core/index.c
@@ -277,6 +277,7 @@ nil_t __index_list_precalc_hash(obj_p cols, i64_t out[], i64_t ncols, i64_t nrow
     pool = pool_get();
     chunks = pool_split_by(pool, nrows, 0);
     base_chunk = pool_chunk_aligned(nrows, chunks, sizeof(i64_t));
+    chunks = pool_chunks_count(nrows, chunks, base_chunk);
 
     // Initialize hashes
     for (i = 0; i < nrows; i++)
@@ -349,6 +350,7 @@ index_scope_t index_scope_i32(i32_t values[], i64_t indices[], i64_t len) {
 
     chunks = pool_split_by(pool, len, 0);
     base_chunk = pool_chunk_aligned(len, chunks, sizeof(i32_t));
+    chunks = pool_chunks_count(len, chunks, base_chunk);
 
     if (chunks == 1)
         index_scope_partial_i32(len, values, indices, 0, &min, &max);
@@ -410,6 +412,7 @@ index_scope_t index_scope_i64(i64_t values[], i64_t indices[], i64_t len) {
 
     chunks = pool_split_by(pool, len, 0);
     base_chunk = pool_chunk_aligned(len, chunks, sizeof(i64_t));
+    chunks = pool_chunks_count(len, chunks, base_chunk);
 
     if (chunks == 1)
         index_scope_partial_i64(len, values, indices, 0, &min, &max);
@@ -2021,6 +2024,7 @@ obj_p index_group_i64_scoped(obj_p obj, obj_p filter, const index_scope_t scope)
                 hk[i] = NULL_I64;
         } else {
             base_chunk = pool_chunk_aligned(scope.range, chunks, sizeof(i64_t));
+            chunks = pool_chunks_count(scope.range, chunks, base_chunk);
             pool_prepare(pool);
             for (i = 0; i < chunks - 1; i++)
                 pool_add_task(pool, (raw_p)fill_null_i64, 3, hk, base_chunk, i * base_chunk);
@@ -2072,6 +2076,7 @@ obj_p index_group_i64_scoped(obj_p obj, obj_p filter, const index_scope_t scope)
         pool = pool_get();
         chunks = pool_split_by(pool, len, 0);
         base_chunk = pool_chunk_aligned(len, chunks, sizeof(i64_t));
+        chunks = pool_chunks_count(len, chunks, base_chunk);
         if (chunks == 1)
             index_group_i64_scoped_partial(values, indices, hk, len, 0, scope.min, hv);
         else {
@@ -2403,6 +2408,7 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
     pool = pool_get();
     chunks = pool_split_by(pool, len, 0);
     base_chunk = pool_chunk_aligned(len, chunks, sizeof(i64_t));
+    chunks = pool_chunks_count(len, chunks, base_chunk);
 
     if (chunks == 1) {
         index_group_list_perfect_partial(len, 0, &ctx);
diff --git a/core/pool.c b/core/pool.c
index 43545a6..e7f384a 100644
--- a/core/pool.c
+++ b/core/pool.c
@@ -552,6 +552,18 @@ i64_t pool_chunk_aligned(i64_t total_len, i64_t num_workers, i64_t elem_size) {
     return pages_per_chunk * elems_per_page;
 }
 
+// Number of chunks of given size needed to cover all elements: page alignment may make it lower than the number of workers
+i64_t pool_chunks_count(i64_t total_len, i64_t num_workers, i64_t chunk_len) {
+    i64_t n;
+
+    if (chunk_len <= 0)
+        return num_workers;
+
+    n = (total_len + chunk_len - 1) / chunk_len;
+
+    return (n < num_workers) ? n : num_workers;
+}
+
 nil_t pool_map(i64_t total_len, pool_map_fn fn, void *ctx) {
     pool_p pool;
     i64_t i, n, chunk;
diff --git a/core/pool.h b/core/pool.h
index 5e1bd41..d24d321 100644
--- a/core/pool.h
+++ b/core/pool.h
@@ -109,6 +109,7 @@ i64_t pool_split_by(pool_p pool, i64_t input_len, i64_t groups_len);
 i64_t pool_split_by_mem(pool_p pool, i64_t input_len, i64_t groups_len, i64_t type_size);
 i64_t pool_get_executors_count(pool_p pool);
 i64_t pool_chunk_aligned(i64_t total_len, i64_t num_workers, i64_t elem_size);
+i64_t pool_chunks_count(i64_t total_len, i64_t num_workers, i64_t chunk_len);
 
 typedef obj_p (*pool_map_fn)(i64_t len, i64_t offset, void *ctx);
 nil_t pool_map(i64_t total_len, pool_map_fn fn, void *ctx);
-- 
2.43.0


From 01297ff7d4d55c2375d92312b5cd02c900996cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 018/108] fix: groups of keys out of direct range are ordered
 by first appearance and nulls make one group

---
 core/index.c | 169 ++++++++++++++++-----------------------------------
 1 file changed, 54 insertions(+), 115 deletions(-)

diff --git a/core/index.c b/core/index.c
index f2f6871..1b5ed0a 100644
--- a/core/index.c
+++ b/core/index.c
@@ -1709,14 +1709,37 @@ typedef struct __group_chunk_ctx_t {
     i64_t *local_groups;  // per-chunk group count
     hash_f hash;
     cmp_f cmp;
-    obj_p *local_hts;   // per-chunk hash tables
     i64_t chunk_size;   // size of each chunk (for computing chunk index)
 } __group_chunk_ctx_t;
 
+// Group ID of a key: the known one, or the next one if the key is new. A null marks a free slot of the table, so
+// the group of nulls is kept aside.
+static i64_t index_group_next(obj_p *ht, i64_t key, i64_t *nulls, i64_t *groups, hash_f hash, cmp_f cmp) {
+    i64_t idx, *k, *v;
+
+    if (key == NULL_I64) {
+        if (*nulls == NULL_I64)
+            *nulls = (*groups)++;
+
+        return *nulls;
+    }
+
+    idx = ht_oa_tab_next_with(ht, key, hash, cmp, NULL);
+    k = AS_I64(AS_LIST(*ht)[0]);
+    v = AS_I64(AS_LIST(*ht)[1]);
+
+    if (k[idx] == NULL_I64) {
+        k[idx] = key;
+        v[idx] = (*groups)++;
+    }
+
+    return v[idx];
+}
+
 // Phase 1: Each chunk builds its own local hash table and assigns local group IDs
 obj_p index_group_chunk_local(i64_t len, i64_t offset, __group_chunk_ctx_t *ctx) {
-    i64_t i, idx, n, groups;
-    i64_t *k, *v, *keys, *filter, *out;
+    i64_t i, groups, nulls;
+    i64_t *keys, *filter, *out;
     obj_p ht;
     hash_f hash;
     cmp_f cmp;
@@ -1729,40 +1752,14 @@ obj_p index_group_chunk_local(i64_t len, i64_t offset, __group_chunk_ctx_t *ctx)
 
     ht = ht_oa_create(len, TYPE_I64);
     groups = 0;
+    nulls = NULL_I64;
 
-    if (filter) {
-        for (i = offset; i < offset + len; i++) {
-            n = keys[filter[i]];
-            idx = ht_oa_tab_next_with(&ht, n, hash, cmp, NULL);
-            k = AS_I64(AS_LIST(ht)[0]);
-            v = AS_I64(AS_LIST(ht)[1]);
-
-            if (k[idx] == NULL_I64) {
-                k[idx] = n;
-                v[idx] = groups++;
-            }
-
-            out[i] = v[idx];
-        }
-    } else {
-        for (i = offset; i < offset + len; i++) {
-            n = keys[i];
-            idx = ht_oa_tab_next_with(&ht, n, hash, cmp, NULL);
-            k = AS_I64(AS_LIST(ht)[0]);
-            v = AS_I64(AS_LIST(ht)[1]);
-
-            if (k[idx] == NULL_I64) {
-                k[idx] = n;
-                v[idx] = groups++;
-            }
+    for (i = offset; i < offset + len; i++)
+        out[i] = index_group_next(&ht, keys[filter ? filter[i] : i], &nulls, &groups, hash, cmp);
 
-            out[i] = v[idx];
-        }
-    }
+    drop_obj(ht);
 
-    i64_t chunk_idx = offset / ctx->chunk_size;
-    ctx->local_groups[chunk_idx] = groups;
-    ctx->local_hts[chunk_idx] = ht;
+    ctx->local_groups[offset / ctx->chunk_size] = groups;
 
     return NULL_OBJ;
 }
@@ -1778,51 +1775,24 @@ obj_p index_group_chunk_remap(i64_t len, i64_t offset, i64_t *out, i64_t *remap)
 }
 
 i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t len, hash_f hash, cmp_f cmp) {
-    i64_t i, j, parts, groups, chunk, last_chunk;
-    i64_t idx, n, *k, *v, *remap;
-    i64_t offsets[32], local_groups[32];  // Support up to 32 chunks
-    obj_p local_hts[32];
+    i64_t i, j, parts, groups, nulls, chunk, last_chunk;
+    i64_t *remap;
+    i64_t local_groups[32];  // Support up to 32 chunks
     pool_p pool;
-    obj_p ht, merged_ht, res;
+    obj_p ht, res;
     __group_chunk_ctx_t ctx;
 
     pool = pool_get();
     parts = pool_split_by(pool, len, 0);
     groups = 0;
+    nulls = NULL_I64;
 
     // Single-threaded path
     if (parts == 1) {
         ht = ht_oa_create(len, TYPE_I64);
 
-        if (filter) {
-            for (i = 0; i < len; i++) {
-                n = keys[filter[i]];
-                idx = ht_oa_tab_next_with(&ht, n, hash, cmp, NULL);
-                k = AS_I64(AS_LIST(ht)[0]);
-                v = AS_I64(AS_LIST(ht)[1]);
-
-                if (k[idx] == NULL_I64) {
-                    k[idx] = n;
-                    v[idx] = groups++;
-                }
-
-                out[i] = v[idx];
-            }
-        } else {
-            for (i = 0; i < len; i++) {
-                n = keys[i];
-                idx = ht_oa_tab_next_with(&ht, n, hash, cmp, NULL);
-                k = AS_I64(AS_LIST(ht)[0]);
-                v = AS_I64(AS_LIST(ht)[1]);
-
-                if (k[idx] == NULL_I64) {
-                    k[idx] = n;
-                    v[idx] = groups++;
-                }
-
-                out[i] = v[idx];
-            }
-        }
+        for (i = 0; i < len; i++)
+            out[i] = index_group_next(&ht, keys[filter ? filter[i] : i], &nulls, &groups, hash, cmp);
 
         drop_obj(ht);
         return groups;
@@ -1843,17 +1813,9 @@ i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t le
     ctx.local_groups = local_groups;
     ctx.hash = hash;
     ctx.cmp = cmp;
-    ctx.local_hts = local_hts;
     ctx.chunk_size = chunk;
 
-    // Initialize
-    for (i = 0; i < parts; i++) {
-        local_groups[i] = 0;
-        local_hts[i] = NULL_OBJ;
-        offsets[i] = i * chunk;
-    }
-
-    // Phase 1: Build local hash tables in parallel (each chunk gets its own)
+    // Phase 1: Build local group IDs in parallel (each chunk has its own)
     pool_prepare(pool);
     for (i = 0; i < parts - 1; i++)
         pool_add_task(pool, (raw_p)index_group_chunk_local, 3, chunk, i * chunk, &ctx);
@@ -1861,54 +1823,31 @@ i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t le
     res = pool_run(pool);
     drop_obj(res);
 
-    // Phase 2: Merge local hash tables sequentially to assign global group IDs
-    // This is O(total_unique_keys) which is typically much smaller than O(n)
-    merged_ht = ht_oa_create(len, TYPE_I64);
-    groups = 0;
+    // Phase 2: Merge local groups sequentially, in order of their first rows, as the single-threaded path does:
+    // only the first row of a local group looks its key up
+    ht = ht_oa_create(len, TYPE_I64);
 
-    // For each chunk, create a remap array and merge its unique keys
     for (i = 0; i < parts; i++) {
-        if (local_hts[i] == NULL_OBJ)
-            continue;
+        i64_t chunk_start = i * chunk;
+        i64_t chunk_end = chunk_start + ((i < parts - 1) ? chunk : last_chunk);
 
-        ht = local_hts[i];
-        i64_t ht_len = AS_LIST(ht)[0]->len;
-        i64_t *ht_keys = AS_I64(AS_LIST(ht)[0]);
-        i64_t *ht_vals = AS_I64(AS_LIST(ht)[1]);
-
-        // Create remap array for this chunk's local IDs -> global IDs
+        // Remap array for this chunk's local IDs -> global IDs
         remap = (i64_t *)heap_alloc(local_groups[i] * sizeof(i64_t));
 
-        for (j = 0; j < ht_len; j++) {
-            if (ht_keys[j] != NULL_I64) {
-                i64_t local_id = ht_vals[j];
-                n = ht_keys[j];
-
-                // Check if this key exists in merged table
-                idx = ht_oa_tab_next_with(&merged_ht, n, hash, cmp, NULL);
-                k = AS_I64(AS_LIST(merged_ht)[0]);
-                v = AS_I64(AS_LIST(merged_ht)[1]);
+        for (j = 0; j < local_groups[i]; j++)
+            remap[j] = NULL_I64;
 
-                if (k[idx] == NULL_I64) {
-                    k[idx] = n;
-                    v[idx] = groups++;
-                }
+        for (j = chunk_start; j < chunk_end; j++) {
+            if (remap[out[j]] == NULL_I64)
+                remap[out[j]] = index_group_next(&ht, keys[filter ? filter[j] : j], &nulls, &groups, hash, cmp);
 
-                remap[local_id] = v[idx];
-            }
-        }
-
-        // Remap this chunk's output values
-        i64_t chunk_start = offsets[i];
-        i64_t chunk_len = (i < parts - 1) ? chunk : last_chunk;
-        for (j = chunk_start; j < chunk_start + chunk_len; j++)
             out[j] = remap[out[j]];
+        }
 
         heap_free(remap);
-        drop_obj(ht);
     }
 
-    drop_obj(merged_ht);
+    drop_obj(ht);
 
     return groups;
 }
@@ -2012,8 +1951,8 @@ obj_p index_group_i64_scoped(obj_p obj, obj_p filter, const index_scope_t scope)
     indices = is_null(filter) ? NULL : AS_I64(filter);
     len = indices ? filter->len : obj->len;
 
-    // perfect hash
-    if (scope.range <= len) {
+    // perfect hash (the range overflows when nulls are among the values)
+    if (scope.range > 0 && scope.range <= len) {
         keys = I64(scope.range);
         hk = AS_I64(keys);
         // Initialize keys array in parallel
-- 
2.43.0


From b71b01b58b3569bda54f0dda39f536b345b20065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 019/108] fix: scope of an enum column is that of its indices;
 distinct of values with nulls

---
 core/index.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/index.c b/core/index.c
index 1b5ed0a..a0ca6bd 100644
--- a/core/index.c
+++ b/core/index.c
@@ -501,7 +501,7 @@ obj_p index_distinct_i32(i32_t values[], i64_t len) {
     obj_p vec, set;
     const index_scope_t scope = index_scope_i32(values, NULL, len);
 
-    if (scope.range <= len || scope.range <= MAX_RANGE) {
+    if (scope.range > 0 && (scope.range <= len || scope.range <= MAX_RANGE)) {
         vec = I32(scope.range);
         out = AS_I32(vec);
         memset(out, 0, sizeof(i32_t) * scope.range);
@@ -558,7 +558,7 @@ obj_p index_distinct_i64(i64_t values[], i64_t len) {
     const index_scope_t scope = index_scope_i64(values, NULL, len);
 
     // use open addressing if range is small
-    if (scope.range <= len || scope.range <= MAX_RANGE) {
+    if (scope.range > 0 && (scope.range <= len || scope.range <= MAX_RANGE)) {
         vec = I64(scope.range);
         out = AS_I64(vec);
         memset(out, 0, sizeof(i64_t) * scope.range);
@@ -2300,9 +2300,11 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
             case TYPE_I64:
             case TYPE_SYMBOL:
             case TYPE_TIMESTAMP:
-            case TYPE_ENUM:
                 scopes[i] = index_scope_i64(AS_I64(values[i]), indices, len);
                 break;
+            case TYPE_ENUM:
+                scopes[i] = index_scope_i64(AS_I64(ENUM_VAL(values[i])), indices, len);
+                break;
             default:
                 __builtin_unreachable();
         }
-- 
2.43.0


From 309964eec1e068ebce7c7e39e7bc7c39c95195e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 020/108] fix: arguments evaluated before the one that fails
 are released

---
 core/eval.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/core/eval.c b/core/eval.c
index ed89a6b..f0ba800 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -836,8 +836,11 @@ static obj_p eval_vary(obj_p fn, obj_p *args, i64_t len, i64_t id) {
 
     for (i = 0; i < len; i++) {
         x = eval_arg(args[i], is_aggr);
-        if (IS_ERR(x))
+        if (IS_ERR(x)) {
+            while (i-- > 0)
+                drop_obj(vm_stack_pop());
             return x;
+        }
         vm_stack_push(x);
     }
 
@@ -863,12 +866,14 @@ static obj_p eval_lambda(obj_p fn, obj_p *args, i64_t len, i64_t id) {
 
     for (i = 0; i < len; i++) {
         x = eval(args[i]);
-        if (IS_ERR(x))
-            return x;
         // Materialize lazy values (MAPGROUP/MAPFILTER) for lambda arguments
-        x = collect_lazy(x);
-        if (IS_ERR(x))
+        if (!IS_ERR(x))
+            x = collect_lazy(x);
+        if (IS_ERR(x)) {
+            while (i-- > 0)
+                drop_obj(vm_stack_pop());
             return x;
+        }
         vm_stack_push(x);
     }
 
-- 
2.43.0


From 20eb7d2f683bbbb2f45d934a9b1828dac436fef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 021/108] fix: med and dev release their temporaries; med of no
 groups

---
 core/aggr.c |  2 +-
 core/math.c | 17 +++++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index 736fb72..4cb4c26 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -2252,7 +2252,7 @@ static obj_p aggr_map_med(obj_p collected, obj_p index) {
 
     res = F64(n);
 
-    if (l == 1) {
+    if (l <= 1) {
         argv[0] = (raw_p)n;
         argv[1] = (raw_p)0;
         argv[2] = collected;
diff --git a/core/math.c b/core/math.c
index 09cbee2..8cc39d4 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2527,7 +2527,10 @@ obj_p ray_avg(obj_p x) {
 
 // TODO: Refactoring with out sort and with parallel execution
 obj_p ray_med(obj_p x) {
-    i64_t l = ray_cnt(x)->i64;
+    obj_p cnt_obj = ray_cnt(x);
+    i64_t l = cnt_obj->i64;
+    drop_obj(cnt_obj);
+
     if (l == 0)
         return f64(NULL_F64);
 
@@ -2696,5 +2699,15 @@ obj_p ray_dev(obj_p x) {
             return err_type(TYPE_LIST, x->type, 0, 0);
     }
 
-    return f64(sqrt(ray_sq_sub(x, f64(favg))->f64 / (f64_t)l));
+    obj_p avg_obj = f64(favg);
+    obj_p sq_obj = ray_sq_sub(x, avg_obj);
+    drop_obj(avg_obj);
+
+    if (IS_ERR(sq_obj))
+        return sq_obj;
+
+    f64_t sq = sq_obj->f64;
+    drop_obj(sq_obj);
+
+    return f64(sqrt(sq / (f64_t)l));
 }
-- 
2.43.0


From c88560ab02596a2d2b34df41770c01268a5a88ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 022/108] fix: fold releases the values between its steps;
 fold-left of a builtin does not run it as a lambda

---
 core/iter.c | 44 +++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/core/iter.c b/core/iter.c
index 224952b..37e1fbf 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -837,7 +837,7 @@ obj_p ray_map_right(obj_p *x, i64_t n) {
 
 obj_p ray_fold(obj_p *x, i64_t n) {
     i64_t i, j, l;
-    obj_p f, v, x1, x2;
+    obj_p f, v, x1, x2, acc;
     i8_t xt, yt;
 
     if (n < 2)
@@ -883,7 +883,9 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 for (i = 1; i < l; i++) {
                     x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
                     x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
-                    v = binary_call(f, v, x2);  // Use accumulated value as first argument
+                    acc = v;
+                    v = binary_call(f, acc, x2);  // Use accumulated value as first argument
+                    drop_obj(acc);
 
                     if (xt != TYPE_LIST)
                         drop_obj(x1);
@@ -910,7 +912,9 @@ obj_p ray_fold(obj_p *x, i64_t n) {
 
                 for (i = 1; i < l; i++) {
                     x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
-                    v = binary_call(f, v, x1);  // Use accumulated value as first argument
+                    acc = v;
+                    v = binary_call(f, acc, x1);  // Use accumulated value as first argument
+                    drop_obj(acc);
                     if (xt != TYPE_LIST)
                         drop_obj(x1);
 
@@ -934,7 +938,9 @@ obj_p ray_fold(obj_p *x, i64_t n) {
 
                 for (i = 1; i < l; i++) {
                     x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
-                    v = binary_call(f, v, x2);  // Use accumulated value as first argument
+                    acc = v;
+                    v = binary_call(f, acc, x2);  // Use accumulated value as first argument
+                    drop_obj(acc);
                     if (yt != TYPE_LIST)
                         drop_obj(x2);
 
@@ -971,6 +977,7 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 for (j = 0; j < n; j++)
                     vm_stack_push(at_idx(x[j], i));
 
+                drop_obj(v);
                 v = vary_call(f, x, n);
 
                 // cleanup stack
@@ -998,7 +1005,7 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 v = at_idx(x[0], 0);
 
                 for (i = 1; i < l; i++) {
-                    vm_stack_push(clone_obj(v));
+                    vm_stack_push(v);
                     x2 = at_idx(x[0], i);
                     vm_stack_push(x2);
 
@@ -1020,7 +1027,7 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 v = at_idx(x[0], 0);
 
                 for (i = 1; i < l; i++) {
-                    vm_stack_push(clone_obj(v));
+                    vm_stack_push(v);
                     x2 = at_idx(x[1], i);
                     vm_stack_push(x2);
 
@@ -1067,23 +1074,11 @@ obj_p ray_fold_left(obj_p *x, i64_t n) {
 
             v = clone_obj(x[1]);  // Use rightmost argument as initial value
             for (i = 0; i < l; i++) {
-                // Push current element from the leftmost argument first
-                x1 = at_idx(x[0], i);
-                vm_stack_push(x1);
-                // Push result of previous iteration as second argument
-                x2 = clone_obj(v);
-                vm_stack_push(x2);
-                // Push all other arguments in between
-                for (j = 1; j < n - 1; j++) {
-                    vm_stack_push(clone_obj(x[j]));
-                }
-
-                v = call(f, n);
-
-                // Cleanup stack
-                for (j = 0; j < n; j++) {
-                    drop_obj(vm_stack_pop());
-                }
+                x1 = at_idx(x[0], i);        // Current element from leftmost argument
+                x2 = v;                      // Result of previous iteration
+                v = binary_call(f, x1, x2);  // Pass current element as first argument
+                drop_obj(x1);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
@@ -1106,8 +1101,7 @@ obj_p ray_fold_left(obj_p *x, i64_t n) {
                 x1 = at_idx(x[0], i);
                 vm_stack_push(x1);
                 // Push result of previous iteration as second argument
-                x2 = clone_obj(v);
-                vm_stack_push(x2);
+                vm_stack_push(v);
                 // Push all other arguments in between
                 for (j = 1; j < n - 1; j++) {
                     vm_stack_push(clone_obj(x[j]));
-- 
2.43.0


From ba63969114921b7941a7a0dbe7dc805ce0d434f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 023/108] fix: map of a builtin of many arguments cleans the
 stack after its first call

---
 core/iter.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/iter.c b/core/iter.c
index 37e1fbf..dcd423c 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -433,8 +433,12 @@ obj_p map_vary_fn(vary_f fn, i64_t attrs, obj_p *x, i64_t n) {
 
     v = fn(x + n, n);
 
+    // cleanup stack
+    for (j = 0; j < n; j++)
+        drop_obj(vm_stack_pop());
+
     if (IS_ERR(v))
-        res = v;
+        return v;
 
     res = v->type < 0 ? vector(v->type, l) : LIST(l);
 
-- 
2.43.0


From 4f2445e137a7f4eee4a38cce0b1149fbd24c205d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 024/108] fix: iasc and idesc of a dict release the index

---
 core/sort.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/core/sort.c b/core/sort.c
index a202a20..27b68a3 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -427,6 +427,19 @@ obj_p ray_sort_asc_f64(obj_p vec) {
     return indices;
 }
 
+// keys of a dict in the order of the given indices of its values
+static obj_p sort_dict_keys(obj_p dict, obj_p idx) {
+    obj_p res;
+
+    if (IS_ERR(idx))
+        return idx;
+
+    res = at_obj(AS_LIST(dict)[0], idx);
+    drop_obj(idx);
+
+    return res;
+}
+
 obj_p ray_sort_asc(obj_p vec) {
     i64_t len = vec->len;
     obj_p indices;
@@ -472,7 +485,7 @@ obj_p ray_sort_asc(obj_p vec) {
         case TYPE_LIST:
             return mergesort_generic_obj(vec, 1);
         case TYPE_DICT:
-            return at_obj(AS_LIST(vec)[0], ray_sort_asc(AS_LIST(vec)[1]));
+            return sort_dict_keys(vec, ray_sort_asc(AS_LIST(vec)[1]));
         default:
             return err_type(0, 0, 0, 0);
     }
@@ -733,7 +746,7 @@ obj_p ray_sort_desc(obj_p vec) {
         case TYPE_LIST:
             return mergesort_generic_obj(vec, -1);
         case TYPE_DICT:
-            return at_obj(AS_LIST(vec)[0], ray_sort_desc(AS_LIST(vec)[1]));
+            return sort_dict_keys(vec, ray_sort_desc(AS_LIST(vec)[1]));
         default:
             return err_type(0, 0, 0, 0);
     }
-- 
2.43.0


From b5cddffe037ad15eab04b2c86616ff060f1f4bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 025/108] fix: take from nothing gives nothing; take of a dict
 releases its keys and values

---
 core/items.c | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/core/items.c b/core/items.c
index b25ca46..8835827 100644
--- a/core/items.c
+++ b/core/items.c
@@ -429,6 +429,10 @@ obj_p ray_take(obj_p from, obj_p count) {
         }
     }
 
+    // nothing can be taken from nothing
+    if (!is_range && m > 0 && from->type >= 0 && from->type != TYPE_TABLE && ops_count(from) == 0)
+        m = 0;
+
     switch (from->type) {
         case TYPE_B8:
         case TYPE_U8:
@@ -448,7 +452,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     AS_U8(res)[i] = AS_U8(from)[start + i];
             } else {
                 res = vector(from->type, m);
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
+                for (i = 0, j = (l > 0 ? l - m % l : 0) * f; i < m; i++, j++)
                     AS_U8(res)[i] = AS_U8(from)[j % l];
             }
             return res;
@@ -477,7 +481,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     AS_I16(res)[i] = AS_I16(from)[start + i];
             } else {
                 res = I16(m);
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
+                for (i = 0, j = (l > 0 ? l - m % l : 0) * f; i < m; i++, j++)
                     AS_I16(res)[i] = AS_I16(from)[j % l];
             }
             return res;
@@ -506,7 +510,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     AS_I32(res)[i] = AS_I32(from)[start + i];
             } else {
                 res = vector(from->type, m);
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
+                for (i = 0, j = (l > 0 ? l - m % l : 0) * f; i < m; i++, j++)
                     AS_I32(res)[i] = AS_I32(from)[j % l];
             }
             return res;
@@ -538,7 +542,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     AS_I64(res)[i] = AS_I64(from)[start + i];
             } else {
                 res = vector(from->type, m);
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
+                for (i = 0, j = (l > 0 ? l - m % l : 0) * f; i < m; i++, j++)
                     AS_I64(res)[i] = AS_I64(from)[j % l];
             }
             return res;
@@ -568,7 +572,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     memcpy(AS_GUID(res)[i], AS_GUID(from)[start + i], sizeof(guid_t));
             } else {
                 res = GUID(m);
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
+                for (i = 0, j = (l > 0 ? l - m % l : 0) * f; i < m; i++, j++)
                     memcpy(AS_GUID(res)[i], AS_GUID(from)[j % l], sizeof(guid_t));
             }
             return res;
@@ -593,13 +597,13 @@ obj_p ray_take(obj_p from, obj_p count) {
                 if (start + m > (i64_t)l)
                     m = l - start;
                 for (i = 0; i < m; i++) {
-                    push_obj(&keys_res, clone_obj(at_idx(AS_LIST(from)[0], start + i)));
-                    push_obj(&vals_res, clone_obj(at_idx(AS_LIST(from)[1], start + i)));
+                    push_obj(&keys_res, at_idx(AS_LIST(from)[0], start + i));
+                    push_obj(&vals_res, at_idx(AS_LIST(from)[1], start + i));
                 }
             } else {
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++) {
-                    push_obj(&keys_res, clone_obj(at_idx(AS_LIST(from)[0], j % l)));
-                    push_obj(&vals_res, clone_obj(at_idx(AS_LIST(from)[1], j % l)));
+                for (i = 0, j = (l > 0 ? l - m % l : 0) * f; i < m; i++, j++) {
+                    push_obj(&keys_res, at_idx(AS_LIST(from)[0], j % l));
+                    push_obj(&vals_res, at_idx(AS_LIST(from)[1], j % l));
                 }
             }
             return dict(keys_res, vals_res);
@@ -624,12 +628,13 @@ obj_p ray_take(obj_p from, obj_p count) {
                 }
             } else {
                 res = I64(m);
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++) {
+                for (i = 0, j = (l > 0 ? l - m % l : 0) * f; i < m; i++, j++) {
                     AS_I64(res)[i] = AS_I64(v)[j % l];
                 }
             }
+            n = s->type;
             drop_obj(s);
-            if (s->type != TYPE_SYMBOL) {
+            if (n != TYPE_SYMBOL) {
                 drop_obj(k);
                 return res;
             } else
@@ -672,7 +677,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     }
                 }
             } else {
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++) {
+                for (i = 0, j = (l > 0 ? l - m % l : 0) * f; i < m; i++, j++) {
                     if (AS_I64(s)[j % l] >= (i64_t)n) {
                         buf = AS_U8(k) + AS_I64(s)[j % l];
                         v = de_raw(buf, &size);
@@ -707,7 +712,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     AS_LIST(res)[i] = clone_obj(AS_LIST(from)[start + i]);
             } else {
                 res = vector(TYPE_LIST, m);
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
+                for (i = 0, j = (l > 0 ? l - m % l : 0) * f; i < m; i++, j++)
                     AS_LIST(res)[i] = clone_obj(AS_LIST(from)[j % l]);
             }
             return res;
-- 
2.43.0


From f0b680ce60747b87a21b8eb818eab2472dc9f48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 026/108] fix: in with a pair of types it does not know is a
 type error, not endless recursion

---
 core/items.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/items.c b/core/items.c
index 8835827..bf32e02 100644
--- a/core/items.c
+++ b/core/items.c
@@ -838,10 +838,10 @@ obj_p ray_in(obj_p x, obj_p y) {
                 return vec;
             }
 
-            if (IS_VECTOR(x) || !IS_VECTOR(y))
+            if ((x->type >= 0 && x->type <= TYPE_C8) || (x->type == TYPE_MAPLIST && !IS_VECTOR(y)))
                 return map_binary_left_fn(ray_in, 0, x, y);
 
-            if (!IS_VECTOR(x))
+            if (!IS_VECTOR(x) && IS_VECTOR(y))
                 return b8(find_obj_idx(y, x) != NULL_I64);
 
             return err_type(TYPE_LIST, x->type, 0, 0);
-- 
2.43.0


From c802113396e9a05c5f29344445841be35e3111e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:15 +0000
Subject: [PATCH 027/108] fix: a vector of more items than can be allocated is
 a limit error, not a tiny block

---
 core/heap.c     |  2 +-
 core/items.c    | 50 +++++++++++++++++++++++++++++++++++++++++++++++++
 core/rayforce.c |  4 ++++
 3 files changed, 55 insertions(+), 1 deletion(-)

diff --git a/core/heap.c b/core/heap.c
index 4b88edb..e8d95af 100644
--- a/core/heap.c
+++ b/core/heap.c
@@ -291,7 +291,7 @@ raw_p __attribute__((hot)) heap_alloc(i64_t size) {
     block_p block;
     heap_p heap = VM->heap;  // Cache heap pointer to avoid repeated VM calls
 
-    if (UNLIKELY(size == 0 || size > BSIZEOF(MAX_POOL_ORDER)))
+    if (UNLIKELY(size <= 0 || size > BSIZEOF(MAX_POOL_ORDER) - (i64_t)sizeof(struct obj_t)))
         return NULL;
 
     block_size = BLOCKSIZE(size);
diff --git a/core/items.c b/core/items.c
index bf32e02..ccd542e 100644
--- a/core/items.c
+++ b/core/items.c
@@ -429,6 +429,10 @@ obj_p ray_take(obj_p from, obj_p count) {
         }
     }
 
+    // more than can ever be held
+    if (m > (1ll << MAX_POOL_ORDER))
+        return err_limit(m);
+
     // nothing can be taken from nothing
     if (!is_range && m > 0 && from->type >= 0 && from->type != TYPE_TABLE && ops_count(from) == 0)
         m = 0;
@@ -448,10 +452,14 @@ obj_p ray_take(obj_p from, obj_p count) {
                 if (start + m > (i64_t)l)
                     m = l - start;
                 res = vector(from->type, m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0; i < m; i++)
                     AS_U8(res)[i] = AS_U8(from)[start + i];
             } else {
                 res = vector(from->type, m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0, j = (l > 0 ? l - m % l : 0) * f; i < m; i++, j++)
                     AS_U8(res)[i] = AS_U8(from)[j % l];
             }
@@ -461,6 +469,8 @@ obj_p ray_take(obj_p from, obj_p count) {
         case -TYPE_U8:
         case -TYPE_C8:
             res = vector(-from->type, m);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < m; i++)
                 AS_U8(res)[i] = from->u8;
             return res;
@@ -477,10 +487,14 @@ obj_p ray_take(obj_p from, obj_p count) {
                 if (start + m > (i64_t)l)
                     m = l - start;
                 res = I16(m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0; i < m; i++)
                     AS_I16(res)[i] = AS_I16(from)[start + i];
             } else {
                 res = I16(m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0, j = (l > 0 ? l - m % l : 0) * f; i < m; i++, j++)
                     AS_I16(res)[i] = AS_I16(from)[j % l];
             }
@@ -488,6 +502,8 @@ obj_p ray_take(obj_p from, obj_p count) {
 
         case -TYPE_I16:
             res = vector(-from->type, m);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < m; i++)
                 AS_I16(res)[i] = from->i16;
             return res;
@@ -506,10 +522,14 @@ obj_p ray_take(obj_p from, obj_p count) {
                 if (start + m > (i64_t)l)
                     m = l - start;
                 res = vector(from->type, m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0; i < m; i++)
                     AS_I32(res)[i] = AS_I32(from)[start + i];
             } else {
                 res = vector(from->type, m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0, j = (l > 0 ? l - m % l : 0) * f; i < m; i++, j++)
                     AS_I32(res)[i] = AS_I32(from)[j % l];
             }
@@ -519,6 +539,8 @@ obj_p ray_take(obj_p from, obj_p count) {
         case -TYPE_DATE:
         case -TYPE_TIME:
             res = vector(-from->type, m);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < m; i++)
                 AS_I32(res)[i] = from->i32;
             return res;
@@ -538,10 +560,14 @@ obj_p ray_take(obj_p from, obj_p count) {
                 if (start + m > (i64_t)l)
                     m = l - start;
                 res = vector(from->type, m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0; i < m; i++)
                     AS_I64(res)[i] = AS_I64(from)[start + i];
             } else {
                 res = vector(from->type, m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0, j = (l > 0 ? l - m % l : 0) * f; i < m; i++, j++)
                     AS_I64(res)[i] = AS_I64(from)[j % l];
             }
@@ -552,6 +578,8 @@ obj_p ray_take(obj_p from, obj_p count) {
         case -TYPE_TIMESTAMP:
         case -TYPE_F64:
             res = vector(-from->type, m);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < m; i++)
                 AS_I64(res)[i] = from->i64;
             return res;
@@ -568,10 +596,14 @@ obj_p ray_take(obj_p from, obj_p count) {
                 if (start + m > (i64_t)l)
                     m = l - start;
                 res = GUID(m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0; i < m; i++)
                     memcpy(AS_GUID(res)[i], AS_GUID(from)[start + i], sizeof(guid_t));
             } else {
                 res = GUID(m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0, j = (l > 0 ? l - m % l : 0) * f; i < m; i++, j++)
                     memcpy(AS_GUID(res)[i], AS_GUID(from)[j % l], sizeof(guid_t));
             }
@@ -579,6 +611,8 @@ obj_p ray_take(obj_p from, obj_p count) {
 
         case -TYPE_GUID:
             res = GUID(m);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < m; i++)
                 memcpy(AS_GUID(res)[i], AS_GUID(from)[0], sizeof(guid_t));
             return res;
@@ -623,11 +657,21 @@ obj_p ray_take(obj_p from, obj_p count) {
                 if (start + m > (i64_t)l)
                     m = l - start;
                 res = I64(m);
+                if (IS_ERR(res)) {
+                    drop_obj(s);
+                    drop_obj(k);
+                    return res;
+                }
                 for (i = 0; i < m; i++) {
                     AS_I64(res)[i] = AS_I64(v)[start + i];
                 }
             } else {
                 res = I64(m);
+                if (IS_ERR(res)) {
+                    drop_obj(s);
+                    drop_obj(k);
+                    return res;
+                }
                 for (i = 0, j = (l > 0 ? l - m % l : 0) * f; i < m; i++, j++) {
                     AS_I64(res)[i] = AS_I64(v)[j % l];
                 }
@@ -656,6 +700,8 @@ obj_p ray_take(obj_p from, obj_p count) {
                     m = l - start;
             }
             res = vector(TYPE_LIST, m);
+            if (IS_ERR(res))
+                return res;
             size = m;
 
             if (is_range) {
@@ -708,10 +754,14 @@ obj_p ray_take(obj_p from, obj_p count) {
                 if (start + m > (i64_t)l)
                     m = l - start;
                 res = vector(TYPE_LIST, m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0; i < m; i++)
                     AS_LIST(res)[i] = clone_obj(AS_LIST(from)[start + i]);
             } else {
                 res = vector(TYPE_LIST, m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0, j = (l > 0 ? l - m % l : 0) * f; i < m; i++, j++)
                     AS_LIST(res)[i] = clone_obj(AS_LIST(from)[j % l]);
             }
diff --git a/core/rayforce.c b/core/rayforce.c
index bba4d0f..4eef834 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -248,6 +248,10 @@ obj_p vector(i8_t type, i64_t len) {
     else
         t = TYPE_LIST;
 
+    // more than can ever be allocated
+    if (len < 0 || len > (1ll << MAX_POOL_ORDER))
+        return err_limit(len);
+
     data_size = len * size_of_type(t);
     vec = (obj_p)heap_alloc(sizeof(struct obj_t) + data_size);
 
-- 
2.43.0


From 1c5258c8720e1b44408e47aa5940209098847a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 028/108] fix: serialized size of I16 vectors, and of objects
 that hold one that can not be serialized

---
 core/serde.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/core/serde.c b/core/serde.c
index c5ef252..0dfe321 100644
--- a/core/serde.c
+++ b/core/serde.c
@@ -84,10 +84,11 @@ i64_t size_of(obj_p obj) {
 }
 
 /*
- * Returns size (in bytes) that an obj occupy in memory via serialization
+ * Returns size (in bytes) that an obj occupy in memory via serialization,
+ * 0 if it is (or holds) an object that can not be serialized
  */
 i64_t size_obj(obj_p obj) {
-    i64_t i, l, size;
+    i64_t i, l, k, v, size;
 
     switch (obj->type) {
         case -TYPE_B8:
@@ -117,6 +118,8 @@ i64_t size_obj(obj_p obj) {
             return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(b8_t);
         case TYPE_U8:
             return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(u8_t);
+        case TYPE_I16:
+            return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(i16_t);
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -137,14 +140,22 @@ i64_t size_obj(obj_p obj) {
         case TYPE_LIST:
             l = obj->len;
             size = ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t);
-            for (i = 0; i < l; i++)
-                size += size_obj(AS_LIST(obj)[i]);
+            for (i = 0; i < l; i++) {
+                v = size_obj(AS_LIST(obj)[i]);
+                if (v == 0)
+                    return 0;
+                size += v;
+            }
             return size;
         case TYPE_TABLE:
         case TYPE_DICT:
-            return ISIZEOF(i8_t) + 1 + size_obj(AS_LIST(obj)[0]) + size_obj(AS_LIST(obj)[1]);
+            k = size_obj(AS_LIST(obj)[0]);
+            v = size_obj(AS_LIST(obj)[1]);
+            return (k == 0 || v == 0) ? 0 : ISIZEOF(i8_t) + 1 + k + v;
         case TYPE_LAMBDA:
-            return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + size_obj(AS_LAMBDA(obj)->args) + size_obj(AS_LAMBDA(obj)->body);
+            k = size_obj(AS_LAMBDA(obj)->args);
+            v = size_obj(AS_LAMBDA(obj)->body);
+            return (k == 0 || v == 0) ? 0 : ISIZEOF(i8_t) + 1 + k + v;
         case TYPE_UNARY:
         case TYPE_BINARY:
         case TYPE_VARY:
-- 
2.43.0


From 91210a21ade8b19f02cd27c2f49a5a42c1b9b14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:58 +0000
Subject: [PATCH 029/108] fix: a malformed serialized object is an error:
 lengths, nesting, keys and values are checked before use

---
 core/serde.c | 89 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 76 insertions(+), 13 deletions(-)

diff --git a/core/serde.c b/core/serde.c
index 0dfe321..65984f4 100644
--- a/core/serde.c
+++ b/core/serde.c
@@ -373,13 +373,37 @@ obj_p ser_obj(obj_p obj) {
     return buf;
 }
 
-obj_p de_raw(u8_t *buf, i64_t *len) {
+// columns of a table are vectors of the same length named by symbols, keys of a dict are as many as its values
+static b8_t de_valid_pair(i8_t type, obj_p k, obj_p v) {
+    i64_t i;
+
+    if (k->type < TYPE_LIST || k->type > TYPE_C8 || v->type < TYPE_LIST || v->type > TYPE_C8 || k->len != v->len)
+        return B8_FALSE;
+
+    if (type == TYPE_DICT)
+        return B8_TRUE;
+
+    if (k->type != TYPE_SYMBOL || v->type != TYPE_LIST)
+        return B8_FALSE;
+
+    for (i = 0; i < v->len; i++) {
+        obj_p c = AS_LIST(v)[i];
+        if (c->type < TYPE_LIST || c->type > TYPE_C8 || c->len != AS_LIST(v)[0]->len)
+            return B8_FALSE;
+    }
+
+    return B8_TRUE;
+}
+
+#define DE_MAX_DEPTH 1000  // nesting of what is read: deeper than this is a corrupted (or hostile) one
+
+static obj_p de_raw_at(u8_t *buf, i64_t *len, i64_t depth) {
     i64_t i, l, c, id;
     obj_p obj, k, v;
     i8_t type;
 
-    if (*len == 0)
-        return NULL_OBJ;
+    if (*len <= 0 || depth > DE_MAX_DEPTH)
+        return err_domain(0, 0);
 
     type = buf[0];
     buf++;
@@ -467,6 +491,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
         case TYPE_B8:
         case TYPE_U8:
         case TYPE_C8:
+        case TYPE_I16:
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -476,7 +501,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
         case TYPE_SYMBOL:
         case TYPE_GUID:
         case TYPE_LIST:
-            if (*len < ISIZEOF(i64_t))
+            if (*len < ISIZEOF(i64_t) + 1)
                 return err_domain(0, 0);
 
             buf++;  // skip attrs
@@ -485,7 +510,11 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
             (*len) -= ISIZEOF(i64_t) + 1;
 
             // Check for unreasonable length values that might indicate corruption
-            if (l > 1000000000)  // 1 billion elements is likely a corrupted value
+            if (l < 0 || l > 1000000000)  // 1 billion elements is likely a corrupted value
+                return err_domain(0, 0);
+
+            // Every element takes at least a byte
+            if (l > *len)
                 return err_domain(0, 0);
 
             // Continue with type-specific handling
@@ -495,9 +524,9 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                     if (*len < l * ISIZEOF(u8_t))
                         return err_domain(0, 0);
                     obj = U8(l);
-                    obj->type = type;
                     if (IS_ERR(obj))
                         return obj;
+                    obj->type = type;
                     memcpy(AS_U8(obj), buf, l * ISIZEOF(u8_t));
                     buf += l * ISIZEOF(u8_t);
                     (*len) -= l * ISIZEOF(u8_t);
@@ -512,6 +541,16 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                     buf += l * ISIZEOF(c8_t);
                     (*len) -= l * ISIZEOF(c8_t);
                     return obj;
+                case TYPE_I16:
+                    if (*len < l * ISIZEOF(i16_t))
+                        return err_domain(0, 0);
+                    obj = I16(l);
+                    if (IS_ERR(obj))
+                        return obj;
+                    memcpy(AS_I16(obj), buf, l * ISIZEOF(i16_t));
+                    buf += l * ISIZEOF(i16_t);
+                    (*len) -= l * ISIZEOF(i16_t);
+                    return obj;
                 case TYPE_I32:
                 case TYPE_TIME:
                 case TYPE_DATE:
@@ -585,7 +624,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                         return obj;
                     c = *len;
                     for (i = 0; i < l; i++) {
-                        v = de_raw(buf + c - *len, len);
+                        v = de_raw_at(buf + c - *len, len, depth + 1);
                         if (IS_ERR(v)) {
                             obj->len = i;
                             drop_obj(obj);
@@ -601,36 +640,51 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
 
         case TYPE_TABLE:
         case TYPE_DICT:
+            if (*len < 1)
+                return err_domain(0, 0);
             buf++;  // skip attrs
             (*len) -= 1;
             c = *len;
-            k = de_raw(buf, len);
+            k = de_raw_at(buf, len, depth + 1);
 
             if (IS_ERR(k))
                 return k;
 
-            v = de_raw(buf + c - *len, len);
+            v = de_raw_at(buf + c - *len, len, depth + 1);
 
             if (IS_ERR(v)) {
                 drop_obj(k);
                 return v;
             }
 
+            if (!de_valid_pair(type, k, v)) {
+                drop_obj(k);
+                drop_obj(v);
+                return err_domain(0, 0);
+            }
+
             if (type == TYPE_TABLE)
                 return table(k, v);
             else
                 return dict(k, v);
 
         case TYPE_LAMBDA:
+            if (*len < 1)
+                return err_domain(0, 0);
             buf++;  // skip attrs
             (*len) -= 1;
             c = *len;
-            k = de_raw(buf, len);
+            k = de_raw_at(buf, len, depth + 1);
 
             if (IS_ERR(k))
                 return k;
 
-            v = de_raw(buf + c - *len, len);
+            if (k->type != TYPE_SYMBOL && !is_null(k)) {
+                drop_obj(k);
+                return err_domain(0, 0);
+            }
+
+            v = de_raw_at(buf + c - *len, len, depth + 1);
 
             if (IS_ERR(v)) {
                 drop_obj(k);
@@ -672,7 +726,9 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
             
             if (code == EC_USER) {
                 lit_p msg = (lit_p)buf;
-                i64_t msg_len = strlen(msg);
+                i64_t msg_len = str_len((str_p)buf, *len);
+                if (msg_len >= *len)
+                    return err_domain(0, 0);
                 buf += msg_len + 1;
                 (*len) -= msg_len + 1;
                 return err_user(msg);
@@ -689,6 +745,13 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
     }
 }
 
+obj_p de_raw(u8_t *buf, i64_t *len) {
+    if (*len == 0)
+        return NULL_OBJ;
+
+    return de_raw_at(buf, len, 0);
+}
+
 obj_p de_obj(obj_p obj) {
     i64_t len;
     u8_t *buf;
@@ -711,7 +774,7 @@ obj_p de_obj(obj_p obj) {
         return err_type(0, 0, 0, 0);
 
     // Check for reasonable size values
-    if (header->size > 1000000000)  // 1GB max size
+    if (header->size < 0 || header->size > 1000000000)  // 1GB max size
         return err_domain(0, 0);
 
     if (header->size + ISIZEOF(struct ipc_header_t) != len)
-- 
2.43.0


From 2fa847617ad0f3a2e060ca66b5e15bbc089d23c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:07 +0000
Subject: [PATCH 030/108] fix: a slot of the freelist is freed once

---
 core/freelist.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/freelist.c b/core/freelist.c
index 17d7048..2ff63fd 100644
--- a/core/freelist.c
+++ b/core/freelist.c
@@ -68,7 +68,8 @@ i64_t freelist_push(freelist_p freelist, i64_t val) {
 i64_t freelist_pop(freelist_p freelist, i64_t pos) {
     i64_t val;
 
-    if (pos < 0 || pos >= freelist->data_pos)
+    // out of range or already free
+    if (pos < 0 || pos >= freelist->data_pos || freelist->data[pos] == NULL_I64)
         return NULL_I64;
 
     if (freelist->free_pos == freelist->free_size) {
-- 
2.43.0


From fc67d44453dc6fb6c1fe0542c819aa4724ef775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:19 +0000
Subject: [PATCH 031/108] fix: a third buffer queued for sending no longer
 replaces the second

---
 core/poll.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/poll.c b/core/poll.c
index 0e5d6cf..d295cfb 100644
--- a/core/poll.c
+++ b/core/poll.c
@@ -128,11 +128,12 @@ i64_t poll_rx_buf_reset(poll_p poll, selector_p selector) {
 }
 
 i64_t poll_send_buf(poll_p poll, selector_p selector, poll_buffer_p buf) {
+    poll_buffer_p *tail;
+
     // Attach the buffer to the end of the list
-    if (selector->tx.buf != NULL)
-        selector->tx.buf->next = buf;
-    else
-        selector->tx.buf = buf;
+    for (tail = &selector->tx.buf; *tail != NULL; tail = &(*tail)->next)
+        ;
+    *tail = buf;
 
     return poll_send(poll, selector);
 }
-- 
2.43.0


From 2f9891ddeec3d6e3c95465ec764a1624684861a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:19 +0000
Subject: [PATCH 032/108] fix: data queued for sending is sent on when the
 socket becomes writable and readable at once

---
 core/epoll.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/epoll.c b/core/epoll.c
index 1a92a36..1d42953 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -360,7 +360,7 @@ i64_t poll_run(poll_p poll) {
 
                         if (nbytes == 0) {
                             // No more data to read (EAGAIN/EWOULDBLOCK), wait for next edge trigger
-                            goto next_event;
+                            break;
                         }
                     }
 
-- 
2.43.0


From 8fa827a2f0031ebf6abc4126f1bd4593de72fb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:06 +0000
Subject: [PATCH 033/108] fix: a selector closed by a callback stays allocated
 while the event loop still refers to it

---
 core/epoll.c  | 29 ++++++++++++++++++++++++++---
 core/kqueue.c |  9 ++++++++-
 core/poll.c   | 27 +++++++++++++++++++++++++++
 core/poll.h   |  8 ++++++++
 core/wasm.c   |  9 +++++++++
 5 files changed, 78 insertions(+), 4 deletions(-)

diff --git a/core/epoll.c b/core/epoll.c
index 1d42953..4b79a20 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -90,6 +90,8 @@ poll_p poll_create() {
     poll->fd = fd;
     poll->selectors = freelist_create(128);
     poll->timers = timers_create(16);
+    poll->busy = 0;
+    poll->closed = NULL;
 
     LOG_DEBUG("Poll instance created");
 
@@ -145,6 +147,8 @@ i64_t poll_register(poll_p poll, poll_registry_p registry) {
     selector->data = registry->data;
     selector->rx.buf = NULL;
     selector->tx.buf = NULL;
+    selector->closed = B8_FALSE;
+    selector->next = NULL;
 
     LOG_DEBUG("Setting up epoll event");
 
@@ -181,6 +185,7 @@ i64_t poll_deregister(poll_p poll, i64_t id) {
         return -1;
 
     selector = (selector_p)idx;
+    selector->closed = B8_TRUE;
 
     if (selector->close_fn != NULL)
         selector->close_fn(poll, selector);
@@ -200,7 +205,7 @@ i64_t poll_deregister(poll_p poll, i64_t id) {
 
     LOG_DEBUG("Freeing selector");
 
-    heap_free(selector);
+    poll_selector_free(poll, selector);
 
     return 0;
 }
@@ -322,6 +327,8 @@ i64_t poll_run(poll_p poll) {
             return -1;
         }
 
+        poll_hold(poll);
+
         for (n = 0; n < nfds; n++) {
             LOG_TRACE("Event %lld: %lld", n, nfds);
             ev = events[n];
@@ -335,6 +342,10 @@ i64_t poll_run(poll_p poll) {
 
             selector = (selector_p)ev.data.ptr;
 
+            // closed by one of the events before
+            if (selector->closed)
+                continue;
+
             // error or hang up
             if ((ev.events & POLL_EVENT_ERROR) || (ev.events & POLL_EVENT_RDHUP)) {
                 LOG_DEBUG("Connection error or hangup for selector %lld, events: 0x%llx", selector->id, ev.events);
@@ -370,15 +381,25 @@ i64_t poll_run(poll_p poll) {
                         poll_result = selector->rx.read_fn(poll, selector);
 
                     if (option_is_some(&poll_result)) {
-                        if (poll_result.value != NULL && selector->data_fn != NULL)
+                        if (poll_result.value != NULL && selector->data_fn != NULL && !selector->closed)
                             poll_result = selector->data_fn(poll, selector, poll_result.value);
 
+                        // closed by a callback
+                        if (selector->closed)
+                            goto next_event;
+
                         if (option_is_some(&poll_result))
                             continue;
                     }
 
-                    if (option_is_error(&poll_result))
+                    if (selector->closed)
+                        goto next_event;
+
+                    if (option_is_error(&poll_result)) {
+                        drop_obj((obj_p)poll_result.value);
                         poll_deregister(poll, selector->id);
+                        goto next_event;
+                    }
 
                     break;
                 }
@@ -403,6 +424,8 @@ i64_t poll_run(poll_p poll) {
 
         next_event:;
         }
+
+        poll_release(poll);
     }
 
     return poll->code;
diff --git a/core/kqueue.c b/core/kqueue.c
index bad04db..da2a398 100644
--- a/core/kqueue.c
+++ b/core/kqueue.c
@@ -86,6 +86,8 @@ poll_p poll_create() {
     poll->code = NULL_I64;
     poll->selectors = freelist_create(128);
     poll->timers = timers_create(128);
+    poll->busy = 0;
+    poll->closed = NULL;
 
     return poll;
 }
@@ -138,6 +140,8 @@ i64_t poll_register(poll_p poll, poll_registry_p registry) {
     selector->data = registry->data;
     selector->rx.buf = NULL;
     selector->tx.buf = NULL;
+    selector->closed = B8_FALSE;
+    selector->next = NULL;
 
     // Set up events
     if (registry->events & POLL_EVENT_READ) {
@@ -185,6 +189,7 @@ i64_t poll_deregister(poll_p poll, i64_t id) {
         return 0;
 
     selector = (selector_p)idx;
+    selector->closed = B8_TRUE;
 
     EV_SET(&ev[0], selector->fd, selector->interest, EV_DELETE, 0, 0, NULL);
     kevent(poll->fd, ev, 1, NULL, 0, NULL);
@@ -193,7 +198,9 @@ i64_t poll_deregister(poll_p poll, i64_t id) {
 
     heap_free(selector->rx.buf);
     heap_free(selector->tx.buf);
-    heap_free(selector);
+    selector->rx.buf = NULL;
+    selector->tx.buf = NULL;
+    poll_selector_free(poll, selector);
 
     return 0;
 }
diff --git a/core/poll.c b/core/poll.c
index d295cfb..c3a67df 100644
--- a/core/poll.c
+++ b/core/poll.c
@@ -72,6 +72,33 @@ nil_t poll_buf_destroy(poll_buffer_p buf) { heap_free(buf); }
 // Buffer management functions - Unix platforms use poll_buffer_p, Windows uses different buffer model
 #if !defined(OS_WINDOWS)
 
+// A selector can be deregistered while it (or an event that refers to it) is being processed,
+// so that its memory is freed only when nobody does that anymore
+nil_t poll_hold(poll_p poll) { poll->busy++; }
+
+nil_t poll_release(poll_p poll) {
+    selector_p selector;
+
+    if (--poll->busy > 0)
+        return;
+
+    while (poll->closed != NULL) {
+        selector = poll->closed;
+        poll->closed = selector->next;
+        heap_free(selector);
+    }
+}
+
+nil_t poll_selector_free(poll_p poll, selector_p selector) {
+    if (poll->busy == 0) {
+        heap_free(selector);
+        return;
+    }
+
+    selector->next = poll->closed;
+    poll->closed = selector;
+}
+
 i64_t poll_rx_buf_request(poll_p poll, selector_p selector, i64_t size) {
     UNUSED(poll);
 
diff --git a/core/poll.h b/core/poll.h
index f553692..bf09414 100644
--- a/core/poll.h
+++ b/core/poll.h
@@ -198,6 +198,9 @@ typedef struct selector_t {
     poll_data_fn data_fn;
     raw_p data;
 
+    b8_t closed;              // deregistered, but may still be referenced
+    struct selector_t *next;  // next of the closed selectors
+
     struct {
         poll_buffer_p buf;     // pointer to the buffer
         poll_io_fn recv_fn;    // to be called when the selector is ready to read
@@ -216,6 +219,8 @@ typedef struct poll_t {
     i64_t code;            // exit code
     freelist_p selectors;  // freelist of selectors
     timers_p timers;       // timers heap
+    i64_t busy;            // number of holders: closed selectors are kept until there are none
+    selector_p closed;     // selectors to be freed
 } *poll_p;
 
 // Registry structure for new file descriptor registration
@@ -247,6 +252,9 @@ nil_t poll_deregister(poll_p poll, i64_t id);
 poll_p poll_create();
 i64_t poll_register(poll_p poll, poll_registry_p registry);
 i64_t poll_deregister(poll_p poll, i64_t id);
+nil_t poll_hold(poll_p poll);     // keep the memory of selectors that get deregistered
+nil_t poll_release(poll_p poll);  // the last one frees it
+nil_t poll_selector_free(poll_p poll, selector_p selector);
 #endif
 
 nil_t poll_destroy(poll_p poll);
diff --git a/core/wasm.c b/core/wasm.c
index a107532..02a8c66 100644
--- a/core/wasm.c
+++ b/core/wasm.c
@@ -67,6 +67,15 @@ i64_t poll_deregister(poll_p poll, i64_t id) {
     return 0;
 }
 
+nil_t poll_hold(poll_p poll) { UNUSED(poll); }
+
+nil_t poll_release(poll_p poll) { UNUSED(poll); }
+
+nil_t poll_selector_free(poll_p poll, selector_p selector) {
+    UNUSED(poll);
+    UNUSED(selector);
+}
+
 selector_p poll_get_selector(poll_p poll, i64_t id) {
     UNUSED(poll);
     UNUSED(id);
-- 
2.43.0


From 53a75b155a42486c1f9778cbead80edba603ad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:15 +0000
Subject: [PATCH 034/108] fix: the socket of a deregistered connection is
 closed

---
 core/epoll.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/epoll.c b/core/epoll.c
index 4b79a20..d3cdaca 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -192,6 +192,9 @@ i64_t poll_deregister(poll_p poll, i64_t id) {
 
     epoll_ctl(poll->fd, EPOLL_CTL_DEL, selector->fd, NULL);
 
+    if (selector->type == SELECTOR_TYPE_SOCKET)
+        close(selector->fd);
+
     if (selector->rx.buf != NULL) {
         heap_free(selector->rx.buf);
         selector->rx.buf = NULL;
-- 
2.43.0


From 15b95f006c7c9d988ab3181d7766e53ff716baa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 035/108] fix: messages received before the peer closed its
 side are processed

---
 core/epoll.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/epoll.c b/core/epoll.c
index d3cdaca..738ca0f 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -311,6 +311,7 @@ send_loop:
 
 i64_t poll_run(poll_p poll) {
     i64_t n, nbytes, nfds, timeout;
+    b8_t hangup;
     option_t poll_result = option_none();  // Initialize with none
     selector_p selector;
     struct epoll_event ev, events[MAX_EVENTS];
@@ -349,8 +350,9 @@ i64_t poll_run(poll_p poll) {
             if (selector->closed)
                 continue;
 
-            // error or hang up
-            if ((ev.events & POLL_EVENT_ERROR) || (ev.events & POLL_EVENT_RDHUP)) {
+            // error or hang up: what has been received before is read first
+            hangup = (ev.events & POLL_EVENT_ERROR) || (ev.events & POLL_EVENT_RDHUP);
+            if (hangup && (!(ev.events & POLL_EVENT_READ) || selector->rx.recv_fn == NULL)) {
                 LOG_DEBUG("Connection error or hangup for selector %lld, events: 0x%llx", selector->id, ev.events);
                 poll_deregister(poll, selector->id);
                 continue;
@@ -408,6 +410,11 @@ i64_t poll_run(poll_p poll) {
                 }
             }
 
+            if (hangup) {
+                poll_deregister(poll, selector->id);
+                continue;
+            }
+
             // write
             if (ev.events & POLL_EVENT_WRITE) {
                 LOG_TRACE("Write event received for selector %lld", selector->id);
-- 
2.43.0


From 0dedac4773c5fcdd01adf2257d5503e19e7fe780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:11 +0000
Subject: [PATCH 036/108] fix: waiting for a response sends what is queued,
 survives signals and partial messages, and closes the connection when there
 is none

---
 core/epoll.c | 88 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 66 insertions(+), 22 deletions(-)

diff --git a/core/epoll.c b/core/epoll.c
index 738ca0f..c739746 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -220,6 +220,9 @@ i64_t poll_recv(poll_p poll, selector_p selector) {
 
     LOG_TRACE("Receiving data from selector %lld", selector->id);
 
+    if (selector->rx.buf == NULL)
+        return -1;
+
     total = selector->rx.buf->offset;
 
     LOG_TRACE("RX BUFFER: %p, size: %lld, offset: %lld", selector->rx.buf, selector->rx.buf->size,
@@ -441,47 +444,87 @@ i64_t poll_run(poll_p poll) {
     return poll->code;
 }
 
+#define POLL_BLOCK_TIMEOUT 3000  // milliseconds without any progress
+
+static i64_t poll_block_now(nil_t) {
+    struct timespec ts;
+
+    clock_gettime(CLOCK_MONOTONIC, &ts);
+
+    return (i64_t)ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
+}
+
+// Waits for one message of the selector. On error (or timeout) the selector is deregistered
 option_t poll_block_on(poll_p poll, selector_p selector) {
     option_t result;
-    fd_set readfds;
+    fd_set readfds, writefds;
     struct timeval timeout;
-    i64_t nbytes, ret;
+    i64_t nbytes, ret, rest, offset, deadline;
 
     LOG_TRACE("Blocking on selector id: %lld, fd: %lld", selector->id, selector->fd);
 
+    deadline = poll_block_now() + POLL_BLOCK_TIMEOUT;
+
     // Perform the read operation
-    while (selector->rx.buf != NULL) {
+    while (selector->rx.buf != NULL && selector->rx.recv_fn != NULL && selector->fd < FD_SETSIZE) {
         // Setup select (must be done each iteration as select modifies these)
         FD_ZERO(&readfds);
+        FD_ZERO(&writefds);
         FD_SET(selector->fd, &readfds);
-        timeout.tv_sec = 3;
-        timeout.tv_usec = 0;
+        if (selector->tx.buf != NULL)
+            FD_SET(selector->fd, &writefds);
+
+        rest = deadline - poll_block_now();
+        if (rest < 0)
+            rest = 0;
 
-        // Wait for the file descriptor to become readable
-        ret = select(selector->fd + 1, &readfds, NULL, NULL, &timeout);
+        timeout.tv_sec = rest / 1000;
+        timeout.tv_usec = (rest % 1000) * 1000;
+
+        // Wait for the file descriptor to become readable (or writable if there is something to send)
+        ret = select(selector->fd + 1, &readfds, &writefds, NULL, &timeout);
         if (ret == -1) {
+            if (errno == EINTR)
+                continue;
+
             LOG_ERROR("select failed");
-            return option_error(err_os());
+            break;
         }
 
         LOG_TRACE("select returned %lld", ret);
 
+        // timeout
         if (ret == 0)
-            return option_error(err_os());
-
-        // In case we have a low level IO recv function, use it
-        if (selector->rx.buf != NULL && selector->rx.recv_fn != NULL) {
-            nbytes = poll_recv(poll, selector);
+            break;
 
-            if (nbytes == -1) {
-                poll_deregister(poll, selector->id);
-                return option_error(err_os());
-            }
+        if (FD_ISSET(selector->fd, &writefds)) {
+            offset = selector->tx.buf->offset;
+            nbytes = poll_send(poll, selector);
+            if (nbytes == -1)
+                break;
 
-            if (nbytes == 0)
-                return option_none();
+            if (nbytes > 0 || selector->tx.buf->offset > offset)
+                deadline = poll_block_now() + POLL_BLOCK_TIMEOUT;
         }
 
+        if (!FD_ISSET(selector->fd, &readfds))
+            continue;
+
+        offset = selector->rx.buf->offset;
+        nbytes = poll_recv(poll, selector);
+
+        if (nbytes == -1)
+            break;
+
+        if (nbytes > 0 || selector->rx.buf->offset > offset)
+            deadline = poll_block_now() + POLL_BLOCK_TIMEOUT;
+
+        // there is more to come
+        if (nbytes == 0)
+            continue;
+
+        result = option_none();
+
         if (selector->rx.read_fn != NULL)
             result = selector->rx.read_fn(poll, selector);
 
@@ -494,7 +537,8 @@ option_t poll_block_on(poll_p poll, selector_p selector) {
             return result;
     }
 
-    LOG_DEBUG("empty buffer");
+    result = option_error(err_os());
+    poll_deregister(poll, selector->id);
 
-    return option_none();
-}
\ No newline at end of file
+    return result;
+}
-- 
2.43.0


From 2bc924e67133f8a4b206f008e94557a42be37aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:36 +0000
Subject: [PATCH 037/108] fix: accepting and opening sockets: no blocking
 accept, no leaked descriptors, timeout of the handshake

---
 core/sock.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/sock.c b/core/sock.c
index b6bf056..b757176 100644
--- a/core/sock.c
+++ b/core/sock.c
@@ -346,8 +346,10 @@ i64_t sock_open(sock_addr_t *addr, i64_t timeout) {
         // Set timeout
         tm.tv_sec = timeout;  // Timeout in seconds
         tm.tv_usec = 0;       // Timeout in microseconds
-        if (setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tm, sizeof(tm)) < 0) {
+        if (setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tm, sizeof(tm)) < 0 ||
+            setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tm, sizeof(tm)) < 0) {
             close(fd);
+            fd = -1;
             continue;
         }
 
@@ -356,6 +358,7 @@ i64_t sock_open(sock_addr_t *addr, i64_t timeout) {
         linger_opt.l_linger = 0;  // Timeout in seconds (0 means terminate immediately)
         if (setsockopt(fd, SOL_SOCKET, SO_LINGER, &linger_opt, sizeof(linger_opt))) {
             close(fd);
+            fd = -1;
             continue;
         }
 
@@ -388,8 +391,10 @@ i64_t sock_accept(i64_t fd) {
         LOG_ERROR("Failed to accept connection: %s", strerror(errno));
         return -1;
     }
-    if (sock_set_nonblocking(acc_fd, B8_TRUE) == -1)
+    if (sock_set_nonblocking(acc_fd, B8_TRUE) == -1) {
+        close(acc_fd);
         return -1;
+    }
 
     linger_opt.l_onoff = 1;   // Enable SO_LINGER
     linger_opt.l_linger = 0;  // Timeout in seconds (0 means terminate immediately)
@@ -435,6 +440,12 @@ i64_t sock_listen(i64_t port) {
         close(fd);
         return -1;
     }
+    // The connection may be gone by the time it is accepted
+    if (sock_set_nonblocking(fd, B8_TRUE) == -1) {
+        LOG_ERROR("Failed to set the listener non-blocking: %s", strerror(errno));
+        close(fd);
+        return -1;
+    }
 
     LOG_DEBUG("Socket listener started successfully on fd %lld", fd);
     return fd;
-- 
2.43.0


From 06af52d11ed9594edd769fadc8296863dd64f97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 038/108] fix: messages pushed by the server are evaluated by
 the client; a failed open or accept leaves nothing behind

---
 core/ipc.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/core/ipc.c b/core/ipc.c
index 6a252bf..60d7c7c 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -148,8 +148,10 @@ option_t ipc_listener_accept(poll_p poll, selector_p selector) {
 
         if (poll_register(poll, &registry) == -1) {
             LOG_ERROR("Failed to register new connection in poll registry");
+            drop_obj(ctx->name);
             heap_free(ctx);
-            return option_error(err_os());
+            sock_close(fd);
+            return option_none();
         }
 
         LOG_INFO("New connection registered successfully");
@@ -230,6 +232,9 @@ i64_t ipc_open(poll_p poll, sock_addr_t *addr, i64_t timeout) {
     ipc_ctx_p ctx;
     u8_t buf[2] = {RAYFORCE_VERSION, 0x00};
 
+    if (poll == NULL)
+        return -1;
+
     LOG_DEBUG("Opening connection to %s:%lld", addr->ip, addr->port);
 
     fd = sock_open(addr, timeout);
@@ -238,11 +243,10 @@ i64_t ipc_open(poll_p poll, sock_addr_t *addr, i64_t timeout) {
     if (fd == -1)
         return -1;
 
-    if (sock_send(fd, buf, 2) == -1)
-        return -1;
-
-    if (sock_recv(fd, buf, 1) == -1)
+    if (sock_send(fd, buf, 2) != 2 || sock_recv(fd, buf, 1) != 1) {
+        sock_close(fd);
         return -1;
+    }
 
     LOG_TRACE("Setting socket to non-blocking mode");
     sock_set_nonblocking(fd, B8_TRUE);
@@ -250,21 +254,31 @@ i64_t ipc_open(poll_p poll, sock_addr_t *addr, i64_t timeout) {
 
     ctx = (ipc_ctx_p)heap_alloc(sizeof(struct ipc_ctx_t));
     ctx->name = string_from_str("ipc", 4);
+    ctx->msgtype = MSG_TYPE_RESP;
 
     registry.fd = fd;
     registry.type = SELECTOR_TYPE_SOCKET;
-    registry.events = POLL_EVENT_READ | POLL_EVENT_ERROR | POLL_EVENT_HUP;
+    registry.events =
+        POLL_EVENT_READ | POLL_EVENT_WRITE | POLL_EVENT_ERROR | POLL_EVENT_HUP | POLL_EVENT_RDHUP | POLL_EVENT_EDGE;
     registry.recv_fn = sock_recv;
     registry.send_fn = sock_send;
     registry.read_fn = ipc_read_header;
     registry.close_fn = ipc_on_close;
     registry.error_fn = ipc_on_error;
+    registry.data_fn = ipc_on_data;
     registry.data = ctx;
 
     LOG_DEBUG("Registering connection in poll registry");
     id = poll_register(poll, &registry);
     LOG_DEBUG("Connection registered in poll registry with id %lld", id);
 
+    if (id == -1) {
+        drop_obj(ctx->name);
+        heap_free(ctx);
+        sock_close(fd);
+        return -1;
+    }
+
     // request rx buffer
     selector = poll_get_selector(poll, id);
     if (poll_rx_buf_request(poll, selector, ISIZEOF(struct ipc_header_t)) == -1) {
-- 
2.43.0


From 91d35c0dacc1f130d0e9058a5d0f24e7df2e7420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:22 +0000
Subject: [PATCH 039/108] fix: malformed handshakes and headers close the
 connection they come from; .z.po may use its connection

---
 core/ipc.c | 37 ++++++++++++++++++++++++++-----------
 core/ipc.h |  3 +++
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/core/ipc.c b/core/ipc.c
index 60d7c7c..d1fbb65 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -298,9 +298,8 @@ option_t ipc_read_handshake(poll_p poll, selector_p selector) {
 
     poll_buffer_p buf;
 
-    if (selector->rx.buf == NULL) {
-        LOG_DEBUG("No handshake buffer received, closing connection");
-        poll_deregister(poll, selector->id);
+    if (selector->rx.buf == NULL || selector->rx.buf->offset > IPC_MAX_HANDSHAKE) {
+        LOG_DEBUG("No handshake received, closing connection");
         return option_error(err_os());
     }
 
@@ -309,22 +308,28 @@ option_t ipc_read_handshake(poll_p poll, selector_p selector) {
 
         // send handshake response (single byte version)
         buf = poll_buf_create(1);
-        buf->data[0] = RAYFORCE_VERSION;
-        poll_send_buf(poll, selector, buf);
+        if (buf == NULL)
+            return option_error(err_os());
 
-        // Now we are ready for income messages and can call userspace callback (if any)
-        ipc_call_usr_cb(poll, selector, ".z.po", 5);
+        buf->data[0] = RAYFORCE_VERSION;
+        if (poll_send_buf(poll, selector, buf) == -1)
+            return option_error(err_os());
 
         selector->rx.read_fn = ipc_read_header;
         LOG_DEBUG("Handshake completed, switching to header reading mode");
 
-        poll_rx_buf_request(poll, selector, ISIZEOF(struct ipc_header_t));
+        if (poll_rx_buf_request(poll, selector, ISIZEOF(struct ipc_header_t)) == -1)
+            return option_error(err_os());
+
+        // Now we are ready for income messages and can call userspace callback (if any)
+        ipc_call_usr_cb(poll, selector, ".z.po", 5);
 
         return option_some(NULL);
     }
 
     // extend the buffer to the next 1 byte
-    poll_rx_buf_extend(poll, selector, 1);
+    if (poll_rx_buf_extend(poll, selector, 1) == -1)
+        return option_error(err_os());
 
     return option_some(NULL);
 }
@@ -347,9 +352,16 @@ option_t ipc_read_header(poll_p poll, selector_p selector) {
     LOG_TRACE("Header read: {.prefix: 0x%08x, .version: %d, .flags: %d, .endian: %d, .msgtype: %d, .size: %lld}",
               header->prefix, header->version, header->flags, header->endian, header->msgtype, header->size);
 
+    // not a message
+    if (header->prefix != SERDE_PREFIX || msgsize <= 0 || msgsize > IPC_MAX_MSG_SIZE) {
+        LOG_ERROR("Malformed header received from connection %lld", selector->id);
+        return option_error(err_domain(0, 0));
+    }
+
     // request the buffer for the entire message (including the header)
     LOG_DEBUG("Requesting buffer for message of size %lld", ISIZEOF(struct ipc_header_t) + msgsize);
-    poll_rx_buf_extend(poll, selector, msgsize);
+    if (poll_rx_buf_extend(poll, selector, msgsize) == -1)
+        return option_error(err_os());
 
     LOG_DEBUG("Switching to message reading mode");
     selector->rx.read_fn = ipc_read_msg;
@@ -373,7 +385,10 @@ option_t ipc_read_msg(poll_p poll, selector_p selector) {
     LOG_DEBUG("Message read");
 
     // Prepare for the next message
-    poll_rx_buf_request(poll, selector, ISIZEOF(struct ipc_header_t));
+    if (poll_rx_buf_request(poll, selector, ISIZEOF(struct ipc_header_t)) == -1) {
+        drop_obj(res);
+        return option_error(err_os());
+    }
     selector->rx.read_fn = ipc_read_header;
 
     return option_some(res);
diff --git a/core/ipc.h b/core/ipc.h
index 04bca0f..e9a3739 100644
--- a/core/ipc.h
+++ b/core/ipc.h
@@ -32,6 +32,9 @@
 #define MSG_TYPE_SYNC 1
 #define MSG_TYPE_RESP 2
 
+#define IPC_MAX_HANDSHAKE 1024
+#define IPC_MAX_MSG_SIZE 1000000000ll  // 1GB, as for serialized objects
+
 typedef struct ipc_ctx_t {
     u8_t msgtype;
     obj_p name;
-- 
2.43.0


From 39801517392e83faca7fa4b4441e0b7e8febdba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:33 +0000
Subject: [PATCH 040/108] fix: requests that arrive while waiting for a
 response are answered; unexpected responses are dropped; .z.w is restored;
 connections closed meanwhile are not used

---
 core/ipc.c | 140 +++++++++++++++++++++++++++++++++++++----------------
 core/ipc.h |   7 ++-
 2 files changed, 104 insertions(+), 43 deletions(-)

diff --git a/core/ipc.c b/core/ipc.c
index d1fbb65..d4d1a6c 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -194,10 +194,28 @@ i64_t ipc_listen(poll_p poll, i64_t port) {
 // User Callback Management
 // ============================================================================
 
+// The connection a callback or a message is processed for (callbacks can be nested)
+static i64_t __USR_FD = 0;
+
+static i64_t ipc_enter(poll_p poll, selector_p selector) {
+    i64_t prev = __USR_FD;
+
+    poll_hold(poll);
+    __USR_FD = selector->id;
+    poll_set_usr_fd(__USR_FD);
+
+    return prev;
+}
+
+static nil_t ipc_leave(poll_p poll, i64_t prev) {
+    __USR_FD = prev;
+    poll_set_usr_fd(__USR_FD);
+    poll_release(poll);
+}
+
 nil_t ipc_call_usr_cb(poll_p poll, selector_p selector, lit_p sym, i64_t len) {
-    UNUSED(poll);
-    i64_t clbnm;
-    obj_p v, f, *clbfn;
+    i64_t clbnm, prev;
+    obj_p v, f, fn, *clbfn;
 
     vm_stack_push(NULL_OBJ);  // null env
     clbnm = symbols_intern(sym, len);
@@ -206,11 +224,13 @@ nil_t ipc_call_usr_cb(poll_p poll, selector_p selector, lit_p sym, i64_t len) {
 
     // Call the callback if it's a lambda
     if (clbfn != NULL && (*clbfn)->type == TYPE_LAMBDA) {
-        poll_set_usr_fd(selector->id);
+        prev = ipc_enter(poll, selector);
+        fn = clone_obj(*clbfn);  // it may be redefined meanwhile
         vm_stack_push(i64(selector->id));
-        v = call(*clbfn, 1);
+        v = call(fn, 1);
         drop_obj(vm_stack_pop());
-        poll_set_usr_fd(0);
+        drop_obj(fn);
+        ipc_leave(poll, prev);
         if (IS_ERR(v)) {
             f = obj_fmt(v, B8_FALSE);
             LOG_ERROR("Error in user callback: %.*s", (i32_t)f->len, AS_C8(f));
@@ -401,16 +421,18 @@ option_t ipc_read_msg(poll_p poll, selector_p selector) {
 obj_p ipc_process_msg(poll_p poll, selector_p selector, obj_p msg) {
     UNUSED(poll);
 
-    obj_p res;
+    obj_p res, name;
     ipc_ctx_p ctx;
 
-    ctx = (ipc_ctx_p)selector->data;
-
     if (IS_ERR(msg) || is_null(msg))
         res = msg;
     else if (msg->type == TYPE_C8) {
         LOG_TRACE("Evaluating string message: %.*s", (i32_t)msg->len, AS_C8(msg));
-        res = ray_eval_str(msg, ctx->name);
+        // the connection may be closed while evaluating
+        ctx = (ipc_ctx_p)selector->data;
+        name = clone_obj(ctx->name);
+        res = ray_eval_str(msg, name);
+        drop_obj(name);
         drop_obj(msg);
     } else {
         LOG_TRACE("Evaluating object message");
@@ -424,14 +446,19 @@ obj_p ipc_process_msg(poll_p poll, selector_p selector, obj_p msg) {
     return res;
 }
 
-nil_t ipc_send_msg(poll_p poll, selector_p selector, obj_p msg, u8_t msgtype) {
+i64_t ipc_send_msg(poll_p poll, selector_p selector, obj_p msg, u8_t msgtype) {
     i64_t size;
     poll_buffer_p buf;
     ipc_header_t *header;
 
     LOG_TRACE("Serializing message");
     size = size_obj(msg);
+    if (size == 0 || size > IPC_MAX_MSG_SIZE)
+        return IPC_SEND_TYPE;
+
     buf = poll_buf_create(ISIZEOF(struct ipc_header_t) + size);
+    if (buf == NULL)
+        return IPC_SEND_TYPE;
 
     header = (ipc_header_t *)buf->data;
     header->prefix = SERDE_PREFIX;
@@ -443,30 +470,45 @@ nil_t ipc_send_msg(poll_p poll, selector_p selector, obj_p msg, u8_t msgtype) {
 
     ser_raw(buf->data + ISIZEOF(struct ipc_header_t), msg);
     LOG_DEBUG("Sending message of size %lld", size);
-    poll_send_buf(poll, selector, buf);
+    if (poll_send_buf(poll, selector, buf) == -1)
+        return IPC_SEND_FAILED;
     LOG_DEBUG("Message sent");
+
+    return IPC_SEND_OK;
 }
 
-option_t ipc_on_data(poll_p poll, selector_p selector, raw_p data) {
-    UNUSED(poll);
+// Evaluates a message and responds to it if it is a synchronous request
+static nil_t ipc_handle_msg(poll_p poll, selector_p selector, obj_p msg, u8_t msgtype) {
+    i64_t prev, sent;
+    obj_p v;
 
+    prev = ipc_enter(poll, selector);
+    v = ipc_process_msg(poll, selector, msg);
+
+    if (msgtype == MSG_TYPE_SYNC && !selector->closed) {
+        sent = ipc_send_msg(poll, selector, v, MSG_TYPE_RESP);
+        if (sent == IPC_SEND_TYPE)
+            sent = ipc_send_msg(poll, selector, err_type(0, 0, 0, 0), MSG_TYPE_RESP);
+        if (sent == IPC_SEND_FAILED)
+            poll_deregister(poll, selector->id);
+    }
+
+    drop_obj(v);
+    ipc_leave(poll, prev);
+}
+
+option_t ipc_on_data(poll_p poll, selector_p selector, raw_p data) {
     LOG_TRACE("Received data from connection %lld", selector->id);
 
     ipc_ctx_p ctx;
-    obj_p v, res;
 
     ctx = (ipc_ctx_p)selector->data;
-    res = (obj_p)data;
-
-    poll_set_usr_fd(selector->id);
-    v = ipc_process_msg(poll, selector, res);
-    poll_set_usr_fd(0);
 
-    // Send a response if the message is a synchronous request
-    if (ctx->msgtype == MSG_TYPE_SYNC)
-        ipc_send_msg(poll, selector, v, MSG_TYPE_RESP);
-
-    drop_obj(v);
+    // A response nobody waits for
+    if (ctx->msgtype == MSG_TYPE_RESP)
+        drop_obj((obj_p)data);
+    else
+        ipc_handle_msg(poll, selector, (obj_p)data, ctx->msgtype);
 
     return option_some(NULL);
 }
@@ -514,43 +556,57 @@ obj_p ipc_send(poll_p poll, i64_t id, obj_p msg, u8_t msgtype) {
     option_t result;
     obj_p res;
     ipc_ctx_p ctx;
+    i64_t sent;
 
     LOG_DEBUG("Starting synchronous IPC send for id %lld", id);
 
     selector = poll_get_selector(poll, id);
-    if (selector == NULL) {
+    if (selector == NULL || selector->close_fn != ipc_on_close || selector->rx.read_fn == ipc_read_handshake) {
         LOG_ERROR("Invalid selector for fd %lld", id);
         return err_os();
     }
 
+    poll_hold(poll);
+
     ctx = (ipc_ctx_p)selector->data;
-    ipc_send_msg(poll, selector, msg, msgtype);
+    sent = ipc_send_msg(poll, selector, msg, msgtype);
 
     res = NULL_OBJ;
 
-    // wait for the response
-    if (msgtype == MSG_TYPE_SYNC) {
-        do {
+    if (sent == IPC_SEND_TYPE) {
+        res = err_type(0, 0, 0, 0);
+    } else if (sent == IPC_SEND_FAILED) {
+        poll_deregister(poll, id);
+        res = err_os();
+    } else if (msgtype == MSG_TYPE_SYNC) {
+        // wait for the response
+        while (B8_TRUE) {
             LOG_DEBUG("Waiting for response from connection %lld", selector->id);
             result = poll_block_on(poll, selector);
             LOG_DEBUG("Response received from connection %lld RESULT: %s", selector->id,
                       option_is_some(&result) ? "some" : "none");
-            if (option_is_some(&result) && result.value != NULL) {
-                res = option_take(&result);
-                // If the message is a response, break the loop
-                if (ctx->msgtype == MSG_TYPE_RESP)
-                    break;
-
-                // Process the request otherwise
-                res = ipc_process_msg(poll, selector, res);
-                drop_obj(res);
-            } else if (option_is_error(&result)) {
+            if (!option_is_some(&result) || result.value == NULL) {
                 LOG_ERROR("Error occurred on connection %lld", selector->id);
-                return option_take(&result);
+                res = option_is_error(&result) ? option_take(&result) : err_os();
+                break;
+            }
+
+            res = option_take(&result);
+            // If the message is a response, break the loop
+            if (ctx->msgtype == MSG_TYPE_RESP)
+                break;
+
+            // Process the request otherwise
+            ipc_handle_msg(poll, selector, res, ctx->msgtype);
+            if (selector->closed) {
+                res = err_os();
+                break;
             }
-        } while (option_is_none(&result));
+        }
     }
 
+    poll_release(poll);
+
     return res;
 }
 
diff --git a/core/ipc.h b/core/ipc.h
index e9a3739..e334b0e 100644
--- a/core/ipc.h
+++ b/core/ipc.h
@@ -35,6 +35,11 @@
 #define IPC_MAX_HANDSHAKE 1024
 #define IPC_MAX_MSG_SIZE 1000000000ll  // 1GB, as for serialized objects
 
+// outcomes of sending a message
+#define IPC_SEND_OK 0
+#define IPC_SEND_TYPE 1     // the object can not be sent
+#define IPC_SEND_FAILED -1  // the connection is broken
+
 typedef struct ipc_ctx_t {
     u8_t msgtype;
     obj_p name;
@@ -47,7 +52,7 @@ nil_t ipc_on_open(poll_p poll, selector_p selector);
 nil_t ipc_on_close(poll_p poll, selector_p selector);
 nil_t ipc_on_error(poll_p poll, selector_p selector);
 option_t ipc_on_data(poll_p poll, selector_p selector, raw_p data);
-nil_t ipc_send_msg(poll_p poll, selector_p selector, obj_p msg, u8_t msgtype);
+i64_t ipc_send_msg(poll_p poll, selector_p selector, obj_p msg, u8_t msgtype);
 obj_p ipc_process_msg(poll_p poll, selector_p selector, obj_p msg);
 
 // listen for incoming connections
-- 
2.43.0


From abe1f06466cad6141c6500c3d652d96c52024e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 041/108] fix: text nested deeper than the stack allows is a
 limit error

---
 core/parse.c | 27 +++++++++++++++++++++------
 core/parse.h |  1 +
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/core/parse.c b/core/parse.c
index 4174519..ee1fa8d 100644
--- a/core/parse.c
+++ b/core/parse.c
@@ -1146,6 +1146,8 @@ nil_t skip_whitespaces(parser_t *parser) {
     }
 }
 
+#define PARSE_MAX_DEPTH 10000
+
 obj_p parser_advance(parser_t *parser) {
     obj_p tok = NULL_OBJ, err = NULL_OBJ;
 
@@ -1159,14 +1161,26 @@ obj_p parser_advance(parser_t *parser) {
         return tok;
     }
 
-    if (*parser->current == '[')
-        return parse_vector(parser);
+    if (*parser->current == '[' || *parser->current == '(' || *parser->current == '{') {
+        // the parser is recursive
+        if (parser->depth >= PARSE_MAX_DEPTH) {
+            nfo_insert(parser->nfo, parser->count, span_start(parser));
+            return parse_error(parser, parser->count++, EC_LIMIT);
+        }
+
+        parser->depth++;
 
-    if (*parser->current == '(')
-        return parse_list(parser);
+        if (*parser->current == '[')
+            tok = parse_vector(parser);
+        else if (*parser->current == '(')
+            tok = parse_list(parser);
+        else
+            tok = parse_dict(parser);
 
-    if (*parser->current == '{')
-        return parse_dict(parser);
+        parser->depth--;
+
+        return tok;
+    }
 
     if (((*parser->current) == '-' && is_digit(*(parser->current + 1))) || is_digit(*parser->current)) {
         tok = parse_0Nx(parser);
@@ -1260,6 +1274,7 @@ obj_p parse(lit_p input, i64_t input_len, obj_p nfo) {
         .input_len = input_len,
         .line = 0,
         .column = 0,
+        .depth = 0,
         .replace_symbols = B8_TRUE,
     };
 
diff --git a/core/parse.h b/core/parse.h
index 5c34bbb..d37db12 100644
--- a/core/parse.h
+++ b/core/parse.h
@@ -38,6 +38,7 @@ typedef struct parser_t {
     i64_t input_len;       // length of input string
     i64_t line;            // current line
     i64_t column;          // current column
+    i64_t depth;           // nesting of brackets
     b8_t replace_symbols;  // replace symbols if they are internal functions
 } parser_t;
 
-- 
2.43.0


From ad5c5459bffca17334112510f21a4b9d8454a96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:24 +0000
Subject: [PATCH 042/108] fix: the parser does not look beyond the end of its
 text

---
 core/parse.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/core/parse.c b/core/parse.c
index ee1fa8d..2ffdd4e 100644
--- a/core/parse.c
+++ b/core/parse.c
@@ -653,7 +653,7 @@ obj_p parse_string(parser_t *parser) {
 
     str = C8(0);
 
-    while (!at_eof(parser)) {
+    while (pos < parser->input + parser->input_len) {
         if (*pos == '\\') {
             switch (*++pos) {
                 case '\\':
@@ -1262,7 +1262,7 @@ obj_p parse_do(parser_t *parser) {
     return lst != NULL_OBJ ? lst : car;
 }
 
-obj_p parse(lit_p input, i64_t input_len, obj_p nfo) {
+static obj_p parse_text(lit_p input, i64_t input_len, obj_p nfo) {
     obj_p res, err;
     span_t span;
 
@@ -1307,3 +1307,21 @@ obj_p parse(lit_p input, i64_t input_len, obj_p nfo) {
 
     return res;
 }
+
+obj_p parse(lit_p input, i64_t input_len, obj_p nfo) {
+    str_p text;
+    obj_p res;
+
+    // The parser looks ahead, the text it is given has no terminating zero
+    text = (str_p)heap_alloc(input_len + 1);
+    if (text == NULL)
+        return err_os();
+
+    memcpy(text, input, input_len);
+    text[input_len] = '\0';
+
+    res = parse_text(text, input_len, nfo);
+    heap_free(text);
+
+    return res;
+}
-- 
2.43.0


From 6f38a4641b55abf09f11282c316f5581be9a5880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 043/108] fix: the timeout of hopen is in milliseconds

---
 core/sock.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/sock.c b/core/sock.c
index b757176..402d668 100644
--- a/core/sock.c
+++ b/core/sock.c
@@ -343,9 +343,9 @@ i64_t sock_open(sock_addr_t *addr, i64_t timeout) {
         if (fd == -1)
             continue;
 
-        // Set timeout
-        tm.tv_sec = timeout;  // Timeout in seconds
-        tm.tv_usec = 0;       // Timeout in microseconds
+        // Set timeout (milliseconds)
+        tm.tv_sec = timeout / 1000;
+        tm.tv_usec = (timeout % 1000) * 1000;
         if (setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tm, sizeof(tm)) < 0 ||
             setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tm, sizeof(tm)) < 0) {
             close(fd);
-- 
2.43.0


From 93db07f67be590f9ff66682fa4c6d1dd01c12556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 044/108] fix: end of a connection is not mistaken for an
 interrupted call

---
 core/sock.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/sock.c b/core/sock.c
index 402d668..b3e372d 100644
--- a/core/sock.c
+++ b/core/sock.c
@@ -475,6 +475,7 @@ recv:
 
         case 0:
             LOG_DEBUG("Connection closed by peer on fd %lld", fd);
+            errno = ECONNRESET;  // callers tell by errno whether to retry
             return -1;
 
         default:
@@ -506,6 +507,7 @@ send:
             // If we've sent some data, return what we've sent so far
             if (total > 0)
                 return total;
+            errno = EPIPE;  // callers tell by errno whether to retry
             return -1;
 
         default:
-- 
2.43.0


From 5b21998082176bc29aa02b9c60374c33b06fdfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 045/108] fix: select of something that is no query leaves no
 query context behind

---
 core/query.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/query.c b/core/query.c
index 6a36c02..c33562a 100644
--- a/core/query.c
+++ b/core/query.c
@@ -608,14 +608,14 @@ obj_p ray_select(obj_p obj) {
     obj_p res;
     struct query_ctx_t ctx;
 
-    query_ctx_init(&ctx);
-
     if (obj->type != TYPE_DICT)
         return err_type(0, 0, 0, 0);
 
     if (AS_LIST(obj)[0]->type != TYPE_SYMBOL)
         return err_type(0, 0, 0, 0);
 
+    query_ctx_init(&ctx);
+
     timeit_span_start("select");
 
     // Fetch table - ctx.table is set, resolve() will find columns via query_ctx
-- 
2.43.0


From 2de3ffa0eafc8f983b1e99c4a9c4b7d34bdabdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:26 +0000
Subject: [PATCH 046/108] fix: the callback of a connection is held before .z.w
 is set

---
 core/ipc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ipc.c b/core/ipc.c
index d4d1a6c..790699e 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -224,8 +224,8 @@ nil_t ipc_call_usr_cb(poll_p poll, selector_p selector, lit_p sym, i64_t len) {
 
     // Call the callback if it's a lambda
     if (clbfn != NULL && (*clbfn)->type == TYPE_LAMBDA) {
+        fn = clone_obj(*clbfn);  // it may be redefined (or move) meanwhile
         prev = ipc_enter(poll, selector);
-        fn = clone_obj(*clbfn);  // it may be redefined meanwhile
         vm_stack_push(i64(selector->id));
         v = call(fn, 1);
         drop_obj(vm_stack_pop());
-- 
2.43.0


From 042f23d9eb7d564a848f10358ee782d7dc01cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:25 +0000
Subject: [PATCH 047/108] fix: reading and writing files: short transfers,
 interrupted calls, amount read

---
 core/fs.c | 49 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/core/fs.c b/core/fs.c
index 2536554..b926b8c 100644
--- a/core/fs.c
+++ b/core/fs.c
@@ -332,29 +332,52 @@ i64_t fs_fsize(i64_t fd) {
 }
 
 i64_t fs_fread(i64_t fd, str_p buf, i64_t size) {
-    i64_t c = 0;
+    i64_t c, l = 0;
 
-    while ((c = read(fd, buf, size - c)) > 0)
-        buf += c;
+    while (l < size) {
+        c = read(fd, buf + l, size - l);
+
+        if (c == -1) {
+            if (errno == EINTR)
+                continue;
 
-    if (c == -1)
-        return c;
+            return -1;
+        }
 
-    *buf = '\0';
+        // end of file
+        if (c == 0)
+            break;
 
-    return size;
+        l += c;
+    }
+
+    buf[l] = '\0';
+
+    return l;
 }
 
 i64_t fs_fwrite(i64_t fd, str_p buf, i64_t size) {
-    i64_t c = 0, l = size;
-    while ((c = write(fd, buf, l)) > 0) {
+    i64_t c, l = size;
+
+    while (l > 0) {
+        c = write(fd, buf, l);
+
+        if (c == -1) {
+            if (errno == EINTR)
+                continue;
+
+            return -1;
+        }
+
+        if (c == 0) {
+            errno = EIO;
+            return -1;
+        }
+
         buf += c;
         l -= c;
     }
 
-    if (c == -1)
-        return c;
-
     return size;
 }
 
@@ -362,7 +385,7 @@ i64_t fs_file_extend(i64_t fd, i64_t size) {
     if (lseek(fd, size - 1, SEEK_SET) == -1)
         return -1;
 
-    if (write(fd, "", 1) == -1)
+    if (fs_fwrite(fd, (str_p) "", 1) == -1)
         return -1;
 
     return size;
-- 
2.43.0


From 5cb96da16e62e12b4271358e699cd8cc97b1021f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:44 +0000
Subject: [PATCH 048/108] fix: opening a file for reading does not create
 directories

---
 core/fs.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/core/fs.c b/core/fs.c
index b926b8c..2c8b8cf 100644
--- a/core/fs.c
+++ b/core/fs.c
@@ -297,19 +297,22 @@ i64_t fs_fopen(lit_p path, i64_t attrs) {
     obj_p s;
     str_p tmp_path, p, slash;
 
-    s = cstring_from_str(path, strlen(path));
-    tmp_path = AS_C8(s);
-    p = tmp_path;
+    // directories are created for files that are
+    if (attrs & ATTR_CREAT) {
+        s = cstring_from_str(path, strlen(path));
+        tmp_path = AS_C8(s);
+        p = tmp_path;
+
+        while ((slash = strchr(p + 1, '/')) != NULL) {
+            *slash = '\0';
+            fs_dcreate(tmp_path);
+            *slash = '/';
+            p = slash;
+        }
 
-    while ((slash = strchr(p + 1, '/')) != NULL) {
-        *slash = '\0';
-        fs_dcreate(tmp_path);
-        *slash = '/';
-        p = slash;
+        drop_obj(s);
     }
 
-    drop_obj(s);
-
     return open(path, attrs, S_IRUSR | S_IWUSR | S_IRGRP | S_IWGRP | S_IROTH | S_IWOTH);
 }
 
-- 
2.43.0


From 1537246f1da4dca07fcbd23ccdf07a44288e3899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:28 +0000
Subject: [PATCH 049/108] fix: a stored object is replaced as a whole, a
 failure while saving leaves the one before

---
 core/binary.c | 367 ++++++++++++++++++++------------------------------
 core/fs.c     |  31 +++++
 core/fs.h     |   2 +
 core/io.c     | 171 ++++++++++++++++-------
 core/io.h     |   4 +
 5 files changed, 305 insertions(+), 270 deletions(-)

diff --git a/core/binary.c b/core/binary.c
index 41fa89f..53f8399 100644
--- a/core/binary.c
+++ b/core/binary.c
@@ -49,12 +49,110 @@ obj_p binary_call(obj_p f, obj_p x, obj_p y) {
     }
 }
 
-obj_p binary_set(obj_p x, obj_p y) {
-    i64_t fd, c = 0;
-    i64_t i, l, sz, size;
+// A list is saved as two files: serialized items ("#") and their offsets
+static obj_p binary_set_list(obj_p x, obj_p y) {
+    i64_t i, l, sz, size, r[2], sizes[3];
     u8_t *b;
-    obj_p res, col, s, p, k, v, e, path, buf;
+    obj_p res, col, s, k, buf, path;
+    raw_p parts[3];
+    c8_t objbuf[RAY_PAGE_SIZE] = {0};
+    struct obj_t header;
+
+    l = y->len;
+    size = size_obj(y) - ISIZEOF(i8_t) - 1 - ISIZEOF(i64_t);
+
+    // something that can not be serialized
+    if (size < 0)
+        return err_type(0, 0, 0, 0);
+
+    buf = U8(size);
+    b = AS_U8(buf);
+    k = I64(l);
+
+    for (i = 0, size = 0; i < l; i++) {
+        sz = ser_raw(b, AS_LIST(y)[i]);
+
+        if (sz == 0) {
+            drop_obj(buf);
+            drop_obj(k);
+
+            return err_type(0, 0, 0, 0);
+        }
+
+        AS_I64(k)[i] = size;
+
+        size += sz;
+        b += sz;
+    }
+
+    s = cstring_from_str("#", 1);
+    col = ray_concat(x, s);
+    drop_obj(s);
+
+    memset(&header, 0, sizeof(struct obj_t));
+    header.mmod = MMOD_EXTERNAL_SIMPLE;
+    header.type = TYPE_U8;
+    header.len = buf->len;
+    parts[0] = &header;
+    sizes[0] = ISIZEOF(struct obj_t);
+    parts[1] = AS_U8(buf);
+    sizes[1] = buf->len;
+    r[0] = io_file_write(col, parts, sizes, 2);
+
+    r[1] = -1;
+    if (r[0] != -1) {
+        // save anymap
+        ((obj_p)objbuf)->mmod = MMOD_EXTERNAL_COMPOUND;
+        memset(&header, 0, sizeof(struct obj_t));
+        header.mmod = MMOD_EXTERNAL_COMPOUND;
+        header.type = TYPE_MAPLIST;
+        header.len = l;
+        parts[0] = objbuf;
+        sizes[0] = RAY_PAGE_SIZE;
+        parts[1] = &header;
+        sizes[1] = ISIZEOF(struct obj_t);
+        parts[2] = AS_I64(k);
+        sizes[2] = l * ISIZEOF(i64_t);
+        r[1] = io_file_write(x, parts, sizes, 3);
+    }
+
+    drop_obj(buf);
+    drop_obj(k);
+
+    if (r[1] == -1) {
+        res = err_os();
+        if (r[0] == 1)
+            io_file_discard(col);
+        drop_obj(col);
+        return res;
+    }
+
+    // the offsets of one list are never used with the items of another
+    if (r[1] == 1) {
+        path = cstring_from_obj(x);
+        fs_fdelete(AS_C8(path));
+        drop_obj(path);
+    }
+
+    if ((r[0] == 1 && io_file_commit(col) == -1) || (r[1] == 1 && io_file_commit(x) == -1)) {
+        res = err_os();
+        io_file_discard(col);
+        io_file_discard(x);
+        drop_obj(col);
+        return res;
+    }
+
+    drop_obj(col);
+
+    return clone_obj(x);
+}
+
+obj_p binary_set(obj_p x, obj_p y) {
+    i64_t n, sizes[3];
+    obj_p res, p, buf;
+    raw_p parts[3];
     c8_t objbuf[RAY_PAGE_SIZE] = {0};
+    struct obj_t header;
 
     switch (x->type) {
         case -TYPE_SYMBOL:
@@ -71,243 +169,74 @@ obj_p binary_set(obj_p x, obj_p y) {
             return clone_obj(y);
 
         case TYPE_C8:
+            buf = NULL_OBJ;
+            memset(&header, 0, sizeof(struct obj_t));
+
             switch (y->type) {
                 case TYPE_SYMBOL:
-                    path = cstring_from_obj(x);
-                    fd = fs_fopen(AS_C8(path), ATTR_WRONLY | ATTR_CREAT);
-
-                    if (fd == -1) {
-                        res = err_os();
-                        drop_obj(path);
-                        return res;
-                    }
-
                     buf = ser_obj(y);
 
-                    if (IS_ERR(buf)) {
-                        fs_fclose(fd);
-                        drop_obj(path);
+                    if (IS_ERR(buf))
                         return buf;
-                    }
-
-                    c = fs_fwrite(fd, (str_p)AS_U8(buf), buf->len);
-                    fs_fclose(fd);
-                    drop_obj(buf);
-
-                    if (c == -1) {
-                        res = err_os();
-                        drop_obj(path);
-                        return res;
-                    }
 
-                    drop_obj(path);
+                    parts[0] = AS_U8(buf);
+                    sizes[0] = buf->len;
+                    n = 1;
+                    break;
 
-                    return clone_obj(x);
                 case TYPE_TABLE:
                     return io_set_table(x, y);
-                case TYPE_ENUM:
-                    path = cstring_from_obj(x);
-                    fd = fs_fopen(AS_C8(path), ATTR_WRONLY | ATTR_CREAT);
-
-                    if (fd == -1) {
-                        res = err_os();
-                        drop_obj(path);
-                        return res;
-                    }
 
+                case TYPE_ENUM:
                     if (IS_EXTERNAL_COMPOUND(y)) {
-                        size = RAY_PAGE_SIZE + sizeof(struct obj_t) + y->len * sizeof(i64_t);
-
-                        c = fs_fwrite(fd, (str_p)y - RAY_PAGE_SIZE, size);
-                        fs_fclose(fd);
-
-                        if (c == -1) {
-                            res = err_os();
-                            drop_obj(path);
-                            return res;
-                        }
-
-                        drop_obj(path);
-
-                        return clone_obj(x);
+                        parts[0] = (str_p)y - RAY_PAGE_SIZE;
+                        sizes[0] = RAY_PAGE_SIZE + ISIZEOF(struct obj_t) + y->len * ISIZEOF(i64_t);
+                        n = 1;
+                        break;
                     }
 
-                    memset(objbuf, 0, RAY_PAGE_SIZE);
                     p = (obj_p)objbuf;
                     strncpy(AS_C8(p), str_from_symbol(AS_LIST(y)[0]->i64), RAY_PAGE_SIZE - sizeof(struct obj_t));
                     p->mmod = MMOD_EXTERNAL_COMPOUND;
-
-                    c = fs_fwrite(fd, objbuf, RAY_PAGE_SIZE);
-                    if (c == -1) {
-                        res = err_os();
-                        fs_fclose(fd);
-                        drop_obj(path);
-                        return res;
-                    }
-
-                    p->type = TYPE_ENUM;
-                    p->len = AS_LIST(y)[1]->len;
-
-                    c = fs_fwrite(fd, objbuf, sizeof(struct obj_t));
-                    if (c == -1) {
-                        res = err_os();
-                        fs_fclose(fd);
-                        drop_obj(path);
-                        return res;
-                    }
-
-                    size = AS_LIST(y)[1]->len * sizeof(i64_t);
-
-                    c = fs_fwrite(fd, AS_C8(AS_LIST(y)[1]), size);
-                    fs_fclose(fd);
-
-                    if (c == -1) {
-                        res = err_os();
-                        drop_obj(path);
-                        return res;
-                    }
-
-                    drop_obj(path);
-
-                    return clone_obj(x);
+                    header.mmod = MMOD_EXTERNAL_COMPOUND;
+                    header.type = TYPE_ENUM;
+                    header.len = AS_LIST(y)[1]->len;
+                    parts[0] = objbuf;
+                    sizes[0] = RAY_PAGE_SIZE;
+                    parts[1] = &header;
+                    sizes[1] = ISIZEOF(struct obj_t);
+                    parts[2] = AS_I64(AS_LIST(y)[1]);
+                    sizes[2] = header.len * ISIZEOF(i64_t);
+                    n = 3;
+                    break;
 
                 case TYPE_LIST:
-                    s = cstring_from_str("#", 1);
-                    col = ray_concat(x, s);
-                    drop_obj(s);
-
-                    l = y->len;
-                    size = size_obj(y) - sizeof(i8_t) - sizeof(i64_t);
-                    buf = U8(size);
-                    b = AS_U8(buf);
-                    k = I64(l);
-
-                    for (i = 0, size = 0; i < l; i++) {
-                        v = AS_LIST(y)[i];
-                        sz = ser_raw(b, v);
+                    return binary_set_list(x, y);
 
-                        if (sz == 0) {
-                            drop_obj(col);
-                            drop_obj(buf);
-                            drop_obj(k);
-
-                            return err_type(0, 0, 0, 0);
-                        }
-
-                        AS_I64(k)[i] = size;
-
-                        size += sz;
-                        b += sz;
-                    }
-
-                    res = binary_set(col, buf);
-
-                    drop_obj(col);
-                    drop_obj(buf);
-
-                    if (IS_ERR(res))
-                        return res;
-
-                    drop_obj(res);
-
-                    // save anymap
-                    path = cstring_from_obj(x);
-                    fd = fs_fopen(AS_C8(path), ATTR_WRONLY | ATTR_CREAT);
-
-                    if (fd == -1) {
-                        res = err_os();
-                        drop_obj(path);
-                        return res;
-                    }
-
-                    memset(objbuf, 0, RAY_PAGE_SIZE);
-                    p = (obj_p)objbuf;
-
-                    p->mmod = MMOD_EXTERNAL_COMPOUND;
-
-                    c = fs_fwrite(fd, objbuf, RAY_PAGE_SIZE);
-                    if (c == -1) {
-                        res = err_os();
-                        fs_fclose(fd);
-                        drop_obj(path);
-                        return res;
-                    }
-
-                    p->type = TYPE_MAPLIST;
-                    p->len = y->len;
-
-                    c = fs_fwrite(fd, objbuf, sizeof(struct obj_t));
-                    if (c == -1) {
-                        res = err_os();
-                        fs_fclose(fd);
-                        drop_obj(path);
-                        return res;
-                    }
-
-                    size = k->len * sizeof(i64_t);
-
-                    c = fs_fwrite(fd, AS_C8(k), size);
-                    drop_obj(k);
-                    fs_fclose(fd);
-
-                    if (c == -1) {
-                        res = err_os();
-                        drop_obj(path);
-                        return res;
-                    }
-
-                    drop_obj(path);
+                default:
+                    if (!IS_VECTOR(y))
+                        return err_type(0, 0, 0, 0);
+
+                    // Create a clean struct obj_t header to avoid writing uninitialized bytes
+                    header.mmod = MMOD_EXTERNAL_SIMPLE;
+                    header.type = y->type;
+                    header.attrs = y->attrs;
+                    header.len = y->len;
+                    parts[0] = &header;
+                    sizes[0] = ISIZEOF(struct obj_t);
+                    parts[1] = AS_C8(y);
+                    sizes[1] = y->len * size_of_type(y->type);
+                    n = 2;
+                    break;
+            }
 
-                    return clone_obj(x);
+            res = io_file_save(x, parts, sizes, n);
+            drop_obj(buf);
 
-                default:
-                    if (IS_VECTOR(y)) {
-                        path = cstring_from_obj(x);
-                        fd = fs_fopen(AS_C8(path), ATTR_WRONLY | ATTR_CREAT);
-
-                        if (fd == -1) {
-                            res = err_os();
-                            drop_obj(path);
-                            return res;
-                        }
-
-                        // Create a clean struct obj_t header to avoid writing uninitialized bytes
-                        struct obj_t clean_header;
-                        memset(&clean_header, 0, sizeof(struct obj_t));
-                        clean_header.mmod = MMOD_EXTERNAL_SIMPLE;
-                        clean_header.order = 0;
-                        clean_header.type = y->type;
-                        clean_header.attrs = y->attrs;
-                        clean_header.rc = 0;
-                        clean_header.len = y->len;
-
-                        // Write the clean header
-                        c = fs_fwrite(fd, (str_p)&clean_header, sizeof(struct obj_t));
-                        if (c == -1) {
-                            e = err_os();
-                            drop_obj(path);
-                            fs_fclose(fd);
-                            return e;
-                        }
-
-                        // Write the data
-                        size = y->len * size_of_type(y->type);
-                        c = fs_fwrite(fd, AS_C8(y), size);
-                        if (c == -1) {
-                            e = err_os();
-                            drop_obj(path);
-                            fs_fclose(fd);
-                            return e;
-                        }
-
-                        drop_obj(path);
-                        fs_fclose(fd);
-
-                        return clone_obj(x);
-                    }
+            if (IS_ERR(res))
+                return res;
 
-                    return err_type(0, 0, 0, 0);
-            }
+            return clone_obj(x);
 
         default:
             return err_type(0, 0, 0, 0);
diff --git a/core/fs.c b/core/fs.c
index 2c8b8cf..e6af79d 100644
--- a/core/fs.c
+++ b/core/fs.c
@@ -71,6 +71,15 @@ i64_t fs_fdelete(lit_p path) {
     return res;
 }
 
+i64_t fs_frename(lit_p from, lit_p to) { return MoveFileExA(from, to, MOVEFILE_REPLACE_EXISTING) ? 0 : -1; }
+
+b8_t fs_freplaceable(lit_p path, i64_t fd) {
+    UNUSED(path);
+    UNUSED(fd);
+
+    return B8_TRUE;
+}
+
 i64_t fs_fsize(i64_t fd) {
     LARGE_INTEGER size;
     if (!GetFileSizeEx((HANDLE)fd, &size))
@@ -209,6 +218,17 @@ i64_t fs_fdelete(lit_p path) {
     return res;
 }
 
+i64_t fs_frename(lit_p from, lit_p to) { return rename(from, to); }
+
+b8_t fs_freplaceable(lit_p path, i64_t fd) {
+    struct stat st;
+
+    if (lstat(path, &st) == -1)
+        return errno == ENOENT;
+
+    return S_ISREG(st.st_mode) && fchmod(fd, st.st_mode & 07777) == 0;
+}
+
 i64_t fs_fsize(i64_t fd) {
     struct stat st;
     if (fstat(fd, &st) == -1)
@@ -326,6 +346,17 @@ i64_t fs_fdelete(lit_p path) {
     return res;
 }
 
+i64_t fs_frename(lit_p from, lit_p to) { return rename(from, to); }
+
+b8_t fs_freplaceable(lit_p path, i64_t fd) {
+    struct stat st;
+
+    if (lstat(path, &st) == -1)
+        return errno == ENOENT;
+
+    return S_ISREG(st.st_mode) && fchmod(fd, st.st_mode & 07777) == 0;
+}
+
 i64_t fs_fsize(i64_t fd) {
     struct stat st;
     if (fstat(fd, &st) == -1)
diff --git a/core/fs.h b/core/fs.h
index 033f4c4..c9018b4 100644
--- a/core/fs.h
+++ b/core/fs.h
@@ -49,6 +49,8 @@
 
 i64_t fs_fopen(lit_p path, i64_t attrs);
 i64_t fs_fdelete(lit_p path);
+i64_t fs_frename(lit_p from, lit_p to);    // replaces the file "to"
+b8_t fs_freplaceable(lit_p path, i64_t fd);  // there is nothing but an ordinary file (fd gets its mode)
 i64_t fs_fsize(i64_t fd);
 i64_t fs_fread(i64_t fd, str_p buf, i64_t size);
 i64_t fs_fwrite(i64_t fd, str_p buf, i64_t size);
diff --git a/core/io.c b/core/io.c
index 5f87b11..13d2aac 100644
--- a/core/io.c
+++ b/core/io.c
@@ -943,10 +943,119 @@ static i64_t csv_field_to_str(obj_p col, i64_t row, obj_p *dst) {
     }
 }
 
+// ============================================================================
+// Saving files: the contents is written next to the file and takes its place when it is complete,
+// so that a failure leaves the file as it was, as does one that is mapped (even by what is being saved)
+// ============================================================================
+
+static obj_p io_file_tmp(obj_p path) {
+    i64_t l, n;
+    lit_p name;
+    obj_p s, tmp;
+
+    s = cstring_from_obj(path);
+    n = fs_filename(AS_C8(s), &name);
+    l = (name == NULL) ? 0 : name - AS_C8(s);
+    tmp = str_fmt(-1, "%.*s.%.*s.tmp", (i32_t)l, AS_C8(s), (i32_t)n, AS_C8(s) + l);
+    drop_obj(s);
+    s = cstring_from_obj(tmp);
+    drop_obj(tmp);
+
+    return s;
+}
+
+// Returns 1 if there is something to commit (or discard), 0 if not, -1 on failure
+i64_t io_file_write(obj_p path, raw_p parts[], i64_t sizes[], i64_t n) {
+    i64_t i, fd, res = 1;
+    obj_p s, tmp;
+
+    s = cstring_from_obj(path);
+    tmp = io_file_tmp(path);
+    fd = fs_fopen(AS_C8(tmp), ATTR_WRONLY | ATTR_CREAT | ATTR_TRUNC);
+
+    // a device, a link, a directory one can not write to: in place
+    if ((fd != -1) ? !fs_freplaceable(AS_C8(s), fd) : (errno == EACCES || errno == ENAMETOOLONG)) {
+        if (fd != -1) {
+            fs_fclose(fd);
+            fs_fdelete(AS_C8(tmp));
+        }
+        fd = fs_fopen(AS_C8(s), ATTR_WRONLY | ATTR_CREAT | ATTR_TRUNC);
+        res = 0;
+    }
+
+    if (fd == -1) {
+        drop_obj(s);
+        drop_obj(tmp);
+        return -1;
+    }
+
+    for (i = 0; i < n; i++) {
+        if (fs_fwrite(fd, (str_p)parts[i], sizes[i]) == -1)
+            break;
+    }
+
+    i = (i == n) ? 0 : errno;
+    if (fs_fclose(fd) == -1 && i == 0)
+        i = errno;
+
+    if (i != 0) {
+        if (res == 1)
+            fs_fdelete(AS_C8(tmp));
+        errno = i;
+        res = -1;
+    }
+
+    drop_obj(s);
+    drop_obj(tmp);
+
+    return res;
+}
+
+i64_t io_file_commit(obj_p path) {
+    i64_t res;
+    obj_p s, tmp;
+
+    s = cstring_from_obj(path);
+    tmp = io_file_tmp(path);
+    res = fs_frename(AS_C8(tmp), AS_C8(s));
+    drop_obj(s);
+    drop_obj(tmp);
+
+    return res;
+}
+
+nil_t io_file_discard(obj_p path) {
+    i32_t e = errno;
+    obj_p tmp;
+
+    tmp = io_file_tmp(path);
+    fs_fdelete(AS_C8(tmp));
+    drop_obj(tmp);
+    errno = e;
+}
+
+obj_p io_file_save(obj_p path, raw_p parts[], i64_t sizes[], i64_t n) {
+    i64_t r;
+    obj_p e;
+
+    r = io_file_write(path, parts, sizes, n);
+
+    if (r == -1)
+        return err_os();
+
+    if (r == 1 && io_file_commit(path) == -1) {
+        e = err_os();
+        io_file_discard(path);
+        return e;
+    }
+
+    return NULL_OBJ;
+}
+
 obj_p ray_write_csv(obj_p *x, i64_t n) {
-    i64_t fd, c;
     i64_t i, j, l, rows;
-    obj_p table, path, names, cols, col, buf, res;
+    obj_p table, names, cols, col, buf, res;
+    raw_p part;
     c8_t sep = ',';
 
     switch (n) {
@@ -977,16 +1086,6 @@ obj_p ray_write_csv(obj_p *x, i64_t n) {
 
             rows = ops_count(table);
 
-            // Open file for writing
-            path = cstring_from_obj(x[0]);
-            fd = fs_fopen(AS_C8(path), ATTR_WRONLY | ATTR_CREAT | ATTR_TRUNC);
-
-            if (fd == -1) {
-                res = err_os();
-                drop_obj(path);
-                return res;
-            }
-
             buf = NULL_OBJ;
 
             // Write header row
@@ -1009,20 +1108,11 @@ obj_p ray_write_csv(obj_p *x, i64_t n) {
             }
 
             // Write buffer to file
-            c = fs_fwrite(fd, AS_C8(buf), buf->len);
-            if (c == -1) {
-                res = err_os();
-                drop_obj(buf);
-                drop_obj(path);
-                fs_fclose(fd);
-                return res;
-            }
-
+            part = AS_C8(buf);
+            res = io_file_save(x[0], &part, &buf->len, 1);
             drop_obj(buf);
-            drop_obj(path);
-            fs_fclose(fd);
 
-            return NULL_OBJ;
+            return res;
         default:
             return err_arity(3, n, 0);
     }
@@ -1151,44 +1241,23 @@ obj_p io_get_symfile(obj_p path) {
 }
 
 obj_p io_set_table(obj_p path, obj_p table) {
-    i64_t c, fd;
-    obj_p s, buf, res;
+    obj_p buf, res;
+    raw_p part;
 
     // Save splayed
     if (path->len > 0 && AS_C8(path)[path->len - 1] == '/')
         return io_set_table_splayed(path, table, NULL_OBJ);
 
     // Save as a blob (serialized)
-    s = cstring_from_obj(path);
-    fd = fs_fopen(AS_C8(s), ATTR_WRONLY | ATTR_CREAT | ATTR_TRUNC);
-
-    if (fd == -1) {
-        res = err_os();
-        drop_obj(s);
-        return res;
-    }
-
     buf = ser_obj(table);
-    if (IS_ERR(buf)) {
-        drop_obj(s);
-        fs_fclose(fd);
+    if (IS_ERR(buf))
         return buf;
-    }
-
-    c = fs_fwrite(fd, AS_C8(buf), buf->len);
-    if (c == -1) {
-        res = err_os();
-        drop_obj(buf);
-        drop_obj(s);
-        fs_fclose(fd);
-        return res;
-    }
 
-    drop_obj(s);
+    part = AS_U8(buf);
+    res = io_file_save(path, &part, &buf->len, 1);
     drop_obj(buf);
-    fs_fclose(fd);
 
-    return NULL_OBJ;
+    return res;
 }
 
 obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile) {
diff --git a/core/io.h b/core/io.h
index 3ee9e67..dd4aebd 100644
--- a/core/io.h
+++ b/core/io.h
@@ -36,6 +36,10 @@ obj_p ray_parse(obj_p x);
 obj_p ray_eval(obj_p x);
 obj_p ray_load(obj_p x);
 obj_p io_write(i64_t fd, u8_t msg_type, obj_p obj);
+i64_t io_file_write(obj_p path, raw_p parts[], i64_t sizes[], i64_t n);
+i64_t io_file_commit(obj_p path);
+nil_t io_file_discard(obj_p path);
+obj_p io_file_save(obj_p path, raw_p parts[], i64_t sizes[], i64_t n);
 obj_p io_get_symfile(obj_p path);
 obj_p io_set_table(obj_p path, obj_p table);
 obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile);
-- 
2.43.0


From 41458a94686f3d19c5c5cdee6dd743e62ac5b05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:05 +0000
Subject: [PATCH 050/108] fix: what is mapped from a file has to fit into the
 file

get() took the header of a mapped file at its word: a file cut short, or of
another kind, made the value reach out of the mapping. A stored reference
count was used as well, so an object saved while it was shared was never
released. Descriptors are released when the object is refused.
---
 core/unary.c | 50 ++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/core/unary.c b/core/unary.c
index 744c363..a831ee8 100644
--- a/core/unary.c
+++ b/core/unary.c
@@ -45,6 +45,38 @@ obj_p unary_call(obj_p f, obj_p x) {
     return fn(x);
 }
 
+// What is mapped has to be what its header says it is
+static b8_t get_valid(obj_p obj, i64_t size) {
+    i64_t n, len;
+
+    if (IS_EXTERNAL_SERIALIZED(obj))
+        return B8_TRUE;
+
+    if (IS_EXTERNAL_SIMPLE(obj)) {
+        if (obj->type < TYPE_B8 || obj->type > TYPE_C8 || obj->type == TYPE_SYMBOL)
+            return B8_FALSE;
+
+        n = size_of_type(obj->type);
+    } else if (IS_EXTERNAL_COMPOUND(obj)) {
+        size -= RAY_PAGE_SIZE;
+        obj = (obj_p)((str_p)obj + RAY_PAGE_SIZE);
+        if (size < ISIZEOF(struct obj_t) || !IS_EXTERNAL_COMPOUND(obj) ||
+            (obj->type != TYPE_ENUM && obj->type != TYPE_MAPLIST))
+            return B8_FALSE;
+
+        // the name of an enum is within its page
+        if (obj->type == TYPE_ENUM && memchr(ENUM_KEY(obj), '\0', RAY_PAGE_SIZE - ISIZEOF(struct obj_t)) == NULL)
+            return B8_FALSE;
+
+        n = ISIZEOF(i64_t);
+    } else
+        return B8_FALSE;
+
+    len = (size - ISIZEOF(struct obj_t)) / n;
+
+    return obj->len >= 0 && obj->len <= len;
+}
+
 obj_p ray_get(obj_p x) {
     i64_t fd;
     obj_p res, col, keys, s, v, *sym, path, fdmap;
@@ -88,6 +120,13 @@ obj_p ray_get(obj_p x) {
                 return res;
             }
 
+            if (!get_valid(res, size)) {
+                mmap_free(res, size);
+                fs_fclose(fd);
+                drop_obj(path);
+                return err_type(0, 0, 0, 0);
+            }
+
             if (IS_EXTERNAL_SERIALIZED(res)) {
                 sz = size - ISIZEOF(struct obj_t);
                 v = de_raw((u8_t *)res + ISIZEOF(struct obj_t), &sz);
@@ -100,18 +139,17 @@ obj_p ray_get(obj_p x) {
                 fdmap_add_fd(&fdmap, res, fd, size);
                 res = (obj_p)((str_p)res + RAY_PAGE_SIZE);
                 runtime_fdmap_push(runtime_get(), res, fdmap);
-            } else if (IS_EXTERNAL_SIMPLE(res)) {
+            } else {
                 fdmap = fdmap_create();
                 fdmap_add_fd(&fdmap, res, fd, size);
                 runtime_fdmap_push(runtime_get(), res, fdmap);
-            } else {
-                res = err_type(0, 0, 0, 0);
-                drop_obj(path);
-                return res;
             }
 
             drop_obj(path);
 
+            // the mapping is private
+            res->rc = 0;
+
             // anymap needs additional nested mapping of dependencies
             if (res->type == TYPE_MAPLIST) {
                 s = cstring_from_str("#", 1);
@@ -122,7 +160,7 @@ obj_p ray_get(obj_p x) {
 
                 if (keys->type != TYPE_U8) {
                     drop_obj(keys);
-                    mmap_free(res, size);
+                    runtime_fdmap_pop(runtime_get(), res);
                     return err_type(0, 0, 0, 0);
                 }
 
-- 
2.43.0


From 4e79552ded83dbd7e708ef1fef2325a73e12ba34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:50 +0000
Subject: [PATCH 051/108] fix: the items of a mapped list are read within their
 file, distinct compares them

Each place reading the items of a mapped list did it on its own: take refused
every list but a corrupted one (the check was inverted), at did not adjust the
size left, cmp read past the end of the file, distinct compared offsets, so
equal items were all distinct. The items released with the list were unmapped
even if (key list) still referred to them.
---
 core/cmp.c      |  66 ++++++++++++----------
 core/compose.c  |  22 ++------
 core/items.c    | 142 +++++++++++++++++-------------------------------
 core/items.h    |   1 +
 core/rayforce.c |  14 ++---
 5 files changed, 97 insertions(+), 148 deletions(-)

diff --git a/core/cmp.c b/core/cmp.c
index 029e0e2..0926778 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -379,25 +379,27 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
     // Handle TYPE_MAPLIST (lazy list type)
     // Optimization: for MAPLIST comparison with atom, avoid full materialization
     if (x->type == TYPE_MAPLIST && IS_ATOM(y) && y->type < 0) {
-        obj_p key = MAPLIST_KEY(x);
-        obj_p offsets = MAPLIST_VAL(x);
-        l = offsets->len;
+        l = MAPLIST_VAL(x)->len;
 
         // Check the type of the first element
         if (l > 0) {
-            u8_t *buf = AS_U8(key) + AS_I64(offsets)[0];
-            i8_t elem_type = (i8_t)buf[0];
+            v = maplist_item(x, 0);
+            if (IS_ERR(v))
+                return v;
+            i8_t elem_type = v->type;
+            drop_obj(v);
 
             // If MAPLIST contains i64 atoms, extract directly to typed vector
             if (elem_type == -TYPE_I64 && y->type == -TYPE_I64) {
                 obj_p vec = I64(l);
                 for (i = 0; i < l; i++) {
-                    buf = AS_U8(key) + AS_I64(offsets)[i];
-                    if (buf[0] == (u8_t)(-TYPE_I64)) {
-                        memcpy(&AS_I64(vec)[i], buf + 1, sizeof(i64_t));
-                    } else {
-                        AS_I64(vec)[i] = NULL_I64;
+                    v = maplist_item(x, i);
+                    if (IS_ERR(v)) {
+                        drop_obj(vec);
+                        return v;
                     }
+                    AS_I64(vec)[i] = (v->type == -TYPE_I64) ? v->i64 : NULL_I64;
+                    drop_obj(v);
                 }
                 res = cmp_map(op, vec, y);
                 drop_obj(vec);
@@ -407,12 +409,13 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
             if (elem_type == -TYPE_F64 && y->type == -TYPE_F64) {
                 obj_p vec = F64(l);
                 for (i = 0; i < l; i++) {
-                    buf = AS_U8(key) + AS_I64(offsets)[i];
-                    if (buf[0] == (u8_t)(-TYPE_F64)) {
-                        memcpy(&AS_F64(vec)[i], buf + 1, sizeof(f64_t));
-                    } else {
-                        AS_F64(vec)[i] = NULL_F64;
+                    v = maplist_item(x, i);
+                    if (IS_ERR(v)) {
+                        drop_obj(vec);
+                        return v;
                     }
+                    AS_F64(vec)[i] = (v->type == -TYPE_F64) ? v->f64 : NULL_F64;
+                    drop_obj(v);
                 }
                 res = cmp_map(op, vec, y);
                 drop_obj(vec);
@@ -435,23 +438,25 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
         drop_obj(v);
         return res;
     } else if (y->type == TYPE_MAPLIST && IS_ATOM(x) && x->type < 0) {
-        obj_p key = MAPLIST_KEY(y);
-        obj_p offsets = MAPLIST_VAL(y);
-        l = offsets->len;
+        l = MAPLIST_VAL(y)->len;
 
         if (l > 0) {
-            u8_t *buf = AS_U8(key) + AS_I64(offsets)[0];
-            i8_t elem_type = (i8_t)buf[0];
+            v = maplist_item(y, 0);
+            if (IS_ERR(v))
+                return v;
+            i8_t elem_type = v->type;
+            drop_obj(v);
 
             if (elem_type == -TYPE_I64 && x->type == -TYPE_I64) {
                 obj_p vec = I64(l);
                 for (i = 0; i < l; i++) {
-                    buf = AS_U8(key) + AS_I64(offsets)[i];
-                    if (buf[0] == (u8_t)(-TYPE_I64)) {
-                        memcpy(&AS_I64(vec)[i], buf + 1, sizeof(i64_t));
-                    } else {
-                        AS_I64(vec)[i] = NULL_I64;
+                    v = maplist_item(y, i);
+                    if (IS_ERR(v)) {
+                        drop_obj(vec);
+                        return v;
                     }
+                    AS_I64(vec)[i] = (v->type == -TYPE_I64) ? v->i64 : NULL_I64;
+                    drop_obj(v);
                 }
                 res = cmp_map(op, x, vec);
                 drop_obj(vec);
@@ -460,12 +465,13 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
             if (elem_type == -TYPE_F64 && x->type == -TYPE_F64) {
                 obj_p vec = F64(l);
                 for (i = 0; i < l; i++) {
-                    buf = AS_U8(key) + AS_I64(offsets)[i];
-                    if (buf[0] == (u8_t)(-TYPE_F64)) {
-                        memcpy(&AS_F64(vec)[i], buf + 1, sizeof(f64_t));
-                    } else {
-                        AS_F64(vec)[i] = NULL_F64;
+                    v = maplist_item(y, i);
+                    if (IS_ERR(v)) {
+                        drop_obj(vec);
+                        return v;
                     }
+                    AS_F64(vec)[i] = (v->type == -TYPE_F64) ? v->f64 : NULL_F64;
+                    drop_obj(v);
                 }
                 res = cmp_map(op, x, vec);
                 drop_obj(vec);
diff --git a/core/compose.c b/core/compose.c
index 787c8bd..6c1f21c 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -873,22 +873,12 @@ obj_p ray_distinct(obj_p x) {
             res = enumerate(ray_key(x), res);
             return res;
         case TYPE_MAPLIST: {
-            // MAPLIST has key (mmaped symbol file) and value (byte offsets)
-            // Get distinct indices, then expand to actual values
-            obj_p val = MAPLIST_VAL(x);
-            obj_p key = MAPLIST_KEY(x);
-            i64_t sl = key->len;
-            l = val->len;
-            obj_p distinct_idx = index_distinct_i64(AS_I64(val), l);
-            i64_t dl = distinct_idx->len;
-            res = LIST(dl);
-            for (i64_t i = 0; i < dl; i++) {
-                i64_t offset = AS_I64(distinct_idx)[i];
-                u8_t *buf = AS_U8(key) + offset;
-                i64_t size = sl;
-                AS_LIST(res)[i] = de_raw(buf, &size);
-            }
-            drop_obj(distinct_idx);
+            // Items are compared by their values
+            obj_p values = ray_value(x);
+            if (IS_ERR(values))
+                return values;
+            res = ray_distinct(values);
+            drop_obj(values);
             return res;
         }
         case TYPE_MAPCOMMON:
diff --git a/core/items.c b/core/items.c
index ccd542e..bde812c 100644
--- a/core/items.c
+++ b/core/items.c
@@ -71,10 +71,27 @@ static inline obj_p at_vec_f64_by_i64(obj_p x, obj_p y) {
     return res;
 }
 
+// Reads the item of a mapped list
+obj_p maplist_item(obj_p x, i64_t i) {
+    i64_t offset, size;
+    obj_p k = MAPLIST_KEY(x), v = MAPLIST_VAL(x);
+
+    if (i < 0 || i >= v->len)
+        return err_index(i, v->len, 0, 0);
+
+    offset = AS_I64(v)[i];
+
+    if (offset < 0 || offset >= k->len)
+        return err_index(offset, k->len, 0, 0);
+
+    size = k->len - offset;
+
+    return de_raw(AS_U8(k) + offset, &size);
+}
+
 obj_p ray_at(obj_p x, obj_p y) {
-    i64_t i, j, yl, xl, n, size;
+    i64_t i, j, yl, xl, n;
     obj_p res, k, s, v, cols;
-    u8_t *buf;
 
     switch (MTYPE2(x->type, y->type)) {
         case MTYPE2(TYPE_B8, -TYPE_I64):
@@ -257,39 +274,23 @@ obj_p ray_at(obj_p x, obj_p y) {
             return res;
 
         case MTYPE2(TYPE_MAPLIST, -TYPE_I64):
-            k = MAPLIST_KEY(x);
-            v = MAPLIST_VAL(x);
-
-            xl = k->len;
-            yl = v->len;
-
-            if (y->i64 >= (i64_t)v->len)
-                return err_index(y->i64, v->len, 0, 0);
-
-            buf = AS_U8(k) + AS_I64(v)[y->i64];
-
-            return de_raw(buf, &xl);
+            return maplist_item(x, y->i64);
 
         case MTYPE2(TYPE_MAPLIST, TYPE_I64):
-            k = MAPLIST_KEY(x);
-            v = MAPLIST_VAL(x);
-
-            size = k->len;
-
-            n = v->len;
             yl = y->len;
 
             res = vector(TYPE_LIST, yl);
 
             for (i = 0; i < yl; i++) {
-                if (AS_I64(y)[i] >= (i64_t)n) {
+                v = maplist_item(x, AS_I64(y)[i]);
+
+                if (IS_ERR(v)) {
                     res->len = i;
                     drop_obj(res);
-                    return err_index(AS_I64(y)[i], n, 0, 0);
+                    return v;
                 }
 
-                buf = AS_U8(k) + AS_I64(v)[AS_I64(y)[i]];
-                AS_LIST(res)[i] = de_raw(buf, &size);
+                AS_LIST(res)[i] = v;
             }
 
             return res;
@@ -396,9 +397,8 @@ obj_p ray_filter(obj_p x, obj_p y) {
 }
 
 obj_p ray_take(obj_p from, obj_p count) {
-    i64_t i, j, f, l, m, n, size, start;
+    i64_t i, j, f, l, m, n, start;
     obj_p k, s, v, res;
-    u8_t *buf;
     int is_range = 0;
 
     // Check if count is a 2-element vector [start amount] for range take
@@ -685,10 +685,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                 return enumerate(k, res);
 
         case TYPE_MAPLIST:
-            k = MAPLIST_KEY(from);
-            s = MAPLIST_VAL(from);
-            n = k->len;
-            l = s->len;
+            l = MAPLIST_VAL(from)->len;
             if (is_range) {
                 if (start < 0)
                     start = l + start;
@@ -702,43 +699,15 @@ obj_p ray_take(obj_p from, obj_p count) {
             res = vector(TYPE_LIST, m);
             if (IS_ERR(res))
                 return res;
-            size = m;
 
-            if (is_range) {
-                for (i = 0; i < m; i++) {
-                    j = start + i;
-                    if (AS_I64(s)[j] >= (i64_t)n) {
-                        buf = AS_U8(k) + AS_I64(s)[j];
-                        v = de_raw(buf, &size);
-                        if (IS_ERR(v)) {
-                            res->len = i;
-                            drop_obj(res);
-                            return v;
-                        }
-                        AS_LIST(res)[i] = v;
-                    } else {
-                        res->len = i;
-                        drop_obj(res);
-                        return err_index(AS_I64(s)[j], n, 0, 0);
-                    }
-                }
-            } else {
-                for (i = 0, j = (l > 0 ? l - m % l : 0) * f; i < m; i++, j++) {
-                    if (AS_I64(s)[j % l] >= (i64_t)n) {
-                        buf = AS_U8(k) + AS_I64(s)[j % l];
-                        v = de_raw(buf, &size);
-                        if (IS_ERR(v)) {
-                            res->len = i;
-                            drop_obj(res);
-                            return v;
-                        }
-                        AS_LIST(res)[i] = v;
-                    } else {
-                        res->len = i;
-                        drop_obj(res);
-                        return err_index(AS_I64(s)[j % l], n, 0, 0);
-                    }
+            for (i = 0, j = is_range ? start : (l > 0 ? l - m % l : 0) * f; i < m; i++, j++) {
+                v = maplist_item(from, is_range ? j : j % l);
+                if (IS_ERR(v)) {
+                    res->len = i;
+                    drop_obj(res);
+                    return v;
                 }
+                AS_LIST(res)[i] = v;
             }
             return res;
 
@@ -1191,8 +1160,7 @@ obj_p ray_key(obj_p x) {
 
 obj_p ray_value(obj_p x) {
     obj_p sym, k, v, res, e, *objptr;
-    u8_t *u8ptr, *buf;
-    i64_t size;
+    u8_t *u8ptr;
     i64_t i, j, l, n, sl, xl, *i64ptr;
     i16_t *i16ptr;
     i32_t *i32ptr;
@@ -1236,33 +1204,19 @@ obj_p ray_value(obj_p x) {
             return res;
 
         case TYPE_MAPLIST:
-            k = MAPLIST_KEY(x);
-            e = MAPLIST_VAL(x);
-
-            xl = e->len;
-            sl = k->len;
-
-            size = sl;
-
+            xl = MAPLIST_VAL(x)->len;
             res = vector(TYPE_LIST, xl);
 
             for (i = 0; i < xl; i++) {
-                if (AS_I64(e)[i] < sl) {
-                    buf = AS_U8(k) + AS_I64(e)[i];
-                    v = de_raw(buf, &size);
-
-                    if (IS_ERR(v)) {
-                        res->len = i;
-                        drop_obj(res);
-                        return v;
-                    }
+                v = maplist_item(x, i);
 
-                    AS_LIST(res)[i] = v;
-                } else {
+                if (IS_ERR(v)) {
                     res->len = i;
                     drop_obj(res);
-                    return err_index(AS_I64(e)[i], sl, 0, 0);
+                    return v;
                 }
+
+                AS_LIST(res)[i] = v;
             }
 
             return res;
@@ -1280,13 +1234,17 @@ obj_p ray_value(obj_p x) {
             // WARNING: here is assumed that inside parted list there are only map lists
             for (i = 0; i < l; i++) {
                 n = ops_count(AS_LIST(x)[i]);
-                k = MAPLIST_KEY(AS_LIST(x)[i]);
-                v = MAPLIST_VAL(AS_LIST(x)[i]);
-                size = k->len;
 
                 for (j = 0; j < n; j++) {
-                    buf = AS_U8(k) + AS_I64(v)[j];
-                    objptr[j] = de_raw(buf, &size);
+                    v = maplist_item(AS_LIST(x)[i], j);
+
+                    if (IS_ERR(v)) {
+                        res->len = objptr + j - AS_LIST(res);
+                        drop_obj(res);
+                        return v;
+                    }
+
+                    objptr[j] = v;
                 }
 
                 objptr += n;
diff --git a/core/items.h b/core/items.h
index 82bfec1..43320d6 100644
--- a/core/items.h
+++ b/core/items.h
@@ -40,6 +40,7 @@ obj_p ray_last(obj_p x);
 obj_p ray_key(obj_p x);
 obj_p ray_value(obj_p x);
 obj_p ray_where(obj_p x);
+obj_p maplist_item(obj_p x, i64_t i);
 obj_p ray_bin(obj_p x, obj_p y);
 obj_p ray_binr(obj_p x, obj_p y);
 
diff --git a/core/rayforce.c b/core/rayforce.c
index 4eef834..90dce8d 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -759,10 +759,8 @@ obj_p ins_sym(obj_p* obj, i64_t idx, lit_p str) {
 }
 
 obj_p at_idx(obj_p obj, i64_t idx) {
-    i64_t size;
     i64_t i, m, n, l;
     obj_p k, v, res;
-    u8_t* buf;
 
     if (idx == NULL_I64)
         return null(obj->type);
@@ -866,15 +864,10 @@ obj_p at_idx(obj_p obj, i64_t idx) {
             return symboli64(NULL_I64);
 
         case TYPE_MAPLIST:
-            k = MAPLIST_KEY(obj);
-            v = MAPLIST_VAL(obj);
-            size = k->len;
             if (idx < 0)
                 idx = obj->len + idx;
-            if (idx >= 0 && idx < (i64_t)v->len) {
-                buf = AS_U8(k) + AS_I64(v)[idx];
-                return de_raw(buf, &size);
-            }
+            if (idx >= 0 && idx < obj->len)
+                return maplist_item(obj, idx);
 
             return NULL_OBJ;
 
@@ -2905,7 +2898,8 @@ nil_t __attribute__((hot)) drop_obj(obj_p obj) {
             }
             return;
         case TYPE_MAPLIST:
-            runtime_fdmap_pop(runtime_get(), MAPLIST_KEY(obj));
+            // the items may be shared
+            drop_obj(MAPLIST_KEY(obj));
             runtime_fdmap_pop(runtime_get(), obj);
             // mmap_free(MAPLIST_KEY(obj), size_of(obj));
             // mmap_free((str_p)obj - RAY_PAGE_SIZE, size_of(obj) + RAY_PAGE_SIZE);
-- 
2.43.0


From f0d97ff6c386e4017f5009891d1731f453cdd87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:42 +0000
Subject: [PATCH 052/108] fix: saving and reading splayed and parted tables

A symfile that could not be read was taken for an absent one and overwritten,
so every other table using it was read with wrong symbols; the symfile of a
table was rewritten before its columns, so a failure in between left them with
wrong symbols: ids of the ones stored are kept now. Columns of different
lengths (the result of a failed save) made a table reading out of bounds. The
names of columns of partitions were compared by the first one at most, a part
of a directory was taken for all of it, and leftovers of saves for partitions.
---
 core/fs.c   | 24 +++++++++++---
 core/io.c   | 95 ++++++++++++++++++++++++++++++++++++-----------------
 core/vary.c | 22 ++++++-------
 3 files changed, 95 insertions(+), 46 deletions(-)

diff --git a/core/fs.c b/core/fs.c
index e6af79d..8cfdabb 100644
--- a/core/fs.c
+++ b/core/fs.c
@@ -288,16 +288,24 @@ i64_t fs_file_extend(i64_t fd, i64_t size) {
 obj_p fs_read_dir(lit_p path) {
     DIR *dir;
     struct dirent *ent;
-    obj_p lst = LIST(0);
+    obj_p lst = LIST(0), err;
 
     if ((dir = opendir(path)) != NULL) {
-        while ((ent = readdir(dir)) != NULL) {
+        while (errno = 0, (ent = readdir(dir)) != NULL) {
             if (strcmp(ent->d_name, ".") == 0 || strcmp(ent->d_name, "..") == 0)
                 continue;
 
             push_obj(&lst, string_from_str(ent->d_name, strlen(ent->d_name)));
         }
 
+        // a part of the directory is not the directory
+        if (errno != 0) {
+            err = err_os();
+            drop_obj(lst);
+            closedir(dir);
+            return err;
+        }
+
         closedir(dir);
     }
 
@@ -466,16 +474,24 @@ i64_t fs_dclose(i64_t fd) { return closedir((DIR *)fd); }
 obj_p fs_read_dir(lit_p path) {
     DIR *dir;
     struct dirent *ent;
-    obj_p lst = LIST(0);
+    obj_p lst = LIST(0), err;
 
     if ((dir = opendir(path)) != NULL) {
-        while ((ent = readdir(dir)) != NULL) {
+        while (errno = 0, (ent = readdir(dir)) != NULL) {
             if (strcmp(ent->d_name, ".") == 0 || strcmp(ent->d_name, "..") == 0)
                 continue;
 
             push_obj(&lst, string_from_str(ent->d_name, strlen(ent->d_name)));
         }
 
+        // a part of the directory is not the directory
+        if (errno != 0) {
+            err = err_os();
+            drop_obj(lst);
+            closedir(dir);
+            return err;
+        }
+
         closedir(dir);
     }
 
diff --git a/core/io.c b/core/io.c
index 13d2aac..1f15cd8 100644
--- a/core/io.c
+++ b/core/io.c
@@ -1260,9 +1260,29 @@ obj_p io_set_table(obj_p path, obj_p table) {
     return res;
 }
 
+// A file that can not be read is not an absent one
+static b8_t io_file_present(obj_p path) {
+    i64_t fd;
+    obj_p s;
+
+    s = cstring_from_obj(path);
+    fd = fs_fopen(AS_C8(s), ATTR_RDONLY);
+    drop_obj(s);
+
+    if (fd == -1)
+        return errno != ENOENT;
+
+    fs_fclose(fd);
+
+    return B8_TRUE;
+}
+
 obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile) {
     i64_t i, l;
-    obj_p res, col, s, p, v, e, cols, sym;
+    obj_p res, col, s, p, v, e, cols, sym, file;
+
+    if (symfile->type != TYPE_NULL && symfile->type != TYPE_C8)
+        return err_type(TYPE_C8, symfile->type, 0, 0);
 
     // save columns schema
     s = cstring_from_str(".d", 2);
@@ -1289,39 +1309,44 @@ obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile) {
 
     sym = distinct_syms(AS_LIST(cols), cols->len);
 
-    if (sym->len > 0) {
-        switch (symfile->type) {
-            case TYPE_NULL:
-                s = cstring_from_str("sym", 3);
-                col = ray_concat(path, s);
-                res = binary_set(col, sym);
-                drop_obj(s);
-                drop_obj(col);
-                break;
-            case TYPE_C8:
-                // First we need to ckeck if symfile is already exist, if so - we need to merge
-                // it with sym and enumerate symbol columns over the whole new sym file, preserving ids of the old
-                // ones
-                s = ray_get(symfile);
-                if (s->type == TYPE_SYMBOL) {
-                    // First retrieve distinct symbols from the new columns not present in current sym file
-                    v = ray_except(sym, s);
-                    drop_obj(sym);
-                    sym = ray_concat(s, v);
-                    drop_obj(v);
-                }
+    drop_obj(cols);
 
+    if (sym->len > 0) {
+        if (symfile->type == TYPE_NULL) {
+            s = cstring_from_str("sym", 3);
+            file = ray_concat(path, s);
+            drop_obj(s);
+        } else
+            file = clone_obj(symfile);
+
+        // First we need to ckeck if symfile is already exist, if so - we need to merge
+        // it with sym and enumerate symbol columns over the whole new sym file, preserving ids of the old
+        // ones
+        if (io_file_present(file)) {
+            s = ray_get(file);
+            if (IS_ERR(s) || s->type != TYPE_SYMBOL) {
+                res = IS_ERR(s) ? s : err_type(TYPE_SYMBOL, s->type, 0, 0);
                 drop_obj(s);
-                res = binary_set(symfile, sym);
-                break;
-            default:
-                drop_obj(cols);
                 drop_obj(sym);
-                return err_type(TYPE_C8, symfile->type, 0, 0);
+                drop_obj(file);
+                return res;
+            }
+
+            // First retrieve distinct symbols from the new columns not present in current sym file
+            v = ray_except(sym, s);
+            drop_obj(sym);
+            sym = ray_concat(s, v);
+            drop_obj(v);
+            drop_obj(s);
         }
 
-        if (IS_ERR(res))
+        res = binary_set(file, sym);
+        drop_obj(file);
+
+        if (IS_ERR(res)) {
+            drop_obj(sym);
             return res;
+        }
 
         drop_obj(res);
 
@@ -1330,13 +1355,14 @@ obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile) {
 
         drop_obj(s);
 
-        if (IS_ERR(res))
+        if (IS_ERR(res)) {
+            drop_obj(sym);
             return res;
+        }
 
         drop_obj(res);
     }
 
-    drop_obj(cols);
     drop_obj(sym);
     // --
 
@@ -1420,6 +1446,15 @@ obj_p io_get_table_splayed(obj_p path, obj_p symfile) {
 
         AS_LIST(vals)[i] = val;
 
+        // columns of different saves
+        if (ops_count(val) != ops_count(AS_LIST(vals)[0])) {
+            vals->len = i + 1;
+            drop_obj(vals);
+            drop_obj(keys);
+
+            return err_length(0, 0, 0, 0, 0, 0);
+        }
+
         if (val->type == TYPE_ENUM)
             syms_present = B8_TRUE;
     }
diff --git a/core/vary.c b/core/vary.c
index ad17a64..9ea9a4a 100644
--- a/core/vary.c
+++ b/core/vary.c
@@ -185,7 +185,7 @@ obj_p ray_set_parted(obj_p *x, i64_t n) {
 obj_p ray_get_parted(obj_p *x, i64_t n) {
     i8_t type;
     i64_t i, j, l, wide;
-    obj_p path, dir, sym, dirs, gcol, ord, t1, t2, eq, fmaps, virtcol, v, keys, vals, res;
+    obj_p path, dir, sym, dirs, gcol, ord, t1, t2, fmaps, virtcol, v, keys, vals, res;
 
     switch (n) {
         case 2:
@@ -209,14 +209,16 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
                 return dir;
 
             // Get grouping column (parted by)
-            sym = string_from_str("sym", 3);
-            dirs = ray_except(dir, sym);
-            drop_obj(sym);
+            dirs = LIST(0);
+            l = dir->len;
+            for (i = 0; i < l; i++) {
+                v = AS_LIST(dir)[i];
+                // neither the symfile nor what is left of an unfinished save is a partition
+                if (NESTR(AS_C8(v), v->len, "sym", 3) && !(v->len > 0 && AS_C8(v)[0] == '.'))
+                    push_obj(&dirs, clone_obj(v));
+            }
             drop_obj(dir);
 
-            if (IS_ERR(dirs))
-                return dirs;
-
             // Try to convert dirs to a parted column (one of numeric datatypes)
             res = cast_obj(TYPE_DATE, dirs);
 
@@ -314,9 +316,7 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
                 }
 
                 // Partitions must have the same column names
-                eq = ray_eq(AS_LIST(t1)[0], AS_LIST(t2)[0]);
-                if (!eq->b8) {
-                    drop_obj(eq);
+                if (cmp_obj(AS_LIST(t1)[0], AS_LIST(t2)[0]) != 0) {
                     drop_obj(gcol);
                     drop_obj(res);
                     drop_obj(t1);
@@ -326,8 +326,6 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
                     return err_type(0, 0, 0, 0);
                 }
 
-                drop_obj(eq);
-
                 // Partitions must have the same column types
                 for (j = 0; j < wide; j++) {
                     if (AS_LIST(AS_LIST(t1)[1])[j]->type != AS_LIST(AS_LIST(t2)[1])[j]->type) {
-- 
2.43.0


From deb9e409a4fd62b8c67c1973f88ed5aafc803cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:55 +0000
Subject: [PATCH 053/108] fix: a journal is replayed from its start, an item
 that could not be written is not left in it

(read h) of a file decoded what is after its end, (write h x) ignored failures
and left a part of the item, so that nothing written after it could be read.
---
 core/fs.c |  6 ++++++
 core/io.c | 25 +++++++++++++++++++++----
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/core/fs.c b/core/fs.c
index 8cfdabb..c145de1 100644
--- a/core/fs.c
+++ b/core/fs.c
@@ -120,6 +120,8 @@ i64_t fs_file_extend(i64_t fd, i64_t size) {
     return size;
 }
 
+i64_t fs_ftruncate(i64_t fd, i64_t size) { return (fs_file_extend(fd, size) == -1) ? -1 : 0; }
+
 i64_t fs_fclose(i64_t fd) { return CloseHandle((HANDLE)fd); }
 
 i64_t fs_dcreate(lit_p path) { return CreateDirectory(path, NULL); }
@@ -285,6 +287,8 @@ i64_t fs_file_extend(i64_t fd, i64_t size) {
     return size;
 }
 
+i64_t fs_ftruncate(i64_t fd, i64_t size) { return ftruncate(fd, size); }
+
 obj_p fs_read_dir(lit_p path) {
     DIR *dir;
     struct dirent *ent;
@@ -433,6 +437,8 @@ i64_t fs_file_extend(i64_t fd, i64_t size) {
     return size;
 }
 
+i64_t fs_ftruncate(i64_t fd, i64_t size) { return ftruncate(fd, size); }
+
 i64_t fs_fclose(i64_t fd) { return close(fd); }
 
 i64_t fs_dcreate(lit_p path) {
diff --git a/core/io.c b/core/io.c
index 1f15cd8..83edf4c 100644
--- a/core/io.c
+++ b/core/io.c
@@ -244,7 +244,7 @@ obj_p ray_read(obj_p x) {
             sz = size;
 
             while (sz > 0) {
-                cur = map + sz;
+                cur = map + (size - sz);
                 val = de_raw(cur, &sz);
 
                 if (IS_ERR(val)) {
@@ -341,16 +341,33 @@ obj_p io_write(i64_t fd, u8_t msg_type, obj_p obj) {
 }
 
 obj_p ray_write(obj_p x, obj_p y) {
-    i64_t size;
-    obj_p buf;
+    i64_t size, total;
+    obj_p buf, res;
 
     // send to sock handle
     switch (x->type) {
         case -TYPE_I32:
             size = size_obj(y);
+            if (size == 0)
+                return err_type(0, 0, 0, 0);
+
             buf = U8(size);
             size = ser_raw(AS_U8(buf), y);
-            fs_fwrite(x->i32, AS_C8(buf), size);
+            if (size == 0) {
+                drop_obj(buf);
+                return err_type(0, 0, 0, 0);
+            }
+
+            total = fs_fsize(x->i32);
+            if (fs_fwrite(x->i32, AS_C8(buf), size) == -1) {
+                res = err_os();
+                drop_obj(buf);
+                // a part of the item would make the ones after it unreadable
+                if (total >= 0)
+                    fs_ftruncate(x->i32, total);
+                return res;
+            }
+
             drop_obj(buf);
             return NULL_OBJ;
         case -TYPE_I64:
-- 
2.43.0


From 51175df77f81090c085a463f8cfda1b7db23f72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:29 +0000
Subject: [PATCH 054/108] fix: hash tables of keys: a negative key starts
 within the table, a growing table is not written to before it has grown

---
 core/hash.c  |  8 ++++----
 core/index.c | 25 ++++++++++++++++---------
 core/io.c    |  3 +++
 3 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/core/hash.c b/core/hash.c
index f951a05..cfa8e95 100644
--- a/core/hash.c
+++ b/core/hash.c
@@ -113,7 +113,7 @@ i64_t ht_oa_tab_next(obj_p *obj, i64_t key) {
         size = AS_LIST(*obj)[0]->len;
         keys = AS_I64(AS_LIST(*obj)[0]);
 
-        start = (i64_t)key % size;
+        start = (i64_t)((u64_t)key % (u64_t)size);
 
         for (i = start; i < size + start; i++) {
             idx = i % size;
@@ -156,7 +156,7 @@ i64_t ht_oa_tab_insert(obj_p *obj, i64_t key, i64_t val) {
         keys = AS_I64(AS_LIST(*obj)[0]);
         vals = AS_I64(AS_LIST(*obj)[1]);
 
-        start = (i64_t)key % size;
+        start = (i64_t)((u64_t)key % (u64_t)size);
 
         for (i = start; i < size + start; i++) {
             idx = i % size;
@@ -168,7 +168,7 @@ i64_t ht_oa_tab_insert(obj_p *obj, i64_t key, i64_t val) {
             }
 
             if (keys[idx] == key)
-                return vals[i];
+                return vals[idx];
         }
 
         ht_oa_rehash(obj, NULL, NULL);
@@ -211,7 +211,7 @@ i64_t ht_oa_tab_get(obj_p obj, i64_t key) {
     size = AS_LIST(obj)[0]->len;
     keys = AS_I64(AS_LIST(obj)[0]);
 
-    start = (i64_t)key % size;
+    start = (i64_t)((u64_t)key % (u64_t)size);
 
     for (i = start; i < size + start; i++) {
         idx = i % size;
diff --git a/core/index.c b/core/index.c
index a0ca6bd..1296639 100644
--- a/core/index.c
+++ b/core/index.c
@@ -1135,10 +1135,13 @@ obj_p index_in_i32_i64(i32_t x[], i64_t xl, i64_t y[], i64_t yl) {
     set = ht_oa_create(xl, -1);
 
     for (i = 0; i < yl; i++)
-        if (y[i] == NULL_I64)
-            AS_I64(AS_LIST(set)[0])[ht_oa_tab_next(&set, (i64_t)NULL_I32)] = (i64_t)NULL_I32;
-        else if (y[i] > (i64_t)NULL_I32 && y[i] <= (i64_t)INF_I32)
-            AS_I64(AS_LIST(set)[0])[ht_oa_tab_next(&set, y[i])] = y[i];
+        if (y[i] == NULL_I64) {
+            val = ht_oa_tab_next(&set, (i64_t)NULL_I32);
+            AS_I64(AS_LIST(set)[0])[val] = (i64_t)NULL_I32;
+        } else if (y[i] > (i64_t)NULL_I32 && y[i] <= (i64_t)INF_I32) {
+            val = ht_oa_tab_next(&set, y[i]);
+            AS_I64(AS_LIST(set)[0])[val] = y[i];
+        }
 
     for (i = 0; i < xl; i++)
         r[i] = ht_oa_tab_get(set, (i64_t)x[i]) != NULL_I64;
@@ -1275,8 +1278,10 @@ obj_p index_in_i64_i32(i64_t x[], i64_t xl, i32_t y[], i64_t yl) {
     // otherwise, use a hash table
     set = ht_oa_create(xl, -1);
 
-    for (i = 0; i < yl; i++)
-        AS_I64(AS_LIST(set)[0])[ht_oa_tab_next(&set, (i64_t)y[i])] = (i64_t)y[i];
+    for (i = 0; i < yl; i++) {
+        val = ht_oa_tab_next(&set, (i64_t)y[i]);
+        AS_I64(AS_LIST(set)[0])[val] = (i64_t)y[i];
+    }
 
     for (i = 0; i < xl; i++)
         if (x[i] == NULL_I64)
@@ -1349,8 +1354,10 @@ obj_p index_in_i64_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
     for (i = 0; i < yl; i++)
         if (y[i] == NULL_I64)
             nl = B8_TRUE;
-        else
-            AS_I64(AS_LIST(set)[0])[ht_oa_tab_next(&set, y[i])] = y[i];
+        else {
+            val = ht_oa_tab_next(&set, y[i]);
+            AS_I64(AS_LIST(set)[0])[val] = y[i];
+        }
 
     for (i = 0; i < xl; i++)
         if (x[i] == NULL_I64)
@@ -1487,7 +1494,7 @@ obj_p index_find_i32(i32_t x[], i64_t xl, i32_t y[], i64_t yl) {
     }
 
     // otherwise, use a hash table
-    dict = ht_oa_create(xl, TYPE_I32);
+    dict = ht_oa_create(xl, TYPE_I64);
 
     for (i = 0; i < xl; i++) {
         val = ht_oa_tab_next(&dict, (i64_t)x[i]);
diff --git a/core/io.c b/core/io.c
index 83edf4c..794b794 100644
--- a/core/io.c
+++ b/core/io.c
@@ -1210,6 +1210,9 @@ obj_p distinct_syms(obj_p *x, i64_t n) {
     for (i = 0, h = 0; i < n; i++) {
         a = *(x + i);
         for (j = 0; j < l; j++) {
+            // the null symbol is the null of an enum as well
+            if (AS_SYMBOL(a)[j] == NULL_I64)
+                continue;
             p = ht_oa_tab_next(&set, AS_SYMBOL(a)[j]);
             if (AS_SYMBOL(AS_LIST(set)[0])[p] == NULL_I64) {
                 AS_SYMBOL(AS_LIST(set)[0])[p] = AS_SYMBOL(a)[j];
-- 
2.43.0


From 5ffe274bfdf588e3c315b952e6e3b1c0f25ff1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:34 +0000
Subject: [PATCH 055/108] fix: ids of an enum are looked up within its symbols,
 enums are compared and aggregated by their symbols

---
 core/aggr.c     | 31 +++++++++----------
 core/cmp.c      | 81 ++++++++++++++++++++++++++++++++++---------------
 core/compose.c  |  9 +++++-
 core/index.c    |  5 +--
 core/io.c       |  4 ++-
 core/items.c    | 41 ++++++++++++++++---------
 core/items.h    |  5 +++
 core/rayforce.c |  9 +++---
 8 files changed, 121 insertions(+), 64 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index 4cb4c26..8951567 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -416,8 +416,8 @@ obj_p aggr_first_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p a
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
         case TYPE_ENUM:
-            AGGR_ITER(index, len, offset, val, res, i64, i64, $out[$y] = NULL_I64,
-                      if ($out[$y] == NULL_I64) $out[$y] = $in[$x], $out[$y] = NULL_I64);
+            AGGR_ITER(index, len, offset, (val->type == TYPE_ENUM ? ENUM_VAL(val) : val), res, i64, i64,
+                      $out[$y] = NULL_I64, if ($out[$y] == NULL_I64) $out[$y] = $in[$x], $out[$y] = NULL_I64);
             return res;
         case TYPE_F64:
             AGGR_ITER(index, len, offset, val, res, f64, f64, $out[$y] = NULL_F64,
@@ -486,7 +486,7 @@ static b8_t aggr_first_ids_valid(obj_p val, i64_t *first_ids, i64_t *filter_ids,
 
 obj_p aggr_first(obj_p val, obj_p index) {
     i64_t i, j, n, l;
-    i64_t *xo, *xe, *first_ids, *filter_ids;
+    i64_t *xo, *first_ids, *filter_ids;
     obj_p parts, res, ek, filter, sym;
 
     n = index_group_count(index);
@@ -559,7 +559,7 @@ obj_p aggr_first(obj_p val, obj_p index) {
                 return res;
             }
             case TYPE_ENUM: {
-                i64_t *in = AS_I64(val);
+                i64_t *in = AS_I64(ENUM_VAL(val));
                 res = I64(n);
                 i64_t *out = AS_I64(res);
                 if (filter_ids) {
@@ -582,10 +582,9 @@ obj_p aggr_first(obj_p val, obj_p index) {
                     drop_obj(res);
                     return err_type(0, 0, 0, 0);
                 }
-                xe = AS_SYMBOL(sym);
                 xo = AS_SYMBOL(res);
                 for (i = 0; i < n; i++)
-                    xo[i] = xe[xo[i]];
+                    xo[i] = enum_symbol(sym, xo[i]);
                 drop_obj(sym);
                 res->type = TYPE_SYMBOL;
                 return res;
@@ -656,7 +655,7 @@ obj_p aggr_first(obj_p val, obj_p index) {
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
         case TYPE_ENUM:
-            parts = aggr_map((raw_p)aggr_first_partial, val, val->type, index);
+            parts = aggr_map((raw_p)aggr_first_partial, val, val->type == TYPE_ENUM ? TYPE_I64 : val->type, index);
             if (IS_ERR(parts))
                 return parts;
             res = AGGR_COLLECT(parts, n, i64, i64, if ($out[$y] == NULL_I64) $out[$y] = $in[$x]);
@@ -679,10 +678,9 @@ obj_p aggr_first(obj_p val, obj_p index) {
                     return err_type(0, 0, 0, 0);
                 }
 
-                xe = AS_SYMBOL(sym);
                 xo = AS_SYMBOL(res);
                 for (i = 0; i < n; i++)
-                    xo[i] = xe[xo[i]];
+                    xo[i] = enum_symbol(sym, xo[i]);
 
                 drop_obj(sym);
                 res->type = TYPE_SYMBOL;
@@ -913,8 +911,8 @@ obj_p aggr_last_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p ar
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
         case TYPE_ENUM:
-            AGGR_ITER(index, len, offset, val, res, i64, i64, $out[$y] = NULL_I64,
-                      if ($in[$x] != NULL_I64) $out[$y] = $in[$x], $out[$y] = NULL_I64);
+            AGGR_ITER(index, len, offset, (val->type == TYPE_ENUM ? ENUM_VAL(val) : val), res, i64, i64,
+                      $out[$y] = NULL_I64, if ($in[$x] != NULL_I64) $out[$y] = $in[$x], $out[$y] = NULL_I64);
             return res;
         case TYPE_F64:
             AGGR_ITER(index, len, offset, val, res, f64, f64, $out[$y] = NULL_F64,
@@ -942,7 +940,7 @@ obj_p aggr_last_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p ar
 
 obj_p aggr_last(obj_p val, obj_p index) {
     i64_t i, j, n, l;
-    i64_t *xo, *xe;
+    i64_t *xo;
     obj_p parts, res, ek, sym, filter;
 
     n = index_group_count(index);
@@ -970,7 +968,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
         case TYPE_ENUM:
-            parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
+            parts = aggr_map((raw_p)aggr_last_partial, val, val->type == TYPE_ENUM ? TYPE_I64 : val->type, index);
             if (IS_ERR(parts))
                 return parts;
             res = AGGR_COLLECT(parts, n, i64, i64, if ($in[$x] != NULL_I64) $out[$y] = $in[$x]);
@@ -991,12 +989,12 @@ obj_p aggr_last(obj_p val, obj_p index) {
                     return err_type(0, 0, 0, 0);
                 }
 
-                xe = AS_SYMBOL(sym);
                 xo = AS_I64(res);
                 for (i = 0; i < n; i++)
-                    xo[i] = xe[xo[i]];
+                    xo[i] = enum_symbol(sym, xo[i]);
 
                 drop_obj(sym);
+                res->type = TYPE_SYMBOL;
             }
 
             return res;
@@ -3118,7 +3116,8 @@ obj_p aggr_collect(obj_p val, obj_p index) {
                 return err_type(0, 0, 0, 0);
             }
 
-            AGGR_ITER(index, l, 0, val, res, i64, list, , push_raw($out + $y, AS_SYMBOL(v) + $in[$x]), );
+            AGGR_ITER(index, l, 0, ENUM_VAL(val), res, i64, list, , i64_t sym = enum_symbol(v, $in[$x]);
+                      push_raw($out + $y, &sym), );
             drop_obj(v);
             return res;
         case TYPE_GUID:
diff --git a/core/cmp.c b/core/cmp.c
index 0926778..72c1153 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -70,7 +70,7 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
 #define __DECLARE_CMP_FN(op)                                                                   \
     obj_p ray_##op##_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p res) {           \
         i64_t i;                                                                               \
-        i64_t *xi, *ei, si;                                                                    \
+        i64_t *xi, *ei;                                                                        \
         b8_t *out;                                                                             \
         obj_p k, sym, e;                                                                       \
                                                                                                \
@@ -269,60 +269,94 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
                     return err_type(0, 0, 0, 0);                                       \
                 }                                                                              \
                                                                                                \
-                xi = AS_I64(sym);                                                              \
                 ei = AS_I64(e) + offset;                                                       \
-                si = y->i64;                                                                   \
                 out = AS_B8(res) + offset;                                                     \
                                                                                                \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = xi[ei[i]] == si;                                                  \
+                    out[i] = op##I64(enum_symbol(sym, ei[i]), y->i64);                         \
                                                                                                \
                 drop_obj(sym);                                                                 \
-                return res;                                                                    \
+                return NULL_OBJ;                                                               \
             case MTYPE2(-TYPE_SYMBOL, TYPE_ENUM):                                              \
-                return ray_##op##_partial(y, x, len, offset, res);                             \
-            case MTYPE2(TYPE_ENUM, TYPE_SYMBOL):                                               \
                 k = ray_key(y);                                                                \
                 sym = ray_get(k);                                                              \
                 drop_obj(k);                                                                   \
                                                                                                \
                 e = ENUM_VAL(y);                                                               \
                                                                                                \
+                if (is_null(sym) || sym->type != TYPE_SYMBOL) {                                \
+                    drop_obj(sym);                                                             \
+                    return err_type(0, 0, 0, 0);                                               \
+                }                                                                              \
+                                                                                               \
+                ei = AS_I64(e) + offset;                                                       \
+                out = AS_B8(res) + offset;                                                     \
+                                                                                               \
+                for (i = 0; i < len; i++)                                                      \
+                    out[i] = op##I64(x->i64, enum_symbol(sym, ei[i]));                         \
+                                                                                               \
+                drop_obj(sym);                                                                 \
+                return NULL_OBJ;                                                               \
+            case MTYPE2(TYPE_ENUM, TYPE_SYMBOL):                                               \
+                k = ray_key(x);                                                                \
+                sym = ray_get(k);                                                              \
+                drop_obj(k);                                                                   \
+                                                                                               \
+                e = ENUM_VAL(x);                                                               \
+                                                                                               \
                 if (is_null(sym) || sym->type != TYPE_SYMBOL) {                                \
                     drop_obj(sym);                                                             \
                     return err_type(0, 0, 0, 0);                                       \
                 }                                                                              \
                                                                                                \
-                xi = AS_I64(x);                                                                \
+                xi = AS_I64(y) + offset;                                                       \
                 ei = AS_I64(e) + offset;                                                       \
-                si = sym->i64;                                                                 \
                 out = AS_B8(res) + offset;                                                     \
                                                                                                \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = xi[i] == ei[si];                                                  \
+                    out[i] = op##I64(enum_symbol(sym, ei[i]), xi[i]);                          \
                                                                                                \
                 drop_obj(sym);                                                                 \
-                return res;                                                                    \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_SYMBOL, TYPE_ENUM):                                               \
-                return ray_##op##_partial(y, x, len, offset, res);                             \
+                k = ray_key(y);                                                                \
+                sym = ray_get(k);                                                              \
+                drop_obj(k);                                                                   \
+                                                                                               \
+                e = ENUM_VAL(y);                                                               \
+                                                                                               \
+                if (is_null(sym) || sym->type != TYPE_SYMBOL) {                                \
+                    drop_obj(sym);                                                             \
+                    return err_type(0, 0, 0, 0);                                               \
+                }                                                                              \
+                                                                                               \
+                xi = AS_I64(x) + offset;                                                       \
+                ei = AS_I64(e) + offset;                                                       \
+                out = AS_B8(res) + offset;                                                     \
+                                                                                               \
+                for (i = 0; i < len; i++)                                                      \
+                    out[i] = op##I64(xi[i], enum_symbol(sym, ei[i]));                          \
+                                                                                               \
+                drop_obj(sym);                                                                 \
+                return NULL_OBJ;                                                               \
                                                                                                \
             case MTYPE2(-TYPE_GUID, -TYPE_GUID):                                               \
                 return b8(op##GUID(AS_GUID(x)[0], AS_GUID(y)[0]));                             \
             case MTYPE2(-TYPE_GUID, TYPE_GUID):                                                \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = op##GUID(AS_GUID(x)[0], AS_GUID(y)[i]);                           \
-                return res;                                                                    \
+                    out[i] = op##GUID(AS_GUID(x)[0], AS_GUID(y)[offset + i]);                  \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_GUID, -TYPE_GUID):                                                \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = op##GUID(AS_GUID(x)[i], AS_GUID(y)[0]);                           \
-                return res;                                                                    \
+                    out[i] = op##GUID(AS_GUID(x)[offset + i], AS_GUID(y)[0]);                  \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_GUID, TYPE_GUID):                                                 \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = op##GUID(AS_GUID(x)[i], AS_GUID(y)[i]);                           \
-                return res;                                                                    \
+                    out[i] = op##GUID(AS_GUID(x)[offset + i], AS_GUID(y)[offset + i]);         \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_ERR, TYPE_ERR):                                                   \
                 return b8(cmp_obj(x, y) == 0);                                                 \
             case MTYPE2(TYPE_NULL, TYPE_NULL):                                                 \
@@ -359,7 +393,7 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
     } else if (y->type == TYPE_MAPCOMMON) {
         l = AS_LIST(y)[0]->len;
         res = B8(l);
-        v = cmp_fn(x, AS_LIST(y)[0], l, 0, NULL_OBJ);
+        v = cmp_fn(x, AS_LIST(y)[0], l, 0, res);
         if (IS_ERR(v)) {
             drop_obj(res);
             return v;
@@ -637,14 +671,13 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
     }
 
     if (IS_VECTOR(x) && IS_VECTOR(y)) {
-        if (x->len != y->len)
+        l = ops_count(x);
+        if (l != ops_count(y))
             return err_length(0, 0, 0, 0, 0, 0);
-
-        l = x->len;
     } else if (IS_VECTOR(x))
-        l = x->len;
+        l = ops_count(x);
     else if (IS_VECTOR(y))
-        l = y->len;
+        l = ops_count(y);
     else {
         return cmp_fn(x, y, 1, 0, NULL_OBJ);
     }
diff --git a/core/compose.c b/core/compose.c
index 6c1f21c..ffa9256 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -387,6 +387,7 @@ obj_p ray_enlist(obj_p *x, i64_t n) {
 }
 
 obj_p ray_enum(obj_p x, obj_p y) {
+    i64_t i;
     obj_p s, v;
 
     switch (MTYPE2(x->type, y->type)) {
@@ -401,7 +402,13 @@ obj_p ray_enum(obj_p x, obj_p y) {
                 return err_type(TYPE_SYMBOL, s ? s->type : 0, 0, 0);
             }
 
-            v = index_find_i64(AS_I64(s), s->len, AS_I64(y), y->len);
+            if (s->len == 0) {
+                // none of them is there
+                v = I64(y->len);
+                for (i = 0; i < y->len; i++)
+                    AS_I64(v)[i] = NULL_I64;
+            } else
+                v = index_find_i64(AS_I64(s), s->len, AS_I64(y), y->len);
             drop_obj(s);
 
             if (IS_ERR(v)) {
diff --git a/core/index.c b/core/index.c
index 1296639..03f135a 100644
--- a/core/index.c
+++ b/core/index.c
@@ -1537,9 +1537,10 @@ obj_p index_find_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
         return vec;
     }
 
-    range = max - min + 1;
+    range = (i64_t)((u64_t)max - (u64_t)min + 1);
 
-    if (range <= MAX_RANGE) {
+    // the range of values with nulls among them does not fit
+    if (range > 0 && range <= MAX_RANGE) {
         dict = I64(range);
         d = AS_I64(dict);
 
diff --git a/core/io.c b/core/io.c
index 794b794..c795d9a 100644
--- a/core/io.c
+++ b/core/io.c
@@ -1299,6 +1299,7 @@ static b8_t io_file_present(obj_p path) {
 
 obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile) {
     i64_t i, l;
+    b8_t enums;
     obj_p res, col, s, p, v, e, cols, sym, file;
 
     if (symfile->type != TYPE_NULL && symfile->type != TYPE_C8)
@@ -1328,10 +1329,11 @@ obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile) {
     }
 
     sym = distinct_syms(AS_LIST(cols), cols->len);
+    enums = cols->len > 0;
 
     drop_obj(cols);
 
-    if (sym->len > 0) {
+    if (enums) {
         if (symfile->type == TYPE_NULL) {
             s = cstring_from_str("sym", 3);
             file = ray_concat(path, s);
diff --git a/core/items.c b/core/items.c
index bde812c..ae44615 100644
--- a/core/items.c
+++ b/core/items.c
@@ -204,22 +204,29 @@ obj_p ray_at(obj_p x, obj_p y) {
 
             v = ENUM_VAL(x);
 
-            if (y->i64 >= (i64_t)v->len) {
+            j = y->i64;
+            if (j < 0)
+                j = v->len + j;
+
+            if (j < 0 || j >= (i64_t)v->len) {
                 drop_obj(s);
                 return err_index(y->i64, v->len, 0, 0);
             }
 
+            j = AS_I64(v)[j];
+
             if (!s || IS_ERR(s) || s->type != TYPE_SYMBOL) {
                 drop_obj(s);
-                return i64(AS_I64(v)[y->i64]);
+                return i64(j);
             }
 
-            if (AS_I64(v)[y->i64] >= (i64_t)s->len) {
+            if (j >= (i64_t)s->len) {
+                n = s->len;
                 drop_obj(s);
-                return err_index(AS_I64(v)[y->i64], s->len, 0, 0);
+                return err_index(j, n, 0, 0);
             }
 
-            res = at_idx(s, AS_I64(v)[y->i64]);
+            res = symboli64(enum_symbol(s, j));
 
             drop_obj(s);
 
@@ -243,7 +250,7 @@ obj_p ray_at(obj_p x, obj_p y) {
                 res = I64(yl);
 
                 for (i = 0; i < yl; i++) {
-                    if (AS_I64(y)[i] >= (i64_t)n) {
+                    if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= (i64_t)n) {
                         drop_obj(s);
                         drop_obj(res);
                         return err_index(AS_I64(y)[i], n, 0, 0);
@@ -260,13 +267,21 @@ obj_p ray_at(obj_p x, obj_p y) {
             res = SYMBOL(yl);
 
             for (i = 0; i < yl; i++) {
-                if (AS_I64(v)[i] >= (i64_t)xl) {
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= (i64_t)n) {
+                    drop_obj(s);
+                    drop_obj(res);
+                    return err_index(AS_I64(y)[i], n, 0, 0);
+                }
+
+                j = AS_I64(v)[AS_I64(y)[i]];
+
+                if (j >= (i64_t)xl) {
                     drop_obj(s);
                     drop_obj(res);
-                    return err_index(AS_I64(v)[i], xl, 0, 0);
+                    return err_index(j, xl, 0, 0);
                 }
 
-                AS_SYMBOL(res)[i] = AS_SYMBOL(s)[AS_I64(v)[AS_I64(y)[i]]];
+                AS_SYMBOL(res)[i] = enum_symbol(s, j);
             }
 
             drop_obj(s);
@@ -1161,7 +1176,7 @@ obj_p ray_key(obj_p x) {
 obj_p ray_value(obj_p x) {
     obj_p sym, k, v, res, e, *objptr;
     u8_t *u8ptr;
-    i64_t i, j, l, n, sl, xl, *i64ptr;
+    i64_t i, j, l, n, xl, *i64ptr;
     i16_t *i16ptr;
     i32_t *i32ptr;
     f64_t *f64ptr;
@@ -1188,15 +1203,11 @@ obj_p ray_value(obj_p x) {
                 return res;
             }
 
-            sl = sym->len;
 
             res = SYMBOL(xl);
 
             for (i = 0; i < xl; i++) {
-                if (AS_I64(e)[i] < sl)
-                    AS_SYMBOL(res)[i] = AS_SYMBOL(sym)[AS_I64(e)[i]];
-                else
-                    AS_SYMBOL(res)[i] = NULL_I64;
+                AS_SYMBOL(res)[i] = enum_symbol(sym, AS_I64(e)[i]);
             }
 
             drop_obj(sym);
diff --git a/core/items.h b/core/items.h
index 43320d6..1519a58 100644
--- a/core/items.h
+++ b/core/items.h
@@ -41,6 +41,11 @@ obj_p ray_key(obj_p x);
 obj_p ray_value(obj_p x);
 obj_p ray_where(obj_p x);
 obj_p maplist_item(obj_p x, i64_t i);
+
+// Symbol an id of an enum stands for, the null one if it stands for none
+static inline i64_t enum_symbol(obj_p sym, i64_t id) {
+    return ((u64_t)id < (u64_t)sym->len) ? AS_SYMBOL(sym)[id] : NULL_I64;
+}
 obj_p ray_bin(obj_p x, obj_p y);
 obj_p ray_binr(obj_p x, obj_p y);
 
diff --git a/core/rayforce.c b/core/rayforce.c
index 90dce8d..cabb6fd 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -856,8 +856,7 @@ obj_p at_idx(obj_p obj, i64_t idx) {
                     drop_obj(v);
                     return i64(AS_I64(ENUM_VAL(obj))[idx]);
                 }
-                idx = AS_I64(ENUM_VAL(obj))[idx];
-                res = at_idx(v, idx);
+                res = symboli64(enum_symbol(v, AS_I64(ENUM_VAL(obj))[idx]));
                 drop_obj(v);
                 return res;
             }
@@ -984,7 +983,7 @@ obj_p at_idx(obj_p obj, i64_t idx) {
                         drop_obj(v);
                         return i64(raw_idx);
                     }
-                    res = at_idx(v, raw_idx);
+                    res = symboli64(enum_symbol(v, raw_idx));
                     drop_obj(v);
                     return res;
                 }
@@ -1173,7 +1172,7 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
 
             res = SYMBOL(len);
             for (i = 0; i < len; i++)
-                AS_I64(res)[i] = AS_I64(v)[AS_I64(ENUM_VAL(obj))[ids[i]]];
+                AS_I64(res)[i] = enum_symbol(v, AS_I64(ENUM_VAL(obj))[ids[i]]);
 
             drop_obj(v);
 
@@ -1285,7 +1284,7 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
                     m = n;
                     n += AS_LIST(obj)[++mapid]->len;
                 }
-                AS_I64(res)[i] = AS_I64(v)[AS_I64(ENUM_VAL(AS_LIST(obj)[mapid]))[ids[i] - m]];
+                AS_I64(res)[i] = enum_symbol(v, AS_I64(ENUM_VAL(AS_LIST(obj)[mapid]))[ids[i] - m]);
             }
 
             drop_obj(v);
-- 
2.43.0


From c4b1c55bf9b59a090ac71b9d6d64e1fc4c2bacbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:58 +0000
Subject: [PATCH 056/108] fix: enums and mapped lists are concatenated by their
 values

---
 core/compose.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/core/compose.c b/core/compose.c
index ffa9256..ae101e4 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -473,6 +473,25 @@ obj_p ray_concat(obj_p x, obj_p y) {
     i64_t i, xl, yl;
     obj_p vec, kx, kxy, ix, iy, dx, dy;
 
+    // enums and mapped lists are joined by their values
+    if (x->type == TYPE_ENUM || x->type == TYPE_MAPLIST || y->type == TYPE_ENUM || y->type == TYPE_MAPLIST) {
+        kx = (x->type == TYPE_ENUM || x->type == TYPE_MAPLIST) ? ray_value(x) : clone_obj(x);
+        if (IS_ERR(kx))
+            return kx;
+
+        kxy = (y->type == TYPE_ENUM || y->type == TYPE_MAPLIST) ? ray_value(y) : clone_obj(y);
+        if (IS_ERR(kxy)) {
+            drop_obj(kx);
+            return kxy;
+        }
+
+        vec = ray_concat(kx, kxy);
+        drop_obj(kx);
+        drop_obj(kxy);
+
+        return vec;
+    }
+
     switch (MTYPE2(x->type, y->type)) {
         case MTYPE2(-TYPE_B8, -TYPE_B8):
             vec = B8(2);
-- 
2.43.0


From 04a6b61315ab5e29b843895af01405f9a9d5d3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 057/108] fix: the schema of a splayed table is saved after its
 columns, a part of an older table does not appear in it

---
 core/io.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/core/io.c b/core/io.c
index c795d9a..0b476a4 100644
--- a/core/io.c
+++ b/core/io.c
@@ -1305,19 +1305,6 @@ obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile) {
     if (symfile->type != TYPE_NULL && symfile->type != TYPE_C8)
         return err_type(TYPE_C8, symfile->type, 0, 0);
 
-    // save columns schema
-    s = cstring_from_str(".d", 2);
-    col = ray_concat(path, s);
-    res = binary_set(col, AS_LIST(table)[0]);
-
-    drop_obj(s);
-    drop_obj(col);
-
-    if (IS_ERR(res))
-        return res;
-
-    drop_obj(res);
-
     l = AS_LIST(table)[0]->len;
 
     cols = LIST(0);
@@ -1421,6 +1408,19 @@ obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile) {
         drop_obj(res);
     }
 
+    // save columns schema, columns it did not have before are there by now
+    s = cstring_from_str(".d", 2);
+    col = ray_concat(path, s);
+    res = binary_set(col, AS_LIST(table)[0]);
+
+    drop_obj(s);
+    drop_obj(col);
+
+    if (IS_ERR(res))
+        return res;
+
+    drop_obj(res);
+
     return clone_obj(path);
 }
 
-- 
2.43.0


From 8d30593142d823e5ef9373e3a788d695ede23597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:55 +0000
Subject: [PATCH 058/108] fix: the text of a file whose size is not known is
 not read

---
 core/io.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/core/io.c b/core/io.c
index 0b476a4..555c8ff 100644
--- a/core/io.c
+++ b/core/io.c
@@ -286,7 +286,22 @@ obj_p ray_read(obj_p x) {
             }
 
             size = fs_fsize(fd);
+
+            if (size == -1) {
+                res = err_os();
+                fs_fclose(fd);
+                drop_obj(s);
+                return res;
+            }
+
             res = C8(size + 1);
+
+            if (IS_ERR(res)) {
+                fs_fclose(fd);
+                drop_obj(s);
+                return res;
+            }
+
             buf = AS_C8(res);
             c = fs_fread(fd, buf, size);
             buf[size] = '\0';
-- 
2.43.0


From 01742dfbade048b1851a203ddc5a8bd282e14884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:28 +0000
Subject: [PATCH 059/108] fix: an enum of twenty items or more is formatted
 without end

---
 core/format.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/format.c b/core/format.c
index 6870b0e..d92ec06 100644
--- a/core/format.c
+++ b/core/format.c
@@ -928,7 +928,7 @@ i64_t list_fmt_into(obj_p *dst, i64_t indent, i64_t limit, b8_t full, obj_p obj)
 
 i64_t enum_fmt_into(obj_p *dst, i64_t indent, i64_t limit, obj_p obj) {
     i64_t n;
-    obj_p s, e, idx;
+    obj_p s, e, v, idx;
 
     s = ray_key(obj);
 
@@ -938,8 +938,11 @@ i64_t enum_fmt_into(obj_p *dst, i64_t indent, i64_t limit, obj_p obj) {
     if (ENUM_VAL(obj)->len >= TABLE_MAX_HEIGHT) {
         limit = TABLE_MAX_HEIGHT;
         idx = i64(TABLE_MAX_HEIGHT);
-        e = ray_take(obj, idx);
+        v = ray_take(obj, idx);
         drop_obj(idx);
+        // the items taken from an enum are an enum as well
+        e = (v->type == TYPE_ENUM) ? ray_value(v) : clone_obj(v);
+        drop_obj(v);
     } else
         e = ray_value(obj);
 
-- 
2.43.0


From 7701ef27fdab6c1873c2c966144b8f3d90b5ee52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 060/108] fix: the last line of a csv file without a newline at
 its end is not read

---
 core/io.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/io.c b/core/io.c
index 555c8ff..2b8814d 100644
--- a/core/io.c
+++ b/core/io.c
@@ -137,6 +137,16 @@ i64_t io_build_line_index(str_p buf, i64_t size, i64_t **line_offsets_out) {
         pos++;
     }
 
+    // The last line may have no newline at its end
+    if (size > 0 && buf[size - 1] != '\n') {
+        if (line_count >= capacity) {
+            offsets = grow_offsets(offsets, &capacity, line_count);
+            if (offsets == NULL)
+                return -1;
+        }
+        offsets[line_count++] = size;
+    }
+
     *line_offsets_out = offsets;
     return line_count - 1;  // Number of actual lines (excluding the sentinel offset)
 }
-- 
2.43.0


From eed29e42a0216541c0421dac60674f602d35502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 061/108] fix: the line index of a csv file is unmapped with a
 size other than its own

---
 core/io.c | 16 ++++++++--------
 core/io.h |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/core/io.c b/core/io.c
index 2b8814d..a5e9d1b 100644
--- a/core/io.c
+++ b/core/io.c
@@ -49,8 +49,10 @@ typedef u8_t v32u8 __attribute__((vector_size(32)));
 static i64_t *grow_offsets(i64_t *offsets, i64_t *capacity, i64_t line_count) {
     i64_t new_capacity = *capacity * 2;
     i64_t *new_offsets = (i64_t *)heap_mmap(new_capacity * sizeof(i64_t));
-    if (new_offsets == NULL)
+    if (new_offsets == NULL) {
+        heap_unmap(offsets, *capacity * sizeof(i64_t));
         return NULL;
+    }
     memcpy(new_offsets, offsets, line_count * sizeof(i64_t));
     heap_unmap(offsets, *capacity * sizeof(i64_t));
     *capacity = new_capacity;
@@ -60,7 +62,7 @@ static i64_t *grow_offsets(i64_t *offsets, i64_t *capacity, i64_t line_count) {
 // Build line offset index in single pass with SIMD acceleration
 // Returns number of lines, allocates line_offsets_out array
 // line_offsets[i] = byte offset where line i starts (line 0 is first data line after header)
-i64_t io_build_line_index(str_p buf, i64_t size, i64_t **line_offsets_out) {
+i64_t io_build_line_index(str_p buf, i64_t size, i64_t **line_offsets_out, i64_t *capacity_out) {
     i64_t capacity;
     i64_t line_count = 0;
     i64_t *offsets;
@@ -148,6 +150,7 @@ i64_t io_build_line_index(str_p buf, i64_t size, i64_t **line_offsets_out) {
     }
 
     *line_offsets_out = offsets;
+    *capacity_out = capacity;
     return line_count - 1;  // Number of actual lines (excluding the sentinel offset)
 }
 
@@ -779,9 +782,11 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
             }
 
             // Build line offset index in single pass (replaces separate line counting + batch scanning)
-            lines = io_build_line_index(buf, size, &line_offsets);
+            lines = io_build_line_index(buf, size, &line_offsets, &line_index_capacity);
 
             if (lines <= 0 || line_offsets == NULL) {
+                if (line_offsets != NULL)
+                    heap_unmap(line_offsets, line_index_capacity * sizeof(i64_t));
                 drop_obj(types);
                 fs_fclose(fd);
                 mmap_free(buf, size);
@@ -789,11 +794,6 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
                 return err_length(0, 0, 0, 0, 0, 0);
             }
 
-            // Calculate capacity for cleanup (next power of 2 >= lines+1)
-            line_index_capacity = 1024;
-            while (line_index_capacity < lines + 2)
-                line_index_capacity *= 2;
-
             // parse header (line 0)
             pos = buf + line_offsets[1];  // End of header line
             if (pos > buf && *(pos - 1) == '\n')
diff --git a/core/io.h b/core/io.h
index dd4aebd..fbcd0b5 100644
--- a/core/io.h
+++ b/core/io.h
@@ -47,6 +47,6 @@ obj_p io_get_table_splayed(obj_p path, obj_p symfile);
 obj_p io_read_csv(i8_t *types, i64_t num_types, str_p buf, i64_t size, i64_t total_lines, i64_t *line_offsets,
                   obj_p cols, c8_t sep);
 i64_t io_symbol_from_str_trimmed(str_p src, i64_t len);
-i64_t io_build_line_index(str_p buf, i64_t size, i64_t **line_offsets_out);
+i64_t io_build_line_index(str_p buf, i64_t size, i64_t **line_offsets_out, i64_t *capacity_out);
 
 #endif  // IO_H
-- 
2.43.0


From df7a52dbab84a3c5f6e7b5d4ba62f45cd1b6a2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 062/108] fix: a csv file that can not be read leaves memory
 behind, the items of a column of strings are dropped uninitialized

---
 core/io.c | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/core/io.c b/core/io.c
index a5e9d1b..ac3ee6b 100644
--- a/core/io.c
+++ b/core/io.c
@@ -579,7 +579,7 @@ obj_p parse_csv_line(i8_t types[], i64_t cnt, str_p start, str_p end, i64_t row,
 
 obj_p parse_csv_range(i8_t types[], i64_t num_types, str_p buf, i64_t size, i64_t lines, i64_t start_line, obj_p cols,
                       c8_t sep) {
-    i64_t i, j, k, l;
+    i64_t i;
     str_p line_end, prev;
     obj_p res = NULL_OBJ;
 
@@ -597,18 +597,8 @@ obj_p parse_csv_range(i8_t types[], i64_t num_types, str_p buf, i64_t size, i64_
 
         res = parse_csv_line(types, num_types, prev, line_end, start_line + i, cols, sep);
 
-        if (res != NULL_OBJ) {
-            l = cols->len;
-            for (j = 0; j < l; j++) {
-                // Need to free allocated objects in case of compound type
-                if (AS_LIST(cols)[j]->type == TYPE_LIST) {
-                    for (k = 0; k < i; k++) {
-                        drop_obj(AS_LIST(AS_LIST(cols)[j])[k]);
-                    }
-                }
-                return res;
-            }
-        }
+        if (res != NULL_OBJ)
+            return res;
 
         prev = line_end + 1;  // Move past the newline
     }
@@ -777,8 +767,10 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
 
             if (buf == NULL) {
                 drop_obj(types);
+                res = err_os();
                 fs_fclose(fd);
-                return err_os();
+                drop_obj(path);
+                return res;
             }
 
             // Build line offset index in single pass (replaces separate line counting + batch scanning)
@@ -813,6 +805,7 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
                         drop_obj(names);
                         fs_fclose(fd);
                         mmap_free(buf, size);
+                        drop_obj(path);
                         heap_unmap(line_offsets, line_index_capacity * sizeof(i64_t));
                         return err_length(0, 0, 0, 0, 0, 0);
                     }
@@ -853,9 +846,12 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
             // allocate columns
             cols = LIST(l);
             for (i = 0; i < l; i++) {
-                if (AS_C8(types)[i] == TYPE_C8)
+                if (AS_C8(types)[i] == TYPE_C8) {
+                    // an error leaves some of the items out
                     AS_LIST(cols)[i] = LIST(lines);
-                else
+                    for (len = 0; len < lines; len++)
+                        AS_LIST(AS_LIST(cols)[i])[len] = NULL_OBJ;
+                } else
                     AS_LIST(cols)[i] = vector(AS_C8(types)[i], lines);
             }
 
@@ -871,10 +867,6 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
 
             if (!is_null(res)) {
                 drop_obj(names);
-                l = cols->len;
-                for (i = 0; i < l; i++)
-                    AS_LIST(cols)[i]->len = 0;
-
                 drop_obj(cols);
                 return res;
             }
-- 
2.43.0


From 965460a6f85b0376c7860c25aa89fabc96cf27d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 063/108] fix: a csv field that is not a number reads as
 uninitialized memory, the last empty field of a line is not null before a
 carriage return

---
 core/io.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/io.c b/core/io.c
index ac3ee6b..4c07b1c 100644
--- a/core/io.c
+++ b/core/io.c
@@ -443,6 +443,7 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
                 AS_I32(out)[row] = NULL_I32;
                 break;
             }
+            AS_I32(out)[row] = NULL_I32;
             i32_from_str(start, end - start, &AS_I32(out)[row]);
             break;
         case TYPE_DATE:
@@ -479,6 +480,7 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
                 AS_F64(out)[row] = NULL_F64;
                 break;
             }
+            AS_F64(out)[row] = NULL_F64;
             f64_from_str(start, end - start, &AS_F64(out)[row]);
             break;
         case TYPE_SYMBOL:
@@ -580,7 +582,7 @@ obj_p parse_csv_line(i8_t types[], i64_t cnt, str_p start, str_p end, i64_t row,
 obj_p parse_csv_range(i8_t types[], i64_t num_types, str_p buf, i64_t size, i64_t lines, i64_t start_line, obj_p cols,
                       c8_t sep) {
     i64_t i;
-    str_p line_end, prev;
+    str_p line_end, prev, next;
     obj_p res = NULL_OBJ;
 
     for (i = 0, prev = buf; i < lines; i++) {
@@ -589,18 +591,20 @@ obj_p parse_csv_range(i8_t types[], i64_t num_types, str_p buf, i64_t size, i64_
             __builtin_prefetch(prev + 256, 0, 1);
 
         line_end = (str_p)memchr(prev, '\n', buf + size - prev);
-        if (line_end == NULL) {
+        if (line_end == NULL)
             line_end = buf + size;  // Handle last line without newline
-            if (line_end > prev && *(line_end - 1) == '\r')
-                line_end--;  // Handle carriage return
-        }
+
+        // Handle carriage return
+        next = line_end + 1;
+        if (line_end > prev && *(line_end - 1) == '\r')
+            line_end--;
 
         res = parse_csv_line(types, num_types, prev, line_end, start_line + i, cols, sep);
 
         if (res != NULL_OBJ)
             return res;
 
-        prev = line_end + 1;  // Move past the newline
+        prev = next;  // Move past the newline
     }
 
     return NULL_OBJ;  // Success
-- 
2.43.0


From 7726010b06bcb39e9d7ad3aae516f25ec4fbe49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 064/108] fix: a quote within a quoted csv field ends it, a
 line that ends with a quoted field goes on with the next one

---
 core/io.c | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/core/io.c b/core/io.c
index 4c07b1c..d3eb493 100644
--- a/core/io.c
+++ b/core/io.c
@@ -518,9 +518,9 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
 }
 
 obj_p parse_csv_line(i8_t types[], i64_t cnt, str_p start, str_p end, i64_t row, obj_p cols, c8_t sep) {
-    i64_t i, len;
+    i64_t i, len, quotes;
     str_p prev, pos;
-    obj_p res;
+    obj_p res, field;
 
     for (i = 0, pos = start; i < cnt; i++) {
         if (pos == NULL || end == NULL) {
@@ -538,17 +538,40 @@ obj_p parse_csv_line(i8_t types[], i64_t cnt, str_p start, str_p end, i64_t row,
         // quoted field?
         if (len > 0 && *prev == '"') {
             prev++;
-            pos = (str_p)memchr(prev, '"', len - 1);
+            quotes = 0;
+
+            // a doubled quote belongs to the field
+            for (pos = prev;; pos += 2, quotes++) {
+                pos = (pos < end) ? (str_p)memchr(pos, '"', end - pos) : NULL;
+                if (pos == NULL || pos + 1 >= end || pos[1] != '"')
+                    break;
+            }
 
             if (pos == NULL)
                 return err_length(0, 0, 0, 0, 0, 0);
 
-            res = parse_csv_field(types[i], prev, pos, row, AS_LIST(cols)[i]);
-            pos += 2;  // skip quote and comma
+            if (quotes > 0) {
+                field = C8(pos - prev - quotes);
+                for (len = 0; prev < pos; prev++, len++) {
+                    AS_C8(field)[len] = *prev;
+                    if (*prev == '"')
+                        prev++;
+                }
+                res = parse_csv_field(types[i], AS_C8(field), AS_C8(field) + len, row, AS_LIST(cols)[i]);
+                drop_obj(field);
+            } else
+                res = parse_csv_field(types[i], prev, pos, row, AS_LIST(cols)[i]);
 
             if (!is_null(res))
                 return res;
 
+            // skip quote and separator
+            pos++;
+            if (pos < end)
+                pos++;
+            else if (i < cnt - 1)
+                return err_length(0, 0, 0, 0, 0, 0);
+
             continue;
         }
 
-- 
2.43.0


From 9e25670b824d9e71aa554f1023bd95cb3b80c58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 065/108] fix: columns of a csv file are written as
 uninitialized memory, as nothing or without quotes

---
 core/io.c | 117 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 78 insertions(+), 39 deletions(-)

diff --git a/core/io.c b/core/io.c
index d3eb493..78d8828 100644
--- a/core/io.c
+++ b/core/io.c
@@ -904,16 +904,43 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
     }
 }
 
-static i64_t csv_field_to_str(obj_p col, i64_t row, obj_p *dst) {
+// A text is quoted if it contains the separator, a newline or a quote
+static i64_t csv_text_to_str(obj_p *dst, str_p s, i64_t n, c8_t sep) {
+    i64_t i, m;
+
+    for (i = 0; i < n; i++)
+        if (s[i] == sep || s[i] == '"' || s[i] == '\n' || s[i] == '\r')
+            break;
+
+    if (i == n)
+        return str_fmt_into(dst, -1, "%.*s", (i32_t)n, s);
+
+    m = str_fmt_into(dst, -1, "\"");
+    for (i = 0; i < n; i++) {
+        if (s[i] == '"')
+            m += str_fmt_into(dst, -1, "\"\"");
+        else
+            m += str_fmt_into(dst, -1, "%c", s[i]);
+    }
+    m += str_fmt_into(dst, -1, "\"");
+
+    return m;
+}
+
+static i64_t csv_field_to_str(obj_p col, i64_t row, obj_p *dst, c8_t sep) {
     i64_t n;
     str_p s;
-    obj_p str_obj;
+    obj_p v, text;
 
     switch (col->type) {
         case TYPE_B8:
             return AS_B8(col)[row] ? str_fmt_into(dst, -1, "true") : str_fmt_into(dst, -1, "false");
         case TYPE_U8:
             return str_fmt_into(dst, -1, "%u", AS_U8(col)[row]);
+        case TYPE_I16:
+            if (AS_I16(col)[row] == NULL_I16)
+                return 0;
+            return str_fmt_into(dst, -1, "%d", AS_I16(col)[row]);
         case TYPE_I32:
             if (AS_I32(col)[row] == NULL_I32)
                 return 0;
@@ -954,42 +981,9 @@ static i64_t csv_field_to_str(obj_p col, i64_t row, obj_p *dst) {
             if (AS_SYMBOL(col)[row] == NULL_I64)
                 return 0;
             s = str_from_symbol(AS_SYMBOL(col)[row]);
-            return str_fmt_into(dst, -1, "%s", s);
+            return csv_text_to_str(dst, s, strlen(s), sep);
         case TYPE_C8:
-            // String type - output with quotes if it contains separator or quotes
-            s = AS_C8(col);
-            n = col->len;
-            return str_fmt_into(dst, -1, "%.*s", (i32_t)n, s);
-        case TYPE_LIST:
-            // List of strings
-            str_obj = AS_LIST(col)[row];
-            if (str_obj == NULL_OBJ || str_obj->type == TYPE_NULL)
-                return 0;
-            s = AS_C8(str_obj);
-            n = str_obj->len;
-            // Check if we need to quote (contains separator, newline, or quote)
-            {
-                i64_t i;
-                b8_t need_quote = B8_FALSE;
-                for (i = 0; i < n; i++) {
-                    if (s[i] == ',' || s[i] == '"' || s[i] == '\n' || s[i] == '\r') {
-                        need_quote = B8_TRUE;
-                        break;
-                    }
-                }
-                if (need_quote) {
-                    i64_t m = str_fmt_into(dst, -1, "\"");
-                    for (i = 0; i < n; i++) {
-                        if (s[i] == '"')
-                            m += str_fmt_into(dst, -1, "\"\"");
-                        else
-                            m += str_fmt_into(dst, -1, "%c", s[i]);
-                    }
-                    m += str_fmt_into(dst, -1, "\"");
-                    return m;
-                }
-            }
-            return str_fmt_into(dst, -1, "%.*s", (i32_t)n, s);
+            return csv_text_to_str(dst, AS_C8(col) + row, 1, sep);
         case TYPE_GUID:
             if (memcmp(AS_GUID(col)[row], NULL_GUID, sizeof(guid_t)) == 0)
                 return 0;
@@ -1000,7 +994,49 @@ static i64_t csv_field_to_str(obj_p col, i64_t row, obj_p *dst) {
                                     (*g)[9], (*g)[10], (*g)[11], (*g)[12], (*g)[13], (*g)[14], (*g)[15]);
             }
         default:
-            return 0;
+            // The items of a list and of the columns of a saved table are of any type
+            v = at_idx(col, row);
+            switch (v->type) {
+                case TYPE_ERR:
+                    return -1;
+                case TYPE_NULL:
+                    n = 0;
+                    break;
+                case TYPE_C8:
+                    n = csv_text_to_str(dst, AS_C8(v), v->len, sep);
+                    break;
+                case -TYPE_SYMBOL:
+                    n = 0;
+                    if (v->i64 != NULL_I64) {
+                        s = str_from_symbol(v->i64);
+                        n = csv_text_to_str(dst, s, strlen(s), sep);
+                    }
+                    break;
+                case -TYPE_B8:
+                case -TYPE_U8:
+                case -TYPE_C8:
+                case -TYPE_I16:
+                case -TYPE_I32:
+                case -TYPE_I64:
+                case -TYPE_F64:
+                case -TYPE_DATE:
+                case -TYPE_TIME:
+                case -TYPE_TIMESTAMP:
+                case -TYPE_GUID:
+                    // as an item of a vector
+                    text = vector(-v->type, 0);
+                    push_obj(&text, clone_obj(v));
+                    n = csv_field_to_str(text, 0, dst, sep);
+                    drop_obj(text);
+                    break;
+                default:
+                    text = obj_fmt(v, B8_FALSE);
+                    n = is_null(text) ? 0 : csv_text_to_str(dst, AS_C8(text), text->len, sep);
+                    drop_obj(text);
+                    break;
+            }
+            drop_obj(v);
+            return n;
     }
 }
 
@@ -1161,7 +1197,10 @@ obj_p ray_write_csv(obj_p *x, i64_t n) {
             for (j = 0; j < rows; j++) {
                 for (i = 0; i < l; i++) {
                     col = AS_LIST(cols)[i];
-                    csv_field_to_str(col, j, &buf);
+                    if (csv_field_to_str(col, j, &buf, sep) < 0) {
+                        drop_obj(buf);
+                        return ERR_OBJ;
+                    }
                     if (i < l - 1)
                         str_fmt_into(&buf, -1, "%c", sep);
                 }
-- 
2.43.0


From a9d41c7d07179b8b8b20959b0c780ddfbd38c213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 066/108] fix: floats of more than six digits are written to a
 csv file rounded

---
 core/io.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/io.c b/core/io.c
index 78d8828..762d82d 100644
--- a/core/io.c
+++ b/core/io.c
@@ -930,6 +930,7 @@ static i64_t csv_text_to_str(obj_p *dst, str_p s, i64_t n, c8_t sep) {
 static i64_t csv_field_to_str(obj_p col, i64_t row, obj_p *dst, c8_t sep) {
     i64_t n;
     str_p s;
+    c8_t digits[32];
     obj_p v, text;
 
     switch (col->type) {
@@ -976,7 +977,11 @@ static i64_t csv_field_to_str(obj_p col, i64_t row, obj_p *dst, c8_t sep) {
         case TYPE_F64:
             if (ISNANF64(AS_F64(col)[row]))
                 return 0;
-            return str_fmt_into(dst, -1, "%g", AS_F64(col)[row]);
+            // as many digits as tell it from the others
+            n = snprintf(digits, sizeof(digits), "%.15g", AS_F64(col)[row]);
+            if (strtod(digits, NULL) != AS_F64(col)[row])
+                n = snprintf(digits, sizeof(digits), "%.17g", AS_F64(col)[row]);
+            return str_fmt_into(dst, n + 1, "%s", digits);
         case TYPE_SYMBOL:
             if (AS_SYMBOL(col)[row] == NULL_I64)
                 return 0;
-- 
2.43.0


From ef17273d311a760cab6e2c61dad2deefdd60c565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:02 +0000
Subject: [PATCH 067/108] fix: a column of symbols with a null among them, or
 of one symbol, is sorted by uninitialized memory

---
 core/sort.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/core/sort.c b/core/sort.c
index 27b68a3..7224777 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -824,13 +824,15 @@ static obj_p counting_sort_i64(obj_p vec, i64_t asc) {
             max_sym = data[i];
     }
 
-    i64_t range = max_sym - min_sym + 1;
-
     // Use counting sort only if range is reasonable
     // Don't use if too sparse (range > len) or exceeds maximum range
-    if (range > len || range > COUNTING_SORT_MAX_RANGE)
+    // The distance between a null and a value does not fit into a signed integer
+    u64_t distance = (u64_t)max_sym - (u64_t)min_sym;
+    if (distance >= (u64_t)len || distance >= COUNTING_SORT_MAX_RANGE)
         return NULL;  // Fall back to other sorting
 
+    i64_t range = (i64_t)distance + 1;
+
     // Allocate counting array
     i64_t* counts = (i64_t*)heap_alloc(range * sizeof(i64_t));
     if (!counts)
@@ -898,8 +900,11 @@ static obj_p optimized_sort(obj_p vec, i64_t asc) {
     obj_p res;
     i64_t len = vec->len;
 
-    if (len <= 1)
-        return I64(len);
+    if (len <= 1) {
+        res = I64(len);
+        memset(AS_I64(res), 0, len * sizeof(i64_t));
+        return res;
+    }
 
     // Small arrays: use insertion sort
     if (len <= 32) {
-- 
2.43.0


From d9e1d2dc2af6122d8671c589c845efa899d27b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:02 +0000
Subject: [PATCH 068/108] fix: more than a few symbols are sorted by the order
 they were seen first

---
 core/sort.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/core/sort.c b/core/sort.c
index 7224777..a286059 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -868,7 +868,23 @@ static obj_p counting_sort_i64(obj_p vec, i64_t asc) {
     i64_t* result = AS_I64(indices);
     i64_t pos = 0;
 
-    if (asc > 0) {
+    if (vec->type == TYPE_SYMBOL) {
+        // Symbols are ordered by their names, not by the order they were seen first
+        obj_p syms = SYMBOL(range);
+        syms->len = 0;
+        for (i64_t sym = 0; sym < range; sym++)
+            if (counts[sym] > 0)
+                AS_SYMBOL(syms)[syms->len++] = sym + min_sym;
+
+        obj_p order = mergesort_generic_obj(syms, asc);
+        for (i64_t i = 0; i < syms->len; i++) {
+            i64_t sym = AS_SYMBOL(syms)[AS_I64(order)[i]] - min_sym;
+            for (i64_t j = 0; j < counts[sym]; j++)
+                result[pos++] = buckets[sym][j];
+        }
+        drop_obj(order);
+        drop_obj(syms);
+    } else if (asc > 0) {
         // Ascending: iterate symbols from min to max
         for (i64_t sym = 0; sym < range; sym++) {
             i64_t count = counts[sym];
-- 
2.43.0


From 30aeba75fa229fe88ba51a1ceea7ec18dd21bd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:09 +0000
Subject: [PATCH 069/108] fix: the first items of groups of an enum without its
 domain are dropped as an enum

---
 core/aggr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/aggr.c b/core/aggr.c
index 8951567..8262297 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -659,7 +659,7 @@ obj_p aggr_first(obj_p val, obj_p index) {
             if (IS_ERR(parts))
                 return parts;
             res = AGGR_COLLECT(parts, n, i64, i64, if ($out[$y] == NULL_I64) $out[$y] = $in[$x]);
-            res->type = val->type;
+            res->type = (val->type == TYPE_ENUM) ? TYPE_I64 : val->type;
             drop_obj(parts);
 
             if (val->type == TYPE_ENUM) {
-- 
2.43.0


From 85ef74c081e65accfa9838106f5e415ad65810de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:49 +0000
Subject: [PATCH 070/108] fix: the value of a parted enum without its domain is
 a vector of symbols that do not exist

---
 core/items.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/items.c b/core/items.c
index ae44615..245cb9d 100644
--- a/core/items.c
+++ b/core/items.c
@@ -1356,6 +1356,9 @@ obj_p ray_value(obj_p x) {
                 v = ray_value(AS_LIST(x)[i]);
                 n = v->len;
                 memcpy(i64ptr, AS_I64(v), n * sizeof(i64_t));
+                // without a domain these are the indices, not symbols
+                if (v->type != TYPE_SYMBOL)
+                    res->type = TYPE_I64;
                 drop_obj(v);
                 i64ptr += n;
             }
-- 
2.43.0


From 6c989c741a9fdea6e668b06bc7a2e053c92d8ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 071/108] fix: a column of characters of a parted table is read
 as a list of saved items

---
 core/items.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/items.c b/core/items.c
index 245cb9d..b9676fc 100644
--- a/core/items.c
+++ b/core/items.c
@@ -74,7 +74,14 @@ static inline obj_p at_vec_f64_by_i64(obj_p x, obj_p y) {
 // Reads the item of a mapped list
 obj_p maplist_item(obj_p x, i64_t i) {
     i64_t offset, size;
-    obj_p k = MAPLIST_KEY(x), v = MAPLIST_VAL(x);
+    obj_p k, v;
+
+    // the parts of a parted list may be strings
+    if (x->type != TYPE_MAPLIST)
+        return at_idx(x, i);
+
+    k = MAPLIST_KEY(x);
+    v = MAPLIST_VAL(x);
 
     if (i < 0 || i >= v->len)
         return err_index(i, v->len, 0, 0);
-- 
2.43.0


From d227e3f3563341ac20f723ef65068e93e4424e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:29 +0000
Subject: [PATCH 072/108] fix: two mapped lists are taken item by item

(== x x) of a list mapped from a file compared every item with the whole
list.
---
 core/iter.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/iter.c b/core/iter.c
index dcd423c..b77d2a8 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -298,7 +298,7 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
     xt = x->type;
     yt = y->type;
     if (((xt == TYPE_LIST || xt == TYPE_MAPLIST) && IS_VECTOR(y)) ||
-        ((yt == TYPE_LIST || yt == TYPE_MAPLIST) && IS_VECTOR(x))) {
+        ((yt == TYPE_LIST || yt == TYPE_MAPLIST) && IS_VECTOR(x)) || (xt == TYPE_MAPLIST && yt == TYPE_MAPLIST)) {
         l = ops_count(x);
 
         if (l != ops_count(y))
@@ -863,7 +863,8 @@ obj_p ray_fold(obj_p *x, i64_t n) {
             xt = x[0]->type;
             yt = x[1]->type;
             if (((xt == TYPE_LIST || xt == TYPE_MAPLIST) && IS_VECTOR(x[1])) ||
-                ((yt == TYPE_LIST || yt == TYPE_MAPLIST) && IS_VECTOR(x[0]))) {
+                ((yt == TYPE_LIST || yt == TYPE_MAPLIST) && IS_VECTOR(x[0])) ||
+                (xt == TYPE_MAPLIST && yt == TYPE_MAPLIST)) {
                 l = ops_count(x[0]);
 
                 if (l != ops_count(x[1]))
@@ -1231,7 +1232,8 @@ obj_p ray_scan(obj_p *x, i64_t n) {
             xt = x[0]->type;
             yt = x[1]->type;
             if (((xt == TYPE_LIST || xt == TYPE_MAPLIST) && IS_VECTOR(x[1])) ||
-                ((yt == TYPE_LIST || yt == TYPE_MAPLIST) && IS_VECTOR(x[0]))) {
+                ((yt == TYPE_LIST || yt == TYPE_MAPLIST) && IS_VECTOR(x[0])) ||
+                (xt == TYPE_MAPLIST && yt == TYPE_MAPLIST)) {
                 l = ops_count(x[0]);
 
                 if (l != ops_count(x[1]))
-- 
2.43.0


From 298adbb03d8c1c2e7c1089d3ffe451f320b4327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:41 +0000
Subject: [PATCH 073/108] fix: a parted column of symbols is not dropped

its type is none of the parted ones
---
 core/vary.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/vary.c b/core/vary.c
index 9ea9a4a..7c91930 100644
--- a/core/vary.c
+++ b/core/vary.c
@@ -277,6 +277,17 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
                 return err_length(0, 0, 0, 0, 0, 0);
             }
 
+            // There is no parted form of a column of symbols, they are enumerated when they are saved
+            for (i = 0; i < wide; i++) {
+                if (AS_LIST(AS_LIST(t1)[1])[i]->type == TYPE_SYMBOL) {
+                    drop_obj(gcol);
+                    drop_obj(res);
+                    drop_obj(t1);
+                    drop_obj(path);
+                    return err_type(TYPE_ENUM, TYPE_SYMBOL, 0, 0);
+                }
+            }
+
             // Create maps over columns
             fmaps = LIST(wide);
             for (i = 0; i < wide; i++)
-- 
2.43.0


From fcbeb17703f26382280e5384c127ca78547c78b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:51 +0000
Subject: [PATCH 074/108] fix: an error in place of the items of a mapped list
 is grouped and collected

---
 core/aggr.c   | 22 ++++++++++++++++++----
 core/filter.c | 10 ++++++++++
 core/index.c  |  2 ++
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index 8262297..626cc72 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -3145,14 +3145,28 @@ obj_p aggr_collect(obj_p val, obj_p index) {
             res = LIST(n);
             if (filter == NULL_OBJ) {
                 // No filter - each partition is a group
-                for (i = 0; i < (i64_t)val->len; i++)
-                    AS_LIST(res)[i] = ray_value(AS_LIST(val)[i]);
+                for (i = 0; i < (i64_t)val->len; i++) {
+                    v = ray_value(AS_LIST(val)[i]);
+                    if (IS_ERR(v)) {
+                        res->len = i;
+                        drop_obj(res);
+                        return v;
+                    }
+                    AS_LIST(res)[i] = v;
+                }
             } else {
                 // With filter - only include matching partitions
                 l = filter->len;
                 for (i = 0, j = 0; i < l; i++) {
-                    if (AS_LIST(filter)[i] != NULL_OBJ)
-                        AS_LIST(res)[j++] = ray_value(AS_LIST(val)[i]);
+                    if (AS_LIST(filter)[i] != NULL_OBJ) {
+                        v = ray_value(AS_LIST(val)[i]);
+                        if (IS_ERR(v)) {
+                            res->len = j;
+                            drop_obj(res);
+                            return v;
+                        }
+                        AS_LIST(res)[j++] = v;
+                    }
                 }
                 res->len = j;
             }
diff --git a/core/filter.c b/core/filter.c
index 5c88df3..3a75fc0 100644
--- a/core/filter.c
+++ b/core/filter.c
@@ -137,6 +137,11 @@ obj_p filter_collect(obj_p val, obj_p index) {
                 // Marker -1 means "take all rows from this partition"
                 v = AS_LIST(val)[i];
                 res = ray_value(v);
+                if (IS_ERR(res)) {
+                    parts->len = n;
+                    drop_obj(parts);
+                    return res;
+                }
                 if (res != NULL_OBJ && ops_count(res) > 0) {
                     AS_LIST(parts)[n++] = res;
                 } else if (res != NULL_OBJ) {
@@ -149,6 +154,11 @@ obj_p filter_collect(obj_p val, obj_p index) {
                 // Use index list to select specific rows
                 v = AS_LIST(val)[i];
                 res = at_ids(v, AS_I64(idx), idx->len);
+                if (IS_ERR(res)) {
+                    parts->len = n;
+                    drop_obj(parts);
+                    return res;
+                }
                 if (res != NULL_OBJ && !IS_ERR(res)) {
                     AS_LIST(parts)[n++] = res;
                 }
diff --git a/core/index.c b/core/index.c
index 03f135a..8a6e216 100644
--- a/core/index.c
+++ b/core/index.c
@@ -2145,6 +2145,8 @@ obj_p index_group(obj_p val, obj_p filter) {
             return index_group_obj(val, filter);
         case TYPE_MAPLIST:
             v = ray_value(val);
+            if (IS_ERR(v))
+                return v;
             bins = index_group_obj(v, filter);
             drop_obj(v);
             return bins;
-- 
2.43.0


From 6d0beeab5fc2fdb91f054cffb7273e57dc03fb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:08 +0000
Subject: [PATCH 075/108] fix: update by something that can not be grouped

---
 core/update.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/update.c b/core/update.c
index 4faccdd..72ba5ee 100644
--- a/core/update.c
+++ b/core/update.c
@@ -1020,6 +1020,11 @@ obj_p ray_update(obj_p obj) {
         }
 
         bins = index_group(groupby, filters);
+        if (IS_ERR(bins)) {
+            res = bins;
+            goto cleanup;
+        }
+
         prm = group_map(tab, bins);
         drop_obj(bins);
 
-- 
2.43.0


From a7196eca4f9c185aff873ca4bc353a36b88cb502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:11 +0000
Subject: [PATCH 076/108] fix: items of a vector of booleans or bytes by a list
 of indices

The indices were read as bytes, an item of a vector of bytes was returned
as a boolean, and negative indices of guids, characters and lists were
not checked against the bounds.
---
 core/items.c    | 26 +++++++++++++++++++-------
 core/rayforce.c |  7 ++++++-
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/core/items.c b/core/items.c
index b9676fc..c021f4f 100644
--- a/core/items.c
+++ b/core/items.c
@@ -119,10 +119,22 @@ obj_p ray_at(obj_p x, obj_p y) {
             xl = x->len;
             res = B8(yl);
             for (i = 0; i < yl; i++) {
-                if (AS_B8(y)[i] >= (i64_t)xl)
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= (i64_t)xl)
                     AS_B8(res)[i] = B8_FALSE;
                 else
-                    AS_B8(res)[i] = AS_B8(x)[(i32_t)AS_B8(y)[i]];
+                    AS_B8(res)[i] = AS_B8(x)[AS_I64(y)[i]];
+            }
+
+            return res;
+        case MTYPE2(TYPE_U8, TYPE_I64):
+            yl = y->len;
+            xl = x->len;
+            res = U8(yl);
+            for (i = 0; i < yl; i++) {
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= (i64_t)xl)
+                    AS_U8(res)[i] = 0;
+                else
+                    AS_U8(res)[i] = AS_U8(x)[AS_I64(y)[i]];
             }
 
             return res;
@@ -141,7 +153,7 @@ obj_p ray_at(obj_p x, obj_p y) {
             xl = x->len;
             res = GUID(yl);
             for (i = 0; i < yl; i++) {
-                if (AS_I64(y)[i] >= (i64_t)xl)
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= (i64_t)xl)
                     memset(AS_GUID(res)[i], 0, sizeof(guid_t));
                 else
                     memcpy(AS_GUID(res)[i], AS_GUID(x)[AS_I64(y)[i]], sizeof(guid_t));
@@ -153,10 +165,10 @@ obj_p ray_at(obj_p x, obj_p y) {
             xl = x->len;
             res = C8(yl);
             for (i = 0; i < yl; i++) {
-                if (AS_I64(y)[i] >= (i64_t)xl)
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= (i64_t)xl)
                     AS_C8(res)
                 [i] = ' ';
-                else AS_C8(res)[i] = AS_C8(x)[(i32_t)AS_I64(y)[i]];
+                else AS_C8(res)[i] = AS_C8(x)[AS_I64(y)[i]];
             }
 
             return res;
@@ -165,10 +177,10 @@ obj_p ray_at(obj_p x, obj_p y) {
             xl = x->len;
             res = vector(TYPE_LIST, yl);
             for (i = 0; i < yl; i++) {
-                if (AS_I64(y)[i] >= (i64_t)xl)
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= (i64_t)xl)
                     AS_LIST(res)
                 [i] = NULL_OBJ;
-                else AS_LIST(res)[i] = clone_obj(AS_LIST(x)[(i32_t)AS_I64(y)[i]]);
+                else AS_LIST(res)[i] = clone_obj(AS_LIST(x)[AS_I64(y)[i]]);
             }
 
             return res;
diff --git a/core/rayforce.c b/core/rayforce.c
index cabb6fd..2ad701c 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -767,12 +767,17 @@ obj_p at_idx(obj_p obj, i64_t idx) {
 
     switch (obj->type) {
         case TYPE_B8:
-        case TYPE_U8:
             if (idx < 0)
                 idx = obj->len + idx;
             if (idx >= 0 && idx < (i64_t)obj->len)
                 return b8(AS_B8(obj)[idx]);
             return b8(B8_FALSE);
+        case TYPE_U8:
+            if (idx < 0)
+                idx = obj->len + idx;
+            if (idx >= 0 && idx < (i64_t)obj->len)
+                return u8(AS_U8(obj)[idx]);
+            return u8(0);
         case TYPE_I16:
             if (idx < 0)
                 idx = obj->len + idx;
-- 
2.43.0


From aec06810a95346eebd6833b4fd4757da5033a5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:23 +0000
Subject: [PATCH 077/108] fix: columns of dates and times that are shared can
 not be updated

copy_obj had no case for them, so what was to be modified was an error.
---
 core/rayforce.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/rayforce.c b/core/rayforce.c
index 2ad701c..7d742d2 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2975,6 +2975,8 @@ obj_p copy_obj(obj_p obj) {
         case TYPE_C8:
         case TYPE_I16:
         case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
         case TYPE_I64:
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
-- 
2.43.0


From 1e9dbd37dea00f01c36b5eef77108b551fde0fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:22 +0000
Subject: [PATCH 078/108] fix: a failing upsert drops the table of the variable
 it was to modify

---
 core/update.c | 42 +++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/core/update.c b/core/update.c
index 72ba5ee..7f117e9 100644
--- a/core/update.c
+++ b/core/update.c
@@ -545,12 +545,12 @@ obj_p ray_insert(obj_p *x, i64_t n) {
 /*
  * update/inserts for tables
  */
-#define UPSERT_ERROR(r)    \
-    {                      \
-        if (lst_allocated) \
-            drop_obj(lst); \
-        drop_obj(obj);     \
-        return r;          \
+#define UPSERT_ERROR(r)                     \
+    {                                       \
+        res = r;                            \
+        if (lst_allocated)                  \
+            drop_obj(lst);                  \
+        UNCOW_OBJ(obj, val, original, res); \
     }
 
 obj_p ray_upsert(obj_p *x, i64_t n) {
@@ -573,36 +573,28 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
     if (IS_ERR(obj))
         return obj;
 
-    if (obj->type != TYPE_TABLE) {
-        drop_obj(obj);
-        return err_type(0, 0, 0, 0);
-    }
-
-    p = AS_LIST(obj)[0]->len;
-
     lst = x[2];
     lst_allocated = B8_FALSE;
 
+    if (obj->type != TYPE_TABLE)
+        UPSERT_ERROR(err_type(0, 0, 0, 0));
+
+    p = AS_LIST(obj)[0]->len;
+
     // Handle dict/table input: reorder columns to match table order
     if (lst->type == TYPE_DICT || lst->type == TYPE_TABLE) {
-        if (lst->type == TYPE_DICT && AS_LIST(lst)[0]->type != TYPE_SYMBOL) {
-            drop_obj(obj);
-            return err_type(0, 0, 0, 0);
-        }
+        if (lst->type == TYPE_DICT && AS_LIST(lst)[0]->type != TYPE_SYMBOL)
+            UPSERT_ERROR(err_type(0, 0, 0, 0));
 
         // Check that input doesn't have more columns than table
         l = AS_LIST(lst)[0]->len;
-        if (l > p) {
-            drop_obj(obj);
-            return err_length(0, 0, 0, 0, 0, 0);
-        }
+        if (l > p)
+            UPSERT_ERROR(err_length(0, 0, 0, 0, 0, 0));
 
         // Reorder columns to match table order (allows flexible column ordering)
         res = __reorder_columns(AS_LIST(obj)[0], AS_LIST(obj)[1], AS_LIST(lst)[0], AS_LIST(lst)[1]);
-        if (IS_ERR(res)) {
-            drop_obj(obj);
-            return res;
-        }
+        if (IS_ERR(res))
+            UPSERT_ERROR(res);
 
         lst = res;
         lst_allocated = B8_TRUE;
-- 
2.43.0


From b7c85d9d4f95a4b12404a5a3a8e996ef934a5e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:00 +0000
Subject: [PATCH 079/108] fix: names, columns, keys and values in use elsewhere
 change when a table or a dict is modified

A table nobody else holds was modified in place, together with the lists
of its names and columns that other names may hold; an item of a list
was appended to in place, without a check of its index, and replaced the
whole list.
---
 core/rayforce.c | 23 ++++++++++++++++++++++-
 core/update.c   | 28 +++++++++++++++++++++++++---
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 7d742d2..3733698 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -3005,7 +3005,9 @@ obj_p copy_obj(obj_p obj) {
 }
 
 obj_p cow_obj(obj_p obj) {
+    i64_t i;
     u32_t rc;
+    obj_p *item, copy;
 
     // Complex types like enumerations or anymap may not be modified inplace
     if (obj->type == TYPE_ENUM || obj->type == TYPE_MAPLIST)
@@ -3022,8 +3024,27 @@ obj_p cow_obj(obj_p obj) {
         rc = __atomic_load_n(&obj->rc, __ATOMIC_RELAXED);
 
     // we only own the reference, so we can freely modify it
-    if (rc == 1)
+    if (rc == 1) {
+        // but not the names and the columns (the keys and the values) when they are in use elsewhere
+        if (obj->type == TYPE_TABLE || obj->type == TYPE_DICT) {
+            for (i = 0; i < 2; i++) {
+                item = AS_LIST(obj) + i;
+
+                if (rc_obj(*item) == 1 || IS_ATOM(*item) || (*item)->type == TYPE_ENUM ||
+                    (*item)->type == TYPE_MAPLIST)
+                    continue;
+
+                copy = copy_obj(*item);
+                if (IS_ERR(copy))
+                    return copy;
+
+                drop_obj(*item);
+                *item = copy;
+            }
+        }
+
         return obj;
+    }
 
     // we don't own the reference, so we need to copy object
     return copy_obj(obj);
diff --git a/core/update.c b/core/update.c
index 7f117e9..a66a70a 100644
--- a/core/update.c
+++ b/core/update.c
@@ -209,7 +209,25 @@ obj_p *at_obj_ref(obj_p obj, obj_p idx) {
 
     switch (MTYPE2(obj->type, idx->type)) {
         case MTYPE2(TYPE_LIST, -TYPE_I64):
-            return &AS_LIST(obj)[idx->i64];
+            j = idx->i64;
+            if (j < 0)
+                j += obj->len;
+            if (j < 0 || j >= obj->len)
+                return NULL;
+
+            p = AS_LIST(obj) + j;
+            v = cow_obj(*p);
+            if (IS_ERR(v)) {
+                drop_obj(v);
+                return NULL;
+            }
+
+            if (v != *p) {
+                drop_obj(*p);
+                *p = v;
+            }
+
+            return p;
         default:
             if (obj->type == TYPE_DICT) {
                 j = find_obj_idx(AS_LIST(obj)[0], idx);
@@ -281,9 +299,13 @@ obj_p __alter(obj_p *obj, obj_p func, obj_p idx, obj_p val) {
         if (p == NULL)
             return err_value(0);
         if (IS_ERR(*p))
-            return *p;
+            return clone_obj(*p);
+
+        res = push_obj(p, clone_obj(val));
+        if (IS_ERR(res))
+            return res;
 
-        return push_obj(p, clone_obj(val));
+        return *obj;
     }
 
     // special case for remove
-- 
2.43.0


From 158d32c7135617950b55d5435ea1f10b92db32df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 080/108] fix: aggregates of a parted table with a filter on
 its rows take all the rows

---
 core/aggr.c    | 66 ++++++++++++++++++++++++++++++++++++++++++++------
 core/compose.c |  2 +-
 core/filter.c  | 31 ++++++++++++++++++++++++
 core/filter.h  |  1 +
 core/items.c   |  9 +++++--
 core/math.c    | 12 ++++-----
 core/misc.c    |  2 +-
 7 files changed, 105 insertions(+), 18 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index 626cc72..6fe99d8 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -259,6 +259,20 @@ i64_t indexl_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
         $$res;                                                                                                       \
     })
 
+// Rows of a partition a parted filter takes
+static obj_p aggr_part_rows(obj_p val, obj_p filter, i64_t i) {
+    obj_p ids;
+
+    if (filter == NULL_OBJ || filter->type != TYPE_PARTEDI64)
+        return clone_obj(AS_LIST(val)[i]);
+
+    ids = AS_LIST(filter)[i];
+    if (ids->type == TYPE_I64)
+        return at_ids(AS_LIST(val)[i], AS_I64(ids), ids->len);
+
+    return clone_obj(AS_LIST(val)[i]);
+}
+
 static obj_p aggr_map_other(raw_p aggr, obj_p val, i8_t outype, obj_p index) {
     pool_p pool = runtime_get()->pool;
     i64_t i, l, n, group_count, group_len, out_len, chunk;
@@ -2116,7 +2130,7 @@ obj_p aggr_avg(obj_p val, obj_p index) {
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME:
         case TYPE_PARTEDTIMESTAMP: {
-            obj_p filter, pparts, ppart;
+            obj_p filter, rows, pparts, ppart;
             f64_t total_sum;
             i64_t total_cnt;
 
@@ -2134,7 +2148,14 @@ obj_p aggr_avg(obj_p val, obj_p index) {
                     if (filter != NULL_OBJ && AS_LIST(filter)[i] == NULL_OBJ)
                         continue;
 
-                    pparts = aggr_map_avg(AS_LIST(val)[i], index);
+                    rows = aggr_part_rows(val, filter, i);
+                    if (IS_ERR(rows)) {
+                        drop_obj(res);
+                        return rows;
+                    }
+
+                    pparts = aggr_map_avg(rows, index);
+                    drop_obj(rows);
                     if (IS_ERR(pparts)) {
                         drop_obj(res);
                         return pparts;
@@ -2151,7 +2172,14 @@ obj_p aggr_avg(obj_p val, obj_p index) {
                 // Multiple groups - one result per matching partition
                 for (i = 0, j = 0; i < l; i++) {
                     if (filter == NULL_OBJ || AS_LIST(filter)[i] != NULL_OBJ) {
-                        pparts = aggr_map_avg(AS_LIST(val)[i], index);
+                        rows = aggr_part_rows(val, filter, i);
+                        if (IS_ERR(rows)) {
+                            drop_obj(res);
+                            return rows;
+                        }
+
+                        pparts = aggr_map_avg(rows, index);
+                        drop_obj(rows);
                         if (IS_ERR(pparts)) {
                             drop_obj(res);
                             return pparts;
@@ -2982,7 +3010,7 @@ obj_p aggr_dev(obj_p val, obj_p index) {
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME:
         case TYPE_PARTEDTIMESTAMP: {
-            obj_p filter, pparts, ppart;
+            obj_p filter, rows, pparts, ppart;
             f64_t total_sum, total_sumsq;
             i64_t total_cnt;
 
@@ -3001,7 +3029,14 @@ obj_p aggr_dev(obj_p val, obj_p index) {
                     if (filter != NULL_OBJ && AS_LIST(filter)[i] == NULL_OBJ)
                         continue;
 
-                    pparts = aggr_map_dev(AS_LIST(val)[i], index);
+                    rows = aggr_part_rows(val, filter, i);
+                    if (IS_ERR(rows)) {
+                        drop_obj(res);
+                        return rows;
+                    }
+
+                    pparts = aggr_map_dev(rows, index);
+                    drop_obj(rows);
                     if (IS_ERR(pparts)) {
                         drop_obj(res);
                         return pparts;
@@ -3027,7 +3062,14 @@ obj_p aggr_dev(obj_p val, obj_p index) {
                 // Multiple groups - one result per matching partition
                 for (i = 0, j = 0; i < l; i++) {
                     if (filter == NULL_OBJ || AS_LIST(filter)[i] != NULL_OBJ) {
-                        pparts = aggr_map_dev(AS_LIST(val)[i], index);
+                        rows = aggr_part_rows(val, filter, i);
+                        if (IS_ERR(rows)) {
+                            drop_obj(res);
+                            return rows;
+                        }
+
+                        pparts = aggr_map_dev(rows, index);
+                        drop_obj(rows);
                         if (IS_ERR(pparts)) {
                             drop_obj(res);
                             return pparts;
@@ -3067,7 +3109,7 @@ obj_p aggr_dev(obj_p val, obj_p index) {
 
 obj_p aggr_collect(obj_p val, obj_p index) {
     i64_t i, j, l, n;
-    obj_p k, v, res, filter;
+    obj_p k, v, col, res, filter;
 
     l = index_group_len(index);
     n = index_group_count(index);
@@ -3159,7 +3201,15 @@ obj_p aggr_collect(obj_p val, obj_p index) {
                 l = filter->len;
                 for (i = 0, j = 0; i < l; i++) {
                     if (AS_LIST(filter)[i] != NULL_OBJ) {
-                        v = ray_value(AS_LIST(val)[i]);
+                        col = aggr_part_rows(val, filter, i);
+                        if (IS_ERR(col)) {
+                            res->len = j;
+                            drop_obj(res);
+                            return col;
+                        }
+
+                        v = ray_value(col);
+                        drop_obj(col);
                         if (IS_ERR(v)) {
                             res->len = j;
                             drop_obj(res);
diff --git a/core/compose.c b/core/compose.c
index ae101e4..6b3931a 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -1198,7 +1198,7 @@ obj_p ray_row(obj_p x) {
         case TYPE_MAPFILTER: {
             obj_p val = AS_LIST(x)[0];
             obj_p filter = AS_LIST(x)[1];
-            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter->type == TYPE_PARTEDI64) {
+            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter_whole_parts(val, filter)) {
                 obj_p index = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ,
                                       clone_obj(filter), NULL_OBJ);
                 obj_p res = aggr_row(val, index);
diff --git a/core/filter.c b/core/filter.c
index 3a75fc0..f8a013d 100644
--- a/core/filter.c
+++ b/core/filter.c
@@ -48,6 +48,30 @@ obj_p filter_map(obj_p val, obj_p index) {
     }
 }
 
+// Whether a filter takes all the rows of some parts and none of the others
+b8_t filter_whole_parts(obj_p val, obj_p index) {
+    i64_t i, l, n;
+    obj_p idx;
+
+    if (index->type != TYPE_PARTEDI64)
+        return B8_FALSE;
+
+    l = index->len;
+    for (i = 0, n = 0; i < l; i++) {
+        idx = AS_LIST(index)[i];
+
+        if (idx == NULL_OBJ)
+            continue;
+
+        if (idx->type != -TYPE_I64 || ops_count(AS_LIST(val)[i]) == 0)
+            return B8_FALSE;
+
+        n++;
+    }
+
+    return n > 0;
+}
+
 obj_p filter_collect(obj_p val, obj_p index) {
     i64_t i, l, n, total;
     obj_p idx, v, res, parts;
@@ -166,6 +190,13 @@ obj_p filter_collect(obj_p val, obj_p index) {
         }
 
         parts->len = n;
+
+        // nothing has been selected
+        if (n == 0 && l > 0) {
+            drop_obj(parts);
+            return at_ids(AS_LIST(val)[0], NULL, 0);
+        }
+
         res = ray_raze(parts);
         drop_obj(parts);
         return res;
diff --git a/core/filter.h b/core/filter.h
index 7d48014..b663ac1 100644
--- a/core/filter.h
+++ b/core/filter.h
@@ -27,6 +27,7 @@
 #include "rayforce.h"
 
 obj_p filter_map(obj_p val, obj_p index);
+b8_t filter_whole_parts(obj_p val, obj_p index);
 obj_p filter_collect(obj_p val, obj_p index);
 
 #endif  // FILTER_H
diff --git a/core/items.c b/core/items.c
index c021f4f..0ace42f 100644
--- a/core/items.c
+++ b/core/items.c
@@ -1093,7 +1093,7 @@ obj_p ray_first(obj_p x) {
         case TYPE_MAPFILTER: {
             obj_p val = AS_LIST(x)[0];
             obj_p filter = AS_LIST(x)[1];
-            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter->type == TYPE_PARTEDI64) {
+            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter_whole_parts(val, filter)) {
                 obj_p index = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ,
                                       clone_obj(filter), NULL_OBJ);
                 obj_p res = aggr_first(val, index);
@@ -1137,7 +1137,7 @@ obj_p ray_last(obj_p x) {
         case TYPE_MAPFILTER: {
             obj_p val = AS_LIST(x)[0];
             obj_p filter = AS_LIST(x)[1];
-            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter->type == TYPE_PARTEDI64) {
+            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter_whole_parts(val, filter)) {
                 obj_p index = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ,
                                       clone_obj(filter), NULL_OBJ);
                 obj_p res = aggr_last(val, index);
@@ -1433,6 +1433,11 @@ obj_p ray_where(obj_p x) {
                 } else {
                     // Vector - compute actual indices where value is true
                     AS_LIST(res)[i] = ops_where(AS_B8(elem), elem->len);
+                    // Partition doesn't match
+                    if (AS_LIST(res)[i]->len == 0) {
+                        drop_obj(AS_LIST(res)[i]);
+                        AS_LIST(res)[i] = NULL_OBJ;
+                    }
                 }
             }
 
diff --git a/core/math.c b/core/math.c
index 8cc39d4..11a03fd 100644
--- a/core/math.c
+++ b/core/math.c
@@ -1875,7 +1875,7 @@ obj_p ray_sum_partial(obj_p x, i64_t len, i64_t offset) {
             obj_p val = AS_LIST(x)[0];
             obj_p filter = AS_LIST(x)[1];
             // Smart aggregation for parted data with parted filter
-            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter->type == TYPE_PARTEDI64) {
+            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter_whole_parts(val, filter)) {
                 obj_p index = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ,
                                       clone_obj(filter), NULL_OBJ);
                 obj_p res = aggr_sum(val, index);
@@ -1945,7 +1945,7 @@ obj_p ray_min_partial(obj_p x, i64_t len, i64_t offset) {
         case TYPE_MAPFILTER: {
             obj_p val = AS_LIST(x)[0];
             obj_p filter = AS_LIST(x)[1];
-            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter->type == TYPE_PARTEDI64) {
+            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter_whole_parts(val, filter)) {
                 obj_p index = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ,
                                       clone_obj(filter), NULL_OBJ);
                 obj_p res = aggr_min(val, index);
@@ -2014,7 +2014,7 @@ obj_p ray_max_partial(obj_p x, i64_t len, i64_t offset) {
         case TYPE_MAPFILTER: {
             obj_p val = AS_LIST(x)[0];
             obj_p filter = AS_LIST(x)[1];
-            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter->type == TYPE_PARTEDI64) {
+            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter_whole_parts(val, filter)) {
                 obj_p index = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ,
                                       clone_obj(filter), NULL_OBJ);
                 obj_p res = aggr_max(val, index);
@@ -2494,7 +2494,7 @@ obj_p ray_avg(obj_p x) {
         case TYPE_MAPFILTER: {
             obj_p val = AS_LIST(x)[0];
             obj_p filter = AS_LIST(x)[1];
-            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter->type == TYPE_PARTEDI64) {
+            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter_whole_parts(val, filter)) {
                 obj_p index = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ,
                                       clone_obj(filter), NULL_OBJ);
                 res = aggr_avg(val, index);
@@ -2598,7 +2598,7 @@ obj_p ray_med(obj_p x) {
         case TYPE_MAPFILTER: {
             obj_p val = AS_LIST(x)[0];
             obj_p filter = AS_LIST(x)[1];
-            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter->type == TYPE_PARTEDI64) {
+            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter_whole_parts(val, filter)) {
                 obj_p index = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ,
                                       clone_obj(filter), NULL_OBJ);
                 obj_p res = aggr_med(val, index);
@@ -2670,7 +2670,7 @@ obj_p ray_dev(obj_p x) {
         case TYPE_MAPFILTER: {
             obj_p val = AS_LIST(x)[0];
             obj_p filter = AS_LIST(x)[1];
-            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter->type == TYPE_PARTEDI64) {
+            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter_whole_parts(val, filter)) {
                 obj_p index = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ,
                                       clone_obj(filter), NULL_OBJ);
                 obj_p res = aggr_dev(val, index);
diff --git a/core/misc.c b/core/misc.c
index 5a8587a..f9d9550 100644
--- a/core/misc.c
+++ b/core/misc.c
@@ -47,7 +47,7 @@ obj_p ray_count(obj_p x) {
         case TYPE_MAPFILTER: {
             obj_p val = AS_LIST(x)[0];
             obj_p filter = AS_LIST(x)[1];
-            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter->type == TYPE_PARTEDI64) {
+            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter_whole_parts(val, filter)) {
                 obj_p index = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ,
                                       clone_obj(filter), NULL_OBJ);
                 obj_p res = aggr_count(val, index);
-- 
2.43.0


From 678e659196252728dc0d93e778f2e26afe831517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:59 +0000
Subject: [PATCH 081/108] fix: medians, deviations, extremes and last items of
 columns of a parted table

---
 core/aggr.c | 105 ++++++++++++++++++++++++++++++++++++++++++----------
 core/math.c |  98 ++++++++++++++++++++++++++++--------------------
 2 files changed, 143 insertions(+), 60 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index 6fe99d8..1b3a4bf 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -35,6 +35,7 @@
 #include "index.h"
 #include "pool.h"
 #include "order.h"
+#include "compose.h"
 
 i64_t indexr_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
     i64_t left, right, mid, idx;
@@ -259,6 +260,19 @@ i64_t indexl_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
         $$res;                                                                                                       \
     })
 
+// Index of the first (or the last) row of a partition a parted filter takes
+static i64_t aggr_part_edge(obj_p val, obj_p filter, i64_t i, b8_t last) {
+    obj_p ids;
+
+    if (filter != NULL_OBJ && filter->type == TYPE_PARTEDI64) {
+        ids = AS_LIST(filter)[i];
+        if (ids->type == TYPE_I64)
+            return AS_I64(ids)[last ? ids->len - 1 : 0];
+    }
+
+    return last ? ops_count(AS_LIST(val)[i]) - 1 : 0;
+}
+
 // Rows of a partition a parted filter takes
 static obj_p aggr_part_rows(obj_p val, obj_p filter, i64_t i) {
     obj_p ids;
@@ -735,7 +749,7 @@ obj_p aggr_first(obj_p val, obj_p index) {
             if (filter == NULL_OBJ) {
                 // No filter - iterate over all partitions
                 for (i = 0; i < n; i++)
-                    AS_LIST(res)[i] = at_idx(AS_LIST(val)[i], 0);
+                    AS_LIST(res)[i] = at_idx(AS_LIST(val)[i], aggr_part_edge(val, filter, i, B8_FALSE));
             } else {
                 // With filter - iterate all partitions, only take matching ones
                 l = filter->len;
@@ -744,7 +758,7 @@ obj_p aggr_first(obj_p val, obj_p index) {
                     // Check for non-null AND non-empty filter entry
                     if (fentry != NULL_OBJ) {
                         if ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0) {
-                            AS_LIST(res)[j++] = at_idx(AS_LIST(val)[i], 0);
+                            AS_LIST(res)[j++] = at_idx(AS_LIST(val)[i], aggr_part_edge(val, filter, i, B8_FALSE));
                         }
                     }
                 }
@@ -762,7 +776,7 @@ obj_p aggr_first(obj_p val, obj_p index) {
                     obj_p fentry = (filter == NULL_OBJ) ? NULL_OBJ : AS_LIST(filter)[i];
                     if (filter == NULL_OBJ ||
                         (fentry != NULL_OBJ && ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0))) {
-                        AS_B8(res)[0] = AS_B8(AS_LIST(val)[i])[0];
+                        AS_B8(res)[0] = AS_B8(AS_LIST(val)[i])[aggr_part_edge(val, filter, i, B8_FALSE)];
                         break;
                     }
                 }
@@ -772,7 +786,7 @@ obj_p aggr_first(obj_p val, obj_p index) {
             if (filter == NULL_OBJ) {
                 // No filter - iterate over all partitions
                 for (i = 0; i < n; i++)
-                    AS_B8(res)[i] = AS_B8(AS_LIST(val)[i])[0];
+                    AS_B8(res)[i] = AS_B8(AS_LIST(val)[i])[aggr_part_edge(val, filter, i, B8_FALSE)];
             } else {
                 // With filter - iterate all partitions, only take matching ones
                 l = filter->len;
@@ -780,7 +794,7 @@ obj_p aggr_first(obj_p val, obj_p index) {
                     obj_p fentry = AS_LIST(filter)[i];
                     if (fentry != NULL_OBJ) {
                         if ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0) {
-                            AS_B8(res)[j++] = AS_B8(AS_LIST(val)[i])[0];
+                            AS_B8(res)[j++] = AS_B8(AS_LIST(val)[i])[aggr_part_edge(val, filter, i, B8_FALSE)];
                         }
                     }
                 }
@@ -795,7 +809,7 @@ obj_p aggr_first(obj_p val, obj_p index) {
                 l = val->len;
                 for (i = 0; i < l; i++) {
                     if (filter == NULL_OBJ || AS_LIST(filter)[i] != NULL_OBJ) {
-                        AS_I64(res)[0] = AS_I64(AS_LIST(val)[i])[0];
+                        AS_I64(res)[0] = AS_I64(AS_LIST(val)[i])[aggr_part_edge(val, filter, i, B8_FALSE)];
                         break;
                     }
                 }
@@ -806,13 +820,13 @@ obj_p aggr_first(obj_p val, obj_p index) {
                 // No filter - one result per partition
                 l = val->len;
                 for (i = 0; i < l; i++)
-                    AS_I64(res)[i] = AS_I64(AS_LIST(val)[i])[0];
+                    AS_I64(res)[i] = AS_I64(AS_LIST(val)[i])[aggr_part_edge(val, filter, i, B8_FALSE)];
             } else {
                 // With filter - iterate all partitions, only take matching ones
                 l = filter->len;
                 for (i = 0, j = 0; i < l; i++) {
                     if (AS_LIST(filter)[i] != NULL_OBJ)
-                        AS_I64(res)[j++] = AS_I64(AS_LIST(val)[i])[0];
+                        AS_I64(res)[j++] = AS_I64(AS_LIST(val)[i])[aggr_part_edge(val, filter, i, B8_FALSE)];
                 }
                 resize_obj(&res, j);
             }
@@ -846,7 +860,7 @@ obj_p aggr_first(obj_p val, obj_p index) {
                 l = val->len;
                 for (i = 0; i < l; i++) {
                     if (filter == NULL_OBJ || AS_LIST(filter)[i] != NULL_OBJ) {
-                        AS_I64(parts)[0] = AS_I64(ENUM_VAL(AS_LIST(val)[i]))[0];
+                        AS_I64(parts)[0] = AS_I64(ENUM_VAL(AS_LIST(val)[i]))[aggr_part_edge(val, filter, i, B8_FALSE)];
                         break;
                     }
                 }
@@ -861,13 +875,13 @@ obj_p aggr_first(obj_p val, obj_p index) {
                 // No filter - iterate over all partitions
                 l = val->len;
                 for (i = 0; i < l; i++)
-                    AS_I64(parts)[i] = AS_I64(ENUM_VAL(AS_LIST(val)[i]))[0];
+                    AS_I64(parts)[i] = AS_I64(ENUM_VAL(AS_LIST(val)[i]))[aggr_part_edge(val, filter, i, B8_FALSE)];
             } else {
                 // With filter - iterate all partitions, only take matching ones
                 l = filter->len;
                 for (i = 0, j = 0; i < l; i++) {
                     if (AS_LIST(filter)[i] != NULL_OBJ)
-                        AS_I64(parts)[j++] = AS_I64(ENUM_VAL(AS_LIST(val)[i]))[0];
+                        AS_I64(parts)[j++] = AS_I64(ENUM_VAL(AS_LIST(val)[i]))[aggr_part_edge(val, filter, i, B8_FALSE)];
                 }
                 resize_obj(&parts, j);
             }
@@ -1048,7 +1062,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
                     obj_p fentry = (filter == NULL_OBJ) ? NULL_OBJ : AS_LIST(filter)[i];
                     if (filter == NULL_OBJ ||
                         (fentry != NULL_OBJ && ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0))) {
-                        AS_LIST(res)[0] = at_idx(AS_LIST(val)[i], -1);
+                        AS_LIST(res)[0] = at_idx(AS_LIST(val)[i], aggr_part_edge(val, filter, i, B8_TRUE));
                         break;
                     }
                 }
@@ -1058,7 +1072,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             if (filter == NULL_OBJ) {
                 // No filter - iterate over all partitions
                 for (i = 0; i < n; i++)
-                    AS_LIST(res)[i] = at_idx(AS_LIST(val)[i], -1);
+                    AS_LIST(res)[i] = at_idx(AS_LIST(val)[i], aggr_part_edge(val, filter, i, B8_TRUE));
             } else {
                 // With filter - iterate all partitions, only take matching ones
                 l = filter->len;
@@ -1066,7 +1080,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
                     obj_p fentry = AS_LIST(filter)[i];
                     if (fentry != NULL_OBJ) {
                         if ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0) {
-                            AS_LIST(res)[j++] = at_idx(AS_LIST(val)[i], -1);
+                            AS_LIST(res)[j++] = at_idx(AS_LIST(val)[i], aggr_part_edge(val, filter, i, B8_TRUE));
                         }
                     }
                 }
@@ -1084,8 +1098,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
                     obj_p fentry = (filter == NULL_OBJ) ? NULL_OBJ : AS_LIST(filter)[i];
                     if (filter == NULL_OBJ ||
                         (fentry != NULL_OBJ && ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0))) {
-                        i64_t pl = AS_LIST(val)[i]->len;
-                        AS_B8(res)[0] = AS_B8(AS_LIST(val)[i])[pl - 1];
+                        AS_B8(res)[0] = AS_B8(AS_LIST(val)[i])[aggr_part_edge(val, filter, i, B8_TRUE)];
                         break;
                     }
                 }
@@ -1105,8 +1118,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
                     obj_p fentry = AS_LIST(filter)[i];
                     if (fentry != NULL_OBJ) {
                         if ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0) {
-                            i64_t pl = AS_LIST(val)[i]->len;
-                            AS_B8(res)[j++] = AS_B8(AS_LIST(val)[i])[pl - 1];
+                            AS_B8(res)[j++] = AS_B8(AS_LIST(val)[i])[aggr_part_edge(val, filter, i, B8_TRUE)];
                         }
                     }
                 }
@@ -1131,6 +1143,47 @@ obj_p aggr_last(obj_p val, obj_p index) {
         case TYPE_PARTEDI16:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i16, i16,
                               if ($in[$x] != NULL_I16) $out[$y] = $in[$x]);
+        case TYPE_PARTEDENUM:
+            filter = index_group_filter(index);
+            // Get the enum key from the first partition
+            ek = ray_key(AS_LIST(val)[0]);
+            if (IS_ERR(ek))
+                return ek;
+
+            if (n == 1) {
+                // Global last - return last element of last matching partition
+                parts = I64(1);
+                l = val->len;
+                for (i = l - 1; i >= 0; i--) {
+                    if (filter == NULL_OBJ || AS_LIST(filter)[i] != NULL_OBJ) {
+                        AS_I64(parts)[0] = AS_I64(ENUM_VAL(AS_LIST(val)[i]))[aggr_part_edge(val, filter, i, B8_TRUE)];
+                        break;
+                    }
+                }
+                res = enumerate(ek, parts);
+                return res;
+            }
+
+            // Create the values vector with size n (number of groups/matching partitions)
+            parts = I64(n);
+
+            if (filter == NULL_OBJ) {
+                // No filter - iterate over all partitions
+                l = val->len;
+                for (i = 0; i < l; i++)
+                    AS_I64(parts)[i] = AS_I64(ENUM_VAL(AS_LIST(val)[i]))[aggr_part_edge(val, filter, i, B8_TRUE)];
+            } else {
+                // With filter - iterate all partitions, only take matching ones
+                l = filter->len;
+                for (i = 0, j = 0; i < l; i++) {
+                    if (AS_LIST(filter)[i] != NULL_OBJ)
+                        AS_I64(parts)[j++] = AS_I64(ENUM_VAL(AS_LIST(val)[i]))[aggr_part_edge(val, filter, i, B8_TRUE)];
+                }
+                resize_obj(&parts, j);
+            }
+
+            res = enumerate(ek, parts);
+            return res;
         default:
             return err_type(0, 0, 0, 0);
     }
@@ -1228,6 +1281,7 @@ obj_p aggr_max_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
             AGGR_ITER(index, len, offset, val, res, f64, f64, $out[$y] = NULL_F64, $out[$y] = MAXF64($out[$y], $in[$x]),
                       $out[$y] = NULL_F64);
             return res;
+        case TYPE_I32:
         case TYPE_TIME:
         case TYPE_DATE:
             AGGR_ITER(index, len, offset, val, res, i32, i32, $out[$y] = NULL_I32, $out[$y] = MAXI32($out[$y], $in[$x]),
@@ -1269,6 +1323,7 @@ obj_p aggr_max(obj_p val, obj_p index) {
             res = AGGR_COLLECT(parts, n, f64, f64, $out[$y] = MAXF64($out[$y], $in[$x]));
             drop_obj(parts);
             return res;
+        case TYPE_I32:
         case TYPE_TIME:
         case TYPE_DATE:
             parts = aggr_map((raw_p)aggr_max_partial, val, val->type, index);
@@ -1311,12 +1366,14 @@ obj_p aggr_min_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
             AGGR_ITER(index, len, offset, val, res, f64, f64, $out[$y] = INF_F64, $out[$y] = MINF64($out[$y], $in[$x]),
                       $out[$y] = NULL_F64);
             return res;
+        case TYPE_I32:
         case TYPE_TIME:
         case TYPE_DATE:
             AGGR_ITER(index, len, offset, val, res, i32, i32, $out[$y] = INF_I32, $out[$y] = MINI32($out[$y], $in[$x]),
                       $out[$y] = NULL_I32);
             return res;
         default:
+            destroy_partial_result(res);
             return err_type(0, 0, 0, 0);
     }
 }
@@ -1351,6 +1408,7 @@ obj_p aggr_min(obj_p val, obj_p index) {
             res = AGGR_COLLECT(parts, n, f64, f64, $out[$y] = MINF64($out[$y], $in[$x]));
             drop_obj(parts);
             return res;
+        case TYPE_I32:
         case TYPE_TIME:
         case TYPE_DATE:
             parts = aggr_map((raw_p)aggr_min_partial, val, val->type, index);
@@ -3184,7 +3242,7 @@ obj_p aggr_collect(obj_p val, obj_p index) {
             // Collect all values from matching partitions
             drop_obj(res);
             filter = index_group_filter(index);
-            res = LIST(n);
+            res = LIST(val->len);
             if (filter == NULL_OBJ) {
                 // No filter - each partition is a group
                 for (i = 0; i < (i64_t)val->len; i++) {
@@ -3220,6 +3278,15 @@ obj_p aggr_collect(obj_p val, obj_p index) {
                 }
                 res->len = j;
             }
+            // All the partitions are in one group
+            if (n == 1 && res->len > 1) {
+                v = ray_raze(res);
+                drop_obj(res);
+                if (IS_ERR(v))
+                    return v;
+                res = LIST(1);
+                AS_LIST(res)[0] = v;
+            }
             return res;
         default:
             drop_obj(res);
diff --git a/core/math.c b/core/math.c
index 11a03fd..2a0f47a 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2527,8 +2527,46 @@ obj_p ray_avg(obj_p x) {
 
 // TODO: Refactoring with out sort and with parallel execution
 obj_p ray_med(obj_p x) {
-    obj_p cnt_obj = ray_cnt(x);
-    i64_t l = cnt_obj->i64;
+    obj_p cnt_obj;
+    i64_t l;
+
+    switch (x->type) {
+        case TYPE_MAPGROUP:
+            return aggr_med(AS_LIST(x)[0], AS_LIST(x)[1]);
+        case TYPE_MAPFILTER: {
+            obj_p val = AS_LIST(x)[0];
+            obj_p filter = AS_LIST(x)[1];
+            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter_whole_parts(val, filter)) {
+                obj_p index = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ,
+                                      clone_obj(filter), NULL_OBJ);
+                obj_p res = aggr_med(val, index);
+                drop_obj(index);
+                return res;
+            }
+            obj_p collected = filter_collect(val, filter);
+            obj_p res = ray_med(collected);
+            drop_obj(collected);
+            return res;
+        }
+        case TYPE_PARTEDI16:
+        case TYPE_PARTEDI32:
+        case TYPE_PARTEDI64:
+        case TYPE_PARTEDF64:
+        case TYPE_PARTEDDATE:
+        case TYPE_PARTEDTIME:
+        case TYPE_PARTEDTIMESTAMP: {
+            obj_p index =
+                vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ, NULL_OBJ, NULL_OBJ);
+            obj_p res = aggr_med(x, index);
+            drop_obj(index);
+            return res;
+        }
+        default:
+            break;
+    }
+
+    cnt_obj = ray_cnt(x);
+    l = cnt_obj->i64;
     drop_obj(cnt_obj);
 
     if (l == 0)
@@ -2593,20 +2631,30 @@ obj_p ray_med(obj_p x) {
 
             //     return f64(med);
 
+        default:
+            return err_type(TYPE_LIST, x->type, 0, 0);
+    }
+}
+
+obj_p ray_dev(obj_p x) {
+    obj_p cnt_obj;
+    i64_t l;
+
+    switch (x->type) {
         case TYPE_MAPGROUP:
-            return aggr_med(AS_LIST(x)[0], AS_LIST(x)[1]);
+            return aggr_dev(AS_LIST(x)[0], AS_LIST(x)[1]);
         case TYPE_MAPFILTER: {
             obj_p val = AS_LIST(x)[0];
             obj_p filter = AS_LIST(x)[1];
             if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter_whole_parts(val, filter)) {
                 obj_p index = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ,
                                       clone_obj(filter), NULL_OBJ);
-                obj_p res = aggr_med(val, index);
+                obj_p res = aggr_dev(val, index);
                 drop_obj(index);
                 return res;
             }
             obj_p collected = filter_collect(val, filter);
-            obj_p res = ray_med(collected);
+            obj_p res = ray_dev(collected);
             drop_obj(collected);
             return res;
         }
@@ -2619,18 +2667,16 @@ obj_p ray_med(obj_p x) {
         case TYPE_PARTEDTIMESTAMP: {
             obj_p index =
                 vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ, NULL_OBJ, NULL_OBJ);
-            obj_p res = aggr_med(x, index);
+            obj_p res = aggr_dev(x, index);
             drop_obj(index);
             return res;
         }
         default:
-            return err_type(TYPE_LIST, x->type, 0, 0);
+            break;
     }
-}
 
-obj_p ray_dev(obj_p x) {
-    obj_p cnt_obj = ray_cnt(x);
-    i64_t l = cnt_obj->i64;
+    cnt_obj = ray_cnt(x);
+    l = cnt_obj->i64;
     drop_obj(cnt_obj);
 
     if (l == 0)
@@ -2665,36 +2711,6 @@ obj_p ray_dev(obj_p x) {
             favg = (sum_obj->f64) / (f64_t)l;
             drop_obj(sum_obj);
             break;
-        case TYPE_MAPGROUP:
-            return aggr_dev(AS_LIST(x)[0], AS_LIST(x)[1]);
-        case TYPE_MAPFILTER: {
-            obj_p val = AS_LIST(x)[0];
-            obj_p filter = AS_LIST(x)[1];
-            if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter_whole_parts(val, filter)) {
-                obj_p index = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ,
-                                      clone_obj(filter), NULL_OBJ);
-                obj_p res = aggr_dev(val, index);
-                drop_obj(index);
-                return res;
-            }
-            obj_p collected = filter_collect(val, filter);
-            obj_p res = ray_dev(collected);
-            drop_obj(collected);
-            return res;
-        }
-        case TYPE_PARTEDI16:
-        case TYPE_PARTEDI32:
-        case TYPE_PARTEDI64:
-        case TYPE_PARTEDF64:
-        case TYPE_PARTEDDATE:
-        case TYPE_PARTEDTIME:
-        case TYPE_PARTEDTIMESTAMP: {
-            obj_p index =
-                vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ, NULL_OBJ, NULL_OBJ);
-            obj_p res = aggr_dev(x, index);
-            drop_obj(index);
-            return res;
-        }
         default:
             return err_type(TYPE_LIST, x->type, 0, 0);
     }
-- 
2.43.0


From 51ab3bcff3336e0c42109d090e8ec6ac974dc625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:15 +0000
Subject: [PATCH 082/108] fix: columns of 32-bit integers, dates and times turn
 into lists or zeroes when items are set or missing

---
 core/rayforce.c | 66 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 66 insertions(+)

diff --git a/core/rayforce.c b/core/rayforce.c
index 3733698..484b964 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -86,6 +86,16 @@ obj_p null(i8_t type) {
     switch (type) {
         case TYPE_B8:
             return b8(B8_FALSE);
+        case TYPE_U8:
+            return u8(0);
+        case TYPE_I16:
+            return i16(NULL_I16);
+        case TYPE_I32:
+            return i32(NULL_I32);
+        case TYPE_DATE:
+            return adate(NULL_I32);
+        case TYPE_TIME:
+            return atime(NULL_I32);
         case TYPE_I64:
             return i64(NULL_I64);
         case TYPE_F64:
@@ -121,6 +131,16 @@ obj_p nullv(i8_t type, i64_t len) {
         case TYPE_C8:
             memset(vec->raw, 0, len);
             break;
+        case TYPE_I16:
+            for (i = 0; i < len; i++)
+                AS_I16(vec)[i] = NULL_I16;
+            break;
+        case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
+            for (i = 0; i < len; i++)
+                AS_I32(vec)[i] = NULL_I32;
+            break;
         case TYPE_I64:
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
@@ -1404,6 +1424,21 @@ obj_p set_idx(obj_p* obj, i64_t idx, obj_p val) {
     }
 
     switch (MTYPE2((*obj)->type, val->type)) {
+        case MTYPE2(TYPE_B8, -TYPE_B8):
+        case MTYPE2(TYPE_U8, -TYPE_U8):
+            AS_U8(*obj)[idx] = val->u8;
+            drop_obj(val);
+            return *obj;
+        case MTYPE2(TYPE_I16, -TYPE_I16):
+            AS_I16(*obj)[idx] = val->i16;
+            drop_obj(val);
+            return *obj;
+        case MTYPE2(TYPE_I32, -TYPE_I32):
+        case MTYPE2(TYPE_DATE, -TYPE_DATE):
+        case MTYPE2(TYPE_TIME, -TYPE_TIME):
+            AS_I32(*obj)[idx] = val->i32;
+            drop_obj(val);
+            return *obj;
         case MTYPE2(TYPE_I64, -TYPE_I64):
         case MTYPE2(TYPE_SYMBOL, -TYPE_SYMBOL):
         case MTYPE2(TYPE_TIMESTAMP, -TYPE_TIMESTAMP):
@@ -1497,6 +1532,7 @@ obj_p set_ids(obj_p* obj, i64_t ids[], i64_t len, obj_p vals) {
                 AS_C8(*obj)[ids[i]] = AS_C8(vals)[i];
             drop_obj(vals);
             return *obj;
+        case MTYPE2(TYPE_B8, TYPE_B8):
         case MTYPE2(TYPE_U8, TYPE_U8):
             for (i = 0; i < len; i++)
                 AS_U8(*obj)[ids[i]] = AS_U8(vals)[i];
@@ -1585,6 +1621,24 @@ obj_p __expand(obj_p obj, i64_t len) {
 
             drop_obj(obj);
 
+            return res;
+        case -TYPE_I16:
+            res = vector(obj->type, len);
+            for (i = 0; i < len; i++)
+                AS_I16(res)[i] = obj->i16;
+
+            drop_obj(obj);
+
+            return res;
+        case -TYPE_I32:
+        case -TYPE_DATE:
+        case -TYPE_TIME:
+            res = vector(obj->type, len);
+            for (i = 0; i < len; i++)
+                AS_I32(res)[i] = obj->i32;
+
+            drop_obj(obj);
+
             return res;
         case -TYPE_I64:
         case -TYPE_SYMBOL:
@@ -1778,6 +1832,12 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
 
     // dispatch:
     switch (MTYPE2((*obj)->type, idx->type)) {
+        case MTYPE2(TYPE_B8, -TYPE_I64):
+        case MTYPE2(TYPE_U8, -TYPE_I64):
+        case MTYPE2(TYPE_I16, -TYPE_I64):
+        case MTYPE2(TYPE_I32, -TYPE_I64):
+        case MTYPE2(TYPE_DATE, -TYPE_I64):
+        case MTYPE2(TYPE_TIME, -TYPE_I64):
         case MTYPE2(TYPE_I64, -TYPE_I64):
         case MTYPE2(TYPE_SYMBOL, -TYPE_I64):
         case MTYPE2(TYPE_TIMESTAMP, -TYPE_I64):
@@ -1790,6 +1850,12 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
                 return err_index(idx->i64, (*obj)->len, 0, 0);
             }
             return set_idx(obj, idx->i64, val);
+        case MTYPE2(TYPE_B8, TYPE_I64):
+        case MTYPE2(TYPE_U8, TYPE_I64):
+        case MTYPE2(TYPE_I16, TYPE_I64):
+        case MTYPE2(TYPE_I32, TYPE_I64):
+        case MTYPE2(TYPE_DATE, TYPE_I64):
+        case MTYPE2(TYPE_TIME, TYPE_I64):
         case MTYPE2(TYPE_I64, TYPE_I64):
         case MTYPE2(TYPE_SYMBOL, TYPE_I64):
         case MTYPE2(TYPE_TIMESTAMP, TYPE_I64):
-- 
2.43.0


From c46f478edbafd8e566ea0f8fb32437cbea5c78dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:58 +0000
Subject: [PATCH 083/108] fix: rows that do not fit a table leave it with
 columns of different lengths

---
 core/update.c | 100 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 81 insertions(+), 19 deletions(-)

diff --git a/core/update.c b/core/update.c
index a66a70a..b94deaa 100644
--- a/core/update.c
+++ b/core/update.c
@@ -423,6 +423,65 @@ obj_p ray_modify(obj_p *x, i64_t n) {
     return clone_obj(x[0]);
 }
 
+/*
+ * Checks rows against the columns of a table: a record of atoms or columns of the same length,
+ * of types the columns of the table can hold.
+ *
+ * Returns: the rows with the numbers converted to the types of the columns and, when fill is set,
+ * nulls for the columns that are not given, or error object
+ */
+obj_p __conform_rows(obj_p table_vals, obj_p lst, b8_t fill) {
+    i64_t i, m, n;
+    obj_p res, col, v;
+    b8_t is_single_record;
+
+    is_single_record = IS_ATOM(AS_LIST(lst)[0]);
+    m = is_single_record ? 1 : ops_count(AS_LIST(lst)[0]);
+
+    for (i = 0; i < lst->len; i++) {
+        col = AS_LIST(table_vals)[i];
+        v = AS_LIST(lst)[i];
+
+        if (!__suitable_types(col, v))
+            return err_type(col->type, v->type, 0, 0);
+
+        if (is_single_record) {
+            if (!IS_ATOM(v) && col->type != TYPE_LIST && col->type != TYPE_MAPLIST)
+                return err_type(-col->type, v->type, 0, 0);
+        } else {
+            if (!IS_VECTOR(v))
+                return err_type(col->type, v->type, 0, 0);
+
+            if (ops_count(v) != m)
+                return err_length(m, ops_count(v), 0, 0, 0, 0);
+        }
+    }
+
+    n = fill ? table_vals->len : lst->len;
+    res = LIST(n);
+
+    for (i = 0; i < n; i++) {
+        col = AS_LIST(table_vals)[i];
+
+        if (i >= lst->len)
+            v = is_single_record ? null(col->type) : nullv(col->type, m);
+        else if (col->type == TYPE_I64 || col->type == TYPE_I32)
+            v = cast_obj(is_single_record ? -col->type : col->type, AS_LIST(lst)[i]);
+        else
+            v = clone_obj(AS_LIST(lst)[i]);
+
+        if (IS_ERR(v)) {
+            res->len = i;
+            drop_obj(res);
+            return v;
+        }
+
+        AS_LIST(res)[i] = v;
+    }
+
+    return res;
+}
+
 /*
  * inserts for tables
  */
@@ -434,7 +493,7 @@ obj_p ray_modify(obj_p *x, i64_t n) {
     }
 
 obj_p ray_insert(obj_p *x, i64_t n) {
-    i64_t i, m, l;
+    i64_t i, l;
     obj_p lst, col, *val = NULL, obj, res, original;
     b8_t need_drop, lst_allocated;
 
@@ -488,16 +547,25 @@ obj_p ray_insert(obj_p *x, i64_t n) {
                 INSERT_ERROR(res);
             }
 
+            if (l == 0) {
+                res = err_length(0, 0, 0, 0, 0, 0);
+                INSERT_ERROR(res);
+            }
+
+            // Check the rows before any of the columns is changed
+            res = __conform_rows(AS_LIST(obj)[1], lst, B8_TRUE);
+            if (IS_ERR(res))
+                INSERT_ERROR(res);
+
+            if (lst_allocated)
+                drop_obj(lst);
+
+            lst = res;
+            lst_allocated = B8_TRUE;
+            l = lst->len;
+
             // There is one record to be inserted
             if (IS_ATOM(AS_LIST(lst)[0])) {
-                // Check all the elements of the list
-                for (i = 0; i < l; i++) {
-                    if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[i], AS_LIST(lst)[i])) {
-                        res = err_type(0, 0, 0, 0);
-                        INSERT_ERROR(res);
-                    }
-                }
-
                 // Insert the record now
                 for (i = 0; i < l; i++) {
                     col = cow_obj(AS_LIST(AS_LIST(obj)[1])[i]);
@@ -514,21 +582,15 @@ obj_p ray_insert(obj_p *x, i64_t n) {
                 }
             } else {
                 // There are multiple records to be inserted
-                m = AS_LIST(lst)[0]->len;
-                if (m == 0) {
+                if (AS_LIST(lst)[0]->len == 0) {
                     res = err_length(0, 0, 0, 0, 0, 0);
                     INSERT_ERROR(res);
                 }
 
-                // Check all the elements of the list
                 for (i = 0; i < l; i++) {
-                    if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[i], AS_LIST(lst)[i])) {
-                        res = err_type(0, 0, 0, 0);
-                        INSERT_ERROR(res);
-                    }
-
-                    if (AS_LIST(lst)[i]->len != m) {
-                        res = err_length(0, 0, 0, 0, 0, 0);
+                    col = AS_LIST(AS_LIST(obj)[1])[i];
+                    if (col->type != TYPE_LIST && col->type != AS_LIST(lst)[i]->type) {
+                        res = err_type(col->type, AS_LIST(lst)[i]->type, 0, 0);
                         INSERT_ERROR(res);
                     }
                 }
-- 
2.43.0


From ce4d85de69d968a7f8fd501b1d0851600571e2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:55 +0000
Subject: [PATCH 084/108] fix: upserts of records with several keys, of dates
 and of the same new key twice

---
 core/update.c | 87 +++++++++++++++++++++++++++++----------------------
 1 file changed, 49 insertions(+), 38 deletions(-)

diff --git a/core/update.c b/core/update.c
index b94deaa..b988c0a 100644
--- a/core/update.c
+++ b/core/update.c
@@ -638,9 +638,9 @@ obj_p ray_insert(obj_p *x, i64_t n) {
     }
 
 obj_p ray_upsert(obj_p *x, i64_t n) {
-    i64_t i, j, m, p, l, ll, keys;
+    i64_t i, j, m, p, l, keys;
     i64_t row, *rows;
-    obj_p obj, k1, k2, idx, col, lst, *val = NULL, v, original, res;
+    obj_p obj, k1, k2, idx, first, col, lst, *val = NULL, v, original, res;
     b8_t lst_allocated;
 
     if (n != 3)
@@ -691,25 +691,36 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
             if (l == 0)
                 UPSERT_ERROR(err_length(0, 0, 0, 0, 0, 0));
 
-            if (l > p)
+            if (l > p || l < keys)
                 UPSERT_ERROR(err_length(0, 0, 0, 0, 0, 0));
 
+            // Check the rows before any of the columns is changed
+            res = __conform_rows(AS_LIST(obj)[1], lst, B8_FALSE);
+            if (IS_ERR(res))
+                UPSERT_ERROR(res);
+
+            if (lst_allocated)
+                drop_obj(lst);
+
+            lst = res;
+            lst_allocated = B8_TRUE;
+
             // Check if this is a single record (atoms) or multiple records (vectors)
             if (IS_ATOM(AS_LIST(lst)[0])) {
-                // Single record case - validate all elements are atoms or compatible
-                for (i = 0; i < l; i++) {
-                    if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[i], AS_LIST(lst)[i])) {
-                        UPSERT_ERROR(err_type(0, 0, 0, 0));
-                    }
+                // Build key for lookup: columns of one item each
+                k1 = (keys == 1) ? at_idx(AS_LIST(obj)[1], 0) : ray_take(AS_LIST(obj)[1], x[1]);
+                k2 = LIST(keys);
+                for (i = 0; i < keys; i++) {
+                    v = AS_LIST(lst)[i];
+                    AS_LIST(k2)[i] =
+                        (AS_LIST(AS_LIST(obj)[1])[i]->type == TYPE_LIST) ? LIST(0) : vector(v->type, 0);
+                    push_obj(AS_LIST(k2) + i, clone_obj(v));
                 }
 
-                // Build key for lookup
                 if (keys == 1) {
-                    k1 = at_idx(AS_LIST(obj)[1], 0);
-                    k2 = clone_obj(AS_LIST(lst)[0]);
-                } else {
-                    k1 = ray_take(AS_LIST(obj)[1], x[1]);
-                    k2 = ray_take(lst, x[1]);
+                    v = at_idx(k2, 0);
+                    drop_obj(k2);
+                    k2 = v;
                 }
 
                 idx = index_upsert_obj(k2, k1, x[1]->i64);
@@ -747,16 +758,7 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
                 return __commit(x[0], obj, val);
             }
 
-            // Multiple records case - validate the list contains vectors
-            ll = AS_LIST(lst)[0]->len;
-            for (i = 0; i < l; i++) {
-                if (!IS_VECTOR(AS_LIST(lst)[i]))
-                    UPSERT_ERROR(err_type(0, 0, 0, 0));
-
-                if (AS_LIST(lst)[i]->len != ll)
-                    UPSERT_ERROR(err_length(0, 0, 0, 0, 0, 0));
-            }
-
+            // Multiple records case
             if (keys == 1) {
                 k1 = at_idx(AS_LIST(obj)[1], 0);
                 k2 = at_idx(lst, 0);
@@ -769,26 +771,35 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
 
             idx = index_upsert_obj(k2, k1, x[1]->i64);
 
+            if (IS_ERR(idx)) {
+                drop_obj(k1);
+                drop_obj(k2);
+                UPSERT_ERROR(idx);
+            }
+
+            rows = AS_I64(idx);
+
+            // Rows of the same new key: the first one is inserted, the others update it
+            first = index_upsert_obj(k2, k2, x[1]->i64);
             drop_obj(k1);
             drop_obj(k2);
+            if (IS_ERR(first)) {
+                drop_obj(idx);
+                UPSERT_ERROR(first);
+            }
 
-            if (IS_ERR(idx))
-                UPSERT_ERROR(idx);
-
-            // Check all the elements of the list
-            for (i = 0; i < l; i++) {
-                if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[i], AS_LIST(lst)[i])) {
-                    drop_obj(idx);
-                    UPSERT_ERROR(err_type(0, 0, 0, 0));
-                }
+            row = ops_count(obj);
+            for (j = 0; j < m; j++) {
+                if (rows[j] != NULL_I64)
+                    continue;
 
-                if (AS_LIST(lst)[i]->len != m) {
-                    drop_obj(idx);
-                    UPSERT_ERROR(err_length(0, 0, 0, 0, 0, 0));
-                }
+                if (AS_I64(first)[j] == NULL_I64 || AS_I64(first)[j] == j)
+                    AS_I64(first)[j] = row++;
+                else
+                    rows[j] = AS_I64(first)[AS_I64(first)[j]];
             }
 
-            rows = AS_I64(idx);
+            drop_obj(first);
 
             // Process each column
             for (i = 0; i < p; i++) {
-- 
2.43.0


From 3c6b072aceb636c95622d39733dd36fd7e91dec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:26 +0000
Subject: [PATCH 085/108] fix: a failing update leaves new columns behind, a
 new column takes items beyond the given ones

---
 core/update.c | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/core/update.c b/core/update.c
index b988c0a..9e482a6 100644
--- a/core/update.c
+++ b/core/update.c
@@ -875,13 +875,8 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p gro
         for (i = 0; i < l; i++) {
             j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
 
-            // Add new column
-            if (j == NULL_I64) {
-                push_raw(AS_LIST(obj), AS_SYMBOL(keys) + i);
-                push_obj(AS_LIST(obj) + 1, nullv(AS_LIST(vals)[i]->type, ops_count(obj)));
-            }
             // Check existing column
-            else {
+            if (j != NULL_I64) {
                 for (m = 0; m < n; m++) {
                     v = at_idx(AS_LIST(vals)[i], m);
                     if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[j], v)) {
@@ -911,6 +906,15 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p gro
             }
         }
 
+        // Add new columns
+        for (i = 0; i < l; i++) {
+            if (find_raw(AS_LIST(obj)[0], AS_I64(keys) + i) == NULL_I64) {
+                col = nullv(AS_LIST(vals)[i]->type, ops_count(obj));
+                push_raw(AS_LIST(obj), AS_SYMBOL(keys) + i);
+                push_obj(AS_LIST(obj) + 1, col);
+            }
+        }
+
         // Cow each column
         for (i = 0; i < l; i++) {
             j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
@@ -960,13 +964,8 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p gro
         for (i = 0; i < l; i++) {
             j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
 
-            // Add new column
-            if (j == NULL_I64) {
-                push_raw(AS_LIST(obj), AS_SYMBOL(keys) + i);
-                push_obj(AS_LIST(obj) + 1, nullv(AS_LIST(vals)[i]->type, ops_count(obj)));
-            }
             // Check existing column
-            else {
+            if (j != NULL_I64) {
                 if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[j], AS_LIST(vals)[i])) {
                     res = err_type(0, 0, 0, 0);
                     drop_obj(tab);
@@ -991,6 +990,25 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p gro
                     UNCOW_OBJ(obj, val, original, res);
                 }
             }
+            // A new column: the same lengths, a string is a scalar
+            else if (!IS_ATOM(AS_LIST(vals)[i]) && AS_LIST(vals)[i]->type != TYPE_C8 &&
+                     ops_count(AS_LIST(vals)[i]) != filters->len && ops_count(AS_LIST(vals)[i]) != ops_count(obj)) {
+                res = err_length(0, 0, 0, 0, 0, 0);
+                drop_obj(tab);
+                drop_obj(keys);
+                drop_obj(vals);
+                drop_obj(filters);
+                UNCOW_OBJ(obj, val, original, res);
+            }
+        }
+
+        // Add new columns
+        for (i = 0; i < l; i++) {
+            if (find_raw(AS_LIST(obj)[0], AS_I64(keys) + i) == NULL_I64) {
+                col = nullv(AS_LIST(vals)[i]->type, ops_count(obj));
+                push_raw(AS_LIST(obj), AS_SYMBOL(keys) + i);
+                push_obj(AS_LIST(obj) + 1, col);
+            }
         }
 
         // Cow each column
-- 
2.43.0


From df237f6384459c00b0fa8afe52dc86f6a7e7fbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:07 +0000
Subject: [PATCH 086/108] fix: alter, modify, remove, diverse, unify and joins
 free values that are in use

---
 core/compose.c |  23 +++--
 core/join.c    |   4 +-
 core/update.c  | 235 +++++++++++++++++++++++++++++++------------------
 3 files changed, 169 insertions(+), 93 deletions(-)

diff --git a/core/compose.c b/core/compose.c
index 6b3931a..98f12ee 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -849,17 +849,26 @@ obj_p ray_concat(obj_p x, obj_p y) {
 }
 
 obj_p ray_remove(obj_p x, obj_p y) {
-    obj_p r;
+    i64_t i;
+    obj_p r, res;
+
     switch (y->type) {
         case -TYPE_I32:
-            r = cow_obj(x);
-            return remove_idx(&r, y->i32);
+            i = y->i32;
+            break;
         case -TYPE_I64:
-            r = cow_obj(x);
-            return remove_idx(&r, y->i64);
+            i = y->i64;
+            break;
         default:
             return err_type(-TYPE_I64, y->type, 0, 0);
     }
+
+    r = copy_obj(x);
+    res = remove_idx(&r, i);
+    if (IS_ERR(res))
+        drop_obj(r);
+
+    return res;
 }
 
 obj_p ray_distinct(obj_p x) {
@@ -1110,14 +1119,14 @@ obj_p ray_group(obj_p x) {
 obj_p ray_diverse(obj_p x) {
     obj_p res;
 
-    res = cow_obj(x);
+    res = copy_obj(x);
     return diverse_obj(&res);
 }
 
 obj_p ray_unify(obj_p x) {
     obj_p res;
 
-    res = cow_obj(x);
+    res = copy_obj(x);
     return unify_list(&res);
 }
 
diff --git a/core/join.c b/core/join.c
index 81ed2e2..366cb95 100644
--- a/core/join.c
+++ b/core/join.c
@@ -331,7 +331,7 @@ obj_p ray_asof_join(obj_p *x, i64_t n) {
         return err_type(expected, actual, 0, 0);
     }
 
-    keys = cow_obj(x[0]);
+    keys = copy_obj(x[0]);
     keys = remove_idx(&keys, keys->len - 1);
     lvals = at_obj(x[1], keys);
     rvals = at_obj(x[2], keys);
@@ -401,7 +401,7 @@ static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
         return err_type(expected, actual, 0, 0);
     }
 
-    keys = cow_obj(x[0]);
+    keys = copy_obj(x[0]);
     keys = remove_idx(&keys, keys->len - 1);
     lvals = at_obj(x[2], keys);
     rvals = at_obj(jtab, keys);
diff --git a/core/update.c b/core/update.c
index 9e482a6..8663de5 100644
--- a/core/update.c
+++ b/core/update.c
@@ -252,9 +252,8 @@ obj_p *at_obj_ref(obj_p obj, obj_p idx) {
     }
 }
 
-obj_p dot_obj(obj_p obj, obj_p idx) {
+obj_p *dot_obj(obj_p *obj, obj_p idx) {
     i64_t i, l;
-    obj_p *ref;
 
     switch (idx->type) {
         case TYPE_NULL:
@@ -262,77 +261,108 @@ obj_p dot_obj(obj_p obj, obj_p idx) {
         case TYPE_LIST:
             l = idx->len;
             if (l < 2)
-                return err_value(0);
+                return NULL;
 
             l--;  // skip last element
 
             for (i = 0; i < l; i++) {
-                obj = cow_obj(obj);
                 obj = dot_obj(obj, AS_LIST(idx)[i]);
                 if (obj == NULL)
-                    return err_value(0);
+                    return NULL;
             }
 
             return obj;
 
         default:
-            ref = at_obj_ref(cow_obj(obj), idx);
-            if (ref == NULL)
-                return err_value(0);
-            return *ref;
+            return at_obj_ref(*obj, idx);
     }
 }
 
-obj_p __alter(obj_p *obj, obj_p func, obj_p idx, obj_p val) {
-    obj_p v, *p, args[3], res;
+static b8_t __alters_inplace(obj_p func) {
+    return func->type == TYPE_BINARY &&
+           (func->i64 == (i64_t)ray_set || func->i64 == (i64_t)ray_let || func->i64 == (i64_t)ray_concat ||
+            func->i64 == (i64_t)ray_remove);
+}
 
-    // special case for set/let
-    if (func->type == TYPE_BINARY && (func->i64 == (i64_t)ray_set || func->i64 == (i64_t)ray_let))
-        return set_obj(obj, idx, clone_obj(val));
+// The value an item is to be replaced by: the function is called before the object is fetched to be changed,
+// it may change variables on its own
+static obj_p __altered(obj_p obj, obj_p func, obj_p idx, obj_p val) {
+    obj_p v, args[3], res;
+
+    v = (idx->type == TYPE_NULL) ? clone_obj(obj) : at_obj(obj, idx);
+    if (IS_ERR(v))
+        return v;
+
+    args[0] = func;
+    args[1] = v;
+    args[2] = val;
+
+    res = ray_apply(args, 3);
+    drop_obj(v);
+
+    return res;
+}
+
+// Changes the object the caller owns, val is consumed
+static obj_p __alter(obj_p *obj, obj_p func, obj_p idx, obj_p val) {
+    obj_p *p, res;
 
     // special case for concat
     if (func->type == TYPE_BINARY && func->i64 == (i64_t)ray_concat) {
-        if (idx->type == TYPE_NULL)
-            return push_obj(obj, clone_obj(val));
-
-        p = at_obj_ref(*obj, idx);
-        if (p == NULL)
+        p = (idx->type == TYPE_NULL) ? obj : at_obj_ref(*obj, idx);
+        if (p == NULL) {
+            drop_obj(val);
             return err_value(0);
-        if (IS_ERR(*p))
-            return clone_obj(*p);
-
-        res = push_obj(p, clone_obj(val));
-        if (IS_ERR(res))
-            return res;
+        }
 
-        return *obj;
+        return push_obj(p, val);
     }
 
     // special case for remove
-    if (func->type == TYPE_BINARY && func->i64 == (i64_t)ray_remove)
-        return remove_obj(obj, val);
+    if (func->type == TYPE_BINARY && func->i64 == (i64_t)ray_remove) {
+        res = remove_obj(obj, val);
+        drop_obj(val);
+        return res;
+    }
 
-    // retrieve the object via indices
-    v = at_obj(*obj, idx);
+    // all the items at once
+    if (idx->type == TYPE_NULL && !__alters_inplace(func)) {
+        drop_obj(*obj);
+        *obj = val;
+        return val;
+    }
 
-    if (IS_ERR(v))
-        return v;
+    return set_obj(obj, idx, val);
+}
 
-    args[0] = func;
-    args[1] = v;
-    args[2] = val;
+// Puts the changed object in place of the original one (or drops it after an error)
+static obj_p __altered_commit(obj_p src, obj_p obj, obj_p orig, obj_p *cur, obj_p res) {
+    if (src->type != -TYPE_SYMBOL) {
+        if (IS_ERR(res)) {
+            drop_obj(obj);
+            return res;
+        }
 
-    res = ray_apply(args, 3);
-    drop_obj(v);
+        return obj;
+    }
 
-    if (IS_ERR(res))
-        return res;
+    if (orig != *cur) {
+        // a copy has been changed
+        if (IS_ERR(res)) {
+            drop_obj(obj);
+            return res;
+        }
+
+        drop_obj(*cur);
+    }
 
-    return set_obj(obj, idx, res);
+    *cur = obj;
+
+    return IS_ERR(res) ? res : clone_obj(src);
 }
 
 obj_p ray_alter(obj_p *x, i64_t n) {
-    obj_p obj, res, *cur = NULL;
+    obj_p obj, res, val, idx, orig, *cur = NULL;
 
     if (n < 3)
         return err_arity(3, n, 0);
@@ -344,44 +374,44 @@ obj_p ray_alter(obj_p *x, i64_t n) {
         cur = resolve(x[0]->i64);
         if (cur == NULL)
             return err_value(0);
-        obj = cow_obj(*cur);
-    } else {
-        obj = cow_obj(x[0]);
     }
 
-    res = obj;
-    res = (n == 4) ? __alter(&res, x[1], x[2], x[3]) : __alter(&res, x[1], NULL_OBJ, x[2]);
+    idx = (n == 4) ? x[2] : NULL_OBJ;
 
-    if (IS_ERR(res)) {
-        if (x[0]->type != -TYPE_SYMBOL)
-            drop_obj(obj);
+    if (__alters_inplace(x[1])) {
+        val = clone_obj((n == 4) ? x[3] : x[2]);
+    } else {
+        obj = clone_obj((cur != NULL) ? *cur : x[0]);
+        val = __altered(obj, x[1], idx, (n == 4) ? x[3] : x[2]);
+        drop_obj(obj);
 
-        return res;
-    }
+        if (IS_ERR(val))
+            return val;
 
-    if (x[0]->type != -TYPE_SYMBOL)
-        return res;
+        if (cur != NULL) {
+            cur = resolve(x[0]->i64);
+            if (cur == NULL) {
+                drop_obj(val);
+                return err_value(0);
+            }
+        }
+    }
 
-    // If the object was reallocated (e.g., by push_obj), update the reference
-    // Note: we don't drop *cur if obj == *cur originally, since they're the same object
-    // and res is already pointing to the (possibly reallocated) version
-    if (obj != *cur) {
-        // obj was a copy, so drop the original
-        drop_obj(*cur);
-        *cur = res;
-    } else if (res != obj) {
-        // obj was not a copy (cow returned same object), but it got reallocated
-        // So just update the pointer without dropping
-        *cur = res;
+    obj = (cur != NULL) ? cow_obj(*cur) : copy_obj(x[0]);
+    if (IS_ERR(obj)) {
+        drop_obj(val);
+        return obj;
     }
 
-    return clone_obj(x[0]);
+    orig = obj;
+    res = __alter(&obj, x[1], idx, val);
+
+    return __altered_commit(x[0], obj, orig, cur, res);
 }
 
 obj_p ray_modify(obj_p *x, i64_t n) {
-    obj_p obj, res, *cur, idx;
-
-    cur = NULL;
+    i64_t i;
+    obj_p obj, res, v, val, idx, orig, *p, *cur = NULL;
 
     if (n < 4)
         return err_arity(4, n, 0);
@@ -393,34 +423,71 @@ obj_p ray_modify(obj_p *x, i64_t n) {
         cur = resolve(x[0]->i64);
         if (cur == NULL)
             return err_value(0);
-        obj = cow_obj(*cur);
-    } else {
-        obj = cow_obj(x[0]);
     }
 
-    res = dot_obj(obj, x[2]);
-    if (IS_ERR(res))
-        return res;
-
     idx = ray_last(x[2]);
     if (IS_ERR(idx))
         return idx;
 
-    res = __alter(&res, x[1], idx, x[3]);
-    drop_obj(idx);
+    if (__alters_inplace(x[1])) {
+        val = clone_obj(x[3]);
+    } else {
+        obj = clone_obj((cur != NULL) ? *cur : x[0]);
 
-    if (IS_ERR(res))
-        return res;
+        if (x[2]->type == TYPE_LIST) {
+            for (i = 0; i < x[2]->len - 1 && !IS_ERR(obj); i++) {
+                v = at_obj(obj, AS_LIST(x[2])[i]);
+                drop_obj(obj);
+                obj = v;
+            }
+        } else if (x[2]->type != TYPE_NULL) {
+            v = at_obj(obj, x[2]);
+            drop_obj(obj);
+            obj = v;
+        }
+
+        if (IS_ERR(obj)) {
+            drop_obj(idx);
+            return obj;
+        }
+
+        val = __altered(obj, x[1], idx, x[3]);
+        drop_obj(obj);
+
+        if (IS_ERR(val)) {
+            drop_obj(idx);
+            return val;
+        }
+
+        if (cur != NULL) {
+            cur = resolve(x[0]->i64);
+            if (cur == NULL) {
+                drop_obj(idx);
+                drop_obj(val);
+                return err_value(0);
+            }
+        }
+    }
 
-    if (x[0]->type != -TYPE_SYMBOL)
+    obj = (cur != NULL) ? cow_obj(*cur) : copy_obj(x[0]);
+    if (IS_ERR(obj)) {
+        drop_obj(idx);
+        drop_obj(val);
         return obj;
+    }
 
-    if (cur != NULL && (*cur) != obj) {
-        drop_obj(*cur);
-        *cur = obj;
+    orig = obj;
+    p = dot_obj(&obj, x[2]);
+    if (p == NULL) {
+        drop_obj(val);
+        res = err_value(0);
+    } else {
+        res = __alter(p, x[1], idx, val);
     }
 
-    return clone_obj(x[0]);
+    drop_obj(idx);
+
+    return __altered_commit(x[0], obj, orig, cur, res);
 }
 
 /*
-- 
2.43.0


From 3c994ee8f8de0a75c4aa6d016ab1f8e167cec975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:33 +0000
Subject: [PATCH 087/108] fix: set with indices that do not fit loops for ever,
 removing unsorted indices corrupts memory

---
 core/rayforce.c | 125 ++++++++++++++++++++----------------------------
 1 file changed, 52 insertions(+), 73 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 484b964..dd9d263 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -1472,6 +1472,8 @@ obj_p set_idx(obj_p* obj, i64_t idx, obj_p val) {
 
 obj_p set_ids(obj_p* obj, i64_t ids[], i64_t len, obj_p vals) {
     i64_t i;
+    obj_p res;
+
     switch (MTYPE2((*obj)->type, vals->type)) {
         case MTYPE2(TYPE_C8, -TYPE_C8):
             for (i = 0; i < len; i++)
@@ -1603,7 +1605,10 @@ obj_p set_ids(obj_p* obj, i64_t ids[], i64_t len, obj_p vals) {
                 return *obj;
             }
 
-            return err_type((*obj)->type, vals->type, 0, 0);
+            res = err_type((*obj)->type, vals->type, 0, 0);
+            drop_obj(vals);
+
+            return res;
     }
 }
 
@@ -1792,8 +1797,10 @@ obj_p set_dict_obj(obj_p* obj, obj_p idx, obj_p val) {
             // Key not found, add it
             if (i == NULL_I64) {
                 res = push_obj(&AS_LIST(*obj)[0], clone_obj(idx));
-                if (IS_ERR(res))
+                if (IS_ERR(res)) {
+                    drop_obj(val);
                     return res;
+                }
 
                 res = push_obj(&AS_LIST(*obj)[1], val);
                 if (IS_ERR(res))
@@ -1811,14 +1818,24 @@ obj_p set_dict_obj(obj_p* obj, obj_p idx, obj_p val) {
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
             ids = find_obj_ids(AS_LIST(*obj)[0], idx);
-            if (IS_ERR(ids))
+            if (IS_ERR(ids)) {
+                drop_obj(val);
                 return ids;
+            }
+
+            // Some of the keys are not found
+            if (ids == NULL_OBJ || (IS_VECTOR(val) && val->len != ids->len)) {
+                drop_obj(ids);
+                drop_obj(val);
+                return err_value(0);
+            }
 
             res = set_ids(&AS_LIST(*obj)[1], AS_I64(ids), ids->len, val);
             drop_obj(ids);
 
-            return res;
+            return IS_ERR(res) ? res : *obj;
         default:
+            drop_obj(val);
             return err_type(TYPE_SYMBOL, idx->type, 0, 0);
     }
 
@@ -1944,19 +1961,11 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
 
             return *obj;
         default:
-            if ((*obj)->type == TYPE_DICT) {
-                res = set_dict_obj(obj, idx, val);
-                if (IS_ERR(res)) {
-                    drop_obj(val);
-                    return res;
-                }
+            if ((*obj)->type == TYPE_DICT)
+                return set_dict_obj(obj, idx, val);
 
-                return res;
-            }
-
-            // Diverse to a list then
-            diverse_obj(obj);
-            return set_obj(obj, idx, val);
+            drop_obj(val);
+            return err_type((*obj)->type, idx->type, 0, 0);
     }
 }
 
@@ -2019,75 +2028,45 @@ obj_p remove_idx(obj_p* obj, i64_t idx) {
 }
 
 obj_p remove_ids(obj_p* obj, i64_t ids[], i64_t len) {
-    i64_t i, j;
+    i64_t i, j, n, size;
+    obj_p mask;
 
-    if (len == 0 || (*obj)->len == 0 || len > (*obj)->len)
+    n = (*obj)->len;
+    if (len == 0 || n == 0 || len > n)
         return *obj;
 
     // Check ids are in range
     for (i = 0; i < len; i++)
-        if (ids[i] < 0 || ids[i] >= (i64_t)(*obj)->len)
+        if (ids[i] < 0 || ids[i] >= n)
             return *obj;
 
-    switch ((*obj)->type) {
-        case TYPE_U8:
-        case TYPE_B8:
-        case TYPE_C8:
-            for (i = 0; i < len; i++) {
-                j = ids[i] - i;
-                memmove(AS_U8(*obj) + j, AS_U8(*obj) + j + 1, ((*obj)->len - j - 1) * sizeof(u8_t));
-            }
-
-            return resize_obj(obj, (*obj)->len - len);
-        case TYPE_I16:
-            for (i = 0; i < len; i++) {
-                j = ids[i] - i;
-                memmove(AS_I16(*obj) + j, AS_I16(*obj) + j + 1, ((*obj)->len - j - 1) * sizeof(i16_t));
-            }
-
-            return resize_obj(obj, (*obj)->len - len);
-
-        case TYPE_I32:
-        case TYPE_DATE:
-        case TYPE_TIME:
-            for (i = 0; i < len; i++) {
-                j = ids[i] - i;
-                memmove(AS_I32(*obj) + j, AS_I32(*obj) + j + 1, ((*obj)->len - j - 1) * sizeof(i32_t));
-            }
+    if ((*obj)->type > TYPE_C8)
+        PANIC("type: %d", (*obj)->type);
 
-            return resize_obj(obj, (*obj)->len - len);
+    // The ids are in any order and may be repeated
+    mask = B8(n);
+    if (IS_ERR(mask))
+        return mask;
 
-        case TYPE_I64:
-        case TYPE_SYMBOL:
-        case TYPE_TIMESTAMP:
-        case TYPE_F64:
-            for (i = 0; i < len; i++) {
-                j = ids[i] - i;
-                memmove(AS_I64(*obj) + j, AS_I64(*obj) + j + 1, ((*obj)->len - j - 1) * sizeof(i64_t));
-            }
-
-            return resize_obj(obj, (*obj)->len - len);
-
-        case TYPE_GUID:
-            for (i = 0; i < len; i++) {
-                j = ids[i] - i;
-                memmove(AS_GUID(*obj) + j, AS_GUID(*obj) + j + 1, ((*obj)->len - j - 1) * sizeof(guid_t));
-            }
-
-            return resize_obj(obj, (*obj)->len - len);
+    memset(AS_B8(mask), B8_FALSE, n);
+    for (i = 0; i < len; i++)
+        AS_B8(mask)[ids[i]] = B8_TRUE;
 
-        case TYPE_LIST:
-            for (i = 0; i < len; i++) {
-                j = ids[i] - i;
-                drop_obj(AS_LIST(*obj)[j]);
-                memmove(AS_I64(*obj) + j, AS_I64(*obj) + j + 1, ((*obj)->len - j - 1) * sizeof(i64_t));
-            }
+    size = size_of_type((*obj)->type);
+    for (i = 0, j = 0; i < n; i++) {
+        if (AS_B8(mask)[i]) {
+            if ((*obj)->type == TYPE_LIST)
+                drop_obj(AS_LIST(*obj)[i]);
+        } else {
+            if (i != j)
+                memcpy((*obj)->raw + j * size, (*obj)->raw + i * size, size);
+            j++;
+        }
+    }
 
-            return resize_obj(obj, (*obj)->len - len);
+    drop_obj(mask);
 
-        default:
-            PANIC("type: %d", (*obj)->type);
-    }
+    return resize_obj(obj, j);
 }
 
 obj_p remove_obj(obj_p* obj, obj_p idx) {
-- 
2.43.0


From 1683c3796a011800e21a5345458479a09c959d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:17 +0000
Subject: [PATCH 088/108] fix: rows with null floats among several keys are
 never the same

Groups and upserts over several keys compared floats with ==, which is never true for nulls, although hashes, single keys and == of the language take two nulls as equal.
---
 core/ops.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ops.c b/core/ops.c
index a859406..29c8f57 100644
--- a/core/ops.c
+++ b/core/ops.c
@@ -127,9 +127,9 @@ b8_t ops_eq_idx(obj_p a, i64_t ai, obj_p b, i64_t bi) {
         case MTYPE2(TYPE_TIMESTAMP, TYPE_TIMESTAMP):
             return AS_I64(a)[ai] == AS_I64(b)[bi];
         case MTYPE2(TYPE_F64, -TYPE_F64):
-            return AS_F64(a)[ai] == b->f64;
+            return EQF64(AS_F64(a)[ai], b->f64);
         case MTYPE2(TYPE_F64, TYPE_F64):
-            return AS_F64(a)[ai] == AS_F64(b)[bi];
+            return EQF64(AS_F64(a)[ai], AS_F64(b)[bi]);
         case MTYPE2(TYPE_GUID, -TYPE_GUID):
             return memcmp(AS_GUID(a) + ai, AS_GUID(b), sizeof(guid_t)) == 0;
         case MTYPE2(TYPE_GUID, TYPE_GUID):
-- 
2.43.0


From 4cea6d8696e5f052cb2ded5d49d3bcc1f40e399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:33 +0000
Subject: [PATCH 089/108] fix: a float is read as a neighbour of the nearest to
 its digits

A decimal was put together with several roundings, so floats of more than a few digits came back from a csv file (or from their own printed form) as other ones.
---
 core/string.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/string.c b/core/string.c
index ad5895b..d5b17f7 100644
--- a/core/string.c
+++ b/core/string.c
@@ -275,6 +275,8 @@ i64_t f64_from_str(lit_p str, i64_t len, f64_t *dst) {
     i64_t i, start, exp_start;
     f64_t int_part, frac_part, multiplier, divisor, val;
     u64_t int_val;
+    b8_t exact;
+    c8_t digits[512];
 
     i = 0;
 
@@ -330,12 +332,14 @@ i64_t f64_from_str(lit_p str, i64_t len, f64_t *dst) {
 
     // Combine integer and fractional
     val = int_part;
+    exact = (i - start <= 15);
     if (frac_digits > 0) {
         divisor = 1.0;
         for (int j = 0; j < frac_digits; j++) {
             divisor *= 10.0;
         }
-        val += frac_part / divisor;
+        // of up to 15 digits both are exact, and so is all but the division
+        val = exact ? (int_part * divisor + frac_part) / divisor : int_part + frac_part / divisor;
     }
 
     // Exponent
@@ -356,6 +360,7 @@ i64_t f64_from_str(lit_p str, i64_t len, f64_t *dst) {
             exp = exp * 10 + (str[i++] - '0');
         }
         if (i > exp_start) {
+            exact = B8_FALSE;
             multiplier = 1.0;
             for (int j = 0; j < exp; j++) {
                 if (exp_sign > 0)
@@ -373,6 +378,13 @@ i64_t f64_from_str(lit_p str, i64_t len, f64_t *dst) {
     if (i == start)
         return 0;  // No digits parsed
 
+    // The steps above round more than once, so what is not exact goes through the library
+    if (!exact && i - start < (i64_t)sizeof(digits)) {
+        memcpy(digits, str + start, i - start);
+        digits[i - start] = '\0';
+        val = strtod(digits, NULL);
+    }
+
     *dst = sign * val;
 
     return i;
-- 
2.43.0


From 1ab310f99bf5985065a45b6251ef586dce4ab7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:38 +0000
Subject: [PATCH 090/108] fix: empty csv fields read as zeroes, another symbol
 or a date before all years

Empty fields of integers became 0 except in the last column, where those of symbols became the first symbol of the process; a date that can not be read was no null.
---
 core/date.c |  3 +++
 core/io.c   | 10 +++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/core/date.c b/core/date.c
index 5371770..5d20ab0 100644
--- a/core/date.c
+++ b/core/date.c
@@ -125,6 +125,9 @@ datestruct_t date_from_str(str_p src, i64_t len) {
 i32_t date_into_i32(datestruct_t dt) {
     i64_t leap, mdays, yy, mm, dd, ydays;
 
+    if (dt.null)
+        return NULL_I32;
+
     yy = (dt.year > 0) ? dt.year - 1 : 0;
     ydays = years_by_days(yy);
     leap = leap_year(dt.year);
diff --git a/core/io.c b/core/io.c
index 762d82d..2984476 100644
--- a/core/io.c
+++ b/core/io.c
@@ -435,8 +435,8 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
                 AS_I16(out)[row] = NULL_I16;
                 break;
             }
-            i64_from_str(start, end - start, &num_i64);
-            AS_I16(out)[row] = (i16_t)num_i64;
+            n = i64_from_str(start, end - start, &num_i64);
+            AS_I16(out)[row] = (n == 0) ? NULL_I16 : (i16_t)num_i64;
             break;
         case TYPE_I32:
             if (start == NULL || end == NULL) {
@@ -465,8 +465,8 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
                 AS_I64(out)[row] = NULL_I64;
                 break;
             }
-            i64_from_str(start, end - start, &num_i64);
-            AS_I64(out)[row] = num_i64;
+            n = i64_from_str(start, end - start, &num_i64);
+            AS_I64(out)[row] = (n == 0) ? NULL_I64 : num_i64;
             break;
         case TYPE_TIMESTAMP:
             if (start == NULL || end == NULL) {
@@ -485,7 +485,7 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
             break;
         case TYPE_SYMBOL:
             if (start == NULL || end == NULL) {
-                AS_SYMBOL(out)[row] = 0;
+                AS_SYMBOL(out)[row] = NULL_I64;
                 break;
             }
             n = end - start;
-- 
2.43.0


From 45b7d6907acd1dbba2cbecc8a8ded3d5489ca32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:02 +0000
Subject: [PATCH 091/108] fix: errors of a csv file that several workers read
 are lost

pool_run returns the error itself; taken for a list without items it made a table with lines left out.
---
 core/io.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/core/io.c b/core/io.c
index 2984476..a655070 100644
--- a/core/io.c
+++ b/core/io.c
@@ -635,8 +635,8 @@ obj_p parse_csv_range(i8_t types[], i64_t num_types, str_p buf, i64_t size, i64_
 
 obj_p io_read_csv(i8_t *types, i64_t num_types, str_p buf, i64_t size, i64_t total_lines, i64_t *line_offsets,
                   obj_p cols, c8_t sep) {
-    obj_p err, res = NULL_OBJ;
-    i64_t i, l, batch_size, num_batches, lines_per_batch, start_line, end_line, lines_in_batch;
+    obj_p res = NULL_OBJ;
+    i64_t batch_size, num_batches, lines_per_batch, start_line, end_line, lines_in_batch;
     str_p batch_start, batch_end;
     pool_p pool = runtime_get()->pool;
 
@@ -679,14 +679,9 @@ obj_p io_read_csv(i8_t *types, i64_t num_types, str_p buf, i64_t size, i64_t tot
 
     res = pool_run(pool);
 
-    l = res->len;
-    for (i = 0; i < l; i++) {
-        if (IS_ERR(AS_LIST(res)[i])) {
-            err = clone_obj(AS_LIST(res)[i]);
-            drop_obj(res);
-            return err;
-        }
-    }
+    // the first error, if any
+    if (IS_ERR(res))
+        return res;
 
     drop_obj(res);
 
-- 
2.43.0


From aa2621a458c0456cfbe4db2b2e162e6d2daa0b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:06 +0000
Subject: [PATCH 092/108] fix: timers without end fire once, ids do not name
 them, the seventeenth is lost

---
 core/chrono.c | 55 ++++++++++++++++++++++++++++++++++-----------------
 core/chrono.h |  1 +
 2 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/core/chrono.c b/core/chrono.c
index f89a20f..de36e01 100644
--- a/core/chrono.c
+++ b/core/chrono.c
@@ -236,8 +236,16 @@ nil_t timer_down(timers_p timers, i64_t index) {
 }
 
 i64_t timer_push(timers_p timers, ray_timer_p timer) {
-    if (timers->size == timers->capacity)
-        return -1;
+    ray_timer_p *grown;
+
+    if (timers->size == timers->capacity) {
+        grown = (ray_timer_p *)heap_realloc(timers->timers, timers->capacity * 2 * sizeof(ray_timer_p));
+        if (grown == NULL)
+            return -1;
+
+        timers->timers = grown;
+        timers->capacity *= 2;
+    }
 
     timers->timers[timers->size] = timer;
     timer_up(timers, timers->size);
@@ -263,6 +271,7 @@ timers_p timers_create(i64_t capacity) {
     timers->capacity = capacity;
     timers->size = 0;
     timers->counter = 0;
+    timers->current = NULL;
 
     return timers;
 }
@@ -286,7 +295,12 @@ i64_t timer_add(timers_p timers, i64_t tic, i64_t exp, i64_t num, obj_p clb) {
     id = timers->counter++;
     timer = ray_timer_create(id, tic, exp, num, clb);
 
-    return timer_push(timers, timer);
+    if (timer_push(timers, timer) == -1) {
+        timer_free(timer);
+        return -1;
+    }
+
+    return id;
 }
 
 nil_t timer_del(timers_p timers, i64_t id) {
@@ -294,15 +308,21 @@ nil_t timer_del(timers_p timers, i64_t id) {
 
     l = (i64_t)timers->size;
 
-    if (id < 0 || id >= l)
+    // the one whose callback is running is not in the heap
+    if (timers->current != NULL && timers->current->id == id) {
+        timers->current->num = 0;
         return;
+    }
 
     for (i = 0; i < l; i++) {
         if (timers->timers[i]->id == id) {
             timer_free(timers->timers[i]);
-            timers->timers[i] = timers->timers[timers->size - 1];
             timers->size--;
-            timer_down(timers, i);
+            if (i < timers->size) {
+                timers->timers[i] = timers->timers[timers->size];
+                timer_up(timers, i);
+                timer_down(timers, i);
+            }
             return;
         }
     }
@@ -321,29 +341,28 @@ i64_t timer_next_timeout(timers_p timers) {
         timer = timer_pop(timers);
 
         // Execute the callback associated with the timer
+        timers->current = timer;
         vm_stack_push(i64(now));
         res = call(timer->clb, 1);
         drop_obj(vm_stack_pop());
+        timers->current = NULL;
 
         if (IS_ERR(res))
             io_write(1, MSG_TYPE_RESP, res);
 
         drop_obj(res);
 
-        // Check if the timer should be repeated
-        if (timer->num > 0) {
-            if (timer->num > 1) {
-                timer->num--;  // Decrement repeat count if not infinite
+        // Check if the timer should be repeated (a null stands for no end)
+        if (timer->num > 1 || timer->num == NULL_I64) {
+            if (timer->num != NULL_I64)
+                timer->num--;
 
-                // Update the timer's expiration time for the next occurrence
-                timer->exp += timer->tic;
+            // Update the timer's expiration time for the next occurrence
+            timer->exp += timer->tic;
 
-                // Re-add the timer to the heap
-                timer_push(timers, timer);
-            } else {
-                // Free the timer if it should not be repeated
+            // Re-add the timer to the heap
+            if (timer_push(timers, timer) == -1)
                 timer_free(timer);
-            }
         } else {
             // Free the timer if it should not be repeated
             timer_free(timer);
@@ -398,5 +417,5 @@ obj_p ray_timer(obj_p *x, i64_t n) {
 
     id = timer_add(timers, x[0]->i64, x[0]->i64 + get_time_millis(), num, clone_obj(x[2]));
 
-    return i64(id);
+    return (id == -1) ? err_limit(0) : i64(id);
 }
diff --git a/core/chrono.h b/core/chrono.h
index 1b65deb..8304c11 100644
--- a/core/chrono.h
+++ b/core/chrono.h
@@ -42,6 +42,7 @@ typedef struct timers_t {
     i64_t capacity;       // Maximum size of the heap
     i64_t size;           // Current number of timers in the heap
     i64_t counter;        // Counter to assign unique IDs to timers
+    ray_timer_p current;  // The timer whose callback is running
 } *timers_p;
 
 #if defined(OS_WINDOWS)
-- 
2.43.0


From d6f80cd3376d259646c90c40a33176ebd0b6685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:06 +0000
Subject: [PATCH 093/108] fix: timers stand still or rush when the system's
 time is set

---
 core/chrono.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/core/chrono.c b/core/chrono.c
index de36e01..1875ffd 100644
--- a/core/chrono.c
+++ b/core/chrono.c
@@ -42,6 +42,9 @@ i64_t get_time_millis(nil_t) {
     return uli.QuadPart / 10000ULL - 11644473600000ULL;  // Convert to milliseconds since Unix epoch
 }
 
+// Does not follow changes of the system's time
+static i64_t get_steady_millis(nil_t) { return (i64_t)GetTickCount64(); }
+
 nil_t ray_clock_get_time(ray_clock_t *clock) {
     QueryPerformanceFrequency(&clock->freq);
     QueryPerformanceCounter(&clock->clock);
@@ -66,6 +69,13 @@ i64_t get_time_millis(nil_t) {
     return (i64_t)ts.tv_sec * 1000 + (i64_t)ts.tv_nsec / 1000000;
 }
 
+// Does not follow changes of the system's time
+static i64_t get_steady_millis(nil_t) {
+    struct timespec ts;
+    clock_gettime(CLOCK_MONOTONIC, &ts);
+    return (i64_t)ts.tv_sec * 1000 + (i64_t)ts.tv_nsec / 1000000;
+}
+
 nil_t ray_clock_get_time(ray_clock_t *clock) { clock_gettime(CLOCK_MONOTONIC, &clock->clock); }
 
 f64_t ray_clock_elapsed_ms(ray_clock_t *start, ray_clock_t *end) {
@@ -329,7 +339,7 @@ nil_t timer_del(timers_p timers, i64_t id) {
 }
 
 i64_t timer_next_timeout(timers_p timers) {
-    i64_t now = get_time_millis();
+    i64_t now = get_steady_millis();
     ray_timer_p timer;
     obj_p res;
 
@@ -342,7 +352,7 @@ i64_t timer_next_timeout(timers_p timers) {
 
         // Execute the callback associated with the timer
         timers->current = timer;
-        vm_stack_push(i64(now));
+        vm_stack_push(i64(get_time_millis()));
         res = call(timer->clb, 1);
         drop_obj(vm_stack_pop());
         timers->current = NULL;
@@ -369,7 +379,7 @@ i64_t timer_next_timeout(timers_p timers) {
         }
 
         // Update `now` in case time has advanced during processing
-        now = get_time_millis();
+        now = get_steady_millis();
     }
 
     // After processing all expired (and potentially re-added) timers,
@@ -415,7 +425,7 @@ obj_p ray_timer(obj_p *x, i64_t n) {
 
     num = (i64_t)((x[1]->i64 == 0) ? NULL_I64 : x[1]->i64);
 
-    id = timer_add(timers, x[0]->i64, x[0]->i64 + get_time_millis(), num, clone_obj(x[2]));
+    id = timer_add(timers, x[0]->i64, x[0]->i64 + get_steady_millis(), num, clone_obj(x[2]));
 
     return (id == -1) ? err_limit(0) : i64(id);
 }
-- 
2.43.0


From 9a40ab42293e0c37374eb94e79c0f5922482f8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:06 +0000
Subject: [PATCH 094/108] fix: a timer faster than its callback shuts out all
 other events, far ones never fire

---
 core/chrono.c | 54 ++++++++++++++++++++++++++++++++++++---------------
 core/chrono.h |  4 +++-
 2 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/core/chrono.c b/core/chrono.c
index 1875ffd..14655fe 100644
--- a/core/chrono.c
+++ b/core/chrono.c
@@ -281,7 +281,7 @@ timers_p timers_create(i64_t capacity) {
     timers->capacity = capacity;
     timers->size = 0;
     timers->counter = 0;
-    timers->current = NULL;
+    timers->fired = NULL;
 
     return timers;
 }
@@ -315,13 +315,16 @@ i64_t timer_add(timers_p timers, i64_t tic, i64_t exp, i64_t num, obj_p clb) {
 
 nil_t timer_del(timers_p timers, i64_t id) {
     i64_t i, l;
+    ray_timer_p timer;
 
     l = (i64_t)timers->size;
 
-    // the one whose callback is running is not in the heap
-    if (timers->current != NULL && timers->current->id == id) {
-        timers->current->num = 0;
-        return;
+    // those that have just fired are not in the heap
+    for (timer = timers->fired; timer != NULL; timer = timer->next) {
+        if (timer->id == id) {
+            timer->num = 0;
+            return;
+        }
     }
 
     for (i = 0; i < l; i++) {
@@ -339,28 +342,39 @@ nil_t timer_del(timers_p timers, i64_t id) {
 }
 
 i64_t timer_next_timeout(timers_p timers) {
-    i64_t now = get_steady_millis();
-    ray_timer_p timer;
+    i64_t timeout, now = get_steady_millis();
+    ray_timer_p timer, fired = NULL;
     obj_p res;
 
-    if (timers->size == 0)
-        return TIMEOUT_INFINITY;
-
+    // Every timer that is due fires once, then it is the turn of other events
     while (timers->size > 0 && timers->timers[0]->exp <= now) {
         // Pop the top timer for processing
         timer = timer_pop(timers);
+        timer->next = timers->fired;
+        timers->fired = timer;
 
         // Execute the callback associated with the timer
-        timers->current = timer;
         vm_stack_push(i64(get_time_millis()));
         res = call(timer->clb, 1);
         drop_obj(vm_stack_pop());
-        timers->current = NULL;
 
         if (IS_ERR(res))
             io_write(1, MSG_TYPE_RESP, res);
 
         drop_obj(res);
+    }
+
+    // In the order they have fired
+    while (timers->fired != NULL) {
+        timer = timers->fired;
+        timers->fired = timer->next;
+        timer->next = fired;
+        fired = timer;
+    }
+
+    while (fired != NULL) {
+        timer = fired;
+        fired = timer->next;
 
         // Check if the timer should be repeated (a null stands for no end)
         if (timer->num > 1 || timer->num == NULL_I64) {
@@ -377,14 +391,19 @@ i64_t timer_next_timeout(timers_p timers) {
             // Free the timer if it should not be repeated
             timer_free(timer);
         }
-
-        // Update `now` in case time has advanced during processing
-        now = get_steady_millis();
     }
 
     // After processing all expired (and potentially re-added) timers,
     // return the expiration of the next timer or TIMEOUT_INFINITY
-    return (timers->size > 0) ? timers->timers[0]->exp - now : TIMEOUT_INFINITY;
+    if (timers->size == 0)
+        return TIMEOUT_INFINITY;
+
+    timeout = timers->timers[0]->exp - get_steady_millis();
+
+    if (timeout < 0)
+        return 0;
+
+    return (timeout > TIMEOUT_MAX) ? TIMEOUT_MAX : timeout;
 }
 
 obj_p ray_timer(obj_p *x, i64_t n) {
@@ -418,6 +437,9 @@ obj_p ray_timer(obj_p *x, i64_t n) {
     if (x[2]->type != TYPE_LAMBDA)
         return err_type(TYPE_LAMBDA, x[2]->type, 3, 0);
 
+    if (x[0]->i64 < 0)
+        return err_domain(1, 0);
+
     if (AS_LAMBDA(x[2])->args->len != 1)
         return err_arity(1, AS_LAMBDA(x[2])->args->len, 3);
 
diff --git a/core/chrono.h b/core/chrono.h
index 8304c11..ffd817d 100644
--- a/core/chrono.h
+++ b/core/chrono.h
@@ -27,6 +27,7 @@
 #include "rayforce.h"
 
 #define TIMEOUT_INFINITY -1
+#define TIMEOUT_MAX 0x7fffffff  // Milliseconds a poll can wait for
 #define TIMEIT_SPANS_MAX 1024
 
 typedef struct ray_timer_t {
@@ -35,6 +36,7 @@ typedef struct ray_timer_t {
     i64_t exp;  // Expiration time of the timer
     i64_t num;  // Number of times the timer has to be called
     obj_p clb;  // Callback function to be called when timer expires
+    struct ray_timer_t *next;  // The one that has fired before it
 } *ray_timer_p;
 
 typedef struct timers_t {
@@ -42,7 +44,7 @@ typedef struct timers_t {
     i64_t capacity;       // Maximum size of the heap
     i64_t size;           // Current number of timers in the heap
     i64_t counter;        // Counter to assign unique IDs to timers
-    ray_timer_p current;  // The timer whose callback is running
+    ray_timer_p fired;    // Timers that have just fired, the last one first
 } *timers_p;
 
 #if defined(OS_WINDOWS)
-- 
2.43.0


From 03b3697d44ced4f67db6880a0cebf75c869a24ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:57 +0000
Subject: [PATCH 095/108] fix: a server ended by a timer runs on until
 something else happens

---
 core/epoll.c  | 5 +++++
 core/kqueue.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/core/epoll.c b/core/epoll.c
index c739746..60ee0d9 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -325,6 +325,11 @@ i64_t poll_run(poll_p poll) {
         LOG_TRACE("Waiting for events");
 
         timeout = timer_next_timeout(poll->timers);
+
+        // ended by a timer
+        if (poll->code != NULL_I64)
+            break;
+
         nfds = epoll_wait(poll->fd, events, MAX_EVENTS, timeout);
 
         if (nfds == -1) {
diff --git a/core/kqueue.c b/core/kqueue.c
index da2a398..b0048d2 100644
--- a/core/kqueue.c
+++ b/core/kqueue.c
@@ -315,6 +315,11 @@ i64_t poll_run(poll_p poll) {
 
     while (poll->code == NULL_I64) {
         next_tm = timer_next_timeout(poll->timers);
+
+        // ended by a timer
+        if (poll->code != NULL_I64)
+            break;
+
         timeout = (next_tm == TIMEOUT_INFINITY)
                       ? NULL
                       : (tm.tv_sec = next_tm / 1000, tm.tv_nsec = (next_tm % 1000) * 1000000, &tm);
-- 
2.43.0


From adfd00b574c6044f0aa468ce0aa39609bfe46e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:02 +0000
Subject: [PATCH 096/108] fix: the locations of the last error keep the memory
 of an ended runtime

---
 core/eval.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/eval.c b/core/eval.c
index f0ba800..18ef4fb 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -78,6 +78,9 @@ nil_t vm_destroy(vm_p vm) {
         vm->timeit = NULL;
     }
 
+    // The locations of the last error
+    error_trace_reset();
+
     // Destroy heap
     heap_destroy(vm->heap);
     vm->heap = NULL;
-- 
2.43.0


From 86074bee449e399dfa3be523527f1634b82f01cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:35 +0000
Subject: [PATCH 097/108] fix: the swap file of a big value is misnamed, left
 behind or somebody else's, its pool's links overwritten

---
 core/fs.c   | 45 +++++++++++++++++++++++++++++++++++++++++++++
 core/fs.h   |  1 +
 core/heap.c | 39 +++++++++++++++------------------------
 3 files changed, 61 insertions(+), 24 deletions(-)

diff --git a/core/fs.c b/core/fs.c
index c145de1..1a90fa7 100644
--- a/core/fs.c
+++ b/core/fs.c
@@ -61,6 +61,13 @@ i64_t fs_fopen(lit_p path, i64_t attrs) {
     return (i64_t)CreateFile(path, attrs, FILE_SHARE_READ | FILE_SHARE_WRITE, NULL, disposition, flags, NULL);
 }
 
+i64_t fs_fopen_swap(lit_p path) {
+    HANDLE h = CreateFile(path, GENERIC_READ | GENERIC_WRITE, FILE_SHARE_DELETE, NULL, CREATE_NEW,
+                          FILE_ATTRIBUTE_TEMPORARY | FILE_FLAG_DELETE_ON_CLOSE, NULL);
+
+    return (h == INVALID_HANDLE_VALUE) ? -1 : (i64_t)h;
+}
+
 i64_t fs_fdelete(lit_p path) {
     i64_t res;
     obj_p s;
@@ -210,6 +217,19 @@ i64_t fs_fopen(lit_p path, i64_t attrs) {
     return open(path, attrs, S_IRUSR | S_IWUSR | S_IRGRP | S_IWGRP | S_IROTH | S_IWOTH);
 }
 
+// A new file nobody else uses: its name is gone at once, its contents with the last mapping of it.
+// Must not allocate: this is called when there is no memory.
+i64_t fs_fopen_swap(lit_p path) {
+    i64_t fd;
+
+    fd = open(path, O_RDWR | O_CREAT | O_EXCL, S_IRUSR | S_IWUSR);
+
+    if (fd != -1)
+        unlink(path);
+
+    return fd;
+}
+
 i64_t fs_fdelete(lit_p path) {
     i64_t res;
     obj_p s;
@@ -348,6 +368,31 @@ i64_t fs_fopen(lit_p path, i64_t attrs) {
     return open(path, attrs, S_IRUSR | S_IWUSR | S_IRGRP | S_IWGRP | S_IROTH | S_IWOTH);
 }
 
+// A new file nobody else uses: its name is gone at once, its contents with the last mapping of it.
+// Must not allocate: this is called when there is no memory.
+i64_t fs_fopen_swap(lit_p path) {
+    i64_t i, fd;
+    c8_t dir[PATH_MAX];
+
+    fd = open(path, O_RDWR | O_CREAT | O_EXCL, S_IRUSR | S_IWUSR);
+
+    if (fd == -1 && errno == ENOENT) {
+        for (i = 0; path[i] != '\0' && i < (i64_t)sizeof(dir) - 1; i++) {
+            dir[i] = path[i];
+            dir[i + 1] = '\0';
+            if (path[i] == '/')
+                mkdir(dir, 0777);
+        }
+
+        fd = open(path, O_RDWR | O_CREAT | O_EXCL, S_IRUSR | S_IWUSR);
+    }
+
+    if (fd != -1)
+        unlink(path);
+
+    return fd;
+}
+
 i64_t fs_fdelete(lit_p path) {
     i64_t res;
     obj_p s;
diff --git a/core/fs.h b/core/fs.h
index c9018b4..6e56aeb 100644
--- a/core/fs.h
+++ b/core/fs.h
@@ -48,6 +48,7 @@
 #include <fcntl.h>
 
 i64_t fs_fopen(lit_p path, i64_t attrs);
+i64_t fs_fopen_swap(lit_p path);
 i64_t fs_fdelete(lit_p path);
 i64_t fs_frename(lit_p from, lit_p to);    // replaces the file "to"
 b8_t fs_freplaceable(lit_p path, i64_t fd);  // there is nothing but an ordinary file (fd gets its mode)
diff --git a/core/heap.c b/core/heap.c
index e8d95af..6f59a3b 100644
--- a/core/heap.c
+++ b/core/heap.c
@@ -122,8 +122,8 @@ memstat_t heap_memstat(nil_t) { return (memstat_t){0}; }
 #else
 
 block_p heap_add_pool(i64_t size) {
-    i64_t id;
     i64_t fd;
+    b8_t block_backed;
     block_p block;
     c8_t filename[128];
     heap_p heap = VM->heap;  // Cache heap pointer
@@ -132,11 +132,14 @@ block_p heap_add_pool(i64_t size) {
 
     block = (block_p)mmap_alloc(size);
 
+    block_backed = B8_FALSE;
+
     if (block == NULL) {
-        // Try to mmap with a file
-        id = ops_rand_u64();
-        snprintf(filename, sizeof(filename), "%svec_%llu.dat", heap->swap_path, id);
-        fd = fs_fopen(filename, ATTR_RDWR | ATTR_CREAT);
+        // Try to mmap with a file (nothing here may allocate)
+        do {
+            snprintf(filename, sizeof(filename), "%svec_%llu.dat", heap->swap_path, (unsigned long long)ops_rand_u64());
+            fd = fs_fopen_swap(filename);
+        } while (fd == -1 && errno == EEXIST);
 
         if (fd == -1) {
             perror("mmap:create");
@@ -150,21 +153,20 @@ block_p heap_add_pool(i64_t size) {
             return NULL;
         }
 
+        // the mapping keeps the file
         block = (block_p)mmap_file_shared(fd, NULL, size, 0);
+        fs_fclose(fd);
 
         if (block == NULL) {
-            fs_fclose(fd);
             perror("mmap:map");
             return NULL;
         }
 
-        block->pool = (block_p)fd;
-        block->backed = B8_TRUE;
-    } else {
-        block->pool = block;
-        block->backed = B8_FALSE;
+        block_backed = B8_TRUE;
     }
 
+    block->pool = block;
+    block->backed = block_backed;
     block->pool_order = ORDEROF(size);
 
     heap->memstat.system += size;
@@ -330,8 +332,6 @@ raw_p __attribute__((hot)) heap_alloc(i64_t size) {
             block->used = 1;
             block->heap_id = heap->id;
 
-            heap->memstat.system += size;
-
             return BLOCK2RAW(block);
         }
 
@@ -366,9 +366,7 @@ raw_p __attribute__((hot)) heap_alloc(i64_t size) {
 
 __attribute__((hot)) nil_t heap_free(raw_p ptr) {
     block_p block;
-    i64_t fd, res;
     i64_t order;
-    c8_t filename[64];
     heap_p heap = VM->heap;  // Cache heap pointer
 
     if (UNLIKELY(ptr == NULL || ptr == NULL_OBJ))
@@ -389,16 +387,9 @@ __attribute__((hot)) nil_t heap_free(raw_p ptr) {
     if (UNLIKELY(order < MIN_BLOCK_ORDER || order > MAX_POOL_ORDER))
         return;
 
-    // Return block to the system and close file if it is file-backed
+    // Return block to the system if it is file-backed
     if (UNLIKELY(block->backed)) {
-        fd = (i64_t)block->pool;
         heap_remove_pool(block, BSIZEOF(order));
-        // Get filename before closing - ignore errors as file may already be gone
-        res = fs_get_fname_by_fd(fd, filename, sizeof(filename));
-        fs_fclose(fd);
-        if (res == 0)
-            fs_fdelete(filename);
-
         return;
     }
 
@@ -597,7 +588,7 @@ memstat_t heap_memstat(nil_t) {
     for (i = MIN_BLOCK_ORDER; i <= MAX_POOL_ORDER; i++) {
         block = h->freelist[i];
         while (block) {
-            h->memstat.free += BLOCKSIZE(i);
+            h->memstat.free += BSIZEOF(i);
             block = block->next;
         }
     }
-- 
2.43.0


From f5af50d09e393cf11253adf4915bfe6d0f41bad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:35 +0000
Subject: [PATCH 098/108] fix: executors draw the same random numbers and make
 the same guids

---
 core/ops.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ops.c b/core/ops.c
index 29c8f57..882bb55 100644
--- a/core/ops.c
+++ b/core/ops.c
@@ -90,7 +90,8 @@ i64_t ops_next_prime(i64_t x) {
 u64_t ops_rand_u64(nil_t) {
     if (__RND_SEED__ == 0) {
         // Use a more robust seeding strategy
-        __RND_SEED__ = time(NULL) ^ (u64_t)&ops_rand_u64 ^ (u64_t)&time;
+        // the address of the seed itself is what tells threads that start in the same second apart
+        __RND_SEED__ = time(NULL) ^ (u64_t)&ops_rand_u64 ^ (u64_t)&time ^ ((u64_t)&__RND_SEED__ << 20);
     }
 
     // XORShift algorithm for better randomness
-- 
2.43.0


From 1ac95e89b5eb6300b7025f14a939332c4344c983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:35 +0000
Subject: [PATCH 099/108] fix: arithmetic over a list's items, map, fold and
 scan change the list's own vectors

---
 core/iter.c | 189 +++++++++++++++++++++++-----------------------------
 1 file changed, 85 insertions(+), 104 deletions(-)

diff --git a/core/iter.c b/core/iter.c
index b77d2a8..0ff812c 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -45,39 +45,16 @@ static obj_p concat_parts(obj_p parts) {
 
 obj_p map_unary_fn(unary_f fn, i64_t attrs, obj_p x) {
     i64_t i, l;
-    obj_p res, item, a, *v;
+    obj_p res, item, a;
 
     switch (x->type) {
         case TYPE_LIST:
-            l = ops_count(x);
-            if (l == 0)
-                return NULL_OBJ;
-
-            v = AS_LIST(x);
-            item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, v[0]) : fn(v[0]);
-
-            if (IS_ERR(item))
-                return item;
-
-            res = (item->type < 0) ? vector(item->type, l) : LIST(l);
-            ins_obj(&res, 0, item);
-
-            for (i = 1; i < l; i++) {
-                item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, v[i]) : fn(v[i]);
-                if (IS_ERR(item)) {
-                    res->len = i;
-                    drop_obj(res);
-                    return item;
-                }
-                ins_obj(&res, i, item);
-            }
-            return res;
-
         case TYPE_MAPLIST:
             l = ops_count(x);
             if (l == 0)
                 return NULL_OBJ;
 
+            // an item is held while it is worked on: it must not be taken for a temporary
             a = at_idx(x, 0);
             item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, a) : fn(a);
             drop_obj(a);
@@ -108,12 +85,15 @@ obj_p map_unary_fn(unary_f fn, i64_t attrs, obj_p x) {
 
 obj_p map_unary_range(unary_f fn, i64_t attrs, obj_p *v, i64_t start, i64_t end) {
     i64_t i, l = end - start;
-    obj_p res, item;
+    obj_p res, item, a;
 
     if (l == 0)
         return NULL_OBJ;
 
-    item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, v[start]) : fn(v[start]);
+    a = clone_obj(v[start]);
+    item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, a) : fn(a);
+    drop_obj(a);
+
     if (IS_ERR(item))
         return item;
 
@@ -121,7 +101,10 @@ obj_p map_unary_range(unary_f fn, i64_t attrs, obj_p *v, i64_t start, i64_t end)
     ins_obj(&res, 0, item);
 
     for (i = 1; i < l; i++) {
-        item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, v[start + i]) : fn(v[start + i]);
+        a = clone_obj(v[start + i]);
+        item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, a) : fn(a);
+        drop_obj(a);
+
         if (IS_ERR(item)) {
             res->len = i;
             drop_obj(res);
@@ -227,7 +210,16 @@ obj_p map_binary_left_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
     }
 }
 
-obj_p map_binary_left(obj_p f, obj_p x, obj_p y) { return map_binary_left_fn((binary_f)f->i64, f->attrs, x, y); }
+obj_p map_binary_left(obj_p f, obj_p x, obj_p y) {
+    obj_p res;
+
+    // the operand that all calls share must not be taken for a temporary
+    clone_obj(y);
+    res = map_binary_left_fn((binary_f)f->i64, f->attrs, x, y);
+    drop_obj(y);
+
+    return res;
+}
 
 obj_p map_binary_right_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
     i64_t i, l;
@@ -285,7 +277,16 @@ obj_p map_binary_right_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
     }
 }
 
-obj_p map_binary_right(obj_p f, obj_p x, obj_p y) { return map_binary_right_fn((binary_f)f->i64, f->attrs, x, y); }
+obj_p map_binary_right(obj_p f, obj_p x, obj_p y) {
+    obj_p res;
+
+    // the operand that all calls share must not be taken for a temporary
+    clone_obj(x);
+    res = map_binary_right_fn((binary_f)f->i64, f->attrs, x, y);
+    drop_obj(x);
+
+    return res;
+}
 
 obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
     i64_t i, l;
@@ -307,14 +308,12 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         if (l == 0)
             return fn(x, y);
 
-        a = xt == TYPE_LIST ? AS_LIST(x)[0] : at_idx(x, 0);
-        b = yt == TYPE_LIST ? AS_LIST(y)[0] : at_idx(y, 0);
+        a = at_idx(x, 0);
+        b = at_idx(y, 0);
         item = map_binary_fn(fn, attrs, a, b);
 
-        if (xt != TYPE_LIST)
-            drop_obj(a);
-        if (yt != TYPE_LIST)
-            drop_obj(b);
+        drop_obj(a);
+        drop_obj(b);
 
         if (IS_ERR(item))
             return item;
@@ -324,14 +323,12 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         ins_obj(&res, 0, item);
 
         for (i = 1; i < l; i++) {
-            a = xt == TYPE_LIST ? AS_LIST(x)[i] : at_idx(x, i);
-            b = yt == TYPE_LIST ? AS_LIST(y)[i] : at_idx(y, i);
+            a = at_idx(x, i);
+            b = at_idx(y, i);
             item = map_binary_fn(fn, attrs, a, b);
 
-            if (xt != TYPE_LIST)
-                drop_obj(a);
-            if (yt != TYPE_LIST)
-                drop_obj(b);
+            drop_obj(a);
+            drop_obj(b);
 
             if (IS_ERR(item)) {
                 res->len = i;
@@ -349,10 +346,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
             return fn(x, y);
         }
 
-        a = xt == TYPE_LIST ? AS_LIST(x)[0] : at_idx(x, 0);
+        a = at_idx(x, 0);
         item = map_binary_fn(fn, attrs, a, y);
-        if (xt != TYPE_LIST)
-            drop_obj(a);
+        drop_obj(a);
 
         if (IS_ERR(item))
             return item;
@@ -362,10 +358,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         ins_obj(&res, 0, item);
 
         for (i = 1; i < l; i++) {
-            a = xt == TYPE_LIST ? AS_LIST(x)[i] : at_idx(x, i);
+            a = at_idx(x, i);
             item = map_binary_fn(fn, attrs, a, y);
-            if (xt != TYPE_LIST)
-                drop_obj(a);
+            drop_obj(a);
 
             if (IS_ERR(item)) {
                 res->len = i;
@@ -382,10 +377,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         if (l == 0)
             return fn(x, y);
 
-        b = yt == TYPE_LIST ? AS_LIST(y)[0] : at_idx(y, 0);
+        b = at_idx(y, 0);
         item = map_binary_fn(fn, attrs, x, b);
-        if (yt != TYPE_LIST)
-            drop_obj(b);
+        drop_obj(b);
 
         if (IS_ERR(item))
             return item;
@@ -395,10 +389,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         ins_obj(&res, 0, item);
 
         for (i = 1; i < l; i++) {
-            b = yt == TYPE_LIST ? AS_LIST(y)[i] : at_idx(y, i);
+            b = at_idx(y, i);
             item = map_binary_fn(fn, attrs, x, b);
-            if (yt != TYPE_LIST)
-                drop_obj(b);
+            drop_obj(b);
 
             if (IS_ERR(item)) {
                 res->len = i;
@@ -873,29 +866,25 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 if (l == 0)
                     return LIST(0);
 
-                x1 = xt == TYPE_LIST ? AS_LIST(x[0])[0] : at_idx(x[0], 0);
-                x2 = yt == TYPE_LIST ? AS_LIST(x[1])[0] : at_idx(x[1], 0);
+                x1 = at_idx(x[0], 0);
+                x2 = at_idx(x[1], 0);
                 v = binary_call(f, x1, x2);
 
-                if (xt != TYPE_LIST)
-                    drop_obj(x1);
-                if (yt != TYPE_LIST)
-                    drop_obj(x2);
+                drop_obj(x1);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
 
                 for (i = 1; i < l; i++) {
-                    x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
-                    x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
+                    x1 = at_idx(x[0], i);
+                    x2 = at_idx(x[1], i);
                     acc = v;
                     v = binary_call(f, acc, x2);  // Use accumulated value as first argument
                     drop_obj(acc);
 
-                    if (xt != TYPE_LIST)
-                        drop_obj(x1);
-                    if (yt != TYPE_LIST)
-                        drop_obj(x2);
+                    drop_obj(x1);
+                    drop_obj(x2);
 
                     if (IS_ERR(v))
                         return v;
@@ -907,21 +896,19 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 if (l == 0)
                     return clone_obj(x[1]);
 
-                x1 = xt == TYPE_LIST ? AS_LIST(x[0])[0] : at_idx(x[0], 0);
+                x1 = at_idx(x[0], 0);
                 v = binary_call(f, x1, x[1]);
-                if (xt != TYPE_LIST)
-                    drop_obj(x1);
+                drop_obj(x1);
 
                 if (IS_ERR(v))
                     return v;
 
                 for (i = 1; i < l; i++) {
-                    x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
+                    x1 = at_idx(x[0], i);
                     acc = v;
                     v = binary_call(f, acc, x1);  // Use accumulated value as first argument
                     drop_obj(acc);
-                    if (xt != TYPE_LIST)
-                        drop_obj(x1);
+                    drop_obj(x1);
 
                     if (IS_ERR(v))
                         return v;
@@ -933,21 +920,19 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 if (l == 0)
                     return clone_obj(x[0]);
 
-                x2 = yt == TYPE_LIST ? AS_LIST(x[1])[0] : at_idx(x[1], 0);
+                x2 = at_idx(x[1], 0);
                 v = binary_call(f, x[0], x2);
-                if (yt != TYPE_LIST)
-                    drop_obj(x2);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
 
                 for (i = 1; i < l; i++) {
-                    x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
+                    x2 = at_idx(x[1], i);
                     acc = v;
                     v = binary_call(f, acc, x2);  // Use accumulated value as first argument
                     drop_obj(acc);
-                    if (yt != TYPE_LIST)
-                        drop_obj(x2);
+                    drop_obj(x2);
 
                     if (IS_ERR(v))
                         return v;
@@ -1242,14 +1227,12 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 if (l == 0)
                     return LIST(0);
 
-                x1 = xt == TYPE_LIST ? AS_LIST(x[0])[0] : at_idx(x[0], 0);
-                x2 = yt == TYPE_LIST ? AS_LIST(x[1])[0] : at_idx(x[1], 0);
+                x1 = at_idx(x[0], 0);
+                x2 = at_idx(x[1], 0);
                 v = binary_call(f, x1, x2);
 
-                if (xt != TYPE_LIST)
-                    drop_obj(x1);
-                if (yt != TYPE_LIST)
-                    drop_obj(x2);
+                drop_obj(x1);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
@@ -1258,14 +1241,12 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 ins_obj(&res, 0, v);
 
                 for (i = 1; i < l; i++) {
-                    x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
-                    x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
+                    x1 = at_idx(x[0], i);
+                    x2 = at_idx(x[1], i);
                     v = binary_call(f, x1, x2);
 
-                    if (xt != TYPE_LIST)
-                        drop_obj(x1);
-                    if (yt != TYPE_LIST)
-                        drop_obj(x2);
+                    drop_obj(x1);
+                    drop_obj(x2);
 
                     if (IS_ERR(v)) {
                         res->len = i;
@@ -1284,10 +1265,9 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 if (l == 0)
                     return LIST(0);
 
-                x1 = xt == TYPE_LIST ? AS_LIST(x[0])[0] : at_idx(x[0], 0);
+                x1 = at_idx(x[0], 0);
                 v = binary_call(f, x1, x[1]);
-                if (xt != TYPE_LIST)
-                    drop_obj(x1);
+                drop_obj(x1);
 
                 if (IS_ERR(v))
                     return v;
@@ -1296,10 +1276,11 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 ins_obj(&res, 0, v);
 
                 for (i = 1; i < l; i++) {
-                    x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
-                    v = binary_call(f, x1, v);
-                    if (xt != TYPE_LIST)
-                        drop_obj(x1);
+                    x1 = at_idx(x[0], i);
+                    x2 = clone_obj(v);
+                    v = binary_call(f, x1, x2);
+                    drop_obj(x1);
+                    drop_obj(x2);
 
                     if (IS_ERR(v)) {
                         res->len = i;
@@ -1318,10 +1299,9 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 if (l == 0)
                     return LIST(0);
 
-                x2 = yt == TYPE_LIST ? AS_LIST(x[1])[0] : at_idx(x[1], 0);
+                x2 = at_idx(x[1], 0);
                 v = binary_call(f, x[0], x2);
-                if (yt != TYPE_LIST)
-                    drop_obj(x2);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
@@ -1330,10 +1310,11 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 ins_obj(&res, 0, v);
 
                 for (i = 1; i < l; i++) {
-                    x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
-                    v = binary_call(f, v, x2);
-                    if (yt != TYPE_LIST)
-                        drop_obj(x2);
+                    x1 = clone_obj(v);
+                    x2 = at_idx(x[1], i);
+                    v = binary_call(f, x1, x2);
+                    drop_obj(x1);
+                    drop_obj(x2);
 
                     if (IS_ERR(v)) {
                         res->len = i;
-- 
2.43.0


From ce0c2c629539e0f9fa960bd3b30cf14c974dba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:35 +0000
Subject: [PATCH 100/108] fix: rounding whole numbers gives uninitialised
 memory, a result computed in place keeps its operand's attributes

---
 core/math.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/core/math.c b/core/math.c
index 2a0f47a..7fe5b9d 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2241,11 +2241,21 @@ obj_p unop_map(raw_p op, obj_p x) {
         return unop(x);
     }
 
+    // whole numbers are what they are rounded to
+    if (x->type != TYPE_F64) {
+        return ((obj_p(*)(obj_p, i64_t, i64_t, obj_p))op)(x, 0, 0, NULL);
+    }
+
     l = ops_count(x);
 
     pool = runtime_get()->pool;
     n = pool_split_by(pool, l, 0);
     out = (rc_obj(x) == 1) ? clone_obj(x) : vector(x->type, l);
+    if (IS_ERR(out))
+        return out;
+
+    // a reused operand is no longer known to be sorted or distinct
+    out->attrs = 0;
 
     if (n == 1) {
         v = ((obj_p(*)(obj_p, i64_t, i64_t, obj_p))op)(x, l, 0, out);
@@ -2310,6 +2320,11 @@ obj_p binop_map(raw_p op, obj_p x, obj_p y) {
     out = (rc_obj(x) == 1 && IS_VECTOR(x) && x->type == t)   ? clone_obj(x)
           : (rc_obj(y) == 1 && IS_VECTOR(y) && y->type == t) ? clone_obj(y)
                                                              : vector(t, l);
+    if (IS_ERR(out))
+        return out;
+
+    // a reused operand is no longer known to be sorted or distinct
+    out->attrs = 0;
 
     if (n == 1) {
         v = ((obj_p(*)(obj_p, obj_p, i64_t, i64_t, obj_p))op)(x, y, l, 0, out);
-- 
2.43.0


From e4653ae0098618a20523332c0bdf2354faba1283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:39 +0000
Subject: [PATCH 101/108] fix: values that cannot be allocated crash concat,
 reverse, where, cast and selection by ids

---
 core/compose.c  | 64 ++++++++++++++++++++++++++++++++++++++++++
 core/ops.c      |  2 ++
 core/rayforce.c | 74 +++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 140 insertions(+)

diff --git a/core/compose.c b/core/compose.c
index 98f12ee..83bbe89 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -151,6 +151,8 @@ obj_p ray_reverse(obj_p x) {
         case TYPE_B8:
             l = x->len;
             res = vector(x->type, l);
+            if (IS_ERR(res))
+                return res;
 
             for (i = l - 1; i >= 0; i--)
                 AS_C8(res)[l - i - 1] = AS_C8(x)[i];
@@ -161,6 +163,8 @@ obj_p ray_reverse(obj_p x) {
         case TYPE_TIME:
             l = x->len;
             res = vector(x->type, l);
+            if (IS_ERR(res))
+                return res;
 
             for (i = 0; i < l; i++)
                 AS_I32(res)[i] = AS_I32(x)[l - i - 1];
@@ -171,6 +175,8 @@ obj_p ray_reverse(obj_p x) {
         case TYPE_SYMBOL:
             l = x->len;
             res = vector(x->type, l);
+            if (IS_ERR(res))
+                return res;
 
             for (i = 0; i < l; i++)
                 AS_I64(res)[i] = AS_I64(x)[l - i - 1];
@@ -179,6 +185,8 @@ obj_p ray_reverse(obj_p x) {
         case TYPE_F64:
             l = x->len;
             res = F64(l);
+            if (IS_ERR(res))
+                return res;
 
             for (i = 0; i < l; i++)
                 AS_F64(res)[i] = AS_F64(x)[l - i - 1];
@@ -187,6 +195,8 @@ obj_p ray_reverse(obj_p x) {
         case TYPE_LIST:
             l = x->len;
             res = vector(TYPE_LIST, l);
+            if (IS_ERR(res))
+                return res;
 
             for (i = 0; i < l; i++)
                 AS_LIST(res)[i] = clone_obj(AS_LIST(x)[l - i - 1]);
@@ -501,6 +511,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
         case MTYPE2(TYPE_B8, -TYPE_B8):
             xl = x->len;
             vec = B8(xl + 1);
+            if (IS_ERR(vec))
+                return vec;
             for (i = 0; i < xl; i++)
                 AS_B8(vec)[i] = AS_B8(x)[i];
             AS_B8(vec)[xl] = y->b8;
@@ -508,6 +520,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
         case MTYPE2(-TYPE_B8, TYPE_B8):
             yl = y->len;
             vec = B8(yl + 1);
+            if (IS_ERR(vec))
+                return vec;
             AS_B8(vec)[0] = x->b8;
             for (i = 1; i <= yl; i++)
                 AS_B8(vec)[i] = AS_B8(y)[i - 1];
@@ -516,6 +530,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
             xl = x->len;
             yl = y->len;
             vec = B8(xl + yl);
+            if (IS_ERR(vec))
+                return vec;
             for (i = 0; i < xl; i++)
                 AS_B8(vec)[i] = AS_B8(x)[i];
             for (i = 0; i < yl; i++)
@@ -530,6 +546,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
         case MTYPE2(TYPE_U8, -TYPE_U8):
             xl = x->len;
             vec = U8(xl + 1);
+            if (IS_ERR(vec))
+                return vec;
             for (i = 0; i < xl; i++)
                 AS_U8(vec)[i] = AS_U8(x)[i];
             AS_U8(vec)[xl] = y->u8;
@@ -537,6 +555,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
         case MTYPE2(-TYPE_U8, TYPE_U8):
             yl = y->len;
             vec = U8(yl + 1);
+            if (IS_ERR(vec))
+                return vec;
             AS_U8(vec)[0] = x->u8;
             for (i = 1; i <= yl; i++)
                 AS_U8(vec)[i] = AS_U8(y)[i - 1];
@@ -545,6 +565,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
             xl = x->len;
             yl = y->len;
             vec = U8(xl + yl);
+            if (IS_ERR(vec))
+                return vec;
             for (i = 0; i < xl; i++)
                 AS_U8(vec)[i] = AS_U8(x)[i];
             for (i = 0; i < yl; i++)
@@ -561,6 +583,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
             if (xl > 0 && AS_C8(x)[xl - 1] == '\0')
                 xl--;
             vec = C8(xl + 1);
+            if (IS_ERR(vec))
+                return vec;
             for (i = 0; i < xl; i++)
                 AS_C8(vec)[i] = AS_C8(x)[i];
             AS_C8(vec)[xl] = y->c8;
@@ -570,6 +594,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
             if (yl > 0 && AS_C8(y)[yl - 1] == '\0')
                 yl--;
             vec = C8(yl + 1);
+            if (IS_ERR(vec))
+                return vec;
             AS_C8(vec)[0] = x->c8;
             for (i = 0; i < yl; i++)
                 AS_C8(vec)[i + 1] = AS_C8(y)[i];
@@ -582,6 +608,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
             if (yl > 0 && AS_C8(y)[yl - 1] == '\0')
                 yl--;
             vec = C8(xl + yl);
+            if (IS_ERR(vec))
+                return vec;
             for (i = 0; i < xl; i++)
                 AS_C8(vec)[i] = AS_C8(x)[i];
             for (i = 0; i < yl; i++)
@@ -595,6 +623,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
         case MTYPE2(TYPE_I16, -TYPE_I16):
             xl = x->len;
             vec = I16(xl + 1);
+            if (IS_ERR(vec))
+                return vec;
             for (i = 0; i < xl; i++)
                 AS_I16(vec)[i] = AS_I16(x)[i];
             AS_I16(vec)[xl] = y->i16;
@@ -602,6 +632,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
         case MTYPE2(-TYPE_I16, TYPE_I16):
             yl = y->len;
             vec = I16(yl + 1);
+            if (IS_ERR(vec))
+                return vec;
             AS_I16(vec)[0] = x->i16;
             for (i = 1; i <= yl; i++)
                 AS_I16(vec)[i] = AS_I16(y)[i - 1];
@@ -610,6 +642,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
             xl = x->len;
             yl = y->len;
             vec = I16(xl + yl);
+            if (IS_ERR(vec))
+                return vec;
             for (i = 0; i < xl; i++)
                 AS_I16(vec)[i] = AS_I16(x)[i];
             for (i = 0; i < yl; i++)
@@ -628,6 +662,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
         case MTYPE2(TYPE_TIME, -TYPE_TIME):
             xl = x->len;
             vec = vector(x->type, xl + 1);
+            if (IS_ERR(vec))
+                return vec;
             for (i = 0; i < xl; i++)
                 AS_I32(vec)[i] = AS_I32(x)[i];
             AS_I32(vec)[xl] = y->i32;
@@ -637,6 +673,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
         case MTYPE2(-TYPE_TIME, TYPE_TIME):
             yl = y->len;
             vec = vector(y->type, yl + 1);
+            if (IS_ERR(vec))
+                return vec;
             AS_I32(vec)[0] = x->i32;
             for (i = 1; i <= yl; i++)
                 AS_I32(vec)[i] = AS_I32(y)[i - 1];
@@ -647,6 +685,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
             xl = x->len;
             yl = y->len;
             vec = vector(x->type, xl + yl);
+            if (IS_ERR(vec))
+                return vec;
             for (i = 0; i < xl; i++)
                 AS_I32(vec)[i] = AS_I32(x)[i];
             for (i = 0; i < yl; i++)
@@ -665,6 +705,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
         case MTYPE2(TYPE_TIMESTAMP, -TYPE_TIMESTAMP):
             xl = x->len;
             vec = vector(x->type, xl + 1);
+            if (IS_ERR(vec))
+                return vec;
             for (i = 0; i < xl; i++)
                 AS_I64(vec)[i] = AS_I64(x)[i];
             AS_I64(vec)[xl] = y->i64;
@@ -674,6 +716,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
         case MTYPE2(-TYPE_TIMESTAMP, TYPE_TIMESTAMP):
             yl = y->len;
             vec = vector(y->type, yl + 1);
+            if (IS_ERR(vec))
+                return vec;
             AS_I64(vec)[0] = x->i64;
             for (i = 1; i <= yl; i++)
                 AS_I64(vec)[i] = AS_I64(y)[i - 1];
@@ -684,6 +728,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
             xl = x->len;
             yl = y->len;
             vec = vector(x->type, xl + yl);
+            if (IS_ERR(vec))
+                return vec;
             for (i = 0; i < xl; i++)
                 AS_I64(vec)[i] = AS_I64(x)[i];
             for (i = 0; i < yl; i++)
@@ -698,6 +744,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
         case MTYPE2(TYPE_F64, -TYPE_F64):
             xl = x->len;
             vec = F64(xl + 1);
+            if (IS_ERR(vec))
+                return vec;
             for (i = 0; i < xl; i++)
                 AS_F64(vec)[i] = AS_F64(x)[i];
             AS_F64(vec)[xl] = y->f64;
@@ -705,6 +753,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
         case MTYPE2(-TYPE_F64, TYPE_F64):
             yl = y->len;
             vec = F64(yl + 1);
+            if (IS_ERR(vec))
+                return vec;
             AS_F64(vec)[0] = x->f64;
             for (i = 1; i <= yl; i++)
                 AS_F64(vec)[i] = AS_F64(y)[i - 1];
@@ -713,6 +763,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
             xl = x->len;
             yl = y->len;
             vec = F64(xl + yl);
+            if (IS_ERR(vec))
+                return vec;
             for (i = 0; i < xl; i++)
                 AS_F64(vec)[i] = AS_F64(x)[i];
             for (i = 0; i < yl; i++)
@@ -727,6 +779,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
         case MTYPE2(TYPE_GUID, -TYPE_GUID):
             xl = x->len;
             vec = GUID(xl + 1);
+            if (IS_ERR(vec))
+                return vec;
             for (i = 0; i < xl; i++)
                 memcpy(AS_GUID(vec)[i], AS_GUID(x)[i], sizeof(guid_t));
             memcpy(&AS_GUID(vec)[xl], AS_GUID(y), sizeof(guid_t));
@@ -734,6 +788,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
         case MTYPE2(-TYPE_GUID, TYPE_GUID):
             yl = y->len + 1;
             vec = GUID(yl);
+            if (IS_ERR(vec))
+                return vec;
             memcpy(&AS_GUID(vec)[0], AS_GUID(x), sizeof(guid_t));
             for (i = 1; i < yl; i++)
                 memcpy(AS_GUID(vec)[i], AS_GUID(y)[i - 1], sizeof(guid_t));
@@ -742,6 +798,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
             xl = x->len;
             yl = y->len;
             vec = GUID(xl + yl);
+            if (IS_ERR(vec))
+                return vec;
             for (i = 0; i < xl; i++)
                 memcpy(AS_GUID(vec)[i], AS_GUID(x)[i], sizeof(guid_t));
             for (i = 0; i < yl; i++)
@@ -817,6 +875,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
             xl = x->len;
             yl = y->len;
             vec = LIST(xl + yl);
+            if (IS_ERR(vec))
+                return vec;
             for (i = 0; i < xl; i++)
                 AS_LIST(vec)[i] = clone_obj(AS_LIST(x)[i]);
             for (i = 0; i < yl; i++)
@@ -827,6 +887,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
             if (x->type == TYPE_LIST) {
                 xl = x->len;
                 vec = LIST(xl + 1);
+                if (IS_ERR(vec))
+                    return vec;
                 for (i = 0; i < xl; i++)
                     AS_LIST(vec)[i] = clone_obj(AS_LIST(x)[i]);
 
@@ -836,6 +898,8 @@ obj_p ray_concat(obj_p x, obj_p y) {
             if (y->type == TYPE_LIST) {
                 yl = y->len;
                 vec = LIST(yl + 1);
+                if (IS_ERR(vec))
+                    return vec;
                 AS_LIST(vec)[0] = clone_obj(x);
                 for (i = 0; i < yl; i++)
                     AS_LIST(vec)[i + 1] = clone_obj(AS_LIST(y)[i]);
diff --git a/core/ops.c b/core/ops.c
index 882bb55..e12a5fa 100644
--- a/core/ops.c
+++ b/core/ops.c
@@ -263,6 +263,8 @@ obj_p ops_where(b8_t *mask, i64_t len) {
         count += mask[i];
 
     res = I64(count);
+    if (IS_ERR(res))
+        return res;
     ids = AS_I64(res);
 
     for (i = 0, j = 0; i < len; i++) {
diff --git a/core/rayforce.c b/core/rayforce.c
index dd9d263..0b6d12c 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -1142,6 +1142,8 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
             pool = runtime_get()->pool;
             n = pool_split_by(pool, len, 0);
             out = vector(obj->type, len);
+            if (IS_ERR(out))
+                return out;
 
             if (n == 1) {
                 argv[0] = (raw_p)obj;
@@ -1196,6 +1198,10 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
             }
 
             res = SYMBOL(len);
+            if (IS_ERR(res)) {
+                drop_obj(v);
+                return res;
+            }
             for (i = 0; i < len; i++)
                 AS_I64(res)[i] = enum_symbol(v, AS_I64(ENUM_VAL(obj))[ids[i]]);
 
@@ -1224,6 +1230,8 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
         case TYPE_PARTEDB8:
         case TYPE_PARTEDU8:
             res = vector(obj->type - TYPE_MAPLIST, len);
+            if (IS_ERR(res))
+                return res;
             n = AS_LIST(obj)[0]->len;
             for (i = 0, mapid = 0, m = 0; i < len; i++) {
                 while (ids[i] >= n) {
@@ -1236,6 +1244,8 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
             return res;
         case TYPE_PARTEDI16:
             res = vector(TYPE_I16, len);
+            if (IS_ERR(res))
+                return res;
             n = AS_LIST(obj)[0]->len;
             for (i = 0, mapid = 0, m = 0; i < len; i++) {
                 while (ids[i] >= n) {
@@ -1250,6 +1260,8 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME:
             res = vector(obj->type - TYPE_MAPLIST, len);
+            if (IS_ERR(res))
+                return res;
             n = AS_LIST(obj)[0]->len;
             for (i = 0, mapid = 0, m = 0; i < len; i++) {
                 while (ids[i] >= n) {
@@ -1263,6 +1275,8 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
         case TYPE_PARTEDI64:
         case TYPE_PARTEDTIMESTAMP:
             res = vector(obj->type - TYPE_MAPLIST, len);
+            if (IS_ERR(res))
+                return res;
             n = AS_LIST(obj)[0]->len;
             for (i = 0, mapid = 0, m = 0; i < len; i++) {
                 while (ids[i] >= n) {
@@ -1275,6 +1289,8 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
             return res;
         case TYPE_PARTEDF64:
             res = F64(len);
+            if (IS_ERR(res))
+                return res;
             n = AS_LIST(obj)[0]->len;
             for (i = 0, mapid = 0, m = 0; i < len; i++) {
                 while (ids[i] >= n) {
@@ -1303,6 +1319,10 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
             }
 
             res = SYMBOL(len);
+            if (IS_ERR(res)) {
+                drop_obj(v);
+                return res;
+            }
             n = AS_LIST(obj)[0]->len;
             for (i = 0, mapid = 0, m = 0; i < len; i++) {
                 while (ids[i] >= n) {
@@ -1316,6 +1336,8 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
             return res;
         case TYPE_PARTEDGUID:
             res = GUID(len);
+            if (IS_ERR(res))
+                return res;
             n = AS_LIST(obj)[0]->len;
             for (i = 0, mapid = 0, m = 0; i < len; i++) {
                 while (ids[i] >= n) {
@@ -1329,6 +1351,8 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
 
         default:
             res = vector(TYPE_LIST, len);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < len; i++)
                 ins_obj(&res, i, at_idx(obj, ids[i]));
 
@@ -2605,6 +2629,8 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(TYPE_U8, TYPE_I16):
             l = obj->len;
             res = U8(l);
+            if (IS_ERR(res))
+                return res;
             res->type = type;
             for (i = 0; i < l; i++)
                 AS_U8(res)[i] = (u8_t)AS_I16(obj)[i];
@@ -2617,6 +2643,8 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(TYPE_U8, TYPE_TIME):
             l = obj->len;
             res = U8(l);
+            if (IS_ERR(res))
+                return res;
             res->type = type;
             for (i = 0; i < l; i++)
                 AS_U8(res)[i] = (u8_t)AS_I32(obj)[i];
@@ -2627,6 +2655,8 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(TYPE_U8, TYPE_TIMESTAMP):
             l = obj->len;
             res = U8(l);
+            if (IS_ERR(res))
+                return res;
             res->type = type;
             for (i = 0; i < l; i++)
                 AS_U8(res)[i] = (u8_t)AS_I64(obj)[i];
@@ -2635,6 +2665,8 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(TYPE_U8, TYPE_F64):
             l = obj->len;
             res = U8(l);
+            if (IS_ERR(res))
+                return res;
             res->type = type;
             for (i = 0; i < l; i++)
                 AS_U8(res)[i] = (u8_t)AS_F64(obj)[i];
@@ -2645,6 +2677,8 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(TYPE_I16, TYPE_B8):
             l = obj->len;
             res = I16(l);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < l; i++)
                 AS_I16(res)[i] = (i16_t)AS_U8(obj)[i];
             return res;
@@ -2653,6 +2687,8 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(TYPE_I16, TYPE_TIME):
             l = obj->len;
             res = I16(l);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < l; i++)
                 AS_I16(res)[i] = (i16_t)AS_I32(obj)[i];
             return res;
@@ -2660,12 +2696,16 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(TYPE_I16, TYPE_TIMESTAMP):
             l = obj->len;
             res = I16(l);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < l; i++)
                 AS_I16(res)[i] = (i16_t)AS_I64(obj)[i];
             return res;
         case MTYPE2(TYPE_I16, TYPE_F64):
             l = obj->len;
             res = I16(l);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < l; i++)
                 AS_I16(res)[i] = (i16_t)AS_F64(obj)[i];
             return res;
@@ -2679,6 +2719,8 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(TYPE_TIME, TYPE_B8):
             l = obj->len;
             res = vector(type, l);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < l; i++)
                 AS_I32(res)[i] = (i32_t)AS_U8(obj)[i];
             return res;
@@ -2687,6 +2729,8 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(TYPE_TIME, TYPE_I16):
             l = obj->len;
             res = vector(type, l);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < l; i++)
                 AS_I32(res)[i] = (i32_t)AS_I16(obj)[i];
             return res;
@@ -2698,6 +2742,8 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(TYPE_TIME, TYPE_TIMESTAMP):
             l = obj->len;
             res = vector(type, l);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < l; i++)
                 AS_I32(res)[i] = (i32_t)AS_I64(obj)[i];
             return res;
@@ -2709,6 +2755,8 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(TYPE_TIME, TYPE_DATE):
             l = obj->len;
             res = vector(type, l);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < l; i++)
                 AS_I32(res)[i] = AS_I32(obj)[i];
             return res;
@@ -2717,6 +2765,8 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(TYPE_TIME, TYPE_F64):
             l = obj->len;
             res = vector(type, l);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < l; i++)
                 AS_I32(res)[i] = (i32_t)AS_F64(obj)[i];
             return res;
@@ -2728,6 +2778,8 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(TYPE_TIMESTAMP, TYPE_B8):
             l = obj->len;
             res = vector(type, l);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < l; i++)
                 AS_I64(res)[i] = (i64_t)AS_U8(obj)[i];
             return res;
@@ -2735,6 +2787,8 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(TYPE_TIMESTAMP, TYPE_I16):
             l = obj->len;
             res = vector(type, l);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < l; i++)
                 AS_I64(res)[i] = (i64_t)AS_I16(obj)[i];
             return res;
@@ -2746,6 +2800,8 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(TYPE_TIMESTAMP, TYPE_TIME):
             l = obj->len;
             res = vector(type, l);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < l; i++)
                 AS_I64(res)[i] = (i64_t)AS_I32(obj)[i];
             return res;
@@ -2753,6 +2809,8 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(TYPE_TIMESTAMP, TYPE_F64):
             l = obj->len;
             res = vector(type, l);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < l; i++)
                 AS_I64(res)[i] = (i64_t)AS_F64(obj)[i];
             return res;
@@ -2760,6 +2818,8 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(TYPE_TIMESTAMP, TYPE_I64):
             l = obj->len;
             res = vector(type, l);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < l; i++)
                 AS_I64(res)[i] = AS_I64(obj)[i];
             return res;
@@ -2769,12 +2829,16 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(TYPE_F64, TYPE_B8):
             l = obj->len;
             res = F64(l);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < l; i++)
                 AS_F64(res)[i] = (f64_t)AS_U8(obj)[i];
             return res;
         case MTYPE2(TYPE_F64, TYPE_I16):
             l = obj->len;
             res = F64(l);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < l; i++)
                 AS_F64(res)[i] = (f64_t)AS_I16(obj)[i];
             return res;
@@ -2783,6 +2847,8 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(TYPE_F64, TYPE_TIME):
             l = obj->len;
             res = F64(l);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < l; i++)
                 AS_F64(res)[i] = (f64_t)AS_I32(obj)[i];
             return res;
@@ -2790,6 +2856,8 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(TYPE_F64, TYPE_TIMESTAMP):
             l = obj->len;
             res = F64(l);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < l; i++)
                 AS_F64(res)[i] = (f64_t)AS_I64(obj)[i];
             return res;
@@ -2798,6 +2866,8 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(TYPE_SYMBOL, TYPE_I64):
             l = obj->len;
             res = vector(TYPE_SYMBOL, l);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < l; i++) {
                 obj_p sym;
                 v = str_fmt(-1, "%lld", AS_I64(obj)[i]);
@@ -2854,6 +2924,10 @@ obj_p cast_obj(i8_t type, obj_p obj) {
                     return v;
 
                 res = vector(type, l);
+                if (IS_ERR(res)) {
+                    drop_obj(v);
+                    return res;
+                }
                 ins_obj(&res, 0, v);
 
                 for (i = 1; i < l; i++) {
-- 
2.43.0


From 92ea5cdd8a2d256d28a809f793b1901027498376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:13 +0000
Subject: [PATCH 102/108] fix: a big vector that cannot be copied crashes the
 process

---
 core/rayforce.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/rayforce.c b/core/rayforce.c
index 0b6d12c..bc0d59d 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -3102,6 +3102,8 @@ obj_p copy_obj(obj_p obj) {
         case TYPE_F64:
         case TYPE_GUID:
             res = vector(obj->type, obj->len);
+            if (IS_ERR(res))
+                return res;
             memcpy(res->raw, obj->raw, size_of(obj) - sizeof(struct obj_t));
             return res;
         case TYPE_LIST:
-- 
2.43.0


From e7089dc3a810addcf52b1306ac0e63b8d5825dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:15 +0000
Subject: [PATCH 103/108] fix: piped source is evaluated cut where a read ends

---
 app/repl.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/app/repl.c b/app/repl.c
index 5107e6d..b868c3f 100644
--- a/app/repl.c
+++ b/app/repl.c
@@ -22,6 +22,8 @@
  */
 
 #include <stdio.h>
+#include <string.h>
+#include <errno.h>
 #if defined(OS_WINDOWS)
 #include <io.h>
 #define read _read
@@ -143,17 +145,33 @@ repl_p repl_create(poll_p poll) {
             return NULL;
         }
     } else {
-        // Piped input - read and eval synchronously, then exit (oneshot mode, like Python)
+        // Piped input - read all of it, eval synchronously, then exit (oneshot mode, like Python):
+        // what one read returns may end anywhere, even in the middle of a word
         c8_t buf[TERM_BUF_SIZE];
-        i64_t len;
+        i64_t len, total = 0;
         obj_p str, res, fmt;
         b8_t has_error = B8_FALSE;
 
         repl->term = NULL;
+        str = C8(0);
+
+        for (;;) {
+            len = read(STDIN_FILENO, buf, TERM_BUF_SIZE);
+            if (len == -1 && errno == EINTR)
+                continue;
+            if (len <= 0)
+                break;
+            resize_obj(&str, total + len);
+            memcpy(AS_C8(str) + total, buf, len);
+            total += len;
+        }
 
-        while ((len = read(STDIN_FILENO, buf, TERM_BUF_SIZE - 1)) > 0) {
-            buf[len] = '\0';
-            str = string_from_str(buf, len);
+        if (len == -1) {
+            // Only a part of the input is known
+            perror("stdin");
+            drop_obj(str);
+            has_error = B8_TRUE;
+        } else if (total > 0) {
             res = ray_eval_str_line(str, repl->name, 0);
             drop_obj(str);
 
@@ -164,6 +182,8 @@ repl_p repl_create(poll_p poll) {
                 has_error = B8_TRUE;
             }
             drop_obj(res);
+        } else {
+            drop_obj(str);
         }
 
         // Print timing info and signal to exit
-- 
2.43.0


From 283220a9441f631a9f5cd78b04e6d3501dfa06ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:15 +0000
Subject: [PATCH 104/108] fix: (exit n) in a script or in piped source loses
 its code

---
 app/main.c | 7 ++++++-
 app/repl.c | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/app/main.c b/app/main.c
index 1c98f4a..5bafe4e 100644
--- a/app/main.c
+++ b/app/main.c
@@ -28,6 +28,7 @@
 #include "../core/string.h"
 #include "../core/io.h"
 #include "../core/chrono.h"
+#include "../core/poll.h"
 #include "repl.h"
 #if defined(OS_WINDOWS)
 #include <io.h>
@@ -90,7 +91,11 @@ i32_t main(i32_t argc, str_p argv[]) {
         // Oneshot mode: file without -i flag = execute and exit (like Python)
         if (!interactive) {
             timeit_print();
-            code = file_error ? 1 : 0;
+            // (exit n) in the script has set the code already
+            if (runtime->poll && runtime->poll->code != NULL_I64)
+                code = runtime->poll->code;
+            else
+                code = file_error ? 1 : 0;
             runtime_destroy();
             return code;
         }
diff --git a/app/repl.c b/app/repl.c
index b868c3f..ffd5dde 100644
--- a/app/repl.c
+++ b/app/repl.c
@@ -188,7 +188,9 @@ repl_p repl_create(poll_p poll) {
 
         // Print timing info and signal to exit
         timeit_print();
-        poll->code = has_error ? 1 : 0;
+        // (exit n) in the input has set the code already
+        if (poll->code == NULL_I64)
+            poll->code = has_error ? 1 : 0;
 
         repl_destroy(repl);
         return NULL;
-- 
2.43.0


From d41a8fa3b97ffe5b5bcb595d9b117e7d14192685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:05 +0000
Subject: [PATCH 105/108] fix: the process crashes or waits forever when it
 starts without memory or threads

---
 core/eval.c    |  5 +++++
 core/pool.c    | 15 +++++++++++++++
 core/runtime.c | 14 ++++++++++++++
 core/symbols.c |  5 +++++
 core/thread.c  |  3 ++-
 5 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/core/eval.c b/core/eval.c
index 18ef4fb..1f9627e 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -42,6 +42,11 @@ vm_p vm_create(i32_t id, struct pool_t *pool) {
 
     // Use raw mmap for VM allocation (can't use heap before VM exists)
     vm = (vm_p)mmap_alloc(sizeof(struct vm_t));
+    if (vm == NULL) {
+        perror("vm mmap");
+        exit(1);
+    }
+
     // Hot fields first
     vm->sp = 0;
     vm->fp = 0;
diff --git a/core/pool.c b/core/pool.c
index e7f384a..4925003 100644
--- a/core/pool.c
+++ b/core/pool.c
@@ -252,6 +252,11 @@ pool_p pool_create(i64_t thread_count) {
 
     // thread_count includes main thread, so we allocate for all
     pool = (pool_p)heap_mmap(sizeof(struct pool_t) + (sizeof(executor_t) * thread_count));
+    if (pool == NULL) {
+        perror("pool mmap");
+        exit(1);
+    }
+
     pool->executors_count = thread_count;
     pool->done_count = 0;
     pool->tasks_count = 0;
@@ -261,6 +266,11 @@ pool_p pool_create(i64_t thread_count) {
     pool->err_id = 0;
     pool->task_queue = mpmc_create(DEFAULT_MPMC_SIZE);
     pool->result_queue = mpmc_create(DEFAULT_MPMC_SIZE);
+    if (pool->task_queue == NULL || pool->result_queue == NULL) {
+        perror("pool queue mmap");
+        exit(1);
+    }
+
     pool->state = RUN_STATE_RUNNING;
     pool->mutex = mutex_create();
     pool->run = cond_create();
@@ -285,6 +295,11 @@ pool_p pool_create(i64_t thread_count) {
         pool->executors[i].heap = NULL;
         pool->executors[i].vm = NULL;
         pool->executors[i].handle = ray_thread_create(executor_run, &pool->executors[i]);
+        if (!pool->executors[i].handle.handle) {
+            // Nobody would ever set the vm waited for below
+            printf("Failed to create worker thread %lld\n", i);
+            exit(1);
+        }
         if (thread_pin(pool->executors[i].handle, i) != 0)
             LOG_WARN("failed to pin thread %lld", i);
     }
diff --git a/core/runtime.c b/core/runtime.c
index 7bd5e40..51eaa00 100644
--- a/core/runtime.c
+++ b/core/runtime.c
@@ -120,6 +120,7 @@ runtime_p runtime_create(i32_t argc, str_p argv[]) {
     obj_p arg;
     symbols_p symbols;
     sys_info_t si;
+    raw_p mem;
 
     // Parse -c/--cores argument early (before pool creation)
     // We need to know thread count before creating pool
@@ -147,6 +148,19 @@ runtime_p runtime_create(i32_t argc, str_p argv[]) {
     symbols = symbols_create();
 
     __RUNTIME = (runtime_p)heap_mmap(sizeof(struct runtime_t));
+    if (__RUNTIME == NULL) {
+        perror("runtime mmap");
+        exit(1);
+    }
+
+    // What follows needs the first pool of the heap
+    mem = heap_alloc(sizeof(struct obj_t));
+    if (mem == NULL) {
+        perror("heap mmap");
+        exit(1);
+    }
+    heap_free(mem);
+
     __RUNTIME->symbols = symbols;
     __RUNTIME->env = env_create();
     __RUNTIME->fdmaps = dict(I64(0), LIST(0));
diff --git a/core/symbols.c b/core/symbols.c
index 10f12ef..a517980 100644
--- a/core/symbols.c
+++ b/core/symbols.c
@@ -167,6 +167,11 @@ symbols_p symbols_create(nil_t) {
     symbols->size = SYMBOLS_HT_SIZE;
     symbols->count = 0;
     symbols->syms = (symbol_p *)heap_mmap(SYMBOLS_HT_SIZE * sizeof(symbol_p));
+    if (symbols->syms == NULL) {
+        perror("symbols->syms mmap");
+        exit(1);
+    }
+
     string_pool = (str_p)mmap_reserve(pooladdr, STRING_POOL_SIZE);
 
     if (string_pool == NULL) {
diff --git a/core/thread.c b/core/thread.c
index e7dd571..acb7c33 100644
--- a/core/thread.c
+++ b/core/thread.c
@@ -152,7 +152,8 @@ i32_t cond_broadcast(cond_t *cond) { return pthread_cond_broadcast(&cond->inner)
 
 ray_thread_t ray_thread_create(raw_p (*fn)(raw_p), raw_p arg) {
     ray_thread_t thread;
-    pthread_create(&thread.handle, NULL, fn, arg);
+    if (pthread_create(&thread.handle, NULL, fn, arg) != 0)
+        thread.handle = 0;
     return thread;
 }
 
-- 
2.43.0


From 784ac3de65048a256856bbaff3e90cc7373dfb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:05 +0000
Subject: [PATCH 106/108] fix: a port that is no number, or none that exists,
 is listened on as another one

---
 core/runtime.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/runtime.c b/core/runtime.c
index 51eaa00..c18acac 100644
--- a/core/runtime.c
+++ b/core/runtime.c
@@ -213,7 +213,11 @@ i32_t runtime_run(nil_t) {
 
     arg = runtime_get_arg("port");
     if (!is_null(arg)) {
-        i64_from_str(AS_C8(arg), arg->len, &port);
+        if (i64_from_str(AS_C8(arg), arg->len, &port) != arg->len || port < 0 || port > 65535) {
+            printf("Invalid port: %.*s\n", (i32_t)arg->len, AS_C8(arg));
+            drop_obj(arg);
+            return 1;
+        }
         drop_obj(arg);
         if (ipc_listen(__RUNTIME->poll, port) == -1) {
             printf("Failed to listen on port %lld\n", port);
-- 
2.43.0


From 303a447ee5b060bc53b26a7894c818da8e52473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:06 +0000
Subject: [PATCH 107/108] fix: a failed start of the listener or the terminal
 leaves a socket or crashes

---
 app/repl.c | 9 +++++++++
 app/term.c | 4 +++-
 core/ipc.c | 8 ++++++--
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/app/repl.c b/app/repl.c
index ffd5dde..075917e 100644
--- a/app/repl.c
+++ b/app/repl.c
@@ -127,6 +127,13 @@ repl_p repl_create(poll_p poll) {
     if (isatty(STDIN_FILENO)) {
         repl->term = term_create();
 
+        if (repl->term == NULL) {
+            perror("term_create");
+            repl_destroy(repl);
+            poll->code = 1;
+            return NULL;
+        }
+
         struct poll_registry_t registry = ZERO_INIT_STRUCT;
         registry.fd = STDIN_FILENO;
         registry.type = SELECTOR_TYPE_STDIN;
@@ -141,7 +148,9 @@ repl_p repl_create(poll_p poll) {
         repl->id = poll_register(poll, &registry);
 
         if (repl->id == -1) {
+            perror("repl");
             repl_destroy(repl);
+            poll->code = 1;
             return NULL;
         }
     } else {
diff --git a/app/term.c b/app/term.c
index c429e91..345ebb0 100644
--- a/app/term.c
+++ b/app/term.c
@@ -628,8 +628,10 @@ term_p term_create() {
 
     term = (term_p)heap_mmap(sizeof(struct term_t));
 
-    if (term == NULL)
+    if (term == NULL) {
+        hist_destroy(hist);
         return NULL;
+    }
 
     // Set the terminal to non-canonical mode
     tcgetattr(STDIN_FILENO, &term->oldattr);
diff --git a/core/ipc.c b/core/ipc.c
index 790699e..7d9f669 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -166,7 +166,7 @@ nil_t ipc_listener_close(poll_p poll, selector_p selector) {
 }
 
 i64_t ipc_listen(poll_p poll, i64_t port) {
-    i64_t fd;
+    i64_t fd, id;
     struct poll_registry_t registry = ZERO_INIT_STRUCT;
 
     if (poll == NULL)
@@ -187,7 +187,11 @@ i64_t ipc_listen(poll_p poll, i64_t port) {
 
     LOG_DEBUG("Registering listener on port %lld", port);
 
-    return poll_register(poll, &registry);
+    id = poll_register(poll, &registry);
+    if (id == -1)
+        sock_close(fd);
+
+    return id;
 }
 
 // ============================================================================
-- 
2.43.0


From 95cd790da080d9afe44d770b1a47446fc20b9497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:16 +0000
Subject: [PATCH 108/108] fix: -cores n is accepted and ignored, and -c n among
 the user's arguments is not

---
 core/runtime.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/runtime.c b/core/runtime.c
index c18acac..4f8863e 100644
--- a/core/runtime.c
+++ b/core/runtime.c
@@ -126,7 +126,9 @@ runtime_p runtime_create(i32_t argc, str_p argv[]) {
     // We need to know thread count before creating pool
     n = 0;
     for (i = 1; i < argc; i++) {
-        if (strncmp(argv[i], "-c", 2) == 0 && argv[i][2] == '\0' && i + 1 < argc) {
+        if (strcmp(argv[i], "--") == 0)
+            break;  // what follows is for the user
+        if ((strcmp(argv[i], "-c") == 0 || strcmp(argv[i], "-cores") == 0) && i + 1 < argc) {
             i64_from_str(argv[i + 1], strlen(argv[i + 1]), &n);
             break;
         } else if (strncmp(argv[i], "--cores=", 8) == 0) {
-- 
2.43.0

