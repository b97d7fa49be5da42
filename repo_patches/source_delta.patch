From 3f27715c3384d37f736dd9ac665f8aa89652899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:50 +0000
Subject: [PATCH 01/55] fix: let processors started during gc start take part
 in the mark round

---
 runtime/collector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/collector.c b/runtime/collector.c
index c4dd6a5..54e8c79 100644
--- a/runtime/collector.c
+++ b/runtime/collector.c
@@ -859,6 +859,10 @@ static void inject_gc_work_coroutine() {
         }
 
         DEBUGF("[inject_gc_work_coroutine] inject gc work, p_index=%d", p->index);
+
+        // processor_wake may have marked p as finished after gc_count was increased but before the world stopped,
+        // it receives a gc_work coroutine, so it takes part in this round
+        p->gc_work_finished = memory->gc_count - 1;
         coroutine_t *gc_co = rt_coroutine_new((void *) gc_work, FLAG(CO_FLAG_RTFN) | FLAG(CO_FLAG_DIRECT), 0, NULL);
 
         rt_linked_fixalloc_push(&p->co_list, gc_co);
-- 
2.43.0


From 849d3fe3c3c541095693c6a8ced0a37039523119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:03 +0000
Subject: [PATCH 02/55] fix: do not await a recycled coroutine

A finished coroutine is freed by the collector and its descriptor reused.
Awaiting a future whose coroutine is already gone then waited for an
unrelated coroutine. Remember the coroutine id in the future and return
at once when the descriptor belongs to somebody else.
---
 runtime/nutils/coroutine.c |  1 +
 runtime/processor.c        | 10 +++++++++-
 runtime/processor.h        |  2 +-
 runtime/runtime.h          |  1 +
 std/builtin/coroutine.n    |  5 +++--
 std/co/utils.n             |  2 +-
 6 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/runtime/nutils/coroutine.c b/runtime/nutils/coroutine.c
index 6764031..bd97eed 100644
--- a/runtime/nutils/coroutine.c
+++ b/runtime/nutils/coroutine.c
@@ -2,6 +2,7 @@
 
 coroutine_t *rt_coroutine_async(void *fn, int64_t flag, n_future_t *fu) {
     coroutine_t *co = rt_coroutine_new(fn, flag, fu, NULL);
+    fu->co_id = co->id;
     rt_coroutine_dispatch(co);
     DEBUGF("[rt_coroutine_async] co=%p, fn=%p, flag=%ld, fu=%p, size=%ld", co, fn, flag, fu, fu->size);
 
diff --git a/runtime/processor.c b/runtime/processor.c
index b88fff1..97c8ce5 100644
--- a/runtime/processor.c
+++ b/runtime/processor.c
@@ -1039,8 +1039,16 @@ void rt_coroutine_return(void *result_ptr) {
            *(int64_t *) co->future->result, co->future->size);
 }
 
-void rt_coroutine_await(coroutine_t *target_co) {
+void rt_coroutine_await(coroutine_t *target_co, int64_t co_id) {
+    // target_co may be freed and reused by another coroutine, hold cp_alloc_locker until it is checked
+    mutex_lock(&cp_alloc_locker);
+    if (target_co->id != co_id) {
+        mutex_unlock(&cp_alloc_locker);
+        return;
+    }
+
     mutex_lock(&target_co->dead_locker);
+    mutex_unlock(&cp_alloc_locker);
     coroutine_t *src_co = coroutine_get();
     if (target_co->status == CO_STATUS_DEAD) {
         mutex_unlock(&target_co->dead_locker);
diff --git a/runtime/processor.h b/runtime/processor.h
index 5313cd9..2903299 100644
--- a/runtime/processor.h
+++ b/runtime/processor.h
@@ -280,7 +280,7 @@ void co_migrate(aco_t *aco, aco_share_stack_t *new_st);
 
 void rt_coroutine_sleep(int64_t ms);
 
-void rt_coroutine_await(coroutine_t *co);
+void rt_coroutine_await(coroutine_t *co, int64_t co_id);
 
 void rt_coroutine_yield();
 
diff --git a/runtime/runtime.h b/runtime/runtime.h
index 9090fe8..b9e4fc8 100644
--- a/runtime/runtime.h
+++ b/runtime/runtime.h
@@ -373,6 +373,7 @@ struct linkco_t {
 typedef struct n_future_t {
     int64_t size;
     void *result;
+    int64_t co_id; // coroutine_t is recycled after it is dead, await compares the id to detect that
     n_union_t error; // 类似 result 一样可选的 error
     void *await_co;
 } n_future_t;
diff --git a/std/builtin/coroutine.n b/std/builtin/coroutine.n
index bb36d86..db63935 100644
--- a/std/builtin/coroutine.n
+++ b/std/builtin/coroutine.n
@@ -4,6 +4,7 @@ import runtime
 pub type future_t<T> = struct{
     i64 size
     ptr<T> result
+    i64 co_id
     throwable? error
     anyptr co
 }
@@ -29,7 +30,7 @@ pub fn co_return<T>(ptr<T> result) {
 
 #where T:nonvoid
 pub fn future_t<T>.await(&self):T! {
-    utils.coroutine_await(self.co)
+    utils.coroutine_await(self.co, self.co_id)
 
     if self.error is throwable {
         var error = self.error as throwable
@@ -40,7 +41,7 @@ pub fn future_t<T>.await(&self):T! {
 }
 
 pub fn future_t<T>.await_void(&self):void! {
-    utils.coroutine_await(self.co)
+    utils.coroutine_await(self.co, self.co_id)
 
     if self.error is throwable {
         var error = self.error as throwable
diff --git a/std/co/utils.n b/std/co/utils.n
index adb19ae..40e2f7f 100644
--- a/std/co/utils.n
+++ b/std/co/utils.n
@@ -11,4 +11,4 @@ fn coroutine_dispatch(anyptr co)
 pub fn coroutine_return(anyptr result)
 
 #linkid rt_coroutine_await
-pub fn coroutine_await(anyptr co)
\ No newline at end of file
+pub fn coroutine_await(anyptr co, i64 co_id)
\ No newline at end of file
-- 
2.43.0


From c66bc78315535cabb42297615c228297b12e27bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:43 +0000
Subject: [PATCH 03/55] fix: keep the coroutine pinned while await registers on
 it

The descriptor could still be freed between the id check and the unlock
of its dead_locker.
---
 runtime/processor.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/processor.c b/runtime/processor.c
index 97c8ce5..df89e3f 100644
--- a/runtime/processor.c
+++ b/runtime/processor.c
@@ -1048,15 +1048,16 @@ void rt_coroutine_await(coroutine_t *target_co, int64_t co_id) {
     }
 
     mutex_lock(&target_co->dead_locker);
-    mutex_unlock(&cp_alloc_locker);
     coroutine_t *src_co = coroutine_get();
     if (target_co->status == CO_STATUS_DEAD) {
         mutex_unlock(&target_co->dead_locker);
+        mutex_unlock(&cp_alloc_locker);
         return;
     }
     target_co->await_co = src_co;
     co_set_status(src_co->p, src_co, CO_STATUS_WAITING);
     mutex_unlock(&target_co->dead_locker);
+    mutex_unlock(&cp_alloc_locker);
 
     // 一旦 unlock 就可能会发生 runnable push 以及 status set, 但是不影响当前 yield
     _co_yield(src_co->p, src_co);
-- 
2.43.0


From f44b7cb8de907ed5f817daa3084cf31e0bbd0d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:42 +0000
Subject: [PATCH 04/55] fix: do not sweep objects that were stored while
 marking

The collector marks concurrently, but stacks, globals, channel buffers,
futures and freshly allocated objects are written without a barrier.
Scan stacks, globals and the objects allocated during the round again
when the world is stopped at the end of mark, shade the object holding
a slot after the store instead of before it, and mark the future of a
running coroutine. Enter the mark stage before the world is restarted.
---
 runtime/allocator.c     |  5 +++
 runtime/collector.c     | 84 ++++++++++++++++++++++++++++++++---------
 runtime/nutils/nutils.c | 17 +++++----
 runtime/processor.c     |  4 ++
 runtime/processor.h     |  3 ++
 runtime/rt_chan.c       |  3 ++
 6 files changed, 91 insertions(+), 25 deletions(-)

diff --git a/runtime/allocator.c b/runtime/allocator.c
index e893e2d..ca91ef9 100644
--- a/runtime/allocator.c
+++ b/runtime/allocator.c
@@ -1379,6 +1379,11 @@ void *rti_gc_malloc(uint64_t size, rtype_t *rtype) {
     // 如果当前写屏障开启，则新分配的对象都是黑色(不在工作队列且被 span 标记), 避免在本轮被 GC 清理
     if (gc_barrier_get()) {
         mark_ptr_black(ptr);
+
+        // its fields are written later, so it is scanned when mark is done
+        if (rtype && rtype->last_ptr > 0) {
+            rt_linked_fixalloc_push(&global_gc_new_list, ptr);
+        }
     }
 
     //    TDEBUGF("[rti_gc_malloc] end p_index=%d, co=%p, result=%p, size=%d, hash=%d",
diff --git a/runtime/collector.c b/runtime/collector.c
index 54e8c79..f4f1fc4 100644
--- a/runtime/collector.c
+++ b/runtime/collector.c
@@ -361,7 +361,7 @@ static void scan_saved_stack_conservative(rt_linked_fixalloc_t *worklist,
     }
 }
 
-static void scan_stack(n_processor_t *p, coroutine_t *co) {
+static void scan_stack(n_processor_t *p, coroutine_t *co, rt_linked_fixalloc_t *worklist) {
     addr_t bp_value = (addr_t) co->aco.reg[ACO_REG_IDX_BP];
     addr_t sp_value = (addr_t) co->aco.reg[ACO_REG_IDX_SP];
 
@@ -373,10 +373,7 @@ static void scan_stack(n_processor_t *p, coroutine_t *co) {
         co->aco.save_stack.sz, bp_value, sp_value, co->aco.share_stack->align_retptr);
 
     // save_stack 也是通过 gc 申请，即使是 gc_work 也需要标记一下
-    assert(p->gc_work_finished < memory->gc_count && "gc work finished, cannot insert to gc worklist");
-
-    // solo processor 的 gc_worklist 无法使用，需要使用 share processor 进行辅助
-    rt_linked_fixalloc_t *worklist = &p->gc_worklist;
+    assert((worklist != &p->gc_worklist || p->gc_work_finished < memory->gc_count) && "gc work finished, cannot insert to gc worklist");
 
 #if defined(__AMD64) && defined(__WINDOWS)
     // Microsoft x64 allows heap pointers to remain live in nonvolatile GP
@@ -411,6 +408,12 @@ static void scan_stack(n_processor_t *p, coroutine_t *co) {
     }
 
     aco_save_stack_t save_stack = co->aco.save_stack;
+    if (co->aco.share_stack->owner == &co->aco) {
+        // no other coroutine was resumed since co yielded, its frames are still on the share stack
+        save_stack.ptr = (void *) sp_value;
+        save_stack.valid_sz = (addr_t) co->aco.share_stack->align_retptr - sp_value;
+        save_stack.sz = save_stack.valid_sz;
+    }
     if (save_stack.valid_sz == 0) {
         DEBUGF("[runtime_gc.scan_stack] co=%p has not started, return", co);
         return;
@@ -420,7 +423,7 @@ static void scan_stack(n_processor_t *p, coroutine_t *co) {
     // 直到遇到 nature code, 才需要进行 stack
     // 基于 frame_bp + ret_addr 想栈底，目前采用协作式调度后，只有 safepoint 或者 再 c 代码中进行 yield, 这里的 c 代码一定是在 runtime 中进行 yield，并且由于采用了
     // -fno-omit-frame-pointer 方式，所以存在完整的栈帧
-    addr_t stack_top_ptr = (addr_t) co->aco.save_stack.ptr;
+    addr_t stack_top_ptr = (addr_t) save_stack.ptr;
     assert(stack_top_ptr > 0);
 
     // sp 指向了内存地址，可以从中取值
@@ -811,6 +814,11 @@ static void gc_work() {
             insert_gc_worklist(&share_p->gc_worklist, wait_co->arg);
         }
 
+        // the coroutine writes its result to the future, even if nobody else keeps the future
+        if (span_of((addr_t) wait_co->future)) {
+            insert_gc_worklist(&share_p->gc_worklist, wait_co->future);
+        }
+
         // 只有第一次 resume 时才会初始化 co, 申请堆栈，并且绑定对应的 p
         if (!wait_co->aco.inited) {
             DEBUGF("[runtime_gc.gc_work] co=%p, fn=%p not init, will skip", wait_co, wait_co->fn);
@@ -830,7 +838,7 @@ static void gc_work() {
         // scan stack
         // 不用扫描 reg 了，只要 coroutine 调用了 co yield, 就已经了寄存器溢出到 stack 的操作
         // wait_co->aco->save_stack
-        scan_stack(share_p, wait_co);
+        scan_stack(share_p, wait_co, &share_p->gc_worklist);
 
         wait_co->gc_black = memory->gc_count;
     }
@@ -913,11 +921,8 @@ static void scan_pool() {
 /**
  * 除了 coroutine stack 以外的全局变量以及 runtime 中申请的内存
  */
-static void scan_global() {
-    n_processor_t *p = processor_index[0];
-    assert(p);
-
-    DEBUGF("[runtime_gc.scan_global] start, rt_symdef_count=%ld, assist_p_index=%d", rt_symdef_count, p->index);
+static void scan_global(rt_linked_fixalloc_t *worklist) {
+    DEBUGF("[runtime_gc.scan_global] start, rt_symdef_count=%ld", rt_symdef_count);
 
     for (int j = 0; j < rt_symdef_count; ++j) {
         symdef_t s = rt_symdef_ptr[j];
@@ -932,7 +937,7 @@ static void scan_global() {
             if (span_of(addr)) {
                 // s.base 是 data 段中的地址， fetch_addr_value 则是取出该地址中存储的数据
                 // 从栈中取出指针数据值(并将该值加入到工作队列中)(这是一个堆内存的地址,该地址需要参与三色标记)
-                rt_linked_fixalloc_push(&p->gc_worklist, (void *) addr);
+                rt_linked_fixalloc_push(worklist, (void *) addr);
             }
         } else if (rtype->storage_kind == STORAGE_KIND_IND) {
             int64_t current = s.base;
@@ -952,7 +957,7 @@ static void scan_global() {
                         DEBUGF("[runtime.scan_global] name=%s, kind=%s, base=%p(%p), index=%d, addr=%p need gc",
                                STRTABLE(s.name_offset), type_kind_str[rtype->kind], s.base, current, index, addr);
 
-                        rt_linked_fixalloc_push(&p->gc_worklist, (void *) addr);
+                        rt_linked_fixalloc_push(worklist, (void *) addr);
                     } else {
                         DEBUGF("[runtime.scan_global] name=%s, kind=%s, base=%p(%p), index=%d, addr=%p not in span",
                                STRTABLE(s.name_offset), type_kind_str[rtype->kind], s.base, current, index, addr);
@@ -975,12 +980,55 @@ static void scan_global() {
     RDEBUGF("[runtime_gc.scan_global] scan global completed");
 }
 
+/**
+ * Stacks and globals are written without barrier and new objects are filled after they were marked black, so what they
+ * hold now may not be marked yet. Must be called in STW.
+ */
+static void gc_rescan_roots() {
+    PROCESSOR_FOR(processor_list) {
+        rt_linked_node_t *current = p->co_list.head;
+        while (current->value != NULL) {
+            coroutine_t *co = current->value;
+            current = current->succ;
+
+            if (co->status == CO_STATUS_DEAD) {
+                continue;
+            }
+
+            if (span_of((addr_t) co->fn)) {
+                insert_gc_worklist(&global_gc_worklist, co->fn);
+            }
+            if (span_of((addr_t) co->arg)) {
+                insert_gc_worklist(&global_gc_worklist, co->arg);
+            }
+            if (span_of((addr_t) co->future)) {
+                insert_gc_worklist(&global_gc_worklist, co->future);
+            }
+            if (co->aco.inited) {
+                scan_stack(p, co, &global_gc_worklist);
+            }
+        }
+    }
+
+    scan_global(&global_gc_worklist);
+
+    while (true) {
+        void *obj = rt_linked_fixalloc_pop(&global_gc_new_list);
+        if (!obj) {
+            break;
+        }
+        shade_obj_grey(obj);
+    }
+}
+
 /**
  * 处理剩余的 global gc worklist, 当前已经在 STW 了
  */
 static void gc_mark_done() {
     DEBUGF("[runtime_gc.gc_mark_done] start");
 
+    gc_rescan_roots();
+
     // - handle work list
     while (true) {
         addr_t addr = (addr_t) global_gc_worklist_pop();
@@ -1033,15 +1081,17 @@ void runtime_gc() {
 
     // 扫描全局变量与 runtime 中使用的 heap 内存，存放到 share_processor_list[0] 中, 为了避免与 share_processor 冲突，所以暂时放在 stw
     // 中完成
-    scan_global();
+    assert(processor_index[0]);
+    scan_global(&processor_index[0]->gc_worklist);
 
     scan_pool();
 
+    // - gc stage: GC_MARK, set before the world starts so that no coroutine is dispatched with the old stage
+    gc_stage = GC_STAGE_MARK;
+
     DEBUGF("[runtime_gc] gc work coroutine injected, will start the world");
     processor_all_start();
 
-    // - gc stage: GC_MARK
-    gc_stage = GC_STAGE_MARK;
     DEBUGF("[runtime_gc] gc stage: GC_MARK, the world start");
 
     // 等待所有的 processor 都 mark 完成
diff --git a/runtime/nutils/nutils.c b/runtime/nutils/nutils.c
index 07c64ba..87deaf9 100644
--- a/runtime/nutils/nutils.c
+++ b/runtime/nutils/nutils.c
@@ -871,8 +871,11 @@ void rti_write_barrier_ptr(void *slot, void *new_obj, bool mark_black_new_obj) {
         return;
     }
 
-    // yuasa 删除写屏障 shade slot
-    shade_obj_grey(slot);
+    // 直接 mark 为黑色，当前 new_obj 的 field 不会被处理，并且该 obj 本轮 gc 不会被清理
+    // 例如 global linkco cache 中的获取的新的 obj, 不是从 allocator 中申请，所以需要主动进行 mark
+    if (mark_black_new_obj && new_obj) {
+        mark_ptr_black(new_obj);
+    }
 
     // stack 扫描完成后退化成黑色写屏障, 否则是是灰色写屏障
     coroutine_t *co = coroutine_get();
@@ -880,12 +883,6 @@ void rti_write_barrier_ptr(void *slot, void *new_obj, bool mark_black_new_obj) {
     DEBUGF("[runtime_gc.rt_write_barrier_ptr] slot: %p, new_obj: %p, gc_barrier is true, gc_black %d", slot, new_obj,
            is_grey);
 
-    // 直接 mark 为黑色，当前 new_obj 的 field 不会被处理，并且该 obj 本轮 gc 不会被清理
-    // 例如 global linkco cache 中的获取的新的 obj, 不是从 allocator 中申请，所以需要主动进行 mark
-    if (mark_black_new_obj && new_obj) {
-        mark_ptr_black(new_obj);
-    }
-
     // Dijkstra 写屏障
     // new_obj 可能为 null
     if (is_grey && new_obj) {
@@ -894,6 +891,10 @@ void rti_write_barrier_ptr(void *slot, void *new_obj, bool mark_black_new_obj) {
     }
 
     *(void **) slot = new_obj;
+
+    // The object holding the slot has to be scanned again. This must follow the store, otherwise another processor
+    // can scan the object between the shade and the store and never see new_obj.
+    shade_obj_grey(slot);
 }
 
 void write_barrier(void *slot, void *new_obj) {
diff --git a/runtime/processor.c b/runtime/processor.c
index df89e3f..c2f8e51 100644
--- a/runtime/processor.c
+++ b/runtime/processor.c
@@ -31,6 +31,7 @@ int64_t coroutine_count; // coroutine 累计数量
 bool main_coroutine_exited = false;
 
 rt_linked_fixalloc_t global_gc_worklist;
+rt_linked_fixalloc_t global_gc_new_list;
 
 uv_key_t tls_processor_key = {0};
 uv_key_t tls_coroutine_key = {0};
@@ -272,6 +273,7 @@ NO_OPTIMIZE static void coroutine_wrapper() {
     // coroutine 即将退出，避免被 gc 清理，所以将 error保存在 co->future 中?
     if (co->has_error && co->future) {
         union_casting(&co->future->error, throwable_rtype.hash, &co->error); // 将 co error 赋值给 co->future 避免被 gc
+        rt_shade_obj_with_barrier(co->future);
     }
 
     // co->await_co 可能是随时写入的，所以需要 dead_locker 保证同步
@@ -583,6 +585,7 @@ void sched_init(bool use_t0) {
     global_linkco_cache = NULL;
 
     rt_linked_fixalloc_init(&global_gc_worklist);
+    rt_linked_fixalloc_init(&global_gc_new_list);
 
     // - 初始化 processor 和 coroutine 分配器
     fixalloc_init(&coroutine_alloc, sizeof(coroutine_t));
@@ -1035,6 +1038,7 @@ void rt_coroutine_return(void *result_ptr) {
     assert(co->future->size > 0);
 
     memmove(co->future->result, result_ptr, co->future->size);
+    rt_shade_obj_with_barrier(co->future->result); // scan the result again
     DEBUGF("[runtime.rt_coroutine_return] co=%p, result=%p, int_result=%ld, result_size=%ld", co, co->future->result,
            *(int64_t *) co->future->result, co->future->size);
 }
diff --git a/runtime/processor.h b/runtime/processor.h
index 2903299..f45d900 100644
--- a/runtime/processor.h
+++ b/runtime/processor.h
@@ -86,6 +86,9 @@ extern __attribute__((aligned(128))) aligned_page_t global_safepoint;
 // processor gc_finished 后新产生的 shade ptr 会存入到该全局工作队列中，在 gc_mark_done 阶段进行单线程处理
 extern rt_linked_fixalloc_t global_gc_worklist; // 全局 gc worklist
 
+// 写屏障开启期间新分配的 obj，在 gc_mark_done 阶段重新扫描
+extern rt_linked_fixalloc_t global_gc_new_list;
+
 extern fixalloc_t coroutine_alloc;
 extern fixalloc_t processor_alloc;
 extern mutex_t cp_alloc_locker;
diff --git a/runtime/rt_chan.c b/runtime/rt_chan.c
index d36bee0..83a2f99 100644
--- a/runtime/rt_chan.c
+++ b/runtime/rt_chan.c
@@ -250,6 +250,7 @@ bool rt_chan_send(n_chan_t *chan, void *msg_ptr, bool try) {
         void *dst_ptr = buf_next_ref(chan);
 
         memmove(dst_ptr, msg_ptr, chan->msg_size);
+        rt_shade_obj_with_barrier(dst_ptr);
 
         pthread_mutex_unlock(&chan->lock);
         return true;
@@ -317,6 +318,7 @@ static void rt_recv(n_chan_t *chan, linkco_t *linkco, void *msg_ptr, scase *case
         // copy linkco->data to buf tail
         void *dst_ptr = buf_next_ref(chan);
         rt_msg_transmit(linkco->co, linkco->data, dst_ptr, false, chan->msg_size);
+        rt_shade_obj_with_barrier(dst_ptr);
     }
 
     linkco->data = NULL;
@@ -708,6 +710,7 @@ BUFSEND:
     case_success = true;
     void *dst_ptr = buf_next_ref(c);
     memmove(dst_ptr, cas->msg_ptr, c->msg_size);
+    rt_shade_obj_with_barrier(dst_ptr);
     selunlock(cases, lockorder, cases_count);
     goto RETC;
 
-- 
2.43.0


From 93e8a01fa3c36620253cd7157e6c8579a9966a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:42 +0000
Subject: [PATCH 05/55] fix: retry stopping the world after mark instead of
 leaving the round

Returning left the write barrier on and the mark bits of the round set,
so the next round skipped objects it should have scanned.
---
 runtime/collector.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/runtime/collector.c b/runtime/collector.c
index f4f1fc4..46b48cc 100644
--- a/runtime/collector.c
+++ b/runtime/collector.c
@@ -1100,11 +1100,12 @@ void runtime_gc() {
     // STW 之后再更改 GC 阶段
     DEBUGF("[runtime_gc] wait all processor gc work completed, will stop the world and get solo stw locker");
     processor_all_need_stop();
-    if (!processor_all_wait_safe(GC_STW_SWEEP_COUNT)) {
-        DEBUGF("[runtime_gc] wait processor safe sweep timeout, will return")
+    while (!processor_all_wait_safe(GC_STW_SWEEP_COUNT)) {
+        // The mark bits of this round are only valid with the barrier on, so the round cannot be abandoned here.
+        DEBUGF("[runtime_gc] wait processor safe sweep timeout, will retry")
         processor_all_start();
-        gc_stage = GC_STAGE_OFF;
-        return;
+        usleep(WAIT_SHORT_TIME * 1000);
+        processor_all_need_stop();
     }
     DEBUGF("[runtime_gc] all processor safe");
     // -------------- STW start ----------------------------
-- 
2.43.0


From 29c7a999a8b10922a5b3de8ccc50e2713cab547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:54 +0000
Subject: [PATCH 06/55] fix: keep outgoing arguments apart from saved registers
 and the stack aligned

On SysV amd64 the prologue pushed callee-saved registers below the frame.
Stack arguments of calls were then written over the saved values, and an odd
number of saved registers left the stack misaligned by 8 at every call.
Save the registers in the frame space that is already reserved for them.
---
 src/native/amd64.c | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/native/amd64.c b/src/native/amd64.c
index 0a8c791..413fef5 100644
--- a/src/native/amd64.c
+++ b/src/native/amd64.c
@@ -1306,6 +1306,10 @@ static slice_t *amd64_windows_native_fn_begin(closure_t *c, lir_op_t *op) {
     return operations;
 }
 
+static int64_t amd64_sysv_save_offset(closure_t *c, int index) {
+    return align_up(c->call_stack_max_offset, QWORD) + index * QWORD;
+}
+
 static slice_t *amd64_native_fn_begin(closure_t *c, lir_op_t *op) {
     if (BUILD_OS == OS_WINDOWS) {
         return amd64_windows_native_fn_begin(c, op);
@@ -1313,8 +1317,8 @@ static slice_t *amd64_native_fn_begin(closure_t *c, lir_op_t *op) {
 
     slice_t *operations = slice_new();
 
-    int64_t offset = c->stack_offset;
-    offset += c->call_stack_max_offset;
+    int64_t offset = align_up(c->stack_offset, POINTER_SIZE);
+    offset += align_up(c->call_stack_max_offset, QWORD);
 
     // callee-saved 寄存器占用的栈空间
     int64_t callee_saved_size = c->callee_saved->count * QWORD;
@@ -1330,25 +1334,30 @@ static slice_t *amd64_native_fn_begin(closure_t *c, lir_op_t *op) {
         slice_push(operations, AMD64_INST("sub", AMD64_REG(rsp), AMD64_UINT32(offset)));
     }
 
-    // 保存 callee-saved 寄存器
+    // 保存 callee-saved 寄存器, 位于 outgoing args 之上，offset 中已经包含了这部分空间
     for (int i = 0; i < c->callee_saved->count; ++i) {
         // Width-specific aliases can be collected after register allocation;
-        // PUSH always operates on the canonical 64-bit nonvolatile register.
+        // the save slot always holds the canonical 64-bit nonvolatile register.
         reg_t *saved = c->callee_saved->take[i];
         assertf(!amd64_reg_is_float(saved),
                 "SysV AMD64 does not preserve scalar XMM registers");
         reg_t *reg = reg_select(saved->index, TYPE_UINT64);
-        slice_push(operations, AMD64_INST("push", AMD64_REG(reg)));
+        int64_t save_offset = amd64_sysv_save_offset(c, i);
+        slice_push(operations,
+                   AMD64_INST("mov", SIB_REG(rsp, NULL, 0, save_offset, QWORD), AMD64_REG(reg)));
     }
 
-    //    c->stack_offset = offset;
     // gc_bits 补 0
-    if (c->call_stack_max_offset) {
-        uint64_t bits_start = c->stack_offset / POINTER_SIZE;
-        uint64_t bits_count = c->call_stack_max_offset / POINTER_SIZE;
-        for (int i = 0; i < bits_count; ++i) {
-            bitmap_grow_set(c->stack_gc_bits, bits_start + i, 0);
-        }
+    uint64_t bits_start = c->stack_offset / POINTER_SIZE;
+    uint64_t bits_end = offset / POINTER_SIZE;
+    for (uint64_t i = bits_start; i < bits_end; ++i) {
+        bitmap_grow_set(c->stack_gc_bits, i, 0);
+    }
+
+    // save slot 可能是 caller 存活指针的唯一副本, 需要保守扫描
+    for (int i = 0; i < c->callee_saved->count; ++i) {
+        uint64_t bit = (offset - amd64_sysv_save_offset(c, i)) / POINTER_SIZE - 1;
+        bitmap_grow_set(c->stack_gc_bits, bit, 1);
     }
 
     c->stack_offset = offset;
@@ -1401,7 +1410,9 @@ slice_t *amd64_native_return(closure_t *c, lir_op_t *op) {
         assertf(!amd64_reg_is_float(saved),
                 "SysV AMD64 does not preserve scalar XMM registers");
         reg_t *reg = reg_select(saved->index, TYPE_UINT64);
-        slice_push(operations, AMD64_INST("pop", AMD64_REG(reg)));
+        int64_t save_offset = amd64_sysv_save_offset(c, i);
+        slice_push(operations,
+                   AMD64_INST("mov", AMD64_REG(reg), SIB_REG(rsp, NULL, 0, save_offset, QWORD)));
     }
 
     //    slice_push(operations, AMD64_INST("mov", AMD64_REG(rsp), AMD64_REG(rbp)));
-- 
2.43.0


From 2021f5fbc51cddef2f95a6af80770e0e0456765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:54 +0000
Subject: [PATCH 07/55] fix: do not redefine the address of a select receive
 variable

A struct received by a select case lives in stack space whose address was
redefined before use, so the runtime wrote through a garbage pointer.
Give the variable its default value as well, a closed channel does not write it.
---
 src/linear.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/linear.c b/src/linear.c
index 95dd3b1..11125b4 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -1871,7 +1871,14 @@ static void linear_select(module_t *m, ast_select_stmt_t *select_stmt) {
         lir_operand_t *recv_target;
         if (select_case->recv_var) {
             recv_target = linear_var_decl(m, select_case->recv_var);
-            OP_PUSH(lir_op_nop_def(recv_target));
+            type_t recv_type = select_case->recv_var->type;
+            if (has_default_operand(m, recv_type)) {
+                // a closed chan does not write the var
+                linear_default_operand(m, recv_type, recv_target);
+            } else if (recv_type.storage_kind != STORAGE_KIND_IND) {
+                // IND var already defined by stack alloc, must not define it again
+                OP_PUSH(lir_op_nop_def(recv_target));
+            }
         }
 
         // 从 on_call 中提取 chan 参数 mov 到 scase_target 中
-- 
2.43.0


From 55e53b7278de8b930b687538dc76a14dfdbec80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:54 +0000
Subject: [PATCH 08/55] fix: select cases on the same channel, unbound receives
 and is_successful

- wait on the cases in lock order, parking unlocks along that list and unlocked
  a channel twice when another channel stood between two of its cases
- a receive case without a variable has no message pointer
- is_successful() never became true after a case succeeded
---
 runtime/rt_chan.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/runtime/rt_chan.c b/runtime/rt_chan.c
index 83a2f99..2a6c121 100644
--- a/runtime/rt_chan.c
+++ b/runtime/rt_chan.c
@@ -303,16 +303,16 @@ bool rt_chan_send(n_chan_t *chan, void *msg_ptr, bool try) {
 }
 
 static void rt_recv(n_chan_t *chan, linkco_t *linkco, void *msg_ptr, scase *cases, int16_t *lockorder, int16_t norder) {
-    assert(msg_ptr);
+    // msg_ptr is null when a select case does not bind the received value
     if (buf_empty(chan)) {
         DEBUGF("[rt_chan_recv] sendq have, buf empty,  will direct wakeup")
-        rt_msg_transmit(linkco->co, linkco->data, msg_ptr, false, chan->msg_size);
+        if (msg_ptr) {
+            rt_msg_transmit(linkco->co, linkco->data, msg_ptr, false, chan->msg_size);
+        }
     } else {
         assert(buf_full(chan));
 
         // 直接将缓冲区中的数据 pop 到 msg 中，然后将 sendq 中的数据 push 到尾部。
-        assert(msg_ptr);
-
         buf_pop(chan, msg_ptr);
 
         // copy linkco->data to buf tail
@@ -614,7 +614,8 @@ int rt_chan_select(scase *cases, int16_t sends_count, int16_t recvs_count, bool
 
     nextp = &co->waiting;
     for (int16_t i = 0; i < cases_count; i++) {
-        casi = i;
+        // in lock order, selpark_commit unlocks along this list and a chan can appear in several cases
+        casi = lockorder[i];
         cas = &cases[casi];
         c = cas->chan;
 
@@ -666,14 +667,15 @@ int rt_chan_select(scase *cases, int16_t sends_count, int16_t recvs_count, bool
 
     scase *k = NULL;
     for (int16_t i = 0; i < cases_count; i++) {
-        k = &cases[i];
+        int16_t o = lockorder[i];
+        k = &cases[o];
         if (lc == lclist) {
-            casi = i;
+            casi = o;
             cas = k;
             case_success = lclist->success;
         } else {
             c = k->chan;
-            if (i < sends_count) {
+            if (o < sends_count) {
                 waitq_remove(&c->sendq, lclist);
             } else {
                 waitq_remove(&c->recvq, lclist);
@@ -697,17 +699,20 @@ int rt_chan_select(scase *cases, int16_t sends_count, int16_t recvs_count, bool
         }
     }
 
+    c->successful = case_success;
     selunlock(cases, lockorder, cases_count);
     goto RETC;
 
 BUFRECV:
     case_success = true;
+    c->successful = true;
     buf_pop(c, cas->msg_ptr);
     selunlock(cases, lockorder, cases_count);
     goto RETC;
 
 BUFSEND:
     case_success = true;
+    c->successful = true;
     void *dst_ptr = buf_next_ref(c);
     memmove(dst_ptr, cas->msg_ptr, c->msg_size);
     rt_shade_obj_with_barrier(dst_ptr);
@@ -715,25 +720,27 @@ BUFSEND:
     goto RETC;
 
 RECV:
+    c->successful = true;
     rt_recv(c, lc, cas->msg_ptr, cases, lockorder, cases_count);
     case_success = true;
     goto RETC;
 
 RCLOSE:
-    selunlock(cases, lockorder, cases_count);
     case_success = false;
-    cases[casi].chan->successful = false;
+    c->successful = false;
+    selunlock(cases, lockorder, cases_count);
     goto RETC;
 
 SEND:
+    c->successful = true;
     rt_send(c, lc, cas->msg_ptr, cases, lockorder, cases_count);
 
     goto RETC;
 
 SCLOSE:
-    selunlock(cases, lockorder, cases_count);
     case_success = false;
-    cases[casi].chan->successful = false;
+    c->successful = false;
+    selunlock(cases, lockorder, cases_count);
     goto RETC;
 
 RETC:
-- 
2.43.0


From 9069139970f0c9a854d7241d69b1d6224f813cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:31 +0000
Subject: [PATCH 09/55] fix: wake every coroutine that awaits the same future

Only the last waiter was remembered, the others never returned from await.
---
 runtime/processor.c | 11 +++++++++--
 runtime/runtime.h   |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/runtime/processor.c b/runtime/processor.c
index c2f8e51..c47e333 100644
--- a/runtime/processor.c
+++ b/runtime/processor.c
@@ -280,9 +280,14 @@ NO_OPTIMIZE static void coroutine_wrapper() {
     mutex_lock(&co->dead_locker);
     if (co->await_co) {
         coroutine_t *await_co = co->await_co;
+        while (await_co) {
+            coroutine_t *next = await_co->await_next; // await_co may run as soon as it is pushed
+            await_co->await_next = NULL;
 
-        co_set_status(p, await_co, CO_STATUS_RUNNABLE);
-        rt_linked_fixalloc_push(&await_co->p->runnable_list, await_co);
+            co_set_status(p, await_co, CO_STATUS_RUNNABLE);
+            rt_linked_fixalloc_push(&await_co->p->runnable_list, await_co);
+            await_co = next;
+        }
     } else {
         if (co->has_error) {
             coroutine_dump_error(co);
@@ -752,6 +757,7 @@ coroutine_t *rt_coroutine_new(void *fn, int64_t flag, n_future_t *fu, void *arg)
     co->error = (n_interface_t){0};
     co->traces = (n_vec_t){0};
     co->await_co = NULL;
+    co->await_next = NULL;
     co->aco.inited = 0; // 标记为为初始化
 
     return co;
@@ -1058,6 +1064,7 @@ void rt_coroutine_await(coroutine_t *target_co, int64_t co_id) {
         mutex_unlock(&cp_alloc_locker);
         return;
     }
+    src_co->await_next = target_co->await_co;
     target_co->await_co = src_co;
     co_set_status(src_co->p, src_co, CO_STATUS_WAITING);
     mutex_unlock(&target_co->dead_locker);
diff --git a/runtime/runtime.h b/runtime/runtime.h
index b9e4fc8..33a816c 100644
--- a/runtime/runtime.h
+++ b/runtime/runtime.h
@@ -396,6 +396,7 @@ struct coroutine_t {
     n_future_t *future;
 
     struct coroutine_t *await_co; // 可能为 null, 如果不为 null 说明该 co 在等待当前 co exit
+    struct coroutine_t *await_next; // 等待同一个 co exit 的下一个 coroutine
     mutex_t dead_locker;
 
     // 当前 coroutine stack 颜色是否为黑色, 黑色说明当前 goroutine stack 已经扫描完毕
-- 
2.43.0


From f74a24ec2df3747199eb8b9cdd71229734d511e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:25 +0000
Subject: [PATCH 10/55] fix: start sleep timers from the current time

The event loop caches its time. A timer started while the cached time is
old fires early, so co.sleep could return before its duration had passed.
---
 runtime/nutils/coroutine.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/nutils/coroutine.c b/runtime/nutils/coroutine.c
index bd97eed..e89a7b9 100644
--- a/runtime/nutils/coroutine.c
+++ b/runtime/nutils/coroutine.c
@@ -69,6 +69,8 @@ static inline void uv_async_sleep_register(coroutine_t *co, int64_t ms) {
     uv_timer_init(&global_loop, timer);
     timer->data = co;
 
+    // timer 基于 loop 缓存的时间计算，缓存的时间可能早于 sleep 的调用时间
+    uv_update_time(&global_loop);
     uv_timer_start(timer, sleep_timer_cb, ms, 0);
 
     DEBUGF("[runtime.rt_coroutine_sleep] start, co=%p, p_index=%d, timer=%p, timer_value=%lu",
-- 
2.43.0


From ed763529f65a2dea0906242b77afa6a100e59397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:53 +0000
Subject: [PATCH 11/55] fix: ignore SIGPIPE so writing to a closed connection
 is an error

The second write to a TCP connection whose peer has gone raised SIGPIPE
and killed the whole program. Ignore the signal; the write then fails
with EPIPE.
---
 runtime/nutils/rt_signal.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/nutils/rt_signal.h b/runtime/nutils/rt_signal.h
index 5f6b5ef..be14e43 100644
--- a/runtime/nutils/rt_signal.h
+++ b/runtime/nutils/rt_signal.h
@@ -94,6 +94,9 @@ static inline void signal_init() {
             DEBUGF("[runtime.signal_init] cannot install signal %ld handler: %s.\n", all_signals[i], strerror(errno));
         }
     }
+
+    // 写入对端已经关闭的 socket/pipe 应该返回 EPIPE, 而不是终止进程
+    signal(SIGPIPE, SIG_IGN);
 #endif
 }
 
-- 
2.43.0


From 66d4ec5987c42deab41b3fcc0d3d16c3ceeb73ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:53 +0000
Subject: [PATCH 12/55] fix: handle event loop requests in the order they were
 sent

Requests are pushed to the front of the queue and were processed from
the front, so of two requests sent by one coroutine the later could run
first. Closing a server and listening on the same port again could fail
with the address still in use.
---
 runtime/processor.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runtime/processor.c b/runtime/processor.c
index c47e333..fb374de 100644
--- a/runtime/processor.c
+++ b/runtime/processor.c
@@ -1240,6 +1240,16 @@ void global_async_queue_process_cb(uv_async_t *handle) {
     global.async_queue = NULL;
     pthread_mutex_unlock(&global.async_lock);
 
+    // 入队是头插，反转后按照发送顺序处理
+    async_handle_t *ordered = NULL;
+    while (tasks != NULL) {
+        async_handle_t *next = tasks->next;
+        tasks->next = ordered;
+        ordered = tasks;
+        tasks = next;
+    }
+    tasks = ordered;
+
     // 处理所有任务
     while (tasks != NULL) {
         async_handle_t *current = tasks;
-- 
2.43.0


From a8b861e0ce6935fad0274e9f1c4f22ffc80b06b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:35 +0000
Subject: [PATCH 13/55] fix: keep separate state for TCP reads and writes

A connection had one buffer and one waiting coroutine shared by read,
write and close. With one coroutine reading and another writing,
incoming bytes were stored in the writer's buffer, and a close during a
write lost the writer's wakeup.
---
 runtime/nutils/tcp.h | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/runtime/nutils/tcp.h b/runtime/nutils/tcp.h
index 617b86e..307e707 100644
--- a/runtime/nutils/tcp.h
+++ b/runtime/nutils/tcp.h
@@ -16,6 +16,7 @@ typedef struct {
 typedef struct {
     coroutine_t *co;
     coroutine_t *read_co;
+    coroutine_t *write_co;
     int64_t read_len;
     void *data;
     void *server;
@@ -28,7 +29,8 @@ typedef struct {
     uv_connect_t conn_req;
     uv_timer_t timer;
     int ref_count;
-    n_vec_t buf;
+    n_vec_t read_buf;
+    n_vec_t write_buf;
 } inner_conn_t;
 
 typedef struct {
@@ -201,18 +203,18 @@ static inline void on_tcp_write_end_cb(uv_write_t *write_req, int status) {
     if (status < 0) {
         // 对端可能已经关闭了连接,导致写入失败等情况
         char *msg = tlsprintf("uv_write failed: %s", uv_strerror(status));
-        DEBUGF("[on_tcp_write_end_cb] failed: %s, co=%p", msg, conn->co);
+        DEBUGF("[on_tcp_write_end_cb] failed: %s, co=%p", msg, conn->write_co);
     }
 
-    co_ready(conn->co);
-    DEBUGF("[on_tcp_write_end_cb] co=%p ready, status=%d", conn->co, conn->co->status);
+    co_ready(conn->write_co);
+    DEBUGF("[on_tcp_write_end_cb] co=%p ready, status=%d", conn->write_co, conn->write_co->status);
 }
 
 static inline void tcp_alloc_buffer_cb(uv_handle_t *handle, size_t suggested_size, uv_buf_t *buf) {
     inner_conn_t *conn = handle->data;
     DEBUGF("[tcp_alloc_buffer_cb] suggested_size: %ld", suggested_size);
-    buf->base = (void *) conn->buf.data;
-    buf->len = conn->buf.length;
+    buf->base = (void *) conn->read_buf.data;
+    buf->len = conn->read_buf.length;
 }
 
 void uv_async_tcp_read(inner_conn_t *conn) {
@@ -256,7 +258,7 @@ int64_t rt_uv_tcp_read(n_tcp_conn_t *n_conn, n_vec_t buf) {
     conn->ref_count += 1;
 
     conn->handle.data = conn;
-    conn->buf = buf;
+    conn->read_buf = buf;
 
     global_waiting_send(uv_async_tcp_read, conn, 0, 0);
     DEBUGF("[rt_uv_tcp_read] co=%p resume completed, read len: %ld", co, conn->read_len);
@@ -284,16 +286,16 @@ int64_t rt_uv_tcp_read(n_tcp_conn_t *n_conn, n_vec_t buf) {
 
 static void uv_async_tcp_write(inner_conn_t *conn) {
     uv_buf_t write_buf = {
-            .base = (void *) conn->buf.data,
-            .len = conn->buf.length,
+            .base = (void *) conn->write_buf.data,
+            .len = conn->write_buf.length,
     };
     conn->write_req.data = conn;
 
     int result = uv_write(&conn->write_req, (uv_stream_t *) &conn->handle, &write_buf, 1, on_tcp_write_end_cb);
     if (result < 0) {
-        rti_co_throw(conn->co, tlsprintf("tcp write failed: %s", uv_strerror(result)), false);
-        DEBUGF("[rt_uv_tcp_write] co=%p, tcp write failed: %s", conn->co, uv_strerror(result));
-        co_ready(conn->co);
+        rti_co_throw(conn->write_co, tlsprintf("tcp write failed: %s", uv_strerror(result)), false);
+        DEBUGF("[rt_uv_tcp_write] co=%p, tcp write failed: %s", conn->write_co, uv_strerror(result));
+        co_ready(conn->write_co);
     }
 }
 
@@ -305,9 +307,9 @@ int64_t rt_uv_tcp_write(n_tcp_conn_t *n_conn, n_vec_t buf) {
     }
 
     inner_conn_t *conn = n_conn->conn;
-    conn->co = co;
+    conn->write_co = co;
     conn->handle.data = conn;
-    conn->buf = buf;
+    conn->write_buf = buf;
 
     global_waiting_send(uv_async_tcp_write, conn, 0, 0);
 
-- 
2.43.0


From 3138e767aa9a6b90243d5ffc33b2ed03e90388a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:35 +0000
Subject: [PATCH 14/55] fix: report failed TCP writes to the caller

A write that the event loop accepted but could not complete returned the
full length. Throw instead, and keep the connection alive until the
writer has resumed.
---
 runtime/nutils/tcp.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/runtime/nutils/tcp.h b/runtime/nutils/tcp.h
index 307e707..71a15d7 100644
--- a/runtime/nutils/tcp.h
+++ b/runtime/nutils/tcp.h
@@ -202,8 +202,9 @@ static inline void on_tcp_write_end_cb(uv_write_t *write_req, int status) {
     inner_conn_t *conn = write_req->data;
     if (status < 0) {
         // 对端可能已经关闭了连接,导致写入失败等情况
-        char *msg = tlsprintf("uv_write failed: %s", uv_strerror(status));
+        char *msg = tlsprintf("tcp write failed: %s", uv_strerror(status));
         DEBUGF("[on_tcp_write_end_cb] failed: %s, co=%p", msg, conn->write_co);
+        rti_co_throw(conn->write_co, msg, false);
     }
 
     co_ready(conn->write_co);
@@ -285,6 +286,12 @@ int64_t rt_uv_tcp_read(n_tcp_conn_t *n_conn, n_vec_t buf) {
 }
 
 static void uv_async_tcp_write(inner_conn_t *conn) {
+    if (uv_is_closing((uv_handle_t *) &conn->handle)) {
+        rti_co_throw(conn->write_co, "conn closed", false);
+        co_ready(conn->write_co);
+        return;
+    }
+
     uv_buf_t write_buf = {
             .base = (void *) conn->write_buf.data,
             .len = conn->write_buf.length,
@@ -307,15 +314,17 @@ int64_t rt_uv_tcp_write(n_tcp_conn_t *n_conn, n_vec_t buf) {
     }
 
     inner_conn_t *conn = n_conn->conn;
+    conn->ref_count += 1;
     conn->write_co = co;
     conn->handle.data = conn;
     conn->write_buf = buf;
 
     global_waiting_send(uv_async_tcp_write, conn, 0, 0);
 
-    DEBUGF("[rt_uv_tcp_write] co=%p, waiting resume", co)
+    DEBUGF("[rt_uv_tcp_write] co=%p, resume completed", co)
+
+    conn_release(conn);
 
-    // not need yield, return directly
     return buf.length;
 }
 
-- 
2.43.0


From ce282213476e541305f510ac4c8a6fd48857b350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:35 +0000
Subject: [PATCH 15/55] fix: close the socket when a TCP connect fails

A refused or timed out connect left its socket open for the rest of the
program, and a connect that failed immediately never resumed its caller.
---
 runtime/nutils/tcp.h | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/runtime/nutils/tcp.h b/runtime/nutils/tcp.h
index 71a15d7..7b1d96c 100644
--- a/runtime/nutils/tcp.h
+++ b/runtime/nutils/tcp.h
@@ -328,6 +328,20 @@ int64_t rt_uv_tcp_write(n_tcp_conn_t *n_conn, n_vec_t buf) {
     return buf.length;
 }
 
+// The connect failed, the caller never gets the conn, so close it here. The
+// coroutine is resumed directly, it does not wait for the close callbacks.
+static inline void tcp_connect_failed(inner_conn_t *conn, char *msg) {
+    coroutine_t *co = conn->co;
+    conn->co = NULL;
+
+    uv_timer_stop(&conn->timer);
+    uv_close((uv_handle_t *) &conn->handle, on_conn_close_handle_cb);
+    uv_close((uv_handle_t *) &conn->timer, on_conn_close_timer_cb);
+
+    rti_co_throw(co, msg, false);
+    co_ready(co);
+}
+
 static inline void on_tcp_connect_cb(uv_connect_t *conn_req, int status) {
     DEBUGF("[on_tcp_connect_cb] start, status %d", status)
     inner_conn_t *conn = CONTAINER_OF(conn_req, inner_conn_t, conn_req);
@@ -343,7 +357,8 @@ static inline void on_tcp_connect_cb(uv_connect_t *conn_req, int status) {
 
     if (status < 0) {
         DEBUGF("[on_tcp_connect_cb] connection failed: %s", uv_strerror(status));
-        rti_co_throw(conn->co, tlsprintf("connection failed: %s", uv_strerror(status)), false);
+        tcp_connect_failed(conn, tlsprintf("connection failed: %s", uv_strerror(status)));
+        return;
     }
 
     co_ready(conn->co);
@@ -355,11 +370,7 @@ static inline void on_tcp_timeout_cb(uv_timer_t *handle) {
     inner_conn_t *conn = CONTAINER_OF(handle, inner_conn_t, timer);
     conn->timeout = true;
 
-    uv_timer_stop(handle);
-    uv_close((uv_handle_t *) handle, on_conn_close_timer_cb);
-
-    rti_co_throw(conn->co, "connection timeout", 0);
-    co_ready(conn->co);
+    tcp_connect_failed(conn, "connection timeout");
 }
 
 static void uv_async_tcp_connect(inner_conn_t *conn, struct sockaddr_in *dest, n_int64_t timeout_ms) {
@@ -367,10 +378,15 @@ static void uv_async_tcp_connect(inner_conn_t *conn, struct sockaddr_in *dest, n
     uv_tcp_init(&global_loop, &conn->handle);
     uv_timer_init(&global_loop, &conn->timer);
 
-    uv_tcp_connect(&conn->conn_req, &conn->handle, (const struct sockaddr *) dest, on_tcp_connect_cb);
+    int result = uv_tcp_connect(&conn->conn_req, &conn->handle, (const struct sockaddr *) dest, on_tcp_connect_cb);
 
     free(dest);
 
+    if (result < 0) {
+        tcp_connect_failed(conn, tlsprintf("connection failed: %s", uv_strerror(result)));
+        return;
+    }
+
     if (timeout_ms > 0) {
         uv_timer_start(&conn->timer, on_tcp_timeout_cb, timeout_ms, 0); // repeat == 0
     }
-- 
2.43.0


From 74575b1485d8cf2cfdd9934b79a7976abe067129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:14 +0000
Subject: [PATCH 16/55] fix: resume the caller when a TCP listen fails

Listening on a port already in use blocked its caller forever, because
the coroutine was never made ready, and a failed bind was ignored. Throw
and close the socket.
---
 runtime/nutils/tcp.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/runtime/nutils/tcp.h b/runtime/nutils/tcp.h
index 7b1d96c..dbc6af1 100644
--- a/runtime/nutils/tcp.h
+++ b/runtime/nutils/tcp.h
@@ -537,12 +537,17 @@ static void uv_async_tcp_listen(n_tcp_server_t *server) {
 
     struct sockaddr_in addr;
     uv_ip4_addr(rt_string_ref(&server->ip), (int) server->port, &addr);
-    uv_tcp_bind(&server->inner->handle, (const struct sockaddr *) &addr, 0);
-
-    int result = uv_listen((uv_stream_t *) &server->inner->handle, DEFAULT_BACKLOG, on_tcp_conn_cb);
+    int result = uv_tcp_bind(&server->inner->handle, (const struct sockaddr *) &addr, 0);
+    if (result == 0) {
+        result = uv_listen((uv_stream_t *) &server->inner->handle, DEFAULT_BACKLOG, on_tcp_conn_cb);
+    }
     if (result) {
         // 端口占用等错误
-        rti_co_throw(server->inner->listen_co, tlsprintf("listen failed: %s", uv_strerror(result)), false);
+        coroutine_t *co = server->inner->listen_co;
+        server->closed = true;
+        uv_close((uv_handle_t *) &server->inner->handle, on_tcp_close_cb);
+        rti_co_throw(co, tlsprintf("listen failed: %s", uv_strerror(result)), false);
+        co_ready(co);
         return;
     }
 
-- 
2.43.0


From 8151ab330d31d7654adfc07e59bd13ea31b2cfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:14 +0000
Subject: [PATCH 17/55] fix: drop the per-server pool of TCP connections

The pool was filled by the listening coroutine while the event loop was
already taking entries from it, was returned to from any thread without
a lock, and was used by live connections after the server had closed and
freed it. Allocate each connection instead. Also close both handles of a
connection whose accept failed.
---
 runtime/nutils/tcp.h | 83 +++++---------------------------------------
 1 file changed, 8 insertions(+), 75 deletions(-)

diff --git a/runtime/nutils/tcp.h b/runtime/nutils/tcp.h
index dbc6af1..7bab379 100644
--- a/runtime/nutils/tcp.h
+++ b/runtime/nutils/tcp.h
@@ -6,20 +6,12 @@
 
 #define DEFAULT_BACKLOG 4096
 
-#define FREELIST_MAX 10000
-#define FREELIST_MIN 1000
-
-typedef struct {
-    void *next;
-} freenode_t;
-
 typedef struct {
     coroutine_t *co;
     coroutine_t *read_co;
     coroutine_t *write_co;
     int64_t read_len;
     void *data;
-    void *server;
     bool timeout; // 是否触发了 timeout
     bool read_waiting;
     bool read_started;
@@ -45,8 +37,6 @@ typedef struct {
 
     pthread_mutex_t accept_locker;
 
-    freenode_t *freelist;
-    int count;
     int accept_waiters;
 } inner_server_t;
 
@@ -65,57 +55,6 @@ typedef struct {
 } n_tcp_conn_t;
 
 
-#define FREELIST_MAX 10000
-#define FREELIST_MIN 1000
-
-static inner_conn_t *acquire_conn(inner_server_t *inner) {
-    if (inner->count > 0) {
-        freenode_t *node = inner->freelist;
-        inner->freelist = node->next;
-        node->next = NULL;
-        inner->count--;
-        return (inner_conn_t *) node;
-    }
-
-    return mallocz(sizeof(inner_conn_t));
-}
-
-static void release_conn(inner_server_t *inner, inner_conn_t *conn) {
-    if (inner->count > FREELIST_MAX) {
-        free(conn);
-        return;
-    }
-
-    memset(conn, 0, sizeof(inner_conn_t));
-
-    freenode_t *node = (freenode_t *) conn;
-    node->next = inner->freelist;
-    inner->freelist = node;
-    inner->count++;
-}
-
-static void init_conn(inner_server_t *inner) {
-    for (int i = 0; i < FREELIST_MIN; ++i) {
-        freenode_t *node = mallocz(sizeof(inner_conn_t));
-
-        node->next = inner->freelist;
-        inner->freelist = node;
-        inner->count += 1;
-    }
-}
-
-static void free_conn(inner_server_t *inner) {
-    while (inner->freelist) {
-        freenode_t *node = inner->freelist;
-        inner->freelist = node->next;
-        inner->count -= 1;
-        free(node);
-    }
-
-    free(inner);
-}
-
-
 static inline void conn_release(inner_conn_t *conn) {
     conn->ref_count -= 1;
     if (conn->ref_count == 0) {
@@ -123,11 +62,7 @@ static inline void conn_release(inner_conn_t *conn) {
             co_ready(conn->co);
         }
 
-        if (conn->server) {
-            release_conn(conn->server, conn);
-        } else {
-            free(conn);
-        }
+        free(conn);
 
         DEBUGF("[conn_release] ref count = 0, freed")
     } else {
@@ -151,7 +86,7 @@ static inline void on_tcp_close_cb(uv_handle_t *handle) {
     // the close callback and released its waiter reference.
     handle->data = NULL;
     if (inner->accept_waiters == 0) {
-        free_conn(inner);
+        free(inner);
     }
 }
 
@@ -449,7 +384,7 @@ void rt_uv_tcp_accept(n_tcp_server_t *server, n_tcp_conn_t *n_conn) {
             }
             inner_server->accept_waiters -= 1;
             if (inner_server->accept_waiters == 0) {
-                free_conn(inner_server);
+                free(inner_server);
             }
             rti_co_throw(co, "server closed", false);
             return;
@@ -474,7 +409,6 @@ void rt_uv_tcp_accept(n_tcp_server_t *server, n_tcp_conn_t *n_conn) {
         break;
     }
 
-    conn->ref_count = 2;
     n_conn->conn = conn;
     // accept success, can read
     DEBUGF("[rt_uv_tcp_accept] accept success, inner_conn=%p, co=%p", conn, co);
@@ -482,23 +416,23 @@ void rt_uv_tcp_accept(n_tcp_server_t *server, n_tcp_conn_t *n_conn) {
 
 void on_tcp_conn_cb(uv_stream_t *handle, int status) {
     inner_server_t *inner_server = handle->data;
-    inner_conn_t *conn = acquire_conn(inner_server);
 
-    DEBUGF("[on_new_conn_cb] status: %d, co=%p", status, conn->co);
+    DEBUGF("[on_new_conn_cb] status: %d", status);
     if (status < 0) {
         DEBUGF("[on_new_conn_cb] new connection error: %s", uv_strerror(status));
         return;
     }
 
-    conn->server = inner_server;
+    inner_conn_t *conn = mallocz(sizeof(inner_conn_t));
+    conn->ref_count = 2;
 
     uv_tcp_init(handle->loop, &conn->handle);
     uv_timer_init(handle->loop, &conn->timer);
 
     int result = uv_accept((uv_stream_t *) &inner_server->handle, (uv_stream_t *) &conn->handle);
     if (result < 0) {
-        uv_close((uv_handle_t *) &conn->handle, NULL);
-        release_conn(inner_server, conn);
+        uv_close((uv_handle_t *) &conn->handle, on_conn_close_handle_cb);
+        uv_close((uv_handle_t *) &conn->timer, on_conn_close_timer_cb);
         return;
     } else {
         pthread_mutex_lock(&inner_server->accept_locker);
@@ -568,7 +502,6 @@ void rt_uv_tcp_listen(n_tcp_server_t *server) {
 
     global_waiting_send(uv_async_tcp_listen, server, 0, 0);
 
-    init_conn(server->inner);
     DEBUGF("[rt_uv_tcp_listen] listen success, will return")
 }
 
-- 
2.43.0


From 8aecc8e64feaa3c8c36013145746b528685345ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:14 +0000
Subject: [PATCH 18/55] fix: guard TCP closed flags and reference counts with a
 lock

Reads, writes, accepts and closes of one connection or server run on
different threads, but checked the closed flag and changed the reference
count without synchronisation. Two lost updates could free a connection
that was still in use or leak it.
---
 runtime/nutils/tcp.h | 68 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 53 insertions(+), 15 deletions(-)

diff --git a/runtime/nutils/tcp.h b/runtime/nutils/tcp.h
index 7bab379..c4a2c20 100644
--- a/runtime/nutils/tcp.h
+++ b/runtime/nutils/tcp.h
@@ -55,9 +55,27 @@ typedef struct {
 } n_tcp_conn_t;
 
 
+// protects closed flags and reference counts
+static pthread_mutex_t tcp_locker = PTHREAD_MUTEX_INITIALIZER;
+
+// return NULL if conn closed
+static inline inner_conn_t *conn_hold(n_tcp_conn_t *n_conn) {
+    inner_conn_t *conn = NULL;
+    pthread_mutex_lock(&tcp_locker);
+    if (!n_conn->closed) {
+        conn = n_conn->conn;
+        conn->ref_count += 1;
+    }
+    pthread_mutex_unlock(&tcp_locker);
+    return conn;
+}
+
 static inline void conn_release(inner_conn_t *conn) {
+    pthread_mutex_lock(&tcp_locker);
     conn->ref_count -= 1;
-    if (conn->ref_count == 0) {
+    int ref_count = conn->ref_count;
+    pthread_mutex_unlock(&tcp_locker);
+    if (ref_count == 0) {
         if (conn->co) {
             co_ready(conn->co);
         }
@@ -66,7 +84,7 @@ static inline void conn_release(inner_conn_t *conn) {
 
         DEBUGF("[conn_release] ref count = 0, freed")
     } else {
-        DEBUGF("[conn_release] ref count = %d, skip", conn->ref_count);
+        DEBUGF("[conn_release] ref count = %d, skip", ref_count);
     }
 }
 
@@ -84,8 +102,11 @@ static inline void on_tcp_close_cb(uv_handle_t *handle) {
     inner_server_t *inner = handle->data;
     // Keep the listener state alive until every blocked accept has observed
     // the close callback and released its waiter reference.
+    pthread_mutex_lock(&tcp_locker);
     handle->data = NULL;
-    if (inner->accept_waiters == 0) {
+    bool last = inner->accept_waiters == 0;
+    pthread_mutex_unlock(&tcp_locker);
+    if (last) {
         free(inner);
     }
 }
@@ -181,18 +202,16 @@ void uv_async_tcp_read(inner_conn_t *conn) {
 // read once
 int64_t rt_uv_tcp_read(n_tcp_conn_t *n_conn, n_vec_t buf) {
     coroutine_t *co = coroutine_get();
-    if (n_conn->closed) {
+    inner_conn_t *conn = conn_hold(n_conn);
+    if (!conn) {
         rti_co_throw(co, "conn closed", false);
         return 0;
     }
 
-    inner_conn_t *conn = n_conn->conn;
     conn->read_co = co;
     conn->read_waiting = true;
     conn->read_started = false;
     conn->read_timeout_ms = n_conn->read_timeout_ms;
-    conn->ref_count += 1;
-
     conn->handle.data = conn;
     conn->read_buf = buf;
 
@@ -243,13 +262,12 @@ static void uv_async_tcp_write(inner_conn_t *conn) {
 
 int64_t rt_uv_tcp_write(n_tcp_conn_t *n_conn, n_vec_t buf) {
     coroutine_t *co = coroutine_get();
-    if (n_conn->closed) {
+    inner_conn_t *conn = conn_hold(n_conn);
+    if (!conn) {
         rti_co_throw(co, "conn closed", false);
         return 0;
     }
 
-    inner_conn_t *conn = n_conn->conn;
-    conn->ref_count += 1;
     conn->write_co = co;
     conn->handle.data = conn;
     conn->write_buf = buf;
@@ -368,22 +386,29 @@ void rt_uv_tcp_accept(n_tcp_server_t *server, n_tcp_conn_t *n_conn) {
     coroutine_t *co = coroutine_get();
     DEBUGF("[rt_uv_tcp_accept] accept start, co=%p", co)
 
+    pthread_mutex_lock(&tcp_locker);
     if (server->closed) {
+        pthread_mutex_unlock(&tcp_locker);
         rti_co_throw(co, "server closed", false);
         return;
     }
     inner_server_t *inner_server = server->inner;
     inner_server->accept_waiters += 1;
+    pthread_mutex_unlock(&tcp_locker);
     inner_conn_t *conn = NULL;
 
     while (true) {
         if (server->closed) {
+            pthread_mutex_lock(&tcp_locker);
             if (inner_server->handle.data != NULL) {
+                pthread_mutex_unlock(&tcp_locker);
                 rt_coroutine_sleep(1);
                 continue;
             }
             inner_server->accept_waiters -= 1;
-            if (inner_server->accept_waiters == 0) {
+            bool last = inner_server->accept_waiters == 0;
+            pthread_mutex_unlock(&tcp_locker);
+            if (last) {
                 free(inner_server);
             }
             rti_co_throw(co, "server closed", false);
@@ -405,7 +430,14 @@ void rt_uv_tcp_accept(n_tcp_server_t *server, n_tcp_conn_t *n_conn) {
         pthread_mutex_unlock(&inner_server->accept_locker);
 
         conn->handle.data = conn;
+
+        pthread_mutex_lock(&tcp_locker);
         inner_server->accept_waiters -= 1;
+        bool last = inner_server->accept_waiters == 0 && inner_server->handle.data == NULL;
+        pthread_mutex_unlock(&tcp_locker);
+        if (last) {
+            free(inner_server);
+        }
         break;
     }
 
@@ -510,11 +542,14 @@ void uv_async_server_close(n_tcp_server_t *server) {
 }
 
 void rt_uv_tcp_server_close(n_tcp_server_t *server) {
-    if (server->closed) {
+    pthread_mutex_lock(&tcp_locker);
+    bool closed = server->closed;
+    server->closed = true;
+    pthread_mutex_unlock(&tcp_locker);
+    if (closed) {
         return;
     }
 
-    server->closed = true;
     global_async_send(uv_async_server_close, server, NULL, NULL);
 }
 
@@ -539,11 +574,14 @@ void uv_async_conn_close(inner_conn_t *conn) {
 
 void rt_uv_tcp_conn_close(n_tcp_conn_t *n_conn) {
     DEBUGF("[rt_uv_tcp_conn_close] start")
-    if (n_conn->closed) {
+    pthread_mutex_lock(&tcp_locker);
+    bool closed = n_conn->closed;
+    n_conn->closed = true;
+    pthread_mutex_unlock(&tcp_locker);
+    if (closed) {
         return;
     }
 
-    n_conn->closed = true;
     inner_conn_t *conn = n_conn->conn;
     coroutine_t *co = coroutine_get();
     conn->co = co;
-- 
2.43.0


From 768bce1d4c3d4da5dc56901b9b500f56be7f665e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:14 +0000
Subject: [PATCH 19/55] fix: close unaccepted connections when a TCP server
 closes

Connections that were established but not yet accepted stayed open
forever after the server closed, so their clients never saw the end of
the stream. The close request also kept the only reference to the server
object in memory the collector does not scan; pass the native part.
---
 runtime/nutils/tcp.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/runtime/nutils/tcp.h b/runtime/nutils/tcp.h
index c4a2c20..b3b089a 100644
--- a/runtime/nutils/tcp.h
+++ b/runtime/nutils/tcp.h
@@ -100,6 +100,19 @@ static inline void on_conn_close_timer_cb(uv_handle_t *handle) {
 
 static inline void on_tcp_close_cb(uv_handle_t *handle) {
     inner_server_t *inner = handle->data;
+
+    // Nobody can accept these any more
+    pthread_mutex_lock(&inner->accept_locker);
+    inner_conn_t *conn = inner->accept_head;
+    inner->accept_head = NULL;
+    pthread_mutex_unlock(&inner->accept_locker);
+    while (conn) {
+        inner_conn_t *next = conn->data;
+        uv_close((uv_handle_t *) &conn->handle, on_conn_close_handle_cb);
+        uv_close((uv_handle_t *) &conn->timer, on_conn_close_timer_cb);
+        conn = next;
+    }
+
     // Keep the listener state alive until every blocked accept has observed
     // the close callback and released its waiter reference.
     pthread_mutex_lock(&tcp_locker);
@@ -537,8 +550,8 @@ void rt_uv_tcp_listen(n_tcp_server_t *server) {
     DEBUGF("[rt_uv_tcp_listen] listen success, will return")
 }
 
-void uv_async_server_close(n_tcp_server_t *server) {
-    uv_close((uv_handle_t *) &server->inner->handle, on_tcp_close_cb);
+void uv_async_server_close(inner_server_t *inner) {
+    uv_close((uv_handle_t *) &inner->handle, on_tcp_close_cb);
 }
 
 void rt_uv_tcp_server_close(n_tcp_server_t *server) {
@@ -550,7 +563,8 @@ void rt_uv_tcp_server_close(n_tcp_server_t *server) {
         return;
     }
 
-    global_async_send(uv_async_server_close, server, NULL, NULL);
+    // server 是 gc 对象，异步队列中只能保存 inner
+    global_async_send(uv_async_server_close, server->inner, NULL, NULL);
 }
 
 void uv_async_conn_close(inner_conn_t *conn) {
-- 
2.43.0


From 9338304d7e1c77ea6a568fc68eec383498807a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:14 +0000
Subject: [PATCH 20/55] fix: do not end a TCP read that found no data

The event loop reports a read that would block with a length of zero.
The waiting coroutine was resumed with zero bytes and no error.
---
 runtime/nutils/tcp.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/nutils/tcp.h b/runtime/nutils/tcp.h
index b3b089a..7993c3a 100644
--- a/runtime/nutils/tcp.h
+++ b/runtime/nutils/tcp.h
@@ -128,7 +128,8 @@ static inline void on_tcp_read_cb(uv_stream_t *client_handle, ssize_t nread, con
     inner_conn_t *conn = client_handle->data;
     DEBUGF("[on_tcp_read_cb] client: %p, nread: %ld, co: %p", client_handle, nread, conn->co);
 
-    if (!conn->read_waiting) {
+    // nread == 0 等价于 EAGAIN, 不表示 EOF
+    if (!conn->read_waiting || nread == 0) {
         return;
     }
 
-- 
2.43.0


From b1de93a33da0c6d33b26bda41987a9e0437a2ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:59 +0000
Subject: [PATCH 21/55] fix: allow the write barrier outside of a coroutine

Event loop callbacks report failures by throwing in the waiting
coroutine. During a collection that went through the write barrier,
which read the current coroutine, and there is none on the event loop:
a connect, listen or bind that failed at that moment crashed the
program.
---
 runtime/nutils/nutils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/nutils/nutils.c b/runtime/nutils/nutils.c
index 87deaf9..7b4371b 100644
--- a/runtime/nutils/nutils.c
+++ b/runtime/nutils/nutils.c
@@ -878,8 +878,9 @@ void rti_write_barrier_ptr(void *slot, void *new_obj, bool mark_black_new_obj) {
     }
 
     // stack 扫描完成后退化成黑色写屏障, 否则是是灰色写屏障
+    // event loop 的回调中(例如 rti_co_throw)没有当前 coroutine
     coroutine_t *co = coroutine_get();
-    bool is_grey = co->gc_black < memory->gc_count;
+    bool is_grey = !co || co->gc_black < memory->gc_count;
     DEBUGF("[runtime_gc.rt_write_barrier_ptr] slot: %p, new_obj: %p, gc_barrier is true, gc_black %d", slot, new_obj,
            is_grey);
 
-- 
2.43.0


From fd7b34662eba8efd0a1e4606e8df3bdfed5f474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:48 +0000
Subject: [PATCH 22/55] fix: close a UDP socket once and end its blocked
 receives

Closing from another coroutine than the one that bound the socket woke
the wrong coroutine, two concurrent closes aborted the program, and a
receive blocked in the socket kept polling the closed descriptor, which
may already belong to another file. Mark the socket closed under a lock
that sends and receives hold while they use the descriptor.
---
 runtime/nutils/udp.h | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/runtime/nutils/udp.h b/runtime/nutils/udp.h
index 8cf4d49..3d412bc 100644
--- a/runtime/nutils/udp.h
+++ b/runtime/nutils/udp.h
@@ -37,6 +37,9 @@ typedef struct {
     n_udp_addr_t remote_addr;
 } n_udp_conn_t;
 
+// The socket descriptor and handle may only be used while closed is false
+static pthread_mutex_t udp_locker = PTHREAD_MUTEX_INITIALIZER;
+
 int64_t rt_uv_udp_recvfrom(n_udp_socket_t *s, n_vec_t buf, n_udp_addr_t *addr) {
     DEBUGF("[rt_uv_udp_recvfrom] start")
     coroutine_t *co = coroutine_get();
@@ -49,14 +52,24 @@ int64_t rt_uv_udp_recvfrom(n_udp_socket_t *s, n_vec_t buf, n_udp_addr_t *addr) {
 #endif
 
     while (true) {
+        pthread_mutex_lock(&udp_locker);
+        if (s->closed) {
+            pthread_mutex_unlock(&udp_locker);
+            rti_co_throw(co, "socket closed", false);
+            return 0;
+        }
+
         // 直接调用 recvfrom（非阻塞）
 #ifdef __WINDOWS
         int nread = recvfrom((SOCKET) s->fd, (char *) buf.data, (int) buf.length, 0,
                              (struct sockaddr *) &src_addr, &addr_len);
+        int socket_error = WSAGetLastError();
 #else
         ssize_t nread = recvfrom((int) s->fd, buf.data, buf.length, 0,
                                  (struct sockaddr *) &src_addr, &addr_len);
+        int recv_errno = errno;
 #endif
+        pthread_mutex_unlock(&udp_locker);
 
         if (nread >= 0) {
             struct sockaddr *caddr = (struct sockaddr *) &src_addr;
@@ -90,7 +103,6 @@ int64_t rt_uv_udp_recvfrom(n_udp_socket_t *s, n_vec_t buf, n_udp_addr_t *addr) {
 
         // 处理错误
 #ifdef __WINDOWS
-        int socket_error = WSAGetLastError();
         if (socket_error == WSAEINTR) {
             continue;
         }
@@ -104,11 +116,11 @@ int64_t rt_uv_udp_recvfrom(n_udp_socket_t *s, n_vec_t buf, n_udp_addr_t *addr) {
         rti_co_throw(co, tlsprintf("udp recv failed: %s", uv_strerror(uv_translate_sys_error(socket_error))), false);
         return 0;
 #else
-        if (errno == EINTR) {
+        if (recv_errno == EINTR) {
             continue; // 被信号中断，重试
         }
 
-        if (errno == EAGAIN || errno == EWOULDBLOCK) {
+        if (recv_errno == EAGAIN || recv_errno == EWOULDBLOCK) {
             // 没有数据，让出 CPU 等待（类似 Go 的 waitRead）
             DEBUGF("[rt_uv_udp_recvfrom] EAGAIN, coroutine yield");
 
@@ -119,7 +131,7 @@ int64_t rt_uv_udp_recvfrom(n_udp_socket_t *s, n_vec_t buf, n_udp_addr_t *addr) {
         }
 
         // 其他错误
-        rti_co_throw(co, tlsprintf("udp recv failed: %s", strerror(errno)), false);
+        rti_co_throw(co, tlsprintf("udp recv failed: %s", strerror(recv_errno)), false);
         return 0;
 #endif
     }
@@ -129,10 +141,6 @@ int64_t rt_uv_udp_recvfrom(n_udp_socket_t *s, n_vec_t buf, n_udp_addr_t *addr) {
 int64_t rt_uv_udp_sendto(n_udp_socket_t *s, n_vec_t buf, n_udp_addr_t udp_addr) {
     coroutine_t *co = coroutine_get();
     DEBUGF("[rt_uv_udp_sendto] start")
-    if (s->closed) {
-        rti_co_throw(co, "socket closed", false);
-        return 0;
-    }
 
     struct sockaddr_in addr = {0};
     if (s->addr.v4) {
@@ -145,8 +153,16 @@ int64_t rt_uv_udp_sendto(n_udp_socket_t *s, n_vec_t buf, n_udp_addr_t udp_addr)
     };
 
     while (true) {
+        pthread_mutex_lock(&udp_locker);
+        if (s->closed) {
+            pthread_mutex_unlock(&udp_locker);
+            rti_co_throw(co, "socket closed", false);
+            return 0;
+        }
+
         uv_buf_t write_buf = uv_buf_init((void *) buf.data, buf.length);
         int length = uv_udp_try_send(s->handle, &write_buf, 1, (const struct sockaddr *) &addr);
+        pthread_mutex_unlock(&udp_locker);
         if (length < 0) {
             DEBUGF("uv udp try send failed: %s", uv_strerror(length));
             if (length == UV_EAGAIN) {
@@ -175,13 +191,17 @@ static void uv_async_udp_close(n_udp_socket_t *s) {
 }
 
 void rt_uv_udp_close(n_udp_socket_t *s) {
-    if (s->closed) {
+    pthread_mutex_lock(&udp_locker);
+    bool closed = s->closed;
+    s->closed = true;
+    pthread_mutex_unlock(&udp_locker);
+    if (closed) {
         return;
     }
 
+    s->co = coroutine_get();
     global_waiting_send(uv_async_udp_close, s, 0, 0);
 
-    s->closed = true;
     DEBUGF("[rt_uv_udp_close] close success, handle_count=%ld", global.async_handle_count)
 }
 
-- 
2.43.0


From 5192a596455259cfbb68765bc95e4750375ed739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:48 +0000
Subject: [PATCH 23/55] fix: close the socket when a UDP bind fails

A failed bind threw but left the socket open for the rest of the
program.
---
 runtime/nutils/udp.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runtime/nutils/udp.h b/runtime/nutils/udp.h
index 3d412bc..e889cdc 100644
--- a/runtime/nutils/udp.h
+++ b/runtime/nutils/udp.h
@@ -205,6 +205,10 @@ void rt_uv_udp_close(n_udp_socket_t *s) {
     DEBUGF("[rt_uv_udp_close] close success, handle_count=%ld", global.async_handle_count)
 }
 
+static inline void on_udp_bind_failed_cb(uv_handle_t *handle) {
+    free(handle);
+}
+
 static void uv_async_udp_bind(n_udp_socket_t *s) {
     DEBUGF("[uv_async_udp_bind] start, co %p", s->co)
     uv_udp_init_ex(&global_loop, s->handle, AF_UNSPEC | UV_UDP_RECVMMSG);
@@ -224,12 +228,18 @@ static void uv_async_udp_bind(n_udp_socket_t *s) {
     if (result) {
         DEBUGF("[uv_async_udp_bind] bind failed: %s", uv_strerror(result));
         rti_co_throw(s->co, tlsprintf("udp bind failed: %s", uv_strerror(result)), false);
+        s->closed = true;
+        uv_close((uv_handle_t *) s->handle, on_udp_bind_failed_cb);
+        co_ready(s->co);
+        return;
     }
 
     uv_os_fd_t os_fd;
     int fileno_result = uv_fileno((uv_handle_t *) s->handle, &os_fd);
     if (fileno_result < 0) {
         rti_co_throw(s->co, tlsprintf("udp fileno failed: %s", uv_strerror(fileno_result)), false);
+        s->closed = true;
+        uv_close((uv_handle_t *) s->handle, on_udp_bind_failed_cb);
         co_ready(s->co);
         return;
     }
-- 
2.43.0


From 825828f380f329b4d10cc3cbd8e43ef893341abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:31:52 +0000
Subject: [PATCH 24/55] fix: parse HTTP requests that arrive in several pieces

The server kept pointers to the last fragment of the URL, of each header
and of the body, into a buffer that later reads move. A request that
arrived in more than one read, or with a chunked body, was handled with
wrong or freed data. Detect the end of the request first, then parse it
from the complete buffer, and stop after the first request.
---
 runtime/nutils/http.c | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/runtime/nutils/http.c b/runtime/nutils/http.c
index f04dd82..dc61f38 100644
--- a/runtime/nutils/http.c
+++ b/runtime/nutils/http.c
@@ -164,6 +164,14 @@ static inline void async_conn_write_handle_cb(uv_async_t *handle) {
     }
 }
 
+static int http_parser_on_url_cb(llhttp_t *parser, const char *at, size_t length);
+
+static int http_parser_on_header_field_cb(llhttp_t *parser, const char *at, size_t length);
+
+static int http_parser_on_header_value_cb(llhttp_t *parser, const char *at, size_t length);
+
+static int http_parser_on_body_cb(llhttp_t *parser, const char *at, size_t length);
+
 static inline void on_read_cb(uv_stream_t *handle, ssize_t nread, const uv_buf_t *buf) {
     DEBUGF("[on_read_cb] client: %p, nread: %ld", handle, nread);
     http_conn_t *conn = CONTAINER_OF(handle, http_conn_t, handle);
@@ -185,8 +193,9 @@ static inline void on_read_cb(uv_stream_t *handle, ssize_t nread, const uv_buf_t
         return;
     }
 
+    // 请求可能分多次到达，先只判断请求是否完整
     enum llhttp_errno err = llhttp_execute(&conn->parser, buf->base, nread);
-    if (err != HPE_OK) {
+    if (err != HPE_OK && err != HPE_PAUSED) {
         DEBUGF("[on_read_cb] llhttp_execute failed: %s", llhttp_errno_name(err));
         // 解析错误
         http_conn_close(conn);
@@ -201,6 +210,19 @@ static inline void on_read_cb(uv_stream_t *handle, ssize_t nread, const uv_buf_t
 
     uv_read_stop(handle);
 
+    // 请求已经完整并且连续的存储在 buf 中，再解析出 url/header/body
+    conn->settings.on_url = http_parser_on_url_cb;
+    conn->settings.on_header_field = http_parser_on_header_field_cb;
+    conn->settings.on_header_value = http_parser_on_header_value_cb;
+    conn->settings.on_body = http_parser_on_body_cb;
+    llhttp_init(&conn->parser, HTTP_REQUEST, &conn->settings);
+    err = llhttp_execute(&conn->parser, conn->read_buf ? conn->read_buf : conn->default_buf, conn->read_buf_len);
+    if (err != HPE_PAUSED) {
+        DEBUGF("[on_read_cb] llhttp_execute failed: %s", llhttp_errno_name(err));
+        http_conn_close(conn);
+        return;
+    }
+
     conn->n_server->inner->coroutine_count += 1;
     coroutine_t *conn_co = rt_coroutine_new(conn->n_server->handler, 0, NULL, conn);
     rt_coroutine_dispatch(conn_co);
@@ -270,8 +292,13 @@ static int http_parser_on_header_value_cb(llhttp_t *parser, const char *at, size
 
 static int http_parser_on_body_cb(llhttp_t *parser, const char *at, size_t length) {
     http_conn_t *conn = CONTAINER_OF(parser, http_conn_t, parser);
-    conn->body_at = at;
-    conn->body_len = length;
+    if (conn->body_len == 0) {
+        conn->body_at = at;
+    } else {
+        // chunked body, 合并成连续的空间
+        memmove((char *) conn->body_at + conn->body_len, at, length);
+    }
+    conn->body_len += length;
     return 0;
 }
 
@@ -279,7 +306,8 @@ static int http_parser_on_message_complete_cb(llhttp_t *parser) {
     http_conn_t *conn = CONTAINER_OF(parser, http_conn_t, parser);
     conn->parser_completed = 1;
     conn->method = llhttp_get_method(parser);
-    return 0;
+    // 只处理第一个请求
+    return HPE_PAUSED;
 }
 
 /**
@@ -305,10 +333,6 @@ static void on_http_conn_cb(uv_stream_t *server, int status) {
     conn->create_time = uv_hrtime();
     conn->n_server = inner->server;
     llhttp_settings_init(&conn->settings);
-    conn->settings.on_url = http_parser_on_url_cb;
-    conn->settings.on_header_field = http_parser_on_header_field_cb;
-    conn->settings.on_header_value = http_parser_on_header_value_cb;
-    conn->settings.on_body = http_parser_on_body_cb;
     conn->settings.on_message_complete = http_parser_on_message_complete_cb;
     uv_async_init(&global_loop, &conn->async_write_handle, async_conn_write_handle_cb);
     llhttp_init(&conn->parser, HTTP_REQUEST, &conn->settings);
-- 
2.43.0


From 2bd793ae90d19d38ea8c946bbbe6e8a70cfe4a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:31:52 +0000
Subject: [PATCH 25/55] fix: refuse HTTP requests with more headers than the
 server stores

Headers beyond the limit were written past the end of the array.
---
 runtime/nutils/http.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/nutils/http.c b/runtime/nutils/http.c
index dc61f38..fe6ab9e 100644
--- a/runtime/nutils/http.c
+++ b/runtime/nutils/http.c
@@ -266,6 +266,10 @@ static int http_parser_on_url_cb(llhttp_t *parser, const char *at, size_t length
 
 static int http_parser_on_header_field_cb(llhttp_t *parser, const char *at, size_t length) {
     http_conn_t *conn = CONTAINER_OF(parser, http_conn_t, parser);
+    if (conn->headers_len >= HTTP_PARSER_HEADER_LIMIT) {
+        return -1;
+    }
+
     conn->headers[conn->headers_len].name_at = at;
     conn->headers[conn->headers_len].name_len = length;
 
-- 
2.43.0


From 698bba93e4080ed2047f688876cc8b3d4141db3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:11 +0000
Subject: [PATCH 26/55] fix: keep HTTP server state until its connections have
 ended

Closing a server freed the state that its open connections still used,
and returned from listen while handlers were still running, so that the
server object could be collected under them. Free the state with the
last connection, return from listen after the last running handler, and
allow close to be called more than once.
---
 runtime/nutils/http.c | 60 +++++++++++++++++++++++++++++++------------
 runtime/nutils/http.h |  4 +++
 2 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/runtime/nutils/http.c b/runtime/nutils/http.c
index fe6ab9e..32f688e 100644
--- a/runtime/nutils/http.c
+++ b/runtime/nutils/http.c
@@ -65,11 +65,26 @@ static void free_conn(inner_http_server_t *inner) {
     free(inner);
 }
 
+// server 关闭后，正在执行的 handler 依旧需要使用 server, 已经建立的 conn 依旧需要使用 inner
+static inline void http_server_finish(inner_http_server_t *inner) {
+    if (!inner->closed) {
+        return;
+    }
+
+    if (inner->running_count == 0 && inner->listen_co) {
+        co_ready(inner->listen_co);
+        inner->listen_co = NULL;
+    }
+
+    if (inner->live_count == 0) {
+        free_conn(inner);
+    }
+}
+
 static inline void on_async_conn_close_cb(uv_handle_t *handle) {
     http_conn_t *conn = CONTAINER_OF(handle, http_conn_t, async_write_handle);
     DEBUGF("[on_async_conn_close_cb] conn: %p", conn);
-    assert(conn->n_server);
-    inner_http_server_t *inner = conn->n_server->inner;
+    inner_http_server_t *inner = conn->inner;
 
 
     conn->read_buf_len = 0;
@@ -79,8 +94,11 @@ static inline void on_async_conn_close_cb(uv_handle_t *handle) {
         free(conn->write_buf.base);
     }
 
-    conn->n_server->inner->closed_count += 1;
+    conn->inner->closed_count += 1;
     release_conn(inner, conn);
+
+    inner->live_count -= 1;
+    http_server_finish(inner);
 }
 
 static inline void on_conn_close_cb(uv_handle_t *handle) {
@@ -128,7 +146,7 @@ static inline void on_write_end_cb(uv_write_t *write_req, int status) {
 static inline void http_alloc_buffer_cb(uv_handle_t *handle, size_t suggested_size, uv_buf_t *buf) {
     http_conn_t *conn = CONTAINER_OF(handle, http_conn_t, handle);
 
-    conn->n_server->inner->read_alloc_buf_count += 1;
+    conn->inner->read_alloc_buf_count += 1;
 
     DEBUGF("[uv_alloc_buffer] suggested_size: %ld", suggested_size);
     conn->read_buf_cap += HTTP_BUFFER_SIZE;
@@ -154,7 +172,7 @@ static inline void http_alloc_buffer_cb(uv_handle_t *handle, size_t suggested_si
 static inline void async_conn_write_handle_cb(uv_async_t *handle) {
     http_conn_t *conn = CONTAINER_OF(handle, http_conn_t, async_write_handle);
     DEBUGF("[async_conn_write_handle_cb] conn: %p, client_handle: %p", conn, handle);
-    conn->n_server->inner->resp_count += 1;
+    conn->inner->resp_count += 1;
 
     int result = uv_write(&conn->write_req, (uv_stream_t *) &conn->handle, &conn->write_buf, 1, on_write_end_cb);
     if (result) {
@@ -162,6 +180,9 @@ static inline void async_conn_write_handle_cb(uv_async_t *handle) {
                uv_is_closing((uv_handle_t *) &conn->handle));
         http_conn_close(conn);
     }
+
+    conn->inner->running_count -= 1;
+    http_server_finish(conn->inner);
 }
 
 static int http_parser_on_url_cb(llhttp_t *parser, const char *at, size_t length);
@@ -175,10 +196,10 @@ static int http_parser_on_body_cb(llhttp_t *parser, const char *at, size_t lengt
 static inline void on_read_cb(uv_stream_t *handle, ssize_t nread, const uv_buf_t *buf) {
     DEBUGF("[on_read_cb] client: %p, nread: %ld", handle, nread);
     http_conn_t *conn = CONTAINER_OF(handle, http_conn_t, handle);
-    conn->n_server->inner->read_cb_count += 1;
+    conn->inner->read_cb_count += 1;
 
-    if (nread < 0) {
-        conn->n_server->inner->read_error_count += 1;
+    if (nread < 0 || conn->inner->closed) {
+        conn->inner->read_error_count += 1;
 
         if (nread == UV_EOF) {
             // do nothing
@@ -223,7 +244,8 @@ static inline void on_read_cb(uv_stream_t *handle, ssize_t nread, const uv_buf_t
         return;
     }
 
-    conn->n_server->inner->coroutine_count += 1;
+    conn->inner->coroutine_count += 1;
+    conn->inner->running_count += 1;
     coroutine_t *conn_co = rt_coroutine_new(conn->n_server->handler, 0, NULL, conn);
     rt_coroutine_dispatch(conn_co);
 }
@@ -336,6 +358,8 @@ static void on_http_conn_cb(uv_stream_t *server, int status) {
 
     conn->create_time = uv_hrtime();
     conn->n_server = inner->server;
+    conn->inner = inner;
+    inner->live_count += 1;
     llhttp_settings_init(&conn->settings);
     conn->settings.on_message_complete = http_parser_on_message_complete_cb;
     uv_async_init(&global_loop, &conn->async_write_handle, async_conn_write_handle_cb);
@@ -367,14 +391,13 @@ static void on_http_conn_cb(uv_stream_t *server, int status) {
 
 static inline void on_server_close_cb(uv_handle_t *handle) {
     inner_http_server_t *inner = CONTAINER_OF(handle, inner_http_server_t, handle);
-    coroutine_t *listen_co = inner->listen_co;
 
-    free_conn(inner);
-    co_ready(listen_co);
+    inner->closed = true;
+    http_server_finish(inner);
 }
 
-static void uv_async_http_close(n_http_server_t *server) {
-    uv_close((uv_handle_t *) &server->inner->handle, on_server_close_cb);
+static void uv_async_http_close(inner_http_server_t *inner) {
+    uv_close((uv_handle_t *) &inner->handle, on_server_close_cb);
 }
 
 void test_timer_dump_count_cb(uv_timer_t *timer) {
@@ -420,7 +443,12 @@ static void uv_async_http_listen(inner_http_server_t *inner) {
 
 
 void rt_uv_http_close(n_http_server_t *server) {
-    global_async_send(uv_async_http_close, server, 0, 0);
+    inner_http_server_t *inner = __atomic_exchange_n(&server->inner, NULL, __ATOMIC_ACQ_REL);
+    if (!inner) {
+        return;
+    }
+
+    global_async_send(uv_async_http_close, inner, 0, 0);
 }
 
 /**
@@ -430,7 +458,7 @@ void rt_uv_http_listen(n_http_server_t *server) {
     n_processor_t *p = processor_get();
     coroutine_t *co = coroutine_get();
 
-    inner_http_server_t *inner = malloc(sizeof(inner_http_server_t));
+    inner_http_server_t *inner = mallocz(sizeof(inner_http_server_t));
     inner->count = 0;
     inner->freelist = NULL;
     inner->max = FREELIST_MAX;
diff --git a/runtime/nutils/http.h b/runtime/nutils/http.h
index c50be52..33eccfe 100644
--- a/runtime/nutils/http.h
+++ b/runtime/nutils/http.h
@@ -32,6 +32,9 @@ typedef struct {
     int64_t coroutine_count;
     int64_t resp_count;
     int64_t read_start_count; // 记录 uv_read_start 成功的次数
+    int64_t live_count; // 未释放的 conn 数量
+    int64_t running_count; // 未响应的 handler 数量
+    bool closed;
 } inner_http_server_t;
 
 /**
@@ -90,6 +93,7 @@ typedef struct {
     uv_write_t write_req;
     uv_buf_t write_buf;
     int64_t create_time;
+    inner_http_server_t *inner;
 } http_conn_t;
 
 void rt_uv_conn_resp(http_conn_t *conn, n_string_t resp_data);
-- 
2.43.0


From 8d93893453dc52c029c49f6d9fcebb3c7188c738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:11 +0000
Subject: [PATCH 27/55] fix: close the socket when an HTTP listen fails

The socket and the connection pool of a server that could not listen
were never released.
---
 runtime/nutils/http.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/runtime/nutils/http.c b/runtime/nutils/http.c
index 32f688e..08b11b3 100644
--- a/runtime/nutils/http.c
+++ b/runtime/nutils/http.c
@@ -432,12 +432,16 @@ static void uv_async_http_listen(inner_http_server_t *inner) {
     //    uv_timer_start(timer, test_timer_dump_count_cb, 1000, 1000);
 
     uv_ip4_addr(rt_string_ref(&server->addr), server->port, &addr);
-    uv_tcp_bind(&inner->handle, (const struct sockaddr *) &addr, 0);
-
-    int result = uv_listen((uv_stream_t *) &inner->handle, DEFAULT_BACKLOG, on_http_conn_cb);
+    int result = uv_tcp_bind(&inner->handle, (const struct sockaddr *) &addr, 0);
+    if (result == 0) {
+        result = uv_listen((uv_stream_t *) &inner->handle, DEFAULT_BACKLOG, on_http_conn_cb);
+    }
     if (result) {
         rti_co_throw(inner->listen_co, tlsprintf("listen failed: %s", uv_strerror(result)), false);
-        co_ready(inner->listen_co);
+        if (__atomic_exchange_n(&server->inner, NULL, __ATOMIC_ACQ_REL)) {
+            // co_ready in http_server_finish
+            uv_close((uv_handle_t *) &inner->handle, on_server_close_cb);
+        }
     }
 }
 
-- 
2.43.0


From b68bec28faaa23082bc851d42d9c48f1867667cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:06 +0000
Subject: [PATCH 28/55] fix: use the Linux value of O_APPEND

0x8 has no meaning on Linux, so files opened for appending were
overwritten from the start.
---
 std/syscall/syscall.linux_amd64.n   | 2 +-
 std/syscall/syscall.linux_arm64.n   | 2 +-
 std/syscall/syscall.linux_riscv64.n | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/std/syscall/syscall.linux_amd64.n b/std/syscall/syscall.linux_amd64.n
index 842f8af..0ee5f05 100644
--- a/std/syscall/syscall.linux_amd64.n
+++ b/std/syscall/syscall.linux_amd64.n
@@ -66,7 +66,7 @@ pub int O_RDONLY = 0x0  // 只读模式
 pub int O_WRONLY = 0x1  // 只写模式
 pub int O_RDWR   = 0x2  // 读写模式
 
-pub int O_APPEND = 0x8  // 追加写入
+pub int O_APPEND = 0x400  // 追加写入
 pub int O_CREAT = 0x40 // 如果文件不存在则创建文件
 pub int O_EXCL   = 0x80 // 与 O_CREAT 一起使用，文件必须不存在
 pub int O_TRUNC  = 0x200 // 打开文件时清空文件内容
diff --git a/std/syscall/syscall.linux_arm64.n b/std/syscall/syscall.linux_arm64.n
index 471c7a1..f8e98ed 100644
--- a/std/syscall/syscall.linux_arm64.n
+++ b/std/syscall/syscall.linux_arm64.n
@@ -66,7 +66,7 @@ pub int O_RDONLY = 0x0  // 只读模式
 pub int O_WRONLY = 0x1  // 只写模式
 pub int O_RDWR   = 0x2  // 读写模式
 
-pub int O_APPEND = 0x8  // 追加写入
+pub int O_APPEND = 0x400  // 追加写入
 pub int O_CREAT = 0x40 // 如果文件不存在则创建文件
 pub int O_EXCL   = 0x80 // 与 O_CREAT 一起使用，文件必须不存在
 pub int O_TRUNC  = 0x200 // 打开文件时清空文件内容
diff --git a/std/syscall/syscall.linux_riscv64.n b/std/syscall/syscall.linux_riscv64.n
index d258d1b..1a754e1 100644
--- a/std/syscall/syscall.linux_riscv64.n
+++ b/std/syscall/syscall.linux_riscv64.n
@@ -66,7 +66,7 @@ pub int O_RDONLY = 0x0  // 只读模式
 pub int O_WRONLY = 0x1  // 只写模式
 pub int O_RDWR   = 0x2  // 读写模式
 
-pub int O_APPEND = 0x8  // 追加写入
+pub int O_APPEND = 0x400  // 追加写入
 pub int O_CREAT = 0x40 // 如果文件不存在则创建文件
 pub int O_EXCL   = 0x80 // 与 O_CREAT 一起使用，文件必须不存在
 pub int O_TRUNC  = 0x200 // 打开文件时清空文件内容
-- 
2.43.0


From f0ef6b64f7a6b9698056fb00a2e447141091fac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:06 +0000
Subject: [PATCH 29/55] fix: do not pass a stack address to the event loop for
 file writes

The stack is shared between coroutines, so by the time the event loop
read the buffer descriptor another coroutine could have replaced it and
other data was written. Offsets beyond 2 GB were cut off as well.
---
 runtime/nutils/fs.c | 21 +++++++++++----------
 runtime/nutils/fs.h |  4 ++--
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/runtime/nutils/fs.c b/runtime/nutils/fs.c
index 7619e1a..92add1b 100644
--- a/runtime/nutils/fs.c
+++ b/runtime/nutils/fs.c
@@ -199,11 +199,11 @@ n_int_t rt_uv_fs_read(fs_context_t *ctx, n_vec_t buf) {
     return rt_uv_fs_read_at(ctx, buf, -1);
 }
 
-static void uv_async_fs_read_at(fs_context_t *ctx, int offset) {
+static void uv_async_fs_read_at(fs_context_t *ctx, int64_t offset) {
     uv_fs_read(&global_loop, &ctx->req, ctx->fd, &ctx->buf, 1, offset, on_read_cb);
 }
 
-n_int_t rt_uv_fs_read_at(fs_context_t *ctx, n_vec_t buf, int offset) {
+n_int_t rt_uv_fs_read_at(fs_context_t *ctx, n_vec_t buf, int64_t offset) {
     coroutine_t *co = coroutine_get();
     n_processor_t *p = processor_get();
     DEBUGF("[rt_uv_fs_read] read file: %ld", ctx->fd);
@@ -236,16 +236,12 @@ n_int_t rt_uv_fs_read_at(fs_context_t *ctx, n_vec_t buf, int offset) {
     return ctx->data_len;
 }
 
-static void uv_async_fs_write_at(fs_context_t *ctx, n_vec_t *buf, int offset) {
-    // 配置写入缓冲区并保存到 ctx 用于 fallback
-    ctx->buf = uv_buf_init((char *) buf->data, buf->length);
-    ctx->offset = offset; // 保存 offset 用于 fallback
-
+static void uv_async_fs_write_at(fs_context_t *ctx, int64_t offset) {
     // 发起异步写入请求，指定偏移量
     uv_fs_write(&global_loop, &ctx->req, ctx->fd, &ctx->buf, 1, offset, on_write_cb);
 }
 
-n_int_t rt_uv_fs_write_at(fs_context_t *ctx, n_vec_t buf, int offset) {
+n_int_t rt_uv_fs_write_at(fs_context_t *ctx, n_vec_t buf, int64_t offset) {
     coroutine_t *co = coroutine_get();
     n_processor_t *p = processor_get();
 
@@ -254,10 +250,15 @@ n_int_t rt_uv_fs_write_at(fs_context_t *ctx, n_vec_t buf, int offset) {
         return 0;
     }
 
-    DEBUGF("[fs_write_at] write file: %ld, offset: %d, data_len: %ld", ctx->fd, offset, buf.length);
+    DEBUGF("[fs_write_at] write file: %ld, offset: %ld, data_len: %ld", ctx->fd, offset, buf.length);
     ctx->req.data = co;
 
-    global_waiting_send(uv_async_fs_write_at, ctx, &buf, (void *) (int64_t) offset);
+    // 配置写入缓冲区并保存到 ctx 用于 fallback, yield 后 share_stack 可能会被其他 coroutine 使用，所以不能传递 &buf
+    ctx->data_len = 0;
+    ctx->buf = uv_buf_init((char *) buf.data, buf.length);
+    ctx->offset = offset; // 保存 offset 用于 fallback
+
+    global_waiting_send(uv_async_fs_write_at, ctx, (void *) offset, 0);
 
     if (co->has_error) {
         n_string_t msg = rti_error_msg(&co->error);
diff --git a/runtime/nutils/fs.h b/runtime/nutils/fs.h
index 7fa2d29..8fac35b 100644
--- a/runtime/nutils/fs.h
+++ b/runtime/nutils/fs.h
@@ -29,9 +29,9 @@ n_int_t rt_uv_fs_write(fs_context_t *ctx, n_vec_t buf);
 
 void rt_uv_fs_close(fs_context_t *ctx);
 
-n_int_t rt_uv_fs_read_at(fs_context_t *ctx, n_vec_t buf, int offset);
+n_int_t rt_uv_fs_read_at(fs_context_t *ctx, n_vec_t buf, int64_t offset);
 
-n_int_t rt_uv_fs_write_at(fs_context_t *ctx, n_vec_t buf, int offset);
+n_int_t rt_uv_fs_write_at(fs_context_t *ctx, n_vec_t buf, int64_t offset);
 
 uv_stat_t rt_uv_fs_stat(fs_context_t *ctx);
 
-- 
2.43.0


From a1776f8421bfaec525ac9cab1c41de59f0120947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:03 +0000
Subject: [PATCH 30/55] fix: let several coroutines use one file at the same
 time

All operations on a file shared one request, so a second operation
started before the first had ended replaced its waiting coroutine and
buffer. Use one request per operation.
---
 runtime/nutils/fs.c | 151 ++++++++++++++++++++++++--------------------
 runtime/nutils/fs.h |   9 ++-
 2 files changed, 88 insertions(+), 72 deletions(-)

diff --git a/runtime/nutils/fs.c b/runtime/nutils/fs.c
index 92add1b..98c2433 100644
--- a/runtime/nutils/fs.c
+++ b/runtime/nutils/fs.c
@@ -43,8 +43,15 @@ static ssize_t windows_pread(int fd, void *buf, size_t len, int64_t offset) {
 }
 #endif
 
+static inline fs_op_t *fs_op_new(coroutine_t *co, n_int_t fd) {
+    fs_op_t *op = mallocz(sizeof(fs_op_t));
+    op->req.data = co;
+    op->fd = fd;
+    return op;
+}
+
 static void on_write_cb(uv_fs_t *req) {
-    fs_context_t *ctx = CONTAINER_OF(req, fs_context_t, req);
+    fs_op_t *op = CONTAINER_OF(req, fs_op_t, req);
     coroutine_t *co = req->data;
     assert(co);
 
@@ -52,15 +59,15 @@ static void on_write_cb(uv_fs_t *req) {
         // vboxsf/NFS/9p 等文件系统不支持 pwritev，fallback 到 pwrite()
         if (req->result == UV_ENOTSUP) {
 #ifdef __WINDOWS
-            ssize_t n = windows_pwrite(ctx->fd, ctx->buf.base, ctx->buf.len, ctx->offset);
+            ssize_t n = windows_pwrite(op->fd, op->buf.base, op->buf.len, op->offset);
 #else
-            ssize_t n = pwrite(ctx->fd, ctx->buf.base, ctx->buf.len, ctx->offset);
+            ssize_t n = pwrite(op->fd, op->buf.base, op->buf.len, op->offset);
 #endif
             if (n >= 0) {
                 DEBUGF("[on_write_cb] pwritev not supported, fallback to pwrite(), bytes: %zd", n);
-                ctx->data_len = n;
+                op->result = n;
+                uv_fs_req_cleanup(&op->req);
                 co_ready(co);
-                uv_fs_req_cleanup(&ctx->req);
                 return;
             }
             rti_co_throw(co, strerror(errno), false);
@@ -68,55 +75,56 @@ static void on_write_cb(uv_fs_t *req) {
             // 文件写入异常，设置错误并返回
             rti_co_throw(co, (char *) uv_strerror(req->result), false);
         }
+        uv_fs_req_cleanup(&op->req);
         co_ready(co);
-        uv_fs_req_cleanup(&ctx->req);
         return;
     }
 
     // 写入成功，req->result 包含写入的字节数
     DEBUGF("[on_write_cb] write file success, bytes written: %ld", req->result);
-    ctx->data_len = req->result;
+    op->result = req->result;
 
+    uv_fs_req_cleanup(&op->req);
     co_ready(co);
-    uv_fs_req_cleanup(&ctx->req);
 }
 
 static inline void on_open_cb(uv_fs_t *req) {
-    fs_context_t *ctx = CONTAINER_OF(req, fs_context_t, req);
+    fs_op_t *op = CONTAINER_OF(req, fs_op_t, req);
+    coroutine_t *co = req->data;
     if (req->result < 0) {
-        DEBUGF("[on_open_cb] open file failed: %s, co: %p", uv_strerror(req->result), req->data);
+        DEBUGF("[on_open_cb] open file failed: %s, co: %p", uv_strerror(req->result), co);
 
-        rti_co_throw(req->data, (char *) uv_strerror(req->result), false);
+        rti_co_throw(co, (char *) uv_strerror(req->result), false);
 
-        co_ready(req->data);
-        uv_fs_req_cleanup(&ctx->req);
+        uv_fs_req_cleanup(&op->req);
+        co_ready(co);
         return;
     }
 
     // 文件打开成功，设置 fd 并返回
-    ctx->fd = req->result;
-    co_ready(req->data);
+    op->fd = req->result;
 
-    uv_fs_req_cleanup(&ctx->req);
+    uv_fs_req_cleanup(&op->req);
+    co_ready(co);
 }
 
 static void on_read_cb(uv_fs_t *req) {
-    fs_context_t *ctx = CONTAINER_OF(req, fs_context_t, req);
+    fs_op_t *op = CONTAINER_OF(req, fs_op_t, req);
     coroutine_t *co = req->data;
 
     if (req->result < 0) {
         // vboxsf/NFS/9p 等文件系统不支持 preadv，fallback 到 pread()
         if (req->result == UV_ENOTSUP) {
 #ifdef __WINDOWS
-            ssize_t n = windows_pread(ctx->fd, ctx->data, ctx->data_cap, ctx->offset);
+            ssize_t n = windows_pread(op->fd, op->buf.base, op->buf.len, op->offset);
 #else
-            ssize_t n = pread(ctx->fd, ctx->data, ctx->data_cap, ctx->offset);
+            ssize_t n = pread(op->fd, op->buf.base, op->buf.len, op->offset);
 #endif
             if (n >= 0) {
                 DEBUGF("[on_read_cb] preadv not supported, fallback to pread(), bytes: %zd", n);
-                ctx->data_len = n;
+                op->result = n;
+                uv_fs_req_cleanup(&op->req);
                 co_ready(co);
-                uv_fs_req_cleanup(&ctx->req);
                 return;
             }
             rti_co_throw(co, strerror(errno), false);
@@ -124,17 +132,17 @@ static void on_read_cb(uv_fs_t *req) {
             // 文件读取异常，设置错误并返回，不需要关闭 fd, fd 由外部控制
             rti_co_throw(co, (char *) uv_strerror(req->result), false);
         }
+        uv_fs_req_cleanup(&op->req);
         co_ready(co);
-        uv_fs_req_cleanup(&ctx->req);
         return;
     }
 
-    ctx->data_len += req->result;
-    assert(ctx->data_len <= ctx->data_cap);
+    op->result = req->result;
+    assert(op->result <= op->buf.len);
 
-    DEBUGF("[on_read_cb] read file success, data_len: %ld", ctx->data_len);
+    DEBUGF("[on_read_cb] read file success, data_len: %ld", op->result);
+    uv_fs_req_cleanup(&op->req);
     co_ready(co);
-    uv_fs_req_cleanup(&ctx->req);
 }
 
 /**
@@ -155,21 +163,21 @@ fs_context_t *rt_uv_fs_from(n_int_t fd, n_string_t name) {
     return ctx;
 }
 
-static void uv_async_fs_open(fs_context_t *ctx, char *path) {
+static void uv_async_fs_open(fs_op_t *op, char *path) {
 #ifdef __WINDOWS
-    int fd = rt_windows_open_utf8(path, (int) ctx->flags, (int) ctx->mode);
+    int fd = rt_windows_open_utf8(path, (int) op->flags, (int) op->mode);
     if (fd < 0) {
-        rti_co_throw(ctx->req.data, strerror(errno), false);
+        rti_co_throw(op->req.data, strerror(errno), false);
     } else {
-        ctx->fd = fd;
+        op->fd = fd;
     }
-    co_ready(ctx->req.data);
+    co_ready(op->req.data);
 #else
-    int result = uv_fs_open(&global_loop, &ctx->req, path, (int) ctx->flags,
-                            (int) ctx->mode, on_open_cb);
+    int result = uv_fs_open(&global_loop, &op->req, path, (int) op->flags,
+                            (int) op->mode, on_open_cb);
     if (result) {
-        rti_co_throw(ctx->req.data, (char *) uv_strerror(result), false);
-        co_ready(ctx->req.data);
+        rti_co_throw(op->req.data, (char *) uv_strerror(result), false);
+        co_ready(op->req.data);
     }
 #endif
 }
@@ -179,11 +187,14 @@ fs_context_t *rt_uv_fs_open(n_string_t path, int64_t flags, int64_t mode) {
     fs_context_t *ctx = rti_gc_malloc(sizeof(fs_context_t), NULL);
     n_processor_t *p = processor_get();
     coroutine_t *co = coroutine_get();
-    ctx->flags = flags;
-    ctx->mode = mode;
-    ctx->req.data = co;
+    fs_op_t *op = fs_op_new(co, -1);
+    op->flags = flags;
+    op->mode = mode;
+
+    global_waiting_send(uv_async_fs_open, op, rt_string_ref(&path), 0);
+    ctx->fd = op->fd;
+    free(op);
 
-    global_waiting_send(uv_async_fs_open, ctx, rt_string_ref(&path), 0);
     if (co->has_error) {
         n_string_t msg = rti_error_msg(&co->error);
         DEBUGF("[fs_open] open file failed: %s", (char *) rt_string_ref(&msg));
@@ -199,8 +210,8 @@ n_int_t rt_uv_fs_read(fs_context_t *ctx, n_vec_t buf) {
     return rt_uv_fs_read_at(ctx, buf, -1);
 }
 
-static void uv_async_fs_read_at(fs_context_t *ctx, int64_t offset) {
-    uv_fs_read(&global_loop, &ctx->req, ctx->fd, &ctx->buf, 1, offset, on_read_cb);
+static void uv_async_fs_read_at(fs_op_t *op) {
+    uv_fs_read(&global_loop, &op->req, op->fd, &op->buf, 1, op->offset, on_read_cb);
 }
 
 n_int_t rt_uv_fs_read_at(fs_context_t *ctx, n_vec_t buf, int64_t offset) {
@@ -214,15 +225,14 @@ n_int_t rt_uv_fs_read_at(fs_context_t *ctx, n_vec_t buf, int64_t offset) {
     }
 
     // 配置初始缓冲区，能够读取的最大程度受限于 buf.length
-    ctx->data_cap = buf.length;
-    ctx->data_len = 0; // 记录实际读取的数量
-    ctx->data = (char *) buf.data;
-    ctx->buf = uv_buf_init(ctx->data, buf.length);
-    ctx->req.data = co;
-    ctx->offset = offset; // 保存 offset 用于 fallback
+    fs_op_t *op = fs_op_new(co, ctx->fd);
+    op->buf = uv_buf_init((char *) buf.data, buf.length);
+    op->offset = offset; // 保存 offset 用于 fallback
 
     // 基于 fd offset 进行读取
-    global_waiting_send(uv_async_fs_read_at, ctx, (void *) offset, 0);
+    global_waiting_send(uv_async_fs_read_at, op, 0, 0);
+    int64_t result = op->result;
+    free(op);
 
     if (co->has_error) {
         n_string_t msg = rti_error_msg(&co->error);
@@ -232,13 +242,12 @@ n_int_t rt_uv_fs_read_at(fs_context_t *ctx, n_vec_t buf, int64_t offset) {
         DEBUGF("[rt_uv_fs_read] read file success");
     }
 
-    ctx->req.data = NULL;
-    return ctx->data_len;
+    return result;
 }
 
-static void uv_async_fs_write_at(fs_context_t *ctx, int64_t offset) {
+static void uv_async_fs_write_at(fs_op_t *op) {
     // 发起异步写入请求，指定偏移量
-    uv_fs_write(&global_loop, &ctx->req, ctx->fd, &ctx->buf, 1, offset, on_write_cb);
+    uv_fs_write(&global_loop, &op->req, op->fd, &op->buf, 1, op->offset, on_write_cb);
 }
 
 n_int_t rt_uv_fs_write_at(fs_context_t *ctx, n_vec_t buf, int64_t offset) {
@@ -251,14 +260,15 @@ n_int_t rt_uv_fs_write_at(fs_context_t *ctx, n_vec_t buf, int64_t offset) {
     }
 
     DEBUGF("[fs_write_at] write file: %ld, offset: %ld, data_len: %ld", ctx->fd, offset, buf.length);
-    ctx->req.data = co;
 
-    // 配置写入缓冲区并保存到 ctx 用于 fallback, yield 后 share_stack 可能会被其他 coroutine 使用，所以不能传递 &buf
-    ctx->data_len = 0;
-    ctx->buf = uv_buf_init((char *) buf.data, buf.length);
-    ctx->offset = offset; // 保存 offset 用于 fallback
+    // 配置写入缓冲区并保存到 op 用于 fallback, yield 后 share_stack 可能会被其他 coroutine 使用，所以不能传递 &buf
+    fs_op_t *op = fs_op_new(co, ctx->fd);
+    op->buf = uv_buf_init((char *) buf.data, buf.length);
+    op->offset = offset; // 保存 offset 用于 fallback
 
-    global_waiting_send(uv_async_fs_write_at, ctx, (void *) offset, 0);
+    global_waiting_send(uv_async_fs_write_at, op, 0, 0);
+    int64_t result = op->result;
+    free(op);
 
     if (co->has_error) {
         n_string_t msg = rti_error_msg(&co->error);
@@ -267,7 +277,7 @@ n_int_t rt_uv_fs_write_at(fs_context_t *ctx, n_vec_t buf, int64_t offset) {
         DEBUGF("[fs_write_at] write file success");
     }
 
-    return ctx->data_len;
+    return result;
 }
 
 n_int_t rt_uv_fs_write(fs_context_t *ctx, n_vec_t buf) {
@@ -277,13 +287,14 @@ n_int_t rt_uv_fs_write(fs_context_t *ctx, n_vec_t buf) {
 
 static void uv_async_fs_close(fs_context_t *ctx, coroutine_t *co) {
     // 同步方式关闭文件
-    int result = uv_fs_close(&global_loop, &ctx->req, ctx->fd, NULL);
+    uv_fs_t req;
+    int result = uv_fs_close(&global_loop, &req, ctx->fd, NULL);
     if (result < 0) {
         DEBUGF("[fs_close] close file failed: %s", uv_strerror(result));
     } else {
         DEBUGF("[fs_close] close file success");
     }
-    uv_fs_req_cleanup(&ctx->req);
+    uv_fs_req_cleanup(&req);
 
     co_ready(co);
 }
@@ -303,7 +314,7 @@ void rt_uv_fs_close(fs_context_t *ctx) {
 
 
 static void on_stat_cb(uv_fs_t *req) {
-    fs_context_t *ctx = CONTAINER_OF(req, fs_context_t, req);
+    fs_op_t *op = CONTAINER_OF(req, fs_op_t, req);
     coroutine_t *co = req->data;
     assert(co);
 
@@ -311,20 +322,19 @@ static void on_stat_cb(uv_fs_t *req) {
         // File stat operation failed, set error and return
         rti_co_throw(co, (char *) uv_strerror(req->result), false);
         co_ready(co);
-        uv_fs_req_cleanup(&ctx->req);
         return;
     }
 
     // Stat operation successful
-    DEBUGF("[on_stat_cb] stat file success, fd: %d", ctx->fd);
+    DEBUGF("[on_stat_cb] stat file success, fd: %ld", op->fd);
 
     co_ready(co);
     // Note: req cleanup is handled in the main function after coroutine resumes
 }
 
-static void uv_async_fs_stat(fs_context_t *ctx, coroutine_t *co) {
+static void uv_async_fs_stat(fs_op_t *op, coroutine_t *co) {
     // Initiate async stat request
-    int result = uv_fs_fstat(&global_loop, &ctx->req, ctx->fd, on_stat_cb);
+    int result = uv_fs_fstat(&global_loop, &op->req, op->fd, on_stat_cb);
     if (result < 0) {
         rti_co_throw(co, (char *) uv_strerror(result), false);
         co_ready(co);
@@ -344,9 +354,9 @@ uv_stat_t rt_uv_fs_stat(fs_context_t *ctx) {
     DEBUGF("[rt_uv_fs_stat] stat file: %d", ctx->fd);
 
     // Set up coroutine resume point
-    ctx->req.data = co;
+    fs_op_t *op = fs_op_new(co, ctx->fd);
 
-    global_waiting_send(uv_async_fs_stat, ctx, co, 0);
+    global_waiting_send(uv_async_fs_stat, op, co, 0);
 
     if (co->has_error) {
         n_string_t msg = rti_error_msg(&co->error);
@@ -354,11 +364,12 @@ uv_stat_t rt_uv_fs_stat(fs_context_t *ctx) {
     } else {
         DEBUGF("[rt_uv_fs_stat] stat file success");
         // Copy stat result from request
-        stat_result = ctx->req.statbuf;
+        stat_result = op->req.statbuf;
     }
 
     // Clean up request
-    uv_fs_req_cleanup(&ctx->req);
+    uv_fs_req_cleanup(&op->req);
+    free(op);
 
     return stat_result;
 }
diff --git a/runtime/nutils/fs.h b/runtime/nutils/fs.h
index 8fac35b..4b8dd60 100644
--- a/runtime/nutils/fs.h
+++ b/runtime/nutils/fs.h
@@ -13,13 +13,18 @@ typedef struct {
     n_int64_t data_len;
     n_int64_t data_cap;
     bool closed;
+} fs_context_t;
 
-    uv_fs_t req; // 对同一个文件的所有的操作都共用该 req, 不同文件操作之间通过 fd 进行关联
+// 同一个文件可以被多个 coroutine 同时操作，所以每次操作都使用独立的 req
+typedef struct {
+    uv_fs_t req; // req.data = coroutine
     uv_buf_t buf;
+    n_int_t fd;
     int64_t flags;
     int64_t mode;
     int64_t offset; // 用于 fallback 时的 pread/pwrite offset
-} fs_context_t;
+    int64_t result; // 实际读写的数量
+} fs_op_t;
 
 fs_context_t *rt_uv_fs_open(n_string_t path, int64_t flags, int64_t mode);
 
-- 
2.43.0


From d09c74c43f6233c4100f222f203f519b709332ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:19 +0000
Subject: [PATCH 31/55] fix: do not mix up short strings that contain zero
 bytes

The pool of short strings is keyed by C strings, so bytes after a zero
byte were ignored and a different string of the same length was
returned. The lookup also read beyond data without a terminator.
---
 runtime/nutils/string.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/runtime/nutils/string.c b/runtime/nutils/string.c
index 8cf1eaa..0b105ab 100644
--- a/runtime/nutils/string.c
+++ b/runtime/nutils/string.c
@@ -19,15 +19,23 @@ n_string_t vec_to_string(n_vec_t *vec) {
 n_string_t string_new_with_pool(void *raw_string, int64_t length) {
     DEBUGF("[string_new_with_pool] raw_string=%s, length=%lu, ptr=%p", (char *) raw_string, length, raw_string);
 
+    // pool 的 key 是以 '\0' 结尾的 c string, raw_string 可能没有 '\0' 结尾，也可能包含 '\0'
+    char key[8] = {0};
+    n_string_t *pooled = NULL;
+    bool poolable = length < (int64_t) sizeof(key) && (length == 0 || !memchr(raw_string, '\0', length));
+
     // check const
-    mutex_lock(&const_str_pool_locker);
-    n_string_t *pooled = sc_map_get_sv(&const_str_pool, (char *) raw_string);
-    if (pooled && pooled->length == length) {
-        n_string_t result = *pooled;
+    if (poolable) {
+        memcpy(key, raw_string, length);
+        mutex_lock(&const_str_pool_locker);
+        pooled = sc_map_get_sv(&const_str_pool, key);
+        if (pooled && pooled->length == length) {
+            n_string_t result = *pooled;
+            mutex_unlock(&const_str_pool_locker);
+            return result;
+        }
         mutex_unlock(&const_str_pool_locker);
-        return result;
     }
-    mutex_unlock(&const_str_pool_locker);
     DEBUGF("[string_new_with_pool] not match, raw %s, length %ld, map get %s", (char *) raw_string, length,
            pooled ? (char *) pooled->data : "-");
 
@@ -50,13 +58,13 @@ n_string_t string_new_with_pool(void *raw_string, int64_t length) {
            str.element_size, (char *) raw_string);
 
     // 小字符串入池,避免小字符串频繁分配
-    if (capacity <= 8) {
+    if (poolable) {
         n_string_t *pool_copy = malloc(sizeof(n_string_t));
         if (pool_copy != NULL) {
             *pool_copy = str;
 
             mutex_lock(&const_str_pool_locker);
-            pooled = sc_map_get_sv(&const_str_pool, (char *) raw_string);
+            pooled = sc_map_get_sv(&const_str_pool, key);
             if (pooled && pooled->length == length) {
                 str = *pooled;
                 mutex_unlock(&const_str_pool_locker);
-- 
2.43.0


From 607a67410f81b0fceed562fa8ba90d93a0b5a4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:23 +0000
Subject: [PATCH 32/55] fix: keep objects alive that only a waiting runtime
 function refers to

The collector skipped the frames of runtime functions written in C and
the saved registers of a waiting coroutine. Objects such as the file
that is being opened were freed and reused while the event loop was
still working on them. Scan these frames and registers conservatively.
---
 runtime/collector.c | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/runtime/collector.c b/runtime/collector.c
index 46b48cc..cd6c7c7 100644
--- a/runtime/collector.c
+++ b/runtime/collector.c
@@ -327,9 +327,12 @@ void mcentral_sweep(mheap_t *mheap) {
  * 通过 assist_preempt_yield_ret_addr 抢占进入安全点时，寄存器分配不会将 assist_preempt_yield_ret_addr 视为 call 而 spill 所有的寄存器，这导致寄存器中可能保存了 heap 指针
  * 寄存器会在 co_preempt_yield 保存到 acosw 函数汇编申请的栈空间中。此时需要采取保守的栈扫描策略，将可能存在的 ptr 加入到 gc mark 中
  */
-#if defined(__AMD64) && defined(__WINDOWS)
-static void scan_windows_context_roots(rt_linked_fixalloc_t *worklist,
-                                       const aco_t *aco) {
+#if !(defined(__AMD64) && defined(__WINDOWS))
+#define ACO_REG_IDX_GP_NONVOL_FIRST 0
+#define ACO_REG_IDX_GP_NONVOL_LAST (ACO_REG_IDX_FPU - 1)
+#endif
+static void scan_context_roots(rt_linked_fixalloc_t *worklist,
+                               const aco_t *aco) {
     for (int i = ACO_REG_IDX_GP_NONVOL_FIRST;
          i <= ACO_REG_IDX_GP_NONVOL_LAST; ++i) {
         addr_t value = (addr_t) aco->reg[i];
@@ -338,7 +341,16 @@ static void scan_windows_context_roots(rt_linked_fixalloc_t *worklist,
         }
     }
 }
-#endif
+
+// runtime c frame 没有 gc bits, c 函数在 yield 期间依旧可能持有 heap ptr
+static void scan_frame_conservative(rt_linked_fixalloc_t *worklist, addr_t low, addr_t high) {
+    for (addr_t cursor = low; cursor + POINTER_SIZE <= high; cursor += POINTER_SIZE) {
+        addr_t value = fetch_addr_value(cursor);
+        if (span_of(value)) {
+            insert_gc_worklist(worklist, (void *) value);
+        }
+    }
+}
 
 static void scan_saved_stack_conservative(rt_linked_fixalloc_t *worklist,
                                           const aco_save_stack_t *save_stack) {
@@ -375,12 +387,10 @@ static void scan_stack(n_processor_t *p, coroutine_t *co, rt_linked_fixalloc_t *
     // save_stack 也是通过 gc 申请，即使是 gc_work 也需要标记一下
     assert((worklist != &p->gc_worklist || p->gc_work_finished < memory->gc_count) && "gc work finished, cannot insert to gc worklist");
 
-#if defined(__AMD64) && defined(__WINDOWS)
-    // Microsoft x64 allows heap pointers to remain live in nonvolatile GP
-    // registers across calls. acosw saves those registers outside the copied
-    // stack, so they must be treated as roots explicitly.
-    scan_windows_context_roots(worklist, &co->aco);
-#endif
+    // Heap pointers may remain live in nonvolatile GP registers across calls.
+    // acosw saves those registers outside the copied stack, so they must be
+    // treated as roots explicitly.
+    scan_context_roots(worklist, &co->aco);
 
     if (co->aco.save_stack.ptr && co->aco.save_stack.sz > SAVE_STACK_DEFAULT_SIZE) {
         assert(span_of((addr_t) co->aco.save_stack.ptr) && "coroutine save stack not found span");
@@ -512,6 +522,10 @@ static void scan_stack(n_processor_t *p, coroutine_t *co, rt_linked_fixalloc_t *
         return;
     }
 
+    if (!found_assist) {
+        scan_frame_conservative(worklist, stack_top_ptr, stack_top_ptr + (share_stack_frame_bp - sp_value));
+    }
+
     if (found_assist) {
         // 进行保守的栈帧扫描
         // share_stack_frame_bp 是 fn 对应的帧的值,已经从帧中取了出来, 原来保存再 BP 寄存器中，现在保存再帧中
@@ -561,6 +575,7 @@ static void scan_stack(n_processor_t *p, coroutine_t *co, rt_linked_fixalloc_t *
 
     // linux/darwin arm64 采用了不同的栈帧布局,所以总是基于 bp 的值从帧底 -> 帧顶遍历，然后查找 prev frame_bp
     // 上面已经找到了 prev bp 和 ret addr 的值, 可以对 ret addr 进行遍历
+    addr_t frame_low = stack_top_ptr + (share_stack_frame_bp - sp_value);
     while (true) {
         if (share_stack_frame_bp < sp_value || share_stack_frame_bp > (addr_t) co->aco.share_stack->align_retptr) {
             break;
@@ -574,6 +589,10 @@ static void scan_stack(n_processor_t *p, coroutine_t *co, rt_linked_fixalloc_t *
 
             // next and continue
             addr_t bp_offset = share_stack_frame_bp - sp_value;
+            if (bp_offset < size) {
+                scan_frame_conservative(worklist, frame_low, stack_top_ptr + bp_offset);
+                frame_low = stack_top_ptr + bp_offset;
+            }
 #ifdef __RISCV64
             share_stack_frame_bp = fetch_addr_value(stack_top_ptr + bp_offset - POINTER_SIZE - POINTER_SIZE);
             ret_addr = fetch_addr_value(stack_top_ptr + bp_offset - POINTER_SIZE);
@@ -625,6 +644,8 @@ static void scan_stack(n_processor_t *p, coroutine_t *co, rt_linked_fixalloc_t *
             frame_cursor -= POINTER_SIZE;
         }
 
+        frame_low = stack_top_ptr + bp_offset;
+
         // 重新提取 ret_addr 和 share_stack_frame_bp
         share_stack_frame_bp = fetch_addr_value(stack_top_ptr + bp_offset);
         ret_addr = fetch_addr_value((stack_top_ptr + bp_offset) + POINTER_SIZE);
-- 
2.43.0


From 81a9fe18dcf90672966c98fe76db21b1c8edb60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:37 +0000
Subject: [PATCH 33/55] fix: release the collector thread when a collection
 ends

Every collection runs in a new thread that nobody joins. It was never
detached, so each collection kept a thread stack mapped for the rest of
the program.
---
 runtime/collector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/collector.c b/runtime/collector.c
index cd6c7c7..f68d181 100644
--- a/runtime/collector.c
+++ b/runtime/collector.c
@@ -1068,6 +1068,10 @@ static void gc_mark_done() {
  * @stack system
  */
 void runtime_gc() {
+#ifndef __WINDOWS
+    // nobody joins this thread, its stack must be released when it ends
+    pthread_detach(pthread_self());
+#endif
     uint64_t before = allocated_bytes;
 
     // - gc stage: GC_START
-- 
2.43.0


From 169d8647fa951d0fe3984eac42720f8fd1d0e8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:20 +0000
Subject: [PATCH 34/55] fix: bound the pool of short strings

Every distinct string of up to seven bytes stayed in the pool for the
rest of the program, so a program that formats numbers grew without
limit. Stop adding to the pool once it holds 1024 run-time strings.
---
 runtime/nutils/string.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/runtime/nutils/string.c b/runtime/nutils/string.c
index 0b105ab..648d8be 100644
--- a/runtime/nutils/string.c
+++ b/runtime/nutils/string.c
@@ -16,6 +16,11 @@ n_string_t vec_to_string(n_vec_t *vec) {
     return string_new_with_pool(vec->data, vec->length);
 }
 
+// 池中的字符串不会被 gc 清理，所以限制运行期入池的数量
+#define STRING_POOL_MAX 1024
+
+static _Atomic int64_t string_pool_count = 0;
+
 n_string_t string_new_with_pool(void *raw_string, int64_t length) {
     DEBUGF("[string_new_with_pool] raw_string=%s, length=%lu, ptr=%p", (char *) raw_string, length, raw_string);
 
@@ -58,7 +63,7 @@ n_string_t string_new_with_pool(void *raw_string, int64_t length) {
            str.element_size, (char *) raw_string);
 
     // 小字符串入池,避免小字符串频繁分配
-    if (poolable) {
+    if (poolable && string_pool_count < STRING_POOL_MAX) {
         n_string_t *pool_copy = malloc(sizeof(n_string_t));
         if (pool_copy != NULL) {
             *pool_copy = str;
@@ -75,6 +80,7 @@ n_string_t string_new_with_pool(void *raw_string, int64_t length) {
             // The map keeps key pointers instead of copying the bytes. Point
             // the key at the pooled string so GC keeps both alive together.
             sc_map_put_sv(&const_str_pool, (char *) pool_copy->data, pool_copy);
+            string_pool_count += 1;
             mutex_unlock(&const_str_pool_locker);
         }
     }
-- 
2.43.0


From bddcd1529eb403ea6c9b085cdcfc7f5c7705b42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:12:53 +0000
Subject: [PATCH 35/55] fix: allocate error objects with their full size

An error object holds a string of 48 bytes and a flag behind it, but only
48 bytes were allocated. Setting the flag overwrote the first byte of the
next object in memory.
---
 runtime/rtype.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/runtime/rtype.h b/runtime/rtype.h
index cc4cfb4..6455375 100644
--- a/runtime/rtype.h
+++ b/runtime/rtype.h
@@ -145,9 +145,10 @@ static inline void builtin_rtype_init() {
     sc_map_put_64v(&rt_rtype_map, throwable_rtype.hash, &throwable_rtype);
 
     // 初始化错误 rtype
-    errort_rtype = GC_RTYPE(TYPE_STRUCT, 6,
+    errort_rtype = GC_RTYPE(TYPE_STRUCT, 7,
                             TYPE_GC_SCAN, TYPE_GC_NOSCAN, TYPE_GC_NOSCAN,
-                            TYPE_GC_NOSCAN, TYPE_GC_NOSCAN, TYPE_GC_NOSCAN);
+                            TYPE_GC_NOSCAN, TYPE_GC_NOSCAN, TYPE_GC_NOSCAN,
+                            TYPE_GC_NOSCAN);
     sc_map_put_64v(&rt_rtype_map, errort_rtype.hash, &errort_rtype);
 
     // 初始化环境变量 rtype
-- 
2.43.0


From 825e1504c0936f6296d0f4a329fc2aeb58f20ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:29 +0000
Subject: [PATCH 36/55] fix: export the documented mutex_t.try_lock

---
 std/co/mutex.n | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/co/mutex.n b/std/co/mutex.n
index f758870..15a6e70 100644
--- a/std/co/mutex.n
+++ b/std/co/mutex.n
@@ -24,7 +24,7 @@ pub fn mutex_t.lock(&self) {
     rt_mutex_lock(self)
 }
 
-fn mutex_t.try_lock(&self):bool {
+pub fn mutex_t.try_lock(&self):bool {
     return rt_mutex_try_lock(self)
 }
 
-- 
2.43.0


From 5c528e76ab14391627415e80b42ca3ddedc0718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:48:06 +0000
Subject: [PATCH 37/55] fix: end buffered read_exact at the end of the stream

---
 std/io/buf.n | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/std/io/buf.n b/std/io/buf.n
index b5834b1..36b08f3 100644
--- a/std/io/buf.n
+++ b/std/io/buf.n
@@ -160,6 +160,10 @@ pub fn reader<T>.read_exact(&self, [u8] buf):void! {
     int total = 0
     for total < buf.len() {
         int n = self.read(buf.slice(total, buf.len()))
+        if n == 0 {
+            self.eof = true
+            throw errorf('EOF')
+        }
         total += n
     }
 }
-- 
2.43.0


From e22c806d217bce0a11f50e5e21af2cfc1d8419e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:01:13 +0000
Subject: [PATCH 38/55] fix: keep the command of a running process reachable
 for the collector

---
 runtime/nutils/process.c | 6 ++++--
 runtime/nutils/process.h | 2 +-
 std/process/process.n    | 4 ++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/runtime/nutils/process.c b/runtime/nutils/process.c
index 73991f9..77e4c2a 100644
--- a/runtime/nutils/process.c
+++ b/runtime/nutils/process.c
@@ -185,17 +185,19 @@ static void uv_async_process_spawn(process_context_t *ctx, coroutine_t *co) {
     co_ready(co);
 }
 
-process_context_t *rt_uv_process_spawn(command_t *cmd) {
+process_context_t *rt_uv_process_spawn(command_t *cmd, int64_t rhash) {
     DEBUGF("[rt_uv_process_spawn] start")
 
 
     n_processor_t *p = processor_get();
     coroutine_t *co = coroutine_get();
 
-    process_context_t *ctx = rti_gc_malloc(sizeof(process_context_t), NULL);
+    // rtype covers the head of the context, including cmd, which must be scanned by gc
+    process_context_t *ctx = rti_gc_malloc(sizeof(process_context_t), rt_find_rtype(rhash));
     assert(ctx);
 
     ctx->cmd = *cmd;
+    rt_shade_obj_with_barrier(ctx);
     ctx->p = p;
 
     // 初始化管道
diff --git a/runtime/nutils/process.h b/runtime/nutils/process.h
index fc37579..1a66563 100644
--- a/runtime/nutils/process.h
+++ b/runtime/nutils/process.h
@@ -60,6 +60,6 @@ void rt_uv_process_close_stdin(process_context_t *ctx);
 
 void rt_uv_process_wait(process_context_t *ctx);
 
-process_context_t *rt_uv_process_spawn(command_t *cmd);
+process_context_t *rt_uv_process_spawn(command_t *cmd, int64_t rhash);
 
 #endif //NATURE_PROCESS_H
diff --git a/std/process/process.n b/std/process/process.n
index 159f3aa..6294c4e 100644
--- a/std/process/process.n
+++ b/std/process/process.n
@@ -59,7 +59,7 @@ pub fn command(string name, [string] args):ref<command_t>! {
 }
 
 pub fn command_t.spawn(&self):ref<process_t>! {
-    var p = self.uv_spawn(self)
+    var p = uv_spawn(self, @reflect_hash(process_t))
 
     // Scheduling in the current thread will not cause competition
     go p.handle_stdout()
@@ -71,7 +71,7 @@ pub fn command_t.spawn(&self):ref<process_t>! {
 
 
 #linkid rt_uv_process_spawn
-fn command_t.uv_spawn(&self, ref<command_t> cmd):ref<process_t>!
+fn uv_spawn(ref<command_t> cmd, i64 rhash):ref<process_t>!
 
 fn process_t.handle_stdin(&self):void! {
     defer self.close_stdin()
-- 
2.43.0


From 3f19d9b83942f742510a401da170d3693c6e0718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:01:13 +0000
Subject: [PATCH 39/55] fix: give child processes an empty input without
 opening a file

---
 std/process/process.n | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/process/process.n b/std/process/process.n
index 6294c4e..e34d392 100644
--- a/std/process/process.n
+++ b/std/process/process.n
@@ -42,7 +42,7 @@ pub fn run(string name, [string] args):ref<state_t>! {
     var stdout_buffer = new io.buffer()
     var stderr_buffer = new io.buffer()
 
-    var cmd = new command_t(name, args, stdin = fs.discard(), stdout = stdout_buffer, stderr = stderr_buffer)
+    var cmd = new command_t(name, args, stdin = new io.buffer(), stdout = stdout_buffer, stderr = stderr_buffer)
     var p = cmd.spawn()
     p.wait()
 
@@ -53,7 +53,7 @@ pub fn run(string name, [string] args):ref<state_t>! {
 }
 
 pub fn command(string name, [string] args):ref<command_t>! {
-    var cmd = new command_t(name, args, stdin = fs.discard(), stdout = fs.stdout(), stderr = fs.stderr())
+    var cmd = new command_t(name, args, stdin = new io.buffer(), stdout = fs.stdout(), stderr = fs.stderr())
 
     return cmd
 }
-- 
2.43.0


From 425b7833c4fdcd387585877d94f23e8d8aa98a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:01:13 +0000
Subject: [PATCH 40/55] fix: wake every coroutine that waits for a process

---
 runtime/nutils/process.c | 20 ++++++++++++--------
 runtime/nutils/process.h |  5 +++++
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/runtime/nutils/process.c b/runtime/nutils/process.c
index 77e4c2a..7a80bda 100644
--- a/runtime/nutils/process.c
+++ b/runtime/nutils/process.c
@@ -27,13 +27,14 @@ static inline void real_exit(process_context_t *ctx) {
     close_pipe(&ctx->stdout_pipe);
     close_pipe(&ctx->stderr_pipe);
 
-    // 唤醒主协程
-    coroutine_t *co = ctx->req.data;
-    if (co) {
-        DEBUGF("[real_exit] will ready main co")
-        co_ready(co);
-    } else {
-        DEBUGF("[real_exit] not co, not need ready")
+    // 唤醒所有 wait 协程
+    process_waiter_t *waiter = ctx->req.data;
+    ctx->req.data = NULL;
+    while (waiter) {
+        process_waiter_t *next = waiter->next;
+        co_ready(waiter->co);
+        free(waiter);
+        waiter = next;
     }
 }
 
@@ -302,7 +303,10 @@ void uv_async_process_wait(process_context_t *ctx, coroutine_t *co) {
 
     DEBUGF("[uv_async_process_wait] wait exit")
     // waiting real exit
-    ctx->req.data = co;
+    process_waiter_t *waiter = mallocz(sizeof(process_waiter_t));
+    waiter->co = co;
+    waiter->next = ctx->req.data;
+    ctx->req.data = waiter;
 }
 
 /**
diff --git a/runtime/nutils/process.h b/runtime/nutils/process.h
index 1a66563..ce9951f 100644
--- a/runtime/nutils/process.h
+++ b/runtime/nutils/process.h
@@ -32,6 +32,11 @@ typedef struct {
     bool closed;
 } pipe_context_t;
 
+typedef struct process_waiter_t {
+    coroutine_t *co;
+    struct process_waiter_t *next;
+} process_waiter_t;
+
 typedef struct {
     int64_t pid;
     char **args; // exit 释放
-- 
2.43.0


From 23fc93633934e587da3afdca9bfe1983406e23e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:06:58 +0000
Subject: [PATCH 41/55] fix: keep process memory until its event loop handles
 are closed

The context of a spawned process lives in collected memory and contains
event loop handles. A failed spawn left its handle linked into the loop,
and a finished process could be collected while close callbacks were
pending. Both let the loop write to memory that had been reused.
---
 runtime/nutils/process.c | 53 +++++++++++++++++++++++++++++++++++-----
 runtime/nutils/process.h | 10 ++++++--
 std/process/process.n    |  5 ++++
 3 files changed, 60 insertions(+), 8 deletions(-)

diff --git a/runtime/nutils/process.c b/runtime/nutils/process.c
index 7a80bda..9efb297 100644
--- a/runtime/nutils/process.c
+++ b/runtime/nutils/process.c
@@ -6,10 +6,29 @@ typedef n_int_t *(*io_write_fn)(void *self, n_vec_t *buf);
 
 typedef n_int_t *(*io_read_fn)(void *self, n_vec_t *buf);
 
+/**
+ * ctx 位于 gc 堆中, 所有 uv handle 都关闭后 libuv 才不再引用 ctx
+ */
+static void process_handle_closed(process_context_t *ctx) {
+    ctx->open_handles -= 1;
+    if (ctx->open_handles == 0 && ctx->co) {
+        co_ready(ctx->co);
+    }
+}
+
+static void on_close_pipe_cb(uv_handle_t *handle) {
+    pipe_context_t *pipe_ctx = CONTAINER_OF(handle, pipe_context_t, pipe);
+    process_handle_closed(pipe_ctx->process);
+}
+
+static void on_close_process_cb(uv_handle_t *handle) {
+    process_handle_closed(CONTAINER_OF(handle, process_context_t, req));
+}
+
 static inline void close_pipe(pipe_context_t *pipe_ctx) {
     pipe_ctx->closed = true;
     if (!uv_is_closing((uv_handle_t *) &pipe_ctx->pipe)) {
-        uv_close((uv_handle_t *) &pipe_ctx->pipe, NULL);
+        uv_close((uv_handle_t *) &pipe_ctx->pipe, on_close_pipe_cb);
     }
 }
 
@@ -49,7 +68,7 @@ static inline void on_exit_cb(uv_process_t *req, int64_t exit_status, int term_s
     if (ctx->envs) {
         free(ctx->envs);
     }
-    uv_close((uv_handle_t *) req, NULL);
+    uv_close((uv_handle_t *) req, on_close_process_cb);
     close_pipe(&ctx->stdin_pipe);
 
     if (is_real_exit(ctx)) {
@@ -145,6 +164,10 @@ static void uv_async_process_spawn(process_context_t *ctx, coroutine_t *co) {
     uv_pipe_init(&global_loop, &ctx->stdin_pipe.pipe, 0);
     uv_pipe_init(&global_loop, &ctx->stderr_pipe.pipe, 0);
     uv_pipe_init(&global_loop, &ctx->stdout_pipe.pipe, 0);
+    ctx->stdin_pipe.process = ctx;
+    ctx->stderr_pipe.process = ctx;
+    ctx->stdout_pipe.process = ctx;
+    ctx->open_handles = 4; // three pipes and req
 
     uv_process_options_t options = {0};
     options.exit_cb = on_exit_cb;
@@ -167,6 +190,7 @@ static void uv_async_process_spawn(process_context_t *ctx, coroutine_t *co) {
 
     int result = uv_spawn(&global_loop, &ctx->req, &options);
     if (result) {
+        uv_close((uv_handle_t *) &ctx->req, on_close_process_cb);
         close_pipe(&ctx->stdin_pipe);
         close_pipe(&ctx->stdout_pipe);
         close_pipe(&ctx->stderr_pipe);
@@ -177,12 +201,13 @@ static void uv_async_process_spawn(process_context_t *ctx, coroutine_t *co) {
             ctx->envs = NULL;
         }
         rti_co_throw(co, (char *) uv_strerror(result), false);
-    } else {
-        // 设置 pid 的值
-        ctx->pid = ctx->req.pid;
-        assert(ctx->pid);
+        ctx->co = co; // ready when all handles are closed
+        return;
     }
 
+    // 设置 pid 的值
+    ctx->pid = ctx->req.pid;
+    assert(ctx->pid);
     co_ready(co);
 }
 
@@ -234,6 +259,22 @@ process_context_t *rt_uv_process_spawn(command_t *cmd, int64_t rhash) {
     return ctx;
 }
 
+static void uv_async_process_hold(process_context_t *ctx, coroutine_t *co) {
+    if (ctx->open_handles == 0) {
+        co_ready(co);
+        return;
+    }
+
+    ctx->co = co;
+}
+
+/**
+ * 等待所有 uv handle 关闭, 协程栈中的 ctx 在此期间不会被 gc 回收
+ */
+void rt_uv_process_hold(process_context_t *ctx) {
+    global_waiting_send(uv_async_process_hold, ctx, coroutine_get(), 0);
+}
+
 static inline void on_write_stdin_cb(uv_write_t *req, int status) {
     process_context_t *ctx = req->data;
     coroutine_t *co = ctx->stdin_pipe.pipe.data;
diff --git a/runtime/nutils/process.h b/runtime/nutils/process.h
index ce9951f..55e070d 100644
--- a/runtime/nutils/process.h
+++ b/runtime/nutils/process.h
@@ -24,8 +24,11 @@ typedef struct {
     n_interface_t io_stderr;
 } command_t;
 
+typedef struct process_context_t process_context_t;
+
 typedef struct {
     uv_pipe_t pipe;
+    process_context_t *process;
     char buffer[1024];
     int64_t buffer_count;
     const char *name;
@@ -37,7 +40,7 @@ typedef struct process_waiter_t {
     struct process_waiter_t *next;
 } process_waiter_t;
 
-typedef struct {
+struct process_context_t {
     int64_t pid;
     char **args; // exit 释放
     char **envs; // exit 释放
@@ -53,7 +56,8 @@ typedef struct {
     pipe_context_t stderr_pipe;
     uv_write_t stdin_write_req;
     uv_process_t req; // 程序启动成功后, pid 存储在 req 中
-} process_context_t;
+    int open_handles; // libuv 仍在引用的 handle 数量
+};
 
 n_string_t rt_uv_process_read_stdout(process_context_t *ctx);
 
@@ -63,6 +67,8 @@ n_int_t rt_uv_process_write_stdin(process_context_t *ctx, n_vec_t buf);
 
 void rt_uv_process_close_stdin(process_context_t *ctx);
 
+void rt_uv_process_hold(process_context_t *ctx);
+
 void rt_uv_process_wait(process_context_t *ctx);
 
 process_context_t *rt_uv_process_spawn(command_t *cmd, int64_t rhash);
diff --git a/std/process/process.n b/std/process/process.n
index e34d392..dc28413 100644
--- a/std/process/process.n
+++ b/std/process/process.n
@@ -62,6 +62,7 @@ pub fn command_t.spawn(&self):ref<process_t>! {
     var p = uv_spawn(self, @reflect_hash(process_t))
 
     // Scheduling in the current thread will not cause competition
+    go p.hold()
     go p.handle_stdout()
     go p.handle_stderr()
     go p.handle_stdin()
@@ -92,6 +93,10 @@ fn process_t.handle_stdin(&self):void! {
     }
 }
 
+// Keeps the process alive for the collector until the event loop has let go of it
+#linkid rt_uv_process_hold
+fn process_t.hold(&self):void
+
 #linkid rt_uv_process_write_stdin
 fn process_t.write_stdin(&self, [u8] buf):int!
 
-- 
2.43.0


From c9098b670e2976c0b74d8f68b787972aa0e7f4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:18:26 +0000
Subject: [PATCH 42/55] fix: recognise response headers in any case

A response with content-length or transfer-encoding written in lower case
was read as having no body.
---
 std/http/client.n | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/std/http/client.n b/std/http/client.n
index 0ef3453..cc8d9b5 100644
--- a/std/http/client.n
+++ b/std/http/client.n
@@ -315,11 +315,13 @@ pub fn request_t.send(&self):ref<response_t>! {
                 var value = line.slice(colon + 1, line.len()).trim([' '])
                 resp.headers[key] = value
 
-                if key == 'Content-Length' {
+                // header names are case-insensitive
+                var name = key.to_lower()
+                if name == 'content-length' {
                     resp.length = value.to_int()
                 }
 
-                if key == 'Transfer-Encoding' && value.contains('chunked') {
+                if name == 'transfer-encoding' && value.contains('chunked') {
                     resp.chunked = true
                 }
             }
-- 
2.43.0


From bf0066e6d893e98a79709197c74b8cedadfed10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:18:26 +0000
Subject: [PATCH 43/55] fix: close the connection of a failed request

The caller of send() gets an error and no response, so nobody could close
the connection.
---
 std/http/client.n | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/std/http/client.n b/std/http/client.n
index cc8d9b5..ee4bfa0 100644
--- a/std/http/client.n
+++ b/std/http/client.n
@@ -289,7 +289,10 @@ pub fn request_t.send(&self):ref<response_t>! {
     var conn = temp_conn as types.connable
     conn.set_read_timeout(self.timeout_ms)
     var buf = self.tcp_buf()
-    conn.write(buf)
+    conn.write(buf) catch e {
+        conn.close()
+        throw e
+    }
 
     // read resp
     var br = new buf.reader<types.connable>(rd = conn)
@@ -327,6 +330,7 @@ pub fn request_t.send(&self):ref<response_t>! {
             }
         }
     } catch e {
+        conn.close()
         if e.msg() == 'tcp read timeout' {
             throw errorf('HTTP response read timeout')
         }
-- 
2.43.0


From a92d19ddb9c7e54b05d824371029e14df3962237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:19:25 +0000
Subject: [PATCH 44/55] fix: report a chunked response that breaks off

text() took any error as the end of the body and returned what had arrived
so far.
---
 std/http/client.n | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/std/http/client.n b/std/http/client.n
index ee4bfa0..e588119 100644
--- a/std/http/client.n
+++ b/std/http/client.n
@@ -419,7 +419,10 @@ pub fn response_t.text(&self):string! {
         var buf = vec<u8>.new(0, 4096)
         bool eof = false
         for !eof {
-            var n = self.buf_conn.read(buf) catch e {
+            var n = self.read(buf) catch e {
+                if e.msg() != 'EOF' {
+                    throw e
+                }
                 eof = true
                 0
             }
@@ -536,7 +539,13 @@ fn chunked_reader_t.read(&self, [u8] dst):int! {
     if self.s_r == self.s_w {
         self.s_r = 0
         self.s_w = 0
-        self.fill_staging()
+        self.fill_staging() catch e {
+            if e.msg() == 'EOF' && self.state != 4 {
+                // the connection ended before the last chunk
+                throw errorf('unexpected EOF')
+            }
+            throw e
+        }
     }
 
     var n = dst.copy(self.staging.slice(self.s_r, self.s_w))
-- 
2.43.0


From aafdbd44d624a6ecfa616ad409bd0c01e6fd8f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:13:54 +0000
Subject: [PATCH 45/55] fix: fail the build when an object file cannot be
 written

The ELF and Mach-O object writers ignored failed writes and a failed close,
so a full disk gave a damaged object and a successful build. The message for
a file that cannot be opened also lacked its second argument and crashed.
---
 src/binary/elf/linker.c | 8 ++++++--
 src/binary/mach/mach.h  | 7 +++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/binary/elf/linker.c b/src/binary/elf/linker.c
index a3ffe77..5445c86 100644
--- a/src/binary/elf/linker.c
+++ b/src/binary/elf/linker.c
@@ -1,6 +1,7 @@
 #include "src/binary/linker.h"
 
 #include <assert.h>
+#include <errno.h>
 #include <stdio.h>
 #include <string.h>
 #include <unistd.h>
@@ -1667,7 +1668,7 @@ void elf_output(elf_context_t *ctx) {
     unlink(ctx->output);
     int fd = open(ctx->output, O_WRONLY | O_CREAT | O_TRUNC | O_BINARY, 0777);
     if (fd < 0 || (f = fdopen(fd, "wb")) == NULL) {
-        assertf(false, "[elf_output] could not write '%s: %s'", ctx->output);
+        assertf(false, "[elf_output] could not write '%s': %s", ctx->output, strerror(errno));
         return;
     }
     Elf64_Ehdr ehdr = {0};
@@ -1765,5 +1766,8 @@ void elf_output(elf_context_t *ctx) {
         fwrite(&shdr, 1, sizeof(Elf64_Shdr), f);
     }
 
-    fclose(f);
+    // a failed write is remembered by the stream, the last ones are only made by fclose
+    bool failed = ferror(f) != 0;
+    if (fclose(f) != 0) failed = true;
+    assertf(!failed, "[elf_output] could not write '%s'", ctx->output);
 }
diff --git a/src/binary/mach/mach.h b/src/binary/mach/mach.h
index 2c8235e..21195da 100644
--- a/src/binary/mach/mach.h
+++ b/src/binary/mach/mach.h
@@ -435,7 +435,7 @@ static inline bool mach_output_object(mach_context_t *ctx) {
     unlink(ctx->output);
     int fd = open(ctx->output, O_WRONLY | O_CREAT | O_TRUNC | O_BINARY, 0777);
     if (fd < 0 || (f = fdopen(fd, "wb")) == NULL) {
-        assertf(false, "[elf_output] could not write '%s: %s'", ctx->output);
+        assertf(false, "[mach_output] could not write '%s': %s", ctx->output, strerror(errno));
         return false;
     }
 
@@ -602,7 +602,10 @@ static inline bool mach_output_object(mach_context_t *ctx) {
     fwrite(ctx->symtab_command->str_table->data, 1, ctx->symtab_command->str_table->data_offset, f);
     file_offset += ctx->symtab_command->str_table->data_offset;
 
-    fclose(f);
+    // a failed write is remembered by the stream, the last ones are only made by fclose
+    bool failed = ferror(f) != 0;
+    if (fclose(f) != 0) failed = true;
+    assertf(!failed, "[mach_output] could not write '%s'", ctx->output);
 
     return true;
 }
-- 
2.43.0


From f4d710173d6aa167c8d498f18bf8e9ca0deae870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:13:54 +0000
Subject: [PATCH 46/55] fix: fail the build when copying the output fails

The copy went on for ever after a read error and ignored write errors, so a
build could report success with a truncated output.
---
 utils/helper.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/utils/helper.h b/utils/helper.h
index d4f79cc..5bfe429 100644
--- a/utils/helper.h
+++ b/utils/helper.h
@@ -612,13 +612,19 @@ static inline void *copy(char *dst, char *src, int mode) {
 #endif
 
     char buf[1024] = {0};
-    while (!feof(src_fd)) {
+    bool failed = false;
+    while (!failed && !feof(src_fd)) {
         size_t size = fread(buf, 1, 1024, src_fd);
-        fwrite(buf, 1, size, dst_fd);
+        failed = ferror(src_fd) || fwrite(buf, 1, size, dst_fd) != size;
     }
 
     fclose(src_fd);
-    fclose(dst_fd);
+    if (fclose(dst_fd) != 0) failed = true;
+    if (failed) {
+        remove(dst);
+        fprintf(stderr, "Could not copy file \"%s\" to \"%s\".\n", src, dst);
+        exit(74);
+    }
     return 0;
 }
 
-- 
2.43.0


From b57e60c872b3a91050c62465db8b5a998570d0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:13:54 +0000
Subject: [PATCH 47/55] fix: fail the build when a source directory cannot be
 listed

A directory listing that broke off was taken as complete, so source files
could be left out of the program without an error.
---
 src/build/build.c  | 4 +++-
 src/module_index.c | 6 +++++-
 src/package.c      | 4 +++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/build/build.c b/src/build/build.c
index a1ffa2c..825936d 100644
--- a/src/build/build.c
+++ b/src/build/build.c
@@ -2,6 +2,7 @@
 
 #include <assert.h>
 #include <dirent.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -1370,7 +1371,7 @@ static slice_t *build_modules(toml_table_t *package_conf) {
     DIR *dir = opendir(builtin_dir);
     assertf(dir, "cannot found builtin dir %s", builtin_dir);
     struct dirent *entry;
-    while ((entry = readdir(dir)) != NULL) {
+    while (errno = 0, (entry = readdir(dir)) != NULL) {
         char *filename = strdup(entry->d_name);
         if (!ends_with(filename, ".n")) {
             free(filename);
@@ -1387,6 +1388,7 @@ static slice_t *build_modules(toml_table_t *package_conf) {
             free(full_path);
         }
     }
+    assertf(errno == 0, "cannot read builtin dir %s: %s", builtin_dir, strerror(errno));
     closedir(dir);
 
     qsort(builtin_modules->take, (size_t) builtin_modules->count,
diff --git a/src/module_index.c b/src/module_index.c
index df2c6ef..78fe4b8 100644
--- a/src/module_index.c
+++ b/src/module_index.c
@@ -1,6 +1,7 @@
 #include "module_index.h"
 
 #include <dirent.h>
+#include <errno.h>
 #include <inttypes.h>
 #include <stdarg.h>
 #include <stdlib.h>
@@ -335,12 +336,14 @@ static void package_scan_dir(package_unit_t *pu, table_t *slot_table, slice_t *s
 
     DIR *d = opendir(dir);
     if (!d) {
+        // a directory that is not ours to read is left out, any other failure would silently drop sources
+        assertf(errno == EACCES || errno == EPERM || errno == ENOENT, "cannot open dir '%s': %s", dir, strerror(errno));
         return;
     }
 
     slice_t *entries = slice_new();
     struct dirent *entry;
-    while ((entry = readdir(d)) != NULL) {
+    while (errno = 0, (entry = readdir(d)) != NULL) {
         if (str_equal(entry->d_name, ".") || str_equal(entry->d_name, "..")) {
             continue;
         }
@@ -352,6 +355,7 @@ static void package_scan_dir(package_unit_t *pu, table_t *slot_table, slice_t *s
 
         slice_push(entries, strdup(entry->d_name));
     }
+    assertf(errno == 0, "cannot read dir '%s': %s", dir, strerror(errno));
     closedir(d);
 
     // directory enumeration order must not affect the result, so sort before processing
diff --git a/src/package.c b/src/package.c
index 7c7c1fc..d238086 100644
--- a/src/package.c
+++ b/src/package.c
@@ -4,6 +4,7 @@
 #include "utils/slice.h"
 #include "utils/table.h"
 #include <dirent.h>
+#include <errno.h>
 
 static table_t *std_package_table;
 static table_t *std_temp_package_table;
@@ -22,7 +23,7 @@ bool is_std_package(char *package) {
     assertf(dir, "cannot found std dir %s", std_dir);
 
     struct dirent *entry;
-    while ((entry = readdir(dir)) != NULL) {
+    while (errno = 0, (entry = readdir(dir)) != NULL) {
         if (str_equal(entry->d_name, ".") ||
             str_equal(entry->d_name, "..") ||
             str_equal(entry->d_name, "builtin") ||
@@ -38,6 +39,7 @@ bool is_std_package(char *package) {
             table_set(std_package_table, dirname, (void *) 1);
         }
     }
+    assertf(errno == 0, "cannot read std dir %s: %s", std_dir, strerror(errno));
 
     closedir(dir);
 
-- 
2.43.0


From 4a8434d35779b0523a0f9fe7eff064896ab0b0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:15:26 +0000
Subject: [PATCH 48/55] fix: scan an object again when a struct, union or
 string is stored in it

Only stores of plain pointers told a running gc about the write. A value that
is stored in place, such as a nullable reference, a string or a struct, went
into the object without any barrier. If the gc had already scanned that object,
whatever the value refers to could be freed while still in use.

Stores of such values into struct fields, vec, array, tuple and map elements,
captured variables and through pointers now have the object scanned again.
---
 src/linear.c | 48 ++++++++++++++++++++++++++++++++++++++++++++----
 src/lir.h    |  3 ++-
 2 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/src/linear.c b/src/linear.c
index 11125b4..af1fc21 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -400,6 +400,32 @@ static lir_operand_t *linear_super_move(module_t *m, type_t t, lir_operand_t *ds
     return dst;
 }
 
+/**
+ * A value that is stored in place (struct/union/string/vec...) may contain pointers. When its destination is in the heap,
+ * the object containing the destination must be scanned again by a running gc. Must follow the store.
+ */
+static void linear_store_barrier(module_t *m, type_t t, lir_operand_t *dst) {
+    if (t.storage_kind != STORAGE_KIND_IND || t.storage_size == 0) {
+        return;
+    }
+
+    lir_operand_t *dst_ptr = temp_var_operand(m, type_kind_new(TYPE_ANYPTR));
+    OP_PUSH(lir_op_move(dst_ptr, dst));
+    push_rt_call(m, RT_CALL_SHADE_OBJ, NULL, 1, dst_ptr);
+}
+
+static void linear_store(module_t *m, type_t t, lir_operand_t *dst, ast_expr_t right) {
+    if (t.storage_kind != STORAGE_KIND_IND) {
+        linear_expr(m, right, dst);
+        return;
+    }
+
+    // a gc may start and end while right is evaluated, so nothing can be stored in dst before that
+    lir_operand_t *src = linear_expr(m, right, NULL);
+    linear_super_move(m, t, dst, src);
+    linear_store_barrier(m, t, dst);
+}
+
 static lir_operand_t *linear_default_string(module_t *m, type_t t, lir_operand_t *target) {
     if (!target) {
         target = temp_var_operand_with_alloc(m, t);
@@ -1143,6 +1169,7 @@ static void linear_vec_assign(module_t *m, ast_assign_stmt_t *stmt) {
         }
 
         linear_super_move(m, vec_element_type, target, src);
+        linear_store_barrier(m, vec_element_type, target);
     }
 }
 
@@ -1155,7 +1182,7 @@ static void linear_array_assign(module_t *m, ast_assign_stmt_t *stmt) {
 
         push_rt_call(m, RT_CALL_WRITE_BARRIER, NULL, 2, dst_slot, new_obj);
     } else {
-        linear_expr(m, stmt->right, target);
+        linear_store(m, stmt->left.type, target, stmt->right);
     }
 }
 
@@ -1180,7 +1207,7 @@ static void linear_tuple_assign(module_t *m, ast_assign_stmt_t *stmt) {
             dst = lea_operand_pointer(m, dst);
         }
 
-        linear_expr(m, stmt->right, dst);
+        linear_store(m, stmt->left.type, dst, stmt->right);
     }
 }
 
@@ -1225,6 +1252,7 @@ static void linear_env_assign(module_t *m, ast_assign_stmt_t *stmt) {
 
         if (stmt->left.type.storage_kind == STORAGE_KIND_IND) {
             linked_concat(m->current_closure->operations, lir_memory_mov(m, size, dst_ptr, src));
+            linear_store_barrier(m, stmt->left.type, dst_ptr);
         } else {
             lir_operand_t *dst = indirect_addr_operand(m, stmt->left.type, dst_ptr, 0);
             OP_PUSH(lir_op_move(dst, src)); // dir
@@ -1256,7 +1284,7 @@ static void linear_map_assign(module_t *m, ast_assign_stmt_t *stmt) {
         if (stmt->right.type.storage_kind != STORAGE_KIND_IND) {
             dst = indirect_addr_operand(m, stmt->right.type, dst, 0);
         }
-        linear_expr(m, stmt->right, dst);
+        linear_store(m, stmt->right.type, dst, stmt->right);
     }
 }
 
@@ -1300,7 +1328,7 @@ static void linear_struct_assign(module_t *m, ast_assign_stmt_t *stmt) {
         if (stmt->left.type.storage_kind == STORAGE_KIND_IND) {
             dst_slot = lea_operand_pointer(m, dst_slot);
         }
-        linear_expr(m, stmt->right, dst_slot);
+        linear_store(m, stmt->left.type, dst_slot, stmt->right);
     }
 }
 
@@ -1316,6 +1344,11 @@ static void linear_ia_ptr_assign(module_t *m, ast_assign_stmt_t *stmt) {
 
     // *ptr = [a, b, c]
     // *ptr = 12
+    if (is_gc_alloc(stmt->left.type.kind)) {
+        push_rt_call(m, RT_CALL_WRITE_BARRIER, NULL, 2, ptr_operand, src);
+        return;
+    }
+
     lir_operand_t *dst;
     if (stmt->left.type.storage_kind == STORAGE_KIND_IND) {
         dst = ptr_operand; // super_move 会自动进行全尺寸移动
@@ -1324,6 +1357,7 @@ static void linear_ia_ptr_assign(module_t *m, ast_assign_stmt_t *stmt) {
     }
 
     linear_super_move(m, stmt->left.type, dst, src);
+    linear_store_barrier(m, stmt->left.type, dst);
 }
 
 /**
@@ -1341,6 +1375,12 @@ static void linear_ident_assign(module_t *m, ast_assign_stmt_t *stmt) {
 
     assert(stmt->left.type.kind > 0 && stmt->left.type.kind != TYPE_UNKNOWN);
     linear_super_move(m, stmt->left.type, dst, src);
+
+    ast_ident *ident = stmt->left.value;
+    symbol_t *s = symbol_table_get(ident->literal);
+    if (s && s->is_local && ((ast_var_decl_t *) s->ast_value)->type.in_heap) {
+        linear_store_barrier(m, stmt->left.type, dst);
+    }
 }
 
 /**
diff --git a/src/lir.h b/src/lir.h
index 2386852..8cd875c 100644
--- a/src/lir.h
+++ b/src/lir.h
@@ -64,6 +64,7 @@
 #define RT_CALL_UNSAFE_VEC_NEW "rt_unsafe_vec_new"
 
 #define RT_CALL_WRITE_BARRIER "write_barrier"
+#define RT_CALL_SHADE_OBJ "rt_shade_obj_with_barrier"
 
 #define RT_CALL_PTR_VALID "ptr_valid"
 
@@ -252,7 +253,7 @@ static inline bool is_rtcall(string target) {
     return str_equal(target, RT_CALL_SET_ADD) || str_equal(target, RT_CALL_SET_DELETE) ||
            str_equal(target, RT_CALL_SET_CONTAINS) || str_equal(target, RT_CALL_SET_NEW) ||
            str_equal(target, RT_CALL_VEC_CAP) || str_equal(target, RT_CALL_ARRAY_NEW) ||
-           str_equal(target, RT_CALL_WRITE_BARRIER) ||
+           str_equal(target, RT_CALL_WRITE_BARRIER) || str_equal(target, RT_CALL_SHADE_OBJ) ||
            str_equal(target, RT_CALL_PTR_VALID) ||
            str_equal(target, RT_CALL_MAP_NEW) || str_equal(target, RT_CALL_MAP_ACCESS) ||
            str_equal(target, RT_CALL_MAP_ASSIGN) || str_equal(target, RT_CALL_MAP_LENGTH) ||
-- 
2.43.0


From 0189a101580fbbe96644ba58ee62c6621d0622ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:15:26 +0000
Subject: [PATCH 49/55] fix: scan a vec again when elements are appended or
 copied into it

append and copy write the elements with memmove. A gc that had already scanned
the vec never saw them and could free what they refer to.
---
 runtime/nutils/vec.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/nutils/vec.c b/runtime/nutils/vec.c
index 706de90..a53c33b 100644
--- a/runtime/nutils/vec.c
+++ b/runtime/nutils/vec.c
@@ -342,6 +342,7 @@ void rt_vec_append(n_vec_t *dst, n_vec_t *src, int64_t element_hash) {
     }
 
     memmove(dst->data + dst->length * dst->element_size, src->data, src->length * src->element_size);
+    rt_shade_obj_with_barrier(dst->data);
     dst->length += src->length;
 }
 
@@ -447,6 +448,7 @@ uint64_t rt_vec_copy(n_vec_t *dst, n_vec_t src) {
 
     if (copy_len > 0) {
         memmove(dst->data, src.data, copy_len * src.element_size);
+        rt_shade_obj_with_barrier(dst->data);
     }
 
     DEBUGF("[rt_vec_copy] copied %lu elements from %p to %p", copy_len, src, dst);
-- 
2.43.0


From ab7ec045e5022684612905c832e067e6eea407f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:15:26 +0000
Subject: [PATCH 50/55] fix: scan objects under construction again at the end
 of marking

The fields of an object created with new are written without a barrier. When a
field value takes long to evaluate, a gc may scan the object before the field is
stored and free what the field refers to. Only the stack of its creator refers
to such an object, so the objects on the stacks are scanned again.
---
 runtime/collector.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/runtime/collector.c b/runtime/collector.c
index f68d181..ddca90a 100644
--- a/runtime/collector.c
+++ b/runtime/collector.c
@@ -1006,6 +1006,9 @@ static void scan_global(rt_linked_fixalloc_t *worklist) {
  * hold now may not be marked yet. Must be called in STW.
  */
 static void gc_rescan_roots() {
+    rt_linked_fixalloc_t stack_roots;
+    rt_linked_fixalloc_init(&stack_roots);
+
     PROCESSOR_FOR(processor_list) {
         rt_linked_node_t *current = p->co_list.head;
         while (current->value != NULL) {
@@ -1026,11 +1029,22 @@ static void gc_rescan_roots() {
                 insert_gc_worklist(&global_gc_worklist, co->future);
             }
             if (co->aco.inited) {
-                scan_stack(p, co, &global_gc_worklist);
+                scan_stack(p, co, &stack_roots);
             }
         }
     }
 
+    // An object that is still being initialized is written without a barrier and only its creator's stack refers to it,
+    // so the objects on the stacks have to be scanned again even if they are already marked.
+    while (true) {
+        void *obj = rt_linked_fixalloc_pop(&stack_roots);
+        if (!obj) {
+            break;
+        }
+        shade_obj_grey(obj);
+    }
+    rt_linked_fixalloc_free(&stack_roots);
+
     scan_global(&global_gc_worklist);
 
     while (true) {
-- 
2.43.0


From f63345bf0603346c858b53f11b62610de5ddcd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:20:22 +0000
Subject: [PATCH 51/55] fix: fail the archive when a write to it fails half-way

The archive writer went on after a short fwrite. The bytes the stream had
buffered are gone by then, so the archive was reported as complete with a
hole in it.
---
 src/build/archive.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/build/archive.c b/src/build/archive.c
index a20943b..e191e77 100644
--- a/src/build/archive.c
+++ b/src/build/archive.c
@@ -45,14 +45,8 @@ static bool build_archive_field(char *header, size_t offset, size_t width,
 
 static bool build_archive_write_all(FILE *file, const void *bytes,
                                     size_t size) {
-    const uint8_t *cursor = bytes;
-    while (size) {
-        size_t written = fwrite(cursor, 1U, size, file);
-        if (!written) return false;
-        cursor += written;
-        size -= written;
-    }
-    return true;
+    // a short count is an error: what the stream had buffered may be lost, so writing the rest cannot repair it
+    return fwrite(bytes, 1U, size, file) == size;
 }
 
 static bool build_archive_write_member(FILE *archive, const char *path,
-- 
2.43.0


From 703003366cec73af362f224392c9bcdaf1d80fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:40:46 +0000
Subject: [PATCH 52/55] fix: keep a file open while an operation on it is in
 progress

close() closed the descriptor at once, also while another coroutine's read,
write or stat on the same file was queued. The descriptor could by then
belong to a file opened in between, so the queued write went into the wrong
file. Two coroutines closing one file could close its descriptor twice.
The descriptor is now closed by whoever leaves the file last.
---
 runtime/nutils/fs.c | 68 ++++++++++++++++++++++++++++++---------------
 runtime/nutils/fs.h |  1 +
 2 files changed, 46 insertions(+), 23 deletions(-)

diff --git a/runtime/nutils/fs.c b/runtime/nutils/fs.c
index 98c2433..682388a 100644
--- a/runtime/nutils/fs.c
+++ b/runtime/nutils/fs.c
@@ -50,6 +50,41 @@ static inline fs_op_t *fs_op_new(coroutine_t *co, n_int_t fd) {
     return op;
 }
 
+static void uv_async_fs_close(fs_context_t *ctx, coroutine_t *co) {
+    // 同步方式关闭文件
+    uv_fs_t req;
+    int result = uv_fs_close(&global_loop, &req, ctx->fd, NULL);
+    if (result < 0) {
+        DEBUGF("[fs_close] close file failed: %s", uv_strerror(result));
+    } else {
+        DEBUGF("[fs_close] close file success");
+    }
+    uv_fs_req_cleanup(&req);
+
+    co_ready(co);
+}
+
+/**
+ * 操作期间 fd 不能被关闭, 否则 fd 可能已经属于另一个文件
+ */
+static bool fs_acquire(fs_context_t *ctx, coroutine_t *co) {
+    int32_t users = __atomic_load_n(&ctx->users, __ATOMIC_ACQUIRE);
+    do {
+        if (users == 0 || __atomic_load_n(&ctx->closed, __ATOMIC_ACQUIRE)) {
+            rti_co_throw(co, "fd already closed", false);
+            return false;
+        }
+    } while (!__atomic_compare_exchange_n(&ctx->users, &users, users + 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE));
+
+    return true;
+}
+
+static void fs_release(fs_context_t *ctx) {
+    if (__atomic_sub_fetch(&ctx->users, 1, __ATOMIC_ACQ_REL) == 0) {
+        global_waiting_send(uv_async_fs_close, ctx, coroutine_get(), 0);
+    }
+}
+
 static void on_write_cb(uv_fs_t *req) {
     fs_op_t *op = CONTAINER_OF(req, fs_op_t, req);
     coroutine_t *co = req->data;
@@ -157,6 +192,7 @@ fs_context_t *rt_uv_fs_from(n_int_t fd, n_string_t name) {
     }
 
     ctx->fd = fd;
+    ctx->users = 1;
     DEBUGF("[fs_from] create file context from fd: %ld, name: %s", fd,
            (char *) rt_string_ref(&name));
 
@@ -193,6 +229,7 @@ fs_context_t *rt_uv_fs_open(n_string_t path, int64_t flags, int64_t mode) {
 
     global_waiting_send(uv_async_fs_open, op, rt_string_ref(&path), 0);
     ctx->fd = op->fd;
+    ctx->users = 1;
     free(op);
 
     if (co->has_error) {
@@ -219,8 +256,7 @@ n_int_t rt_uv_fs_read_at(fs_context_t *ctx, n_vec_t buf, int64_t offset) {
     n_processor_t *p = processor_get();
     DEBUGF("[rt_uv_fs_read] read file: %ld", ctx->fd);
 
-    if (ctx->closed) {
-        rti_co_throw(co, "fd already closed", false);
+    if (!fs_acquire(ctx, co)) {
         return 0;
     }
 
@@ -233,6 +269,7 @@ n_int_t rt_uv_fs_read_at(fs_context_t *ctx, n_vec_t buf, int64_t offset) {
     global_waiting_send(uv_async_fs_read_at, op, 0, 0);
     int64_t result = op->result;
     free(op);
+    fs_release(ctx);
 
     if (co->has_error) {
         n_string_t msg = rti_error_msg(&co->error);
@@ -254,8 +291,7 @@ n_int_t rt_uv_fs_write_at(fs_context_t *ctx, n_vec_t buf, int64_t offset) {
     coroutine_t *co = coroutine_get();
     n_processor_t *p = processor_get();
 
-    if (ctx->closed) {
-        rti_co_throw(co, "fd already closed", false);
+    if (!fs_acquire(ctx, co)) {
         return 0;
     }
 
@@ -269,6 +305,7 @@ n_int_t rt_uv_fs_write_at(fs_context_t *ctx, n_vec_t buf, int64_t offset) {
     global_waiting_send(uv_async_fs_write_at, op, 0, 0);
     int64_t result = op->result;
     free(op);
+    fs_release(ctx);
 
     if (co->has_error) {
         n_string_t msg = rti_error_msg(&co->error);
@@ -285,31 +322,16 @@ n_int_t rt_uv_fs_write(fs_context_t *ctx, n_vec_t buf) {
     return rt_uv_fs_write_at(ctx, buf, -1);
 }
 
-static void uv_async_fs_close(fs_context_t *ctx, coroutine_t *co) {
-    // 同步方式关闭文件
-    uv_fs_t req;
-    int result = uv_fs_close(&global_loop, &req, ctx->fd, NULL);
-    if (result < 0) {
-        DEBUGF("[fs_close] close file failed: %s", uv_strerror(result));
-    } else {
-        DEBUGF("[fs_close] close file success");
-    }
-    uv_fs_req_cleanup(&req);
-
-    co_ready(co);
-}
-
 void rt_uv_fs_close(fs_context_t *ctx) {
     n_processor_t *p = processor_get();
     DEBUGF("[fs_close] close file: %ld", ctx->fd);
 
     // 重复关闭直接返回
-    if (ctx->closed) {
+    if (__atomic_exchange_n(&ctx->closed, true, __ATOMIC_ACQ_REL)) {
         return;
     }
-    ctx->closed = true;
 
-    global_waiting_send(uv_async_fs_close, ctx, coroutine_get(), 0);
+    fs_release(ctx);
 }
 
 
@@ -346,8 +368,7 @@ uv_stat_t rt_uv_fs_stat(fs_context_t *ctx) {
     n_processor_t *p = processor_get();
     uv_stat_t stat_result = {0};
 
-    if (ctx->closed) {
-        rti_co_throw(co, "fd already closed", false);
+    if (!fs_acquire(ctx, co)) {
         return stat_result;
     }
 
@@ -370,6 +391,7 @@ uv_stat_t rt_uv_fs_stat(fs_context_t *ctx) {
     // Clean up request
     uv_fs_req_cleanup(&op->req);
     free(op);
+    fs_release(ctx);
 
     return stat_result;
 }
diff --git a/runtime/nutils/fs.h b/runtime/nutils/fs.h
index 4b8dd60..0a9ce2a 100644
--- a/runtime/nutils/fs.h
+++ b/runtime/nutils/fs.h
@@ -13,6 +13,7 @@ typedef struct {
     n_int64_t data_len;
     n_int64_t data_cap;
     bool closed;
+    int32_t users; // 打开者与正在进行的操作, 归零时才会真正关闭 fd
 } fs_context_t;
 
 // 同一个文件可以被多个 coroutine 同时操作，所以每次操作都使用独立的 req
-- 
2.43.0


From 03b31b83074ac977bcb93b9d8d638352866b22bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:12:04 +0000
Subject: [PATCH 53/55] fix: take no lock in the signal handler

---
 runtime/nutils/rt_signal.c |  2 +-
 runtime/nutils/rt_signal.h | 14 +++-----------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/runtime/nutils/rt_signal.c b/runtime/nutils/rt_signal.c
index b50bb68..1cfc98e 100644
--- a/runtime/nutils/rt_signal.c
+++ b/runtime/nutils/rt_signal.c
@@ -6,7 +6,7 @@
 // sig to ch list
 ATOMIC int64_t signal_recv = 0;
 
-int64_t signal_mask = 0;
+ATOMIC int64_t signal_mask = 0;
 
 pthread_mutex_t signal_locker = PTHREAD_MUTEX_INITIALIZER;
 
diff --git a/runtime/nutils/rt_signal.h b/runtime/nutils/rt_signal.h
index be14e43..adccf1b 100644
--- a/runtime/nutils/rt_signal.h
+++ b/runtime/nutils/rt_signal.h
@@ -16,7 +16,7 @@
 #endif
 
 extern ATOMIC int64_t signal_recv;
-extern int64_t signal_mask;
+extern ATOMIC int64_t signal_mask;
 extern pthread_mutex_t signal_locker;
 extern struct sc_map_64 signal_handlers;
 
@@ -46,24 +46,16 @@ static inline bool signal_intercepted(int sig) {
 }
 
 static inline void signal_handle(int sig) {
-    pthread_mutex_lock(&signal_locker);
+    // 信号可能打断持有 signal_locker 的线程, 所以这里不能加锁
     DEBUGF("[runtime.signal_handle] signal %d received", sig);
     // 判断信号是否 mask
     if (signal_intercepted(sig)) {
-        int64_t recv = atomic_load(&signal_recv);
-
-        recv |= 1 << sig;
-
-        // 设置 recv 的值
-        atomic_store(&signal_recv, recv);
+        atomic_fetch_or(&signal_recv, 1 << sig);
 
         DEBUGF("[runtime.signal_handle] signal %d received, current signal_recv %ld", sig, signal_recv);
-        pthread_mutex_unlock(&signal_locker);
         return;
     }
 
-    pthread_mutex_unlock(&signal_locker);
-
 #ifdef __WINDOWS
     if (sig == SIGINT || sig == SIGTERM) {
 #else
-- 
2.43.0


From 4d9b173681455887fadcb46b2836a13d7abeadf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:12:04 +0000
Subject: [PATCH 54/55] fix: count a repeated registration of a channel for a
 signal once

---
 runtime/nutils/rt_signal.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/runtime/nutils/rt_signal.c b/runtime/nutils/rt_signal.c
index 1cfc98e..83f98ea 100644
--- a/runtime/nutils/rt_signal.c
+++ b/runtime/nutils/rt_signal.c
@@ -30,8 +30,11 @@ void signal_notify(n_chan_t *ch, n_vec_t signals) {
                 continue;
             }
 
+            // 同一个 channel 重复注册同一信号只计数一次, signal_stop 只会减一次
+            if (!(mask & (1 << sig))) {
+                sig_ref[sig]++;
+            }
             mask |= 1 << sig;
-            sig_ref[sig]++;
 
             // set mask
             signal_mask |= 1 << sig;
@@ -45,8 +48,11 @@ void signal_notify(n_chan_t *ch, n_vec_t signals) {
                 continue;
             }
 
+            // 同一个 channel 重复注册同一信号只计数一次, signal_stop 只会减一次
+            if (!(mask & (1 << sig))) {
+                sig_ref[sig]++;
+            }
             mask |= 1 << sig;
-            sig_ref[sig]++;
 
             // set mask
             signal_mask |= 1 << sig;
-- 
2.43.0


From 0defe1f2a5e6a143b74220596fe13e6cfd03eff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:12:04 +0000
Subject: [PATCH 55/55] fix: keep channels that are registered for signals
 alive

---
 runtime/collector.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/runtime/collector.c b/runtime/collector.c
index ddca90a..bae3ed4 100644
--- a/runtime/collector.c
+++ b/runtime/collector.c
@@ -1,6 +1,7 @@
 #include "fixalloc.h"
 #include "gcbits.h"
 #include "memory.h"
+#include "nutils/rt_signal.h"
 #include "processor.h"
 
 static void insert_gc_worklist(rt_linked_fixalloc_t *gc_worklist, void *ptr) {
@@ -998,6 +999,14 @@ static void scan_global(rt_linked_fixalloc_t *worklist) {
         }
     }
 
+    // 通过 signal_notify 注册的 channel 可能只被 signal_handlers 引用
+    uint64_t ch;
+    sc_map_foreach_key(&signal_handlers, ch) {
+        if (span_of(ch)) {
+            rt_linked_fixalloc_push(worklist, (void *) ch);
+        }
+    }
+
     RDEBUGF("[runtime_gc.scan_global] scan global completed");
 }
 
-- 
2.43.0

