From 6617c602026c3c953dd801856848bae9344d599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 01/16] fix: classify an algorithm that uses none of a resource
 on both passes as O(1)

---
 src/low_level_analysis/low_level_analysis.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/low_level_analysis/low_level_analysis.rs b/src/low_level_analysis/low_level_analysis.rs
index 9b7c051..1600377 100644
--- a/src/low_level_analysis/low_level_analysis.rs
+++ b/src/low_level_analysis/low_level_analysis.rs
@@ -10,6 +10,10 @@ use super::{
 /// utilization on passes 1 & 2 and, likewise, `n1` & `n2` represent the number of element, iterations or computations
 /// -- in other words, represents the `n` in the Big-O notation... `O(n)`, `O(log(n))`, `O(n²)`, etc...
 pub fn analyse_complexity(u1: f64, u2: f64, n1: f64, n2: f64) -> BigOAlgorithmComplexity {
+    // same utilization on both passes -- including "no utilization at all", for which `u2 / u1` would not be a number
+    if u1 == u2 {
+        return BigOAlgorithmComplexity::O1;
+    }
     if (u2 / u1) < 1.0 - PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::BetterThanO1
     } else if ((u2 / u1) - 1.0).abs() <= PERCENT_TOLERANCE {
@@ -52,6 +56,10 @@ pub fn analyse_complexity(u1: f64, u2: f64, n1: f64, n2: f64) -> BigOAlgorithmCo
 ///   - `u1` & `u2` are the resource utilization on passes 1 & 2
 ///   - `n` represent the number of element added or remove on each pass
 pub fn analyse_set_resizing_iterator_complexity(u1: f64, u2: f64, n: f64) -> BigOAlgorithmComplexity {
+    // same utilization on both passes -- including "no utilization at all", for which `u2 / u1` would not be a number
+    if u1 == u2 {
+        return BigOAlgorithmComplexity::O1;
+    }
     if ((u1 / u2) - 1.0) > PERCENT_TOLERANCE {
         // sanity check
         BigOAlgorithmComplexity::BetterThanO1
-- 
2.43.0


From 10e9d3a3bdaadd9bf06fa78999ad93c13f6746e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 02/16] fix: do not account for allocations that the system
 allocator refused

---
 src/metrics_allocator/metrics_allocator.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index b18cbd8..0c5cbdf 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -267,20 +267,29 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
 /// the global allocator
 unsafe impl<const RING_BUFFER_SIZE: usize> GlobalAlloc for MetricsAllocator<'_, RING_BUFFER_SIZE> {
     unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
-        self.compute_alloc_metrics(&layout);
-        self.system_allocator.alloc(layout)
+        let ptr = self.system_allocator.alloc(layout);
+        if !ptr.is_null() {
+            self.compute_alloc_metrics(&layout);
+        }
+        ptr
     }
     unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
         self.compute_dealloc_metrics(&layout);
         self.system_allocator.dealloc(ptr, layout)
     }
     unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
-        self.compute_alloc_zeroed_metrics(&layout);
-        self.system_allocator.alloc_zeroed(layout)
+        let ptr = self.system_allocator.alloc_zeroed(layout);
+        if !ptr.is_null() {
+            self.compute_alloc_zeroed_metrics(&layout);
+        }
+        ptr
     }
     unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
-        self.compute_realloc_metrics(&layout, new_size);
-        self.system_allocator.realloc(ptr, layout, new_size)
+        let new_ptr = self.system_allocator.realloc(ptr, layout, new_size);
+        if !new_ptr.is_null() {
+            self.compute_realloc_metrics(&layout, new_size);
+        }
+        new_ptr
     }
 }
 
-- 
2.43.0


From 7ac445fe1fd86a327e22d16b84798dbbb482cec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 03/16] fix: do not drop uninitialized ring buffer slots when
 they are first set

---
 src/metrics_allocator/ring_buffer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 1b1784a..94cf5f2 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -63,7 +63,13 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
             let mut_ptr = const_ptr as *mut [Slot; RING_BUFFER_SIZE];
             &mut *mut_ptr
         };
-        mutable_buffer[reserved_tail as usize % RING_BUFFER_SIZE] = element;
+        let slot = &mut mutable_buffer[reserved_tail as usize % RING_BUFFER_SIZE];
+        if (reserved_tail as usize) < RING_BUFFER_SIZE {
+            // first lap: the slot was never set -- there is no previous element to drop
+            unsafe { std::ptr::write(slot, element) }
+        } else {
+            *slot = element;
+        }
 
         // publish the new element for consumption
         loop {
-- 
2.43.0


From 35b884bab19e046c6f06e233efd494d66b52d8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 04/16] fix: ring buffer counters no longer overflow after 2^32
 enqueues

---
 src/metrics_allocator/ring_buffer.rs | 30 +++++++++++++++-------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 94cf5f2..94ffe14 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -4,7 +4,9 @@
 //!   3) Each consumer holds their own state (their 'head' pointer), therefore access should be done through a special structure [RingBufferConsumer]
 //!   4) Due to (1), any buffer overflows happens silently in the producer, when enqueueing -- overflows are only detectable by the consumers.
 //!      Please see more on [RingBufferConsumer] docs;
-use std::sync::atomic::{AtomicU32, Ordering};
+use std::sync::atomic::{AtomicUsize, Ordering};
+#[cfg(test)]
+use std::sync::atomic::AtomicU32;
 use std::mem::MaybeUninit;
 use std::io::ErrorKind;
 use std::fmt::{Display, Formatter};
@@ -19,9 +21,9 @@ use std::fmt::{Display, Formatter};
 /// See [self] for more info.
 pub struct RingBuffer<Slot, const RING_BUFFER_SIZE: usize> {
     /// if ahead of [published_tail], indicates new slots is being filled in, to soon be published
-    reserved_tail: AtomicU32,
+    reserved_tail: AtomicUsize,
     /// once the slot data is set in place, this counter increases to indicate a new element is ready to be consumed
-    published_tail: AtomicU32,
+    published_tail: AtomicUsize,
     /// the data
     buffer: MaybeUninit<[Slot; RING_BUFFER_SIZE]>,
 }
@@ -38,8 +40,8 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
 
     pub const fn new() -> Self {
         Self {
-            reserved_tail: AtomicU32::new(0),
-            published_tail: AtomicU32::new(0),
+            reserved_tail: AtomicUsize::new(0),
+            published_tail: AtomicUsize::new(0),
             buffer: MaybeUninit::uninit(),
         }
     }
@@ -47,7 +49,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
     /// creates a consumer able to consume elements produced after this call
     pub fn consumer(&self) -> RingBufferConsumer<'_, Slot, RING_BUFFER_SIZE> {
         RingBufferConsumer {
-            head: AtomicU32::new(self.published_tail.load(Ordering::Relaxed)),
+            head: AtomicUsize::new(self.published_tail.load(Ordering::Relaxed)),
             ring_buffer: self,
         }
     }
@@ -63,8 +65,8 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
             let mut_ptr = const_ptr as *mut [Slot; RING_BUFFER_SIZE];
             &mut *mut_ptr
         };
-        let slot = &mut mutable_buffer[reserved_tail as usize % RING_BUFFER_SIZE];
-        if (reserved_tail as usize) < RING_BUFFER_SIZE {
+        let slot = &mut mutable_buffer[reserved_tail % RING_BUFFER_SIZE];
+        if reserved_tail < RING_BUFFER_SIZE {
             // first lap: the slot was never set -- there is no previous element to drop
             unsafe { std::ptr::write(slot, element) }
         } else {
@@ -108,7 +110,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
 /// If these 3 steps are not enough, you might consider using a non-zero-cost multiple consumers ring-buffer, a non-zero-copy one or even a
 /// single-consumer ring-buffer. If you know of a way of solving this limitation here, please share.
 pub struct RingBufferConsumer<'a, Slot, const RING_BUFFER_SIZE: usize> {
-    head: AtomicU32,
+    head: AtomicUsize,
     ring_buffer: &'a RingBuffer<Slot, RING_BUFFER_SIZE>,
 }
 impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFFER_SIZE> {
@@ -133,10 +135,10 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
                 Ok(_) => unsafe {
                     let ptr = self.ring_buffer.buffer.as_ptr();
                     let array = &*ptr;
-                    if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
+                    if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE {
                         return Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) });
                     }
-                    return Ok(Some(&array[head as usize % RING_BUFFER_SIZE]))
+                    return Ok(Some(&array[head % RING_BUFFER_SIZE]))
                 },
                 Err(reloaded_head) => head = reloaded_head,
             }
@@ -167,11 +169,11 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     pub fn peek_all(&self) -> Result<[&[Slot];2], RingBufferOverflowError> {
         let head = self.head.load(Ordering::Relaxed);
         let published_tail = self.ring_buffer.published_tail.load(Ordering::Relaxed);
-        let head_index           = head as usize % RING_BUFFER_SIZE;
-        let published_tail_index = published_tail as usize % RING_BUFFER_SIZE;
+        let head_index           = head % RING_BUFFER_SIZE;
+        let published_tail_index = published_tail % RING_BUFFER_SIZE;
         if head == published_tail {
             Ok([&[],&[]])
-        } else if published_tail - head > RING_BUFFER_SIZE as u32 {
+        } else if published_tail - head > RING_BUFFER_SIZE {
             Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) })
         } else if head_index < published_tail_index {
             unsafe {
-- 
2.43.0


From cb8d6f1d7855de288930882e2f95d558de2f5136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 05/16] fix: an overflown ring buffer consumer keeps on failing
 -- as documented

---
 src/metrics_allocator/ring_buffer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 94ffe14..2afb0f3 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -131,13 +131,14 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
             if head == published_tail {
                 return Ok(None);
             }
+            // check for overflows before moving the head, so this consumer keeps on failing from now on
+            if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE {
+                return Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) });
+            }
             match self.head.compare_exchange_weak(head, head + 1, Ordering::Acquire, Ordering::Relaxed) {
                 Ok(_) => unsafe {
                     let ptr = self.ring_buffer.buffer.as_ptr();
                     let array = &*ptr;
-                    if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE {
-                        return Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) });
-                    }
                     return Ok(Some(&array[head % RING_BUFFER_SIZE]))
                 },
                 Err(reloaded_head) => head = reloaded_head,
-- 
2.43.0


From 92ab383ff183e841931ed6a1715a0386269d86a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 06/16] fix: run all the iterations even if they cannot be
 evenly split among the threads

---
 src/runners/common.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/runners/common.rs b/src/runners/common.rs
index d8a62d8..a4efb34 100644
--- a/src/runners/common.rs
+++ b/src/runners/common.rs
@@ -121,12 +121,14 @@ pub(crate) fn run_iterator_pass<'a, _AlgorithmClosure: Fn(u32) -> u32 + Sync>
     crossbeam::scope(|scope| {
 
         // start all threads
-        let i32_range = range.end as i32 .. range.start as i32;
-        let chunk_size = (i32_range.end-i32_range.start)/threads as i32;
+        let i64_range = range.end as i64 .. range.start as i64;
+        let chunk_size = (i64_range.end-i64_range.start)/threads as i64;
         let mut thread_handlers: Vec<crossbeam::thread::ScopedJoinHandle<ThreadLoopResult>> = Vec::with_capacity(threads as usize);
         let allocator_savepoint = features::ALLOC.save_point();
-        for n in 0..threads as i32 {
-            let chunked_range = i32_range.start+chunk_size*n..i32_range.start+chunk_size*(n+1);
+        for n in 0..threads as i64 {
+            // the last thread also takes the remainder, if `threads` is not a divisor of the number of iterations
+            let chunk_end = if n == threads as i64 - 1 { i64_range.end } else { i64_range.start+chunk_size*(n+1) };
+            let chunked_range = i64_range.start+chunk_size*n..chunk_end;
             thread_handlers.push( scope.spawn(move |_| thread_loop(iterator_algorithm, algorithm_type, chunked_range.start as u32 .. chunked_range.end as u32)) );
         }
 
-- 
2.43.0


From ad593e2b066b904b9bad21589c40c6dfd5e1c6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 07/16] fix: do not run CRUD operations with no threads -- as
 documented

---
 src/runners/crud.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 2765e75..62ae1a4 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -218,6 +218,12 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
                                              CRUDComplexityAnalysisError>
                                    where PassResult: Copy {
 
+    // operations with no threads are not run -- just like the ones with no iterations
+    let create_iterations_per_pass = if create_threads > 0 { create_iterations_per_pass } else { 0 };
+    let   read_iterations_per_pass = if   read_threads > 0 {   read_iterations_per_pass } else { 0 };
+    let update_iterations_per_pass = if update_threads > 0 { update_iterations_per_pass } else { 0 };
+    let delete_iterations_per_pass = if delete_threads > 0 { delete_iterations_per_pass } else { 0 };
+
     let mut full_report = String::with_capacity(2048);
 
     // wrap around the original 'OUTPUT' function to capture the [full_report]
-- 
2.43.0


From c2aeed74cd6e793c325a9b1e124c0a2bf05f538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 08/16] fix: CRUD tests never pass without running every
 enabled operation

---
 src/runners/crud.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 62ae1a4..2690683 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -46,7 +46,7 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
         match attempt {
             0 => iterations_per_pass,
             _ => match (attempt-1) % 3 {
-                0 => iterations_per_pass / factor,
+                0 => (iterations_per_pass / factor).max(iterations_per_pass.min(1)),  // never disables an enabled operation
                 1 => iterations_per_pass - (iterations_per_pass / factor),
                 2 => iterations_per_pass + (iterations_per_pass / factor),
                 _ => panic!("fix this match")
@@ -55,6 +55,9 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
 
     }
 
+    // always run at least once -- otherwise nothing would be enforced
+    let max_retry_attempts = max_retry_attempts.max(1);
+
     let mut collected_errors = Vec::<CRUDComplexityAnalysisError>::with_capacity(max_retry_attempts as usize);
 
     // in order to reduce false-negatives, retry up to 'max_retry_attempts' if time complexity don't match
-- 
2.43.0


From 6c75ff4f375c6fbb6c9972b2ad7cc084f6bf69bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 09/16] fix: warming up more than 42 million iterations does
 not overflow

---
 src/runners/crud.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 2690683..6193f89 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -440,8 +440,9 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
     if warmup_percentage > 0 {
 
         // warmup ranges
-        let calc_warmup_cru_range = |iterations_per_pass|  0 .. iterations_per_pass * warmup_percentage / 100;
-        let calc_warmup_d_range = |iterations_per_pass| iterations_per_pass * warmup_percentage / 100 .. 0;
+        let calc_warmup_iterations = |iterations_per_pass: u32| (iterations_per_pass as u64 * warmup_percentage as u64 / 100) as u32;
+        let calc_warmup_cru_range = |iterations_per_pass|  0 .. calc_warmup_iterations(iterations_per_pass);
+        let calc_warmup_d_range = |iterations_per_pass| calc_warmup_iterations(iterations_per_pass) .. 0;
 
         let warmup_start = Instant::now();
         _output("warming up [");
@@ -467,7 +468,7 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
             r ^= warmup_r;
         }
         _output("] ");
-        reset_fn(create_iterations_per_pass * warmup_percentage / 100);
+        reset_fn(calc_warmup_iterations(create_iterations_per_pass));
 
         let warmup_end = Instant::now();
         let warmup_elapsed = warmup_end.duration_since(warmup_start);
-- 
2.43.0


From 81843adb2930ab727339a7bb4ee88e9650bdabc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 10/16] fix: the auxiliary space of a pass is computed
 independently from the other pass

---
 src/low_level_analysis/types/types_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/low_level_analysis/types/types_impl.rs b/src/low_level_analysis/types/types_impl.rs
index 5b6d52d..fcfe493 100644
--- a/src/low_level_analysis/types/types_impl.rs
+++ b/src/low_level_analysis/types/types_impl.rs
@@ -154,8 +154,8 @@ impl BigOSpaceMeasurements {
     /// auxiliary space refers to the memory used during the computation and then freed before ending the computation --
     /// returns max_used_ram - max(used_memory_delta, used_memory_start), meaning: >0 if auxiliary memory was allocated
     pub fn used_auxiliary_space(&self) -> usize {
-        self.pass_2_measurements.max_used_memory - std::cmp::max(self.pass_2_measurements.used_memory_after, self.pass_2_measurements.used_memory_before) +
-            self.pass_1_measurements.max_used_memory - std::cmp::max(self.pass_1_measurements.used_memory_after, self.pass_1_measurements.used_memory_before)
+        (self.pass_2_measurements.max_used_memory - std::cmp::max(self.pass_2_measurements.used_memory_after, self.pass_2_measurements.used_memory_before)) +
+            (self.pass_1_measurements.max_used_memory - std::cmp::max(self.pass_1_measurements.used_memory_after, self.pass_1_measurements.used_memory_before))
     }
 }
 impl Display for BigOSpaceMeasurements {
-- 
2.43.0


From 9d006a54ef61530bfce7165855acea6684385137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:21 +0000
Subject: [PATCH 11/16] verification hooks (cfg kani / verif): contracts on the
 analysis functions, access to internal state

---
 src/lib.rs                                    |   5 +
 src/low_level_analysis/low_level_analysis.rs  |   2 +
 src/low_level_analysis/space_analysis.rs      |   6 +
 src/low_level_analysis/time_analysis.rs       |   3 +
 src/low_level_analysis/types/types_impl.rs    |   4 +
 src/metrics_allocator/metrics_allocator.rs    |  54 +++++++
 src/metrics_allocator/ring_buffer.rs          |  30 ++++
 .../measurements/presentable_measurements.rs  |  10 ++
 src/verif_hooks.rs                            | 147 ++++++++++++++++++
 9 files changed, 261 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 6651f60..e809f74 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![doc = include_str!("../README.md")]
+#![allow(unexpected_cfgs)]   // `kani` & `verif`: see `verif_hooks.rs`
 
 
 mod api;
@@ -20,3 +21,7 @@ pub use {
         crud::test_crud_algorithms,
     },
 };
+
+#[cfg(any(kani, verif))]
+#[doc(hidden)]
+pub mod verif_hooks;
diff --git a/src/low_level_analysis/low_level_analysis.rs b/src/low_level_analysis/low_level_analysis.rs
index 1600377..b539c84 100644
--- a/src/low_level_analysis/low_level_analysis.rs
+++ b/src/low_level_analysis/low_level_analysis.rs
@@ -9,6 +9,7 @@ use super::{
 /// Performs the Algorithm Complexity Analysis on the resource denoted by `u`, where `u1` & `u2` are the resource
 /// utilization on passes 1 & 2 and, likewise, `n1` & `n2` represent the number of element, iterations or computations
 /// -- in other words, represents the `n` in the Big-O notation... `O(n)`, `O(log(n))`, `O(n²)`, etc...
+#[cfg_attr(kani, kani::ensures(|class: &BigOAlgorithmComplexity| *class == crate::verif_hooks::spec::complexity(u1, u2, n1, n2)))]
 pub fn analyse_complexity(u1: f64, u2: f64, n1: f64, n2: f64) -> BigOAlgorithmComplexity {
     // same utilization on both passes -- including "no utilization at all", for which `u2 / u1` would not be a number
     if u1 == u2 {
@@ -55,6 +56,7 @@ pub fn analyse_complexity(u1: f64, u2: f64, n1: f64, n2: f64) -> BigOAlgorithmCo
 /// Performs the Algorithm Complexity Analysis on an iterator algorithm that alters the elements it operates on as it runs.\
 ///   - `u1` & `u2` are the resource utilization on passes 1 & 2
 ///   - `n` represent the number of element added or remove on each pass
+#[cfg_attr(kani, kani::ensures(|class: &BigOAlgorithmComplexity| *class == crate::verif_hooks::spec::set_resizing_complexity(u1, u2, n)))]
 pub fn analyse_set_resizing_iterator_complexity(u1: f64, u2: f64, n: f64) -> BigOAlgorithmComplexity {
     // same utilization on both passes -- including "no utilization at all", for which `u2 / u1` would not be a number
     if u1 == u2 {
diff --git a/src/low_level_analysis/space_analysis.rs b/src/low_level_analysis/space_analysis.rs
index 07e8a05..f11690a 100644
--- a/src/low_level_analysis/space_analysis.rs
+++ b/src/low_level_analysis/space_analysis.rs
@@ -11,6 +11,8 @@ use crate::low_level_analysis::{
 
 
 /// Performs space complexity analysis for regular, non-iterator algorithms, such as `fib(n)`, `sort(n)`, `bsearch(e, n)`, ...
+#[cfg_attr(kani, kani::requires(measurements.pass_1_measurements.is_valid() && measurements.pass_2_measurements.is_valid()))]
+#[cfg_attr(kani, kani::ensures(|class: &BigOAlgorithmComplexity| *class == analyse_complexity(measurements.pass_1_measurements.peak_growth(), measurements.pass_2_measurements.peak_growth(), passes_info.pass1_n as f64, passes_info.pass2_n as f64)))]
 pub fn analyse_space_complexity(passes_info:  &AlgorithmPassesInfo,
                                 measurements: &BigOSpaceMeasurements) -> BigOAlgorithmComplexity {
 
@@ -34,6 +36,8 @@ pub fn analyse_space_complexity(passes_info:  &AlgorithmPassesInfo,
 ///   - O(n) if caching takes place for reads / updates
 ///
 /// See [analyse_space_complexity_for_set_resizing_iterator_algorithm()] for iterator algorithms that resize the data set they operate on.
+#[cfg_attr(kani, kani::requires(measurements.pass_1_measurements.is_valid() && measurements.pass_2_measurements.is_valid()))]
+#[cfg_attr(kani, kani::ensures(|class: &BigOAlgorithmComplexity| *class == analyse_complexity(measurements.pass_1_measurements.peak_growth(), measurements.pass_2_measurements.peak_growth(), passes_info.pass_1_set_size.min(passes_info.pass_2_set_size) as f64, passes_info.pass_1_set_size.max(passes_info.pass_2_set_size) as f64)))]
 pub fn analyse_space_complexity_for_constant_set_iterator_algorithm(passes_info:  &ConstantSetIteratorAlgorithmPassesInfo,
                                                                     measurements: &BigOSpaceMeasurements) -> BigOAlgorithmComplexity {
 
@@ -59,6 +63,8 @@ pub fn analyse_space_complexity_for_constant_set_iterator_algorithm(passes_info:
 ///     Example: increment by 1 both chess board dimensions. board(n) will become board(n+1): 1+2*n elements are added. O(n) memory consumption.
 ///
 /// See [analyse_space_complexity_for_constant_set_iterator_algorithm()] for non-iterator algorithms and for iterator algorithms that operate on a constant set.
+#[cfg_attr(kani, kani::requires(measurements.pass_1_measurements.is_valid() && measurements.pass_2_measurements.is_valid()))]
+#[cfg_attr(kani, kani::ensures(|class: &BigOAlgorithmComplexity| *class == analyse_set_resizing_iterator_complexity(measurements.pass_1_measurements.peak_growth(), measurements.pass_2_measurements.peak_growth(), passes_info.delta_set_size as f64)))]
 pub fn analyse_space_complexity_for_set_resizing_iterator_algorithm(passes_info:  &SetResizingIteratorAlgorithmPassesInfo,
                                                                     measurements: &BigOSpaceMeasurements) -> BigOAlgorithmComplexity {
 
diff --git a/src/low_level_analysis/time_analysis.rs b/src/low_level_analysis/time_analysis.rs
index 9c59581..b0e8b60 100644
--- a/src/low_level_analysis/time_analysis.rs
+++ b/src/low_level_analysis/time_analysis.rs
@@ -8,6 +8,7 @@ use crate::low_level_analysis::{
 
 
 /// Performs time complexity analysis for regular, non-iterator algorithms, such as `fib(n)`, `sort(n)`, `bsearch(e, n)`, ...
+#[cfg_attr(kani, kani::ensures(|class: &BigOAlgorithmComplexity| *class == analyse_complexity(measurements.pass_1_measurements.as_secs_f64(), measurements.pass_2_measurements.as_secs_f64(), passes_info.pass1_n as f64, passes_info.pass2_n as f64)))]
 pub fn analyse_time_complexity(passes_info:  &AlgorithmPassesInfo,
                                measurements: &BigOTimeMeasurements)
                               -> BigOAlgorithmComplexity {
@@ -34,6 +35,7 @@ pub fn analyse_time_complexity(passes_info:  &AlgorithmPassesInfo,
 ///
 /// The returned algorithm complexity -- in big-O notation -- is an asymptotic indication of the time needed to execute the algorithm
 /// on one element, in proportion to a set size of 'n' elements. See [BigOAlgorithmComplexity].
+#[cfg_attr(kani, kani::ensures(|class: &BigOAlgorithmComplexity| *class == analyse_complexity(measurements.pass_1_measurements.as_secs_f64(), measurements.pass_2_measurements.as_secs_f64(), passes_info.pass_1_set_size.min(passes_info.pass_2_set_size) as f64, passes_info.pass_1_set_size.max(passes_info.pass_2_set_size) as f64)))]
 pub fn analyse_time_complexity_for_constant_set_iterator_algorithm(passes_info:  &ConstantSetIteratorAlgorithmPassesInfo,
                                                                    measurements: &BigOTimeMeasurements)
                                                                   -> BigOAlgorithmComplexity {
@@ -60,6 +62,7 @@ pub fn analyse_time_complexity_for_constant_set_iterator_algorithm(passes_info:
 ///
 /// The returned algorithm complexity -- in big-O notation -- is an asymptotic indication of the time needed to execute the algorithm
 /// on one element, in proportion to a set size of 'n' elements. See [BigOAlgorithmComplexity].
+#[cfg_attr(kani, kani::ensures(|class: &BigOAlgorithmComplexity| *class == analyse_set_resizing_iterator_complexity(measurements.pass_1_measurements.as_secs_f64(), measurements.pass_2_measurements.as_secs_f64(), passes_info.delta_set_size as f64)))]
 pub fn analyse_time_complexity_for_set_resizing_iterator_algorithm(passes_info:  &SetResizingIteratorAlgorithmPassesInfo,
                                                                    measurements: &BigOTimeMeasurements) -> BigOAlgorithmComplexity {
 
diff --git a/src/low_level_analysis/types/types_impl.rs b/src/low_level_analysis/types/types_impl.rs
index fcfe493..8bedfbe 100644
--- a/src/low_level_analysis/types/types_impl.rs
+++ b/src/low_level_analysis/types/types_impl.rs
@@ -147,12 +147,16 @@ impl Display for SetResizingIteratorAlgorithmMeasurements<'_> {
 impl BigOSpaceMeasurements {
     /// returns the resulting used memory, obtained from the space complexity analysis measurements --
     /// >0 if memory was allocated and <0 if memory was freed
+    #[cfg_attr(kani, kani::requires(self.pass_1_measurements.is_valid() && self.pass_2_measurements.is_valid()))]
+    #[cfg_attr(kani, kani::ensures(|delta: &isize| *delta as i128 == self.pass_1_measurements.net_growth() + self.pass_2_measurements.net_growth()))]
     pub fn used_memory_delta(&self) -> isize {
         self.pass_2_measurements.used_memory_after as isize - self.pass_2_measurements.used_memory_before as isize +
             self.pass_1_measurements.used_memory_after as isize - self.pass_1_measurements.used_memory_before as isize
     }
     /// auxiliary space refers to the memory used during the computation and then freed before ending the computation --
     /// returns max_used_ram - max(used_memory_delta, used_memory_start), meaning: >0 if auxiliary memory was allocated
+    #[cfg_attr(kani, kani::requires(self.pass_1_measurements.is_valid() && self.pass_2_measurements.is_valid() && self.pass_1_measurements.auxiliary() + self.pass_2_measurements.auxiliary() <= usize::MAX as u128))]
+    #[cfg_attr(kani, kani::ensures(|space: &usize| *space as u128 == self.pass_1_measurements.auxiliary() + self.pass_2_measurements.auxiliary()))]
     pub fn used_auxiliary_space(&self) -> usize {
         (self.pass_2_measurements.max_used_memory - std::cmp::max(self.pass_2_measurements.used_memory_after, self.pass_2_measurements.used_memory_before)) +
             (self.pass_1_measurements.max_used_memory - std::cmp::max(self.pass_1_measurements.used_memory_after, self.pass_1_measurements.used_memory_before))
diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index 0c5cbdf..a8e93c7 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -294,6 +294,60 @@ unsafe impl<const RING_BUFFER_SIZE: usize> GlobalAlloc for MetricsAllocator<'_,
 }
 
 
+/// Verification hooks: gives access to the internal state
+#[cfg(any(kani, verif))]
+#[doc(hidden)]
+pub mod verif {
+    use super::*;
+    use crate::metrics_allocator::ring_buffer;
+
+    pub const fn statistics<NumericType: Copy>(s: [NumericType; 12]) -> MetricsAllocatorStatistics<NumericType> {
+        MetricsAllocatorStatistics {
+            allocations_count: s[0], deallocations_count: s[1], zeroed_allocations_count: s[2], reallocations_count: s[3],
+            allocated_bytes: s[4], deallocated_bytes: s[5], zeroed_allocated_bytes: s[6],
+            reallocated_originals_bytes: s[7], reallocated_news_bytes: s[8],
+            current_used_memory: s[9], min_used_memory: s[10], max_used_memory: s[11],
+        }
+    }
+    pub fn as_array(s: &MetricsAllocatorStatistics<usize>) -> [usize; 12] {
+        [s.allocations_count, s.deallocations_count, s.zeroed_allocations_count, s.reallocations_count,
+         s.allocated_bytes, s.deallocated_bytes, s.zeroed_allocated_bytes,
+         s.reallocated_originals_bytes, s.reallocated_news_bytes,
+         s.current_used_memory, s.min_used_memory, s.max_used_memory]
+    }
+    /// an instance with the given statistics, for which `tail` save points were already created -- `save_points` having the last ones' (min,max)
+    pub fn allocator<const RING_BUFFER_SIZE: usize>(s: [usize; 12], save_points: [(usize, usize); RING_BUFFER_SIZE], tail: usize) -> MetricsAllocator<'static, RING_BUFFER_SIZE> {
+        MetricsAllocator {
+            system_allocator: &System,
+            statistics: MetricsAllocatorStatistics {
+                allocations_count: AtomicUsize::new(s[0]), deallocations_count: AtomicUsize::new(s[1]), zeroed_allocations_count: AtomicUsize::new(s[2]), reallocations_count: AtomicUsize::new(s[3]),
+                allocated_bytes: AtomicUsize::new(s[4]), deallocated_bytes: AtomicUsize::new(s[5]), zeroed_allocated_bytes: AtomicUsize::new(s[6]),
+                reallocated_originals_bytes: AtomicUsize::new(s[7]), reallocated_news_bytes: AtomicUsize::new(s[8]),
+                current_used_memory: AtomicUsize::new(s[9]), min_used_memory: AtomicUsize::new(s[10]), max_used_memory: AtomicUsize::new(s[11]),
+            },
+            used_memory_ring_buffer: ring_buffer::verif::ring_buffer(save_points.map(|(min_used_memory, max_used_memory)| SavePointRingBufferSlot { min_used_memory, max_used_memory }), tail),
+        }
+    }
+    pub fn state<const RING_BUFFER_SIZE: usize>(allocator: &MetricsAllocator<'_, RING_BUFFER_SIZE>) -> [usize; 12] {
+        let s = &allocator.statistics;
+        [s.allocations_count.load(Ordering::Relaxed), s.deallocations_count.load(Ordering::Relaxed), s.zeroed_allocations_count.load(Ordering::Relaxed), s.reallocations_count.load(Ordering::Relaxed),
+         s.allocated_bytes.load(Ordering::Relaxed), s.deallocated_bytes.load(Ordering::Relaxed), s.zeroed_allocated_bytes.load(Ordering::Relaxed),
+         s.reallocated_originals_bytes.load(Ordering::Relaxed), s.reallocated_news_bytes.load(Ordering::Relaxed),
+         s.current_used_memory.load(Ordering::Relaxed), s.min_used_memory.load(Ordering::Relaxed), s.max_used_memory.load(Ordering::Relaxed)]
+    }
+    /// returns the number of save points created so far & the (min,max) of the last ones
+    pub fn save_points<const RING_BUFFER_SIZE: usize>(allocator: &MetricsAllocator<'_, RING_BUFFER_SIZE>) -> (usize, [(usize, usize); RING_BUFFER_SIZE]) {
+        let (_reserved, tail) = ring_buffer::verif::tails(&allocator.used_memory_ring_buffer);
+        let slots = ring_buffer::verif::slots(&allocator.used_memory_ring_buffer);
+        (tail, std::array::from_fn(|i| (slots[i].min_used_memory, slots[i].max_used_memory)))
+    }
+    /// the save point for which the given `metrics` were taken after `head` save points were created
+    pub fn save_point<'a, const RING_BUFFER_SIZE: usize>(allocator: &'a MetricsAllocator<'_, RING_BUFFER_SIZE>, metrics: MetricsAllocatorStatistics<usize>, head: usize) -> MetricsAllocatorSavePoint<'a, RING_BUFFER_SIZE> {
+        MetricsAllocatorSavePoint { metrics, used_memory_ring_buffer_consumer: ring_buffer::verif::consumer(&allocator.used_memory_ring_buffer, head) }
+    }
+}
+
+
 #[cfg(test)]
 mod tests {
 
diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 2afb0f3..de4f558 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -219,6 +219,36 @@ impl From<RingBufferOverflowError> for std::io::Error {
 }
 
 
+/// Verification hooks: gives access to the internal state
+#[cfg(any(kani, verif))]
+#[doc(hidden)]
+pub mod verif {
+    use super::*;
+
+    /// an instance for which `tail` elements were already enqueued -- `slots` having the last ones
+    pub const fn ring_buffer<Slot, const RING_BUFFER_SIZE: usize>(slots: [Slot; RING_BUFFER_SIZE], tail: usize) -> RingBuffer<Slot, RING_BUFFER_SIZE> {
+        RingBuffer { reserved_tail: AtomicUsize::new(tail), published_tail: AtomicUsize::new(tail), buffer: MaybeUninit::new(slots) }
+    }
+    /// returns (reserved, published) tails
+    pub fn tails<Slot, const RING_BUFFER_SIZE: usize>(ring_buffer: &RingBuffer<Slot, RING_BUFFER_SIZE>) -> (usize, usize) {
+        (ring_buffer.reserved_tail.load(Ordering::Relaxed), ring_buffer.published_tail.load(Ordering::Relaxed))
+    }
+    pub fn slots<Slot, const RING_BUFFER_SIZE: usize>(ring_buffer: &RingBuffer<Slot, RING_BUFFER_SIZE>) -> &[Slot; RING_BUFFER_SIZE] {
+        unsafe { &*ring_buffer.buffer.as_ptr() }
+    }
+    /// a consumer that already dequeued the first `head` elements
+    pub fn consumer<Slot, const RING_BUFFER_SIZE: usize>(ring_buffer: &RingBuffer<Slot, RING_BUFFER_SIZE>, head: usize) -> RingBufferConsumer<'_, Slot, RING_BUFFER_SIZE> {
+        RingBufferConsumer { head: AtomicUsize::new(head), ring_buffer }
+    }
+    pub fn head<Slot, const RING_BUFFER_SIZE: usize>(consumer: &RingBufferConsumer<'_, Slot, RING_BUFFER_SIZE>) -> usize {
+        consumer.head.load(Ordering::Relaxed)
+    }
+    pub fn overflow_error() -> RingBufferOverflowError {
+        RingBufferOverflowError { msg: String::new() }
+    }
+}
+
+
 #[cfg(test)]
 mod tests {
 
diff --git a/src/utils/measurements/presentable_measurements.rs b/src/utils/measurements/presentable_measurements.rs
index 2737e5a..6d400bf 100644
--- a/src/utils/measurements/presentable_measurements.rs
+++ b/src/utils/measurements/presentable_measurements.rs
@@ -178,6 +178,16 @@ fn custom_unit_per_second_measurement(value: f64, custom_unit: &'static str) ->
     }
 }
 
+/// Verification hook
+#[cfg(any(kani, verif))]
+#[doc(hidden)]
+pub mod verif_presentable {
+    use super::*;
+    pub fn per_second(value: f64, custom_unit: &'static str) -> PresentableMeasurement { custom_unit_per_second_measurement(value, custom_unit) }
+    pub fn value(measurement: &PresentableMeasurement) -> f64 { measurement.value }
+}
+
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..1194ca3
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,147 @@
+//! Verification hooks -- compiled only when the `kani` or `verif` cfg flags are set, so never part of a regular build.\
+//! Contains the specification functions referred to by the contracts written on this crate's functions, and gives the
+//! verification harnesses (which live outside this repository) access to crate-private functions.
+
+pub use crate::{
+    low_level_analysis::types::*,
+    runners::common::{PassResult, run_iterator_pass_verbosely, run_sync_pass_verbosely, run_async_pass_verbosely},
+    utils::measurements::{measurer::*, presentable_measurements::*},
+};
+use std::{
+    fmt::Debug,
+    future::Future,
+    ops::Range,
+};
+
+
+pub fn run_iterator_pass<AlgorithmClosure: Fn(u32) -> u32 + Sync>
+                        (algorithm: &AlgorithmClosure, algorithm_type: &BigOIteratorAlgorithmType, range: Range<u32>, threads: u32)
+                        -> (PassResult, u32) {
+    crate::runners::common::run_iterator_pass(algorithm, algorithm_type, range, threads)
+}
+
+pub fn run_sync_pass(algorithm: impl FnMut() -> u32) -> (PassResult, u32) {
+    crate::runners::common::run_sync_pass(algorithm)
+}
+
+pub async fn run_async_pass<AlgorithmPassFn:   FnMut(Option<AlgoDataType>) -> AlgorithmPassFut + Send + Sync,
+                            AlgorithmPassFut:  Future<Output=AlgoDataType> + Send,
+                            AlgoDataType:      Send + Sync + Debug>
+                           (algo_data: Option<AlgoDataType>, algorithm_pass_fn: AlgorithmPassFn)
+                           -> (PassResult, AlgoDataType) {
+    crate::runners::common::run_async_pass(algo_data, algorithm_pass_fn).await
+}
+
+
+/// Specification functions for measurements
+impl BigOSpacePassMeasurements {
+    /// either consistent (and physically possible) measurements or the "overflown measurements" sentinel
+    pub fn is_valid(&self) -> bool {
+        (self.min_used_memory <= self.used_memory_before && self.used_memory_before <= self.max_used_memory &&
+         self.min_used_memory <= self.used_memory_after  && self.used_memory_after  <= self.max_used_memory &&
+         self.max_used_memory <= isize::MAX as usize / 4) ||
+        (self.min_used_memory == 0 && self.used_memory_before == 0 && self.used_memory_after == usize::MAX && self.max_used_memory == usize::MAX)
+    }
+    /// how much the used memory grew, at its peak
+    pub fn peak_growth(&self) -> f64 {
+        (self.max_used_memory - self.used_memory_before) as f64
+    }
+    /// how much more (or less) memory was in use at the end of the pass
+    pub fn net_growth(&self) -> i128 {
+        self.used_memory_after as isize as i128 - self.used_memory_before as isize as i128
+    }
+    /// memory used during the pass, but already freed when it ended
+    pub fn auxiliary(&self) -> u128 {
+        (self.max_used_memory - self.used_memory_before.max(self.used_memory_after)) as u128
+    }
+}
+
+
+/// Specification functions
+pub mod spec {
+
+    use crate::BigOAlgorithmComplexity::{self, *};
+
+    /// the accepted measurement error
+    pub const TOLERANCE: f64 = if cfg!(feature = "tolerance_25_percent") { 0.25 } else { 0.10 };
+
+    /// where the observed `growth` stands, in relation to the growth that is `expected` for a given complexity class
+    #[derive(PartialEq)]
+    pub enum Band { Below, Match, Above }
+    pub fn band(growth: f64, expected: f64) -> Band {
+        let ratio = growth / expected;
+        if ratio < 1.0 - TOLERANCE {
+            Band::Below
+        } else if (ratio - 1.0).abs() <= TOLERANCE {
+            Band::Match
+        } else {
+            Band::Above
+        }
+    }
+
+    /// the complexity class for an algorithm using `u1` & `u2` of a resource to process `n1` & `n2` elements
+    pub fn complexity(u1: f64, u2: f64, n1: f64, n2: f64) -> BigOAlgorithmComplexity {
+        if u1 == u2 {
+            return O1;
+        }
+        let growth = u2 / u1;
+        if growth < 1.0 - TOLERANCE {
+            return BetterThanO1;
+        }
+        if (growth - 1.0).abs() <= TOLERANCE {
+            return O1;
+        }
+        let ladder = [
+            (n2.log2() / n1.log2(),                   BetweenO1AndOLogN,   OLogN),
+            (n2 / n1,                                 BetweenOLogNAndON,   ON),
+            ((n2 * n2.log2()) / (n1 * n1.log2()),     BetweenONAndONLogN,  ONLogN),
+            ((n2 / n1).powi(2),                       BetweenONLogNAndON2, ON2),
+            ((n2 / n1).powi(3),                       BetweenON2AndON3,    ON3),
+            ((n2 / n1).powi(4),                       BetweenON3AndON4,    ON4),
+        ];
+        let mut i = 0;
+        while i < 6 {
+            match band(growth, ladder[i].0) {
+                Band::Below => return ladder[i].1,
+                Band::Match => return ladder[i].2,
+                Band::Above => (),
+            }
+            i += 1;
+        }
+        match band(u2, u1.powf(n2 / n1)) {
+            Band::Below => BetweenON4AndOkN,
+            Band::Match => OkN,
+            Band::Above => WorseThanExponential,
+        }
+    }
+
+    /// the complexity class for an iterator algorithm that adds or removes `n` elements to (from) an empty set, on each pass
+    /// -- where the average set size of pass 2 is 3x the one of pass 1
+    pub fn set_resizing_complexity(u1: f64, u2: f64, n: f64) -> BigOAlgorithmComplexity {
+        if u1 == u2 {
+            return O1;
+        }
+        let growth = u2 / u1;
+        if (u1 / u2) - 1.0 > TOLERANCE {
+            return BetterThanO1;
+        }
+        if (growth - 1.0).abs() <= TOLERANCE {
+            return O1;
+        }
+        let over_log = growth / ((n * 3.0).log2() / n.log2());
+        if over_log < 1.0 {
+            return BetweenO1AndOLogN;
+        }
+        if (over_log - 1.0).abs() < TOLERANCE {
+            return OLogN;
+        }
+        let over_linear = growth / 3.0 - 1.0;
+        if over_linear.abs() <= TOLERANCE {
+            ON
+        } else if over_linear > TOLERANCE {
+            BetweenONAndONLogN
+        } else {
+            BetweenOLogNAndON
+        }
+    }
+}
-- 
2.43.0


From dc6e05da9e9d408609451443f977fa1fbb4690b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:56 +0000
Subject: [PATCH 12/16] verification hooks: one cfg value per part of the crate

---
 src/lib.rs                                    |  4 +-
 src/low_level_analysis/low_level_analysis.rs  |  4 +-
 src/low_level_analysis/space_analysis.rs      | 12 ++--
 src/low_level_analysis/time_analysis.rs       |  6 +-
 src/low_level_analysis/types/types_impl.rs    |  8 +--
 src/metrics_allocator/metrics_allocator.rs    |  2 +-
 src/metrics_allocator/ring_buffer.rs          |  2 +-
 .../measurements/presentable_measurements.rs  |  2 +-
 src/verif_hooks.rs                            | 64 +++++++++++--------
 9 files changed, 59 insertions(+), 45 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e809f74..5aaa779 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,5 @@
 #![doc = include_str!("../README.md")]
-#![allow(unexpected_cfgs)]   // `kani` & `verif`: see `verif_hooks.rs`
+#![allow(unexpected_cfgs)]   // `verif = "..."`: see `verif_hooks.rs`
 
 
 mod api;
@@ -22,6 +22,6 @@ pub use {
     },
 };
 
-#[cfg(any(kani, verif))]
+#[cfg(any(verif = "analysis", verif = "runners", verif = "presentable", verif = "measurer"))]
 #[doc(hidden)]
 pub mod verif_hooks;
diff --git a/src/low_level_analysis/low_level_analysis.rs b/src/low_level_analysis/low_level_analysis.rs
index b539c84..66f2f6f 100644
--- a/src/low_level_analysis/low_level_analysis.rs
+++ b/src/low_level_analysis/low_level_analysis.rs
@@ -9,7 +9,7 @@ use super::{
 /// Performs the Algorithm Complexity Analysis on the resource denoted by `u`, where `u1` & `u2` are the resource
 /// utilization on passes 1 & 2 and, likewise, `n1` & `n2` represent the number of element, iterations or computations
 /// -- in other words, represents the `n` in the Big-O notation... `O(n)`, `O(log(n))`, `O(n²)`, etc...
-#[cfg_attr(kani, kani::ensures(|class: &BigOAlgorithmComplexity| *class == crate::verif_hooks::spec::complexity(u1, u2, n1, n2)))]
+#[cfg_attr(all(kani, verif = "analysis"), kani::ensures(|class: &BigOAlgorithmComplexity| *class == crate::verif_hooks::spec::complexity(u1, u2, n1, n2)))]
 pub fn analyse_complexity(u1: f64, u2: f64, n1: f64, n2: f64) -> BigOAlgorithmComplexity {
     // same utilization on both passes -- including "no utilization at all", for which `u2 / u1` would not be a number
     if u1 == u2 {
@@ -56,7 +56,7 @@ pub fn analyse_complexity(u1: f64, u2: f64, n1: f64, n2: f64) -> BigOAlgorithmCo
 /// Performs the Algorithm Complexity Analysis on an iterator algorithm that alters the elements it operates on as it runs.\
 ///   - `u1` & `u2` are the resource utilization on passes 1 & 2
 ///   - `n` represent the number of element added or remove on each pass
-#[cfg_attr(kani, kani::ensures(|class: &BigOAlgorithmComplexity| *class == crate::verif_hooks::spec::set_resizing_complexity(u1, u2, n)))]
+#[cfg_attr(all(kani, verif = "analysis"), kani::ensures(|class: &BigOAlgorithmComplexity| *class == crate::verif_hooks::spec::set_resizing_complexity(u1, u2, n)))]
 pub fn analyse_set_resizing_iterator_complexity(u1: f64, u2: f64, n: f64) -> BigOAlgorithmComplexity {
     // same utilization on both passes -- including "no utilization at all", for which `u2 / u1` would not be a number
     if u1 == u2 {
diff --git a/src/low_level_analysis/space_analysis.rs b/src/low_level_analysis/space_analysis.rs
index f11690a..5a6b0c1 100644
--- a/src/low_level_analysis/space_analysis.rs
+++ b/src/low_level_analysis/space_analysis.rs
@@ -11,8 +11,8 @@ use crate::low_level_analysis::{
 
 
 /// Performs space complexity analysis for regular, non-iterator algorithms, such as `fib(n)`, `sort(n)`, `bsearch(e, n)`, ...
-#[cfg_attr(kani, kani::requires(measurements.pass_1_measurements.is_valid() && measurements.pass_2_measurements.is_valid()))]
-#[cfg_attr(kani, kani::ensures(|class: &BigOAlgorithmComplexity| *class == analyse_complexity(measurements.pass_1_measurements.peak_growth(), measurements.pass_2_measurements.peak_growth(), passes_info.pass1_n as f64, passes_info.pass2_n as f64)))]
+#[cfg_attr(all(kani, verif = "analysis"), kani::requires(measurements.pass_1_measurements.is_valid() && measurements.pass_2_measurements.is_valid()))]
+#[cfg_attr(all(kani, verif = "analysis"), kani::ensures(|class: &BigOAlgorithmComplexity| *class == analyse_complexity(measurements.pass_1_measurements.peak_growth(), measurements.pass_2_measurements.peak_growth(), passes_info.pass1_n as f64, passes_info.pass2_n as f64)))]
 pub fn analyse_space_complexity(passes_info:  &AlgorithmPassesInfo,
                                 measurements: &BigOSpaceMeasurements) -> BigOAlgorithmComplexity {
 
@@ -36,8 +36,8 @@ pub fn analyse_space_complexity(passes_info:  &AlgorithmPassesInfo,
 ///   - O(n) if caching takes place for reads / updates
 ///
 /// See [analyse_space_complexity_for_set_resizing_iterator_algorithm()] for iterator algorithms that resize the data set they operate on.
-#[cfg_attr(kani, kani::requires(measurements.pass_1_measurements.is_valid() && measurements.pass_2_measurements.is_valid()))]
-#[cfg_attr(kani, kani::ensures(|class: &BigOAlgorithmComplexity| *class == analyse_complexity(measurements.pass_1_measurements.peak_growth(), measurements.pass_2_measurements.peak_growth(), passes_info.pass_1_set_size.min(passes_info.pass_2_set_size) as f64, passes_info.pass_1_set_size.max(passes_info.pass_2_set_size) as f64)))]
+#[cfg_attr(all(kani, verif = "analysis"), kani::requires(measurements.pass_1_measurements.is_valid() && measurements.pass_2_measurements.is_valid()))]
+#[cfg_attr(all(kani, verif = "analysis"), kani::ensures(|class: &BigOAlgorithmComplexity| *class == analyse_complexity(measurements.pass_1_measurements.peak_growth(), measurements.pass_2_measurements.peak_growth(), passes_info.pass_1_set_size.min(passes_info.pass_2_set_size) as f64, passes_info.pass_1_set_size.max(passes_info.pass_2_set_size) as f64)))]
 pub fn analyse_space_complexity_for_constant_set_iterator_algorithm(passes_info:  &ConstantSetIteratorAlgorithmPassesInfo,
                                                                     measurements: &BigOSpaceMeasurements) -> BigOAlgorithmComplexity {
 
@@ -63,8 +63,8 @@ pub fn analyse_space_complexity_for_constant_set_iterator_algorithm(passes_info:
 ///     Example: increment by 1 both chess board dimensions. board(n) will become board(n+1): 1+2*n elements are added. O(n) memory consumption.
 ///
 /// See [analyse_space_complexity_for_constant_set_iterator_algorithm()] for non-iterator algorithms and for iterator algorithms that operate on a constant set.
-#[cfg_attr(kani, kani::requires(measurements.pass_1_measurements.is_valid() && measurements.pass_2_measurements.is_valid()))]
-#[cfg_attr(kani, kani::ensures(|class: &BigOAlgorithmComplexity| *class == analyse_set_resizing_iterator_complexity(measurements.pass_1_measurements.peak_growth(), measurements.pass_2_measurements.peak_growth(), passes_info.delta_set_size as f64)))]
+#[cfg_attr(all(kani, verif = "analysis"), kani::requires(measurements.pass_1_measurements.is_valid() && measurements.pass_2_measurements.is_valid()))]
+#[cfg_attr(all(kani, verif = "analysis"), kani::ensures(|class: &BigOAlgorithmComplexity| *class == analyse_set_resizing_iterator_complexity(measurements.pass_1_measurements.peak_growth(), measurements.pass_2_measurements.peak_growth(), passes_info.delta_set_size as f64)))]
 pub fn analyse_space_complexity_for_set_resizing_iterator_algorithm(passes_info:  &SetResizingIteratorAlgorithmPassesInfo,
                                                                     measurements: &BigOSpaceMeasurements) -> BigOAlgorithmComplexity {
 
diff --git a/src/low_level_analysis/time_analysis.rs b/src/low_level_analysis/time_analysis.rs
index b0e8b60..a99ce63 100644
--- a/src/low_level_analysis/time_analysis.rs
+++ b/src/low_level_analysis/time_analysis.rs
@@ -8,7 +8,7 @@ use crate::low_level_analysis::{
 
 
 /// Performs time complexity analysis for regular, non-iterator algorithms, such as `fib(n)`, `sort(n)`, `bsearch(e, n)`, ...
-#[cfg_attr(kani, kani::ensures(|class: &BigOAlgorithmComplexity| *class == analyse_complexity(measurements.pass_1_measurements.as_secs_f64(), measurements.pass_2_measurements.as_secs_f64(), passes_info.pass1_n as f64, passes_info.pass2_n as f64)))]
+#[cfg_attr(all(kani, verif = "analysis"), kani::ensures(|class: &BigOAlgorithmComplexity| *class == analyse_complexity(measurements.pass_1_measurements.as_secs_f64(), measurements.pass_2_measurements.as_secs_f64(), passes_info.pass1_n as f64, passes_info.pass2_n as f64)))]
 pub fn analyse_time_complexity(passes_info:  &AlgorithmPassesInfo,
                                measurements: &BigOTimeMeasurements)
                               -> BigOAlgorithmComplexity {
@@ -35,7 +35,7 @@ pub fn analyse_time_complexity(passes_info:  &AlgorithmPassesInfo,
 ///
 /// The returned algorithm complexity -- in big-O notation -- is an asymptotic indication of the time needed to execute the algorithm
 /// on one element, in proportion to a set size of 'n' elements. See [BigOAlgorithmComplexity].
-#[cfg_attr(kani, kani::ensures(|class: &BigOAlgorithmComplexity| *class == analyse_complexity(measurements.pass_1_measurements.as_secs_f64(), measurements.pass_2_measurements.as_secs_f64(), passes_info.pass_1_set_size.min(passes_info.pass_2_set_size) as f64, passes_info.pass_1_set_size.max(passes_info.pass_2_set_size) as f64)))]
+#[cfg_attr(all(kani, verif = "analysis"), kani::ensures(|class: &BigOAlgorithmComplexity| *class == analyse_complexity(measurements.pass_1_measurements.as_secs_f64(), measurements.pass_2_measurements.as_secs_f64(), passes_info.pass_1_set_size.min(passes_info.pass_2_set_size) as f64, passes_info.pass_1_set_size.max(passes_info.pass_2_set_size) as f64)))]
 pub fn analyse_time_complexity_for_constant_set_iterator_algorithm(passes_info:  &ConstantSetIteratorAlgorithmPassesInfo,
                                                                    measurements: &BigOTimeMeasurements)
                                                                   -> BigOAlgorithmComplexity {
@@ -62,7 +62,7 @@ pub fn analyse_time_complexity_for_constant_set_iterator_algorithm(passes_info:
 ///
 /// The returned algorithm complexity -- in big-O notation -- is an asymptotic indication of the time needed to execute the algorithm
 /// on one element, in proportion to a set size of 'n' elements. See [BigOAlgorithmComplexity].
-#[cfg_attr(kani, kani::ensures(|class: &BigOAlgorithmComplexity| *class == analyse_set_resizing_iterator_complexity(measurements.pass_1_measurements.as_secs_f64(), measurements.pass_2_measurements.as_secs_f64(), passes_info.delta_set_size as f64)))]
+#[cfg_attr(all(kani, verif = "analysis"), kani::ensures(|class: &BigOAlgorithmComplexity| *class == analyse_set_resizing_iterator_complexity(measurements.pass_1_measurements.as_secs_f64(), measurements.pass_2_measurements.as_secs_f64(), passes_info.delta_set_size as f64)))]
 pub fn analyse_time_complexity_for_set_resizing_iterator_algorithm(passes_info:  &SetResizingIteratorAlgorithmPassesInfo,
                                                                    measurements: &BigOTimeMeasurements) -> BigOAlgorithmComplexity {
 
diff --git a/src/low_level_analysis/types/types_impl.rs b/src/low_level_analysis/types/types_impl.rs
index 8bedfbe..861ab6b 100644
--- a/src/low_level_analysis/types/types_impl.rs
+++ b/src/low_level_analysis/types/types_impl.rs
@@ -147,16 +147,16 @@ impl Display for SetResizingIteratorAlgorithmMeasurements<'_> {
 impl BigOSpaceMeasurements {
     /// returns the resulting used memory, obtained from the space complexity analysis measurements --
     /// >0 if memory was allocated and <0 if memory was freed
-    #[cfg_attr(kani, kani::requires(self.pass_1_measurements.is_valid() && self.pass_2_measurements.is_valid()))]
-    #[cfg_attr(kani, kani::ensures(|delta: &isize| *delta as i128 == self.pass_1_measurements.net_growth() + self.pass_2_measurements.net_growth()))]
+    #[cfg_attr(all(kani, verif = "analysis"), kani::requires(self.pass_1_measurements.is_valid() && self.pass_2_measurements.is_valid()))]
+    #[cfg_attr(all(kani, verif = "analysis"), kani::ensures(|delta: &isize| *delta as i128 == self.pass_1_measurements.net_growth() + self.pass_2_measurements.net_growth()))]
     pub fn used_memory_delta(&self) -> isize {
         self.pass_2_measurements.used_memory_after as isize - self.pass_2_measurements.used_memory_before as isize +
             self.pass_1_measurements.used_memory_after as isize - self.pass_1_measurements.used_memory_before as isize
     }
     /// auxiliary space refers to the memory used during the computation and then freed before ending the computation --
     /// returns max_used_ram - max(used_memory_delta, used_memory_start), meaning: >0 if auxiliary memory was allocated
-    #[cfg_attr(kani, kani::requires(self.pass_1_measurements.is_valid() && self.pass_2_measurements.is_valid() && self.pass_1_measurements.auxiliary() + self.pass_2_measurements.auxiliary() <= usize::MAX as u128))]
-    #[cfg_attr(kani, kani::ensures(|space: &usize| *space as u128 == self.pass_1_measurements.auxiliary() + self.pass_2_measurements.auxiliary()))]
+    #[cfg_attr(all(kani, verif = "analysis"), kani::requires(self.pass_1_measurements.is_valid() && self.pass_2_measurements.is_valid() && self.pass_1_measurements.auxiliary() + self.pass_2_measurements.auxiliary() <= usize::MAX as u128))]
+    #[cfg_attr(all(kani, verif = "analysis"), kani::ensures(|space: &usize| *space as u128 == self.pass_1_measurements.auxiliary() + self.pass_2_measurements.auxiliary()))]
     pub fn used_auxiliary_space(&self) -> usize {
         (self.pass_2_measurements.max_used_memory - std::cmp::max(self.pass_2_measurements.used_memory_after, self.pass_2_measurements.used_memory_before)) +
             (self.pass_1_measurements.max_used_memory - std::cmp::max(self.pass_1_measurements.used_memory_after, self.pass_1_measurements.used_memory_before))
diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index a8e93c7..2551cd7 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -295,7 +295,7 @@ unsafe impl<const RING_BUFFER_SIZE: usize> GlobalAlloc for MetricsAllocator<'_,
 
 
 /// Verification hooks: gives access to the internal state
-#[cfg(any(kani, verif))]
+#[cfg(verif = "allocator")]
 #[doc(hidden)]
 pub mod verif {
     use super::*;
diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index de4f558..1e7bd28 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -220,7 +220,7 @@ impl From<RingBufferOverflowError> for std::io::Error {
 
 
 /// Verification hooks: gives access to the internal state
-#[cfg(any(kani, verif))]
+#[cfg(any(verif = "ring_buffer", verif = "allocator"))]
 #[doc(hidden)]
 pub mod verif {
     use super::*;
diff --git a/src/utils/measurements/presentable_measurements.rs b/src/utils/measurements/presentable_measurements.rs
index 6d400bf..7170b58 100644
--- a/src/utils/measurements/presentable_measurements.rs
+++ b/src/utils/measurements/presentable_measurements.rs
@@ -179,7 +179,7 @@ fn custom_unit_per_second_measurement(value: f64, custom_unit: &'static str) ->
 }
 
 /// Verification hook
-#[cfg(any(kani, verif))]
+#[cfg(verif = "presentable")]
 #[doc(hidden)]
 pub mod verif_presentable {
     use super::*;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 1194ca3..4e94408 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -1,39 +1,52 @@
-//! Verification hooks -- compiled only when the `kani` or `verif` cfg flags are set, so never part of a regular build.\
+//! Verification hooks -- compiled only when the `verif` cfg flags are set, so never part of a regular build.\
 //! Contains the specification functions referred to by the contracts written on this crate's functions, and gives the
 //! verification harnesses (which live outside this repository) access to crate-private functions.
+//!
+//! Flags: `verif = "analysis" | "runners" | "ring_buffer" | "allocator" | "measurer" | "presentable"`
 
-pub use crate::{
-    low_level_analysis::types::*,
-    runners::common::{PassResult, run_iterator_pass_verbosely, run_sync_pass_verbosely, run_async_pass_verbosely},
-    utils::measurements::{measurer::*, presentable_measurements::*},
-};
-use std::{
-    fmt::Debug,
-    future::Future,
-    ops::Range,
-};
+#[cfg(any(verif = "analysis", verif = "runners"))]
+pub use crate::low_level_analysis::types::*;
+#[cfg(verif = "runners")]
+pub use crate::runners::common::{PassResult, run_iterator_pass_verbosely, run_sync_pass_verbosely, run_async_pass_verbosely};
+#[cfg(verif = "measurer")]
+pub use crate::utils::measurements::measurer::*;
+#[cfg(any(verif = "measurer", verif = "presentable"))]
+pub use crate::utils::measurements::presentable_measurements::*;
 
 
-pub fn run_iterator_pass<AlgorithmClosure: Fn(u32) -> u32 + Sync>
-                        (algorithm: &AlgorithmClosure, algorithm_type: &BigOIteratorAlgorithmType, range: Range<u32>, threads: u32)
-                        -> (PassResult, u32) {
-    crate::runners::common::run_iterator_pass(algorithm, algorithm_type, range, threads)
-}
+#[cfg(verif = "runners")]
+mod runners {
+    use super::*;
+    use std::{
+        fmt::Debug,
+        future::Future,
+        ops::Range,
+    };
 
-pub fn run_sync_pass(algorithm: impl FnMut() -> u32) -> (PassResult, u32) {
-    crate::runners::common::run_sync_pass(algorithm)
-}
+    pub fn run_iterator_pass<AlgorithmClosure: Fn(u32) -> u32 + Sync>
+                            (algorithm: &AlgorithmClosure, algorithm_type: &BigOIteratorAlgorithmType, range: Range<u32>, threads: u32)
+                            -> (PassResult, u32) {
+        crate::runners::common::run_iterator_pass(algorithm, algorithm_type, range, threads)
+    }
 
-pub async fn run_async_pass<AlgorithmPassFn:   FnMut(Option<AlgoDataType>) -> AlgorithmPassFut + Send + Sync,
-                            AlgorithmPassFut:  Future<Output=AlgoDataType> + Send,
-                            AlgoDataType:      Send + Sync + Debug>
-                           (algo_data: Option<AlgoDataType>, algorithm_pass_fn: AlgorithmPassFn)
-                           -> (PassResult, AlgoDataType) {
-    crate::runners::common::run_async_pass(algo_data, algorithm_pass_fn).await
+    pub fn run_sync_pass(algorithm: impl FnMut() -> u32) -> (PassResult, u32) {
+        crate::runners::common::run_sync_pass(algorithm)
+    }
+
+    pub async fn run_async_pass<AlgorithmPassFn:   FnMut(Option<AlgoDataType>) -> AlgorithmPassFut + Send + Sync,
+                                AlgorithmPassFut:  Future<Output=AlgoDataType> + Send,
+                                AlgoDataType:      Send + Sync + Debug>
+                               (algo_data: Option<AlgoDataType>, algorithm_pass_fn: AlgorithmPassFn)
+                               -> (PassResult, AlgoDataType) {
+        crate::runners::common::run_async_pass(algo_data, algorithm_pass_fn).await
+    }
 }
+#[cfg(verif = "runners")]
+pub use runners::*;
 
 
 /// Specification functions for measurements
+#[cfg(verif = "analysis")]
 impl BigOSpacePassMeasurements {
     /// either consistent (and physically possible) measurements or the "overflown measurements" sentinel
     pub fn is_valid(&self) -> bool {
@@ -58,6 +71,7 @@ impl BigOSpacePassMeasurements {
 
 
 /// Specification functions
+#[cfg(verif = "analysis")]
 pub mod spec {
 
     use crate::BigOAlgorithmComplexity::{self, *};
-- 
2.43.0


From fa8b10559cf7bbe9a1d1ac4744679fd99c04effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 13/16] verification hooks: the answers of the system allocator
 may be dictated

---
 src/metrics_allocator/metrics_allocator.rs | 48 +++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index 2551cd7..af2e5d1 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -2,7 +2,11 @@
 
 use std::fmt::{Formatter, Display, Debug};
 use std::sync::atomic::{AtomicUsize, Ordering};
-use std::alloc::{System, GlobalAlloc, Layout};
+use std::alloc::{GlobalAlloc, Layout};
+#[cfg(not(verif = "allocator"))]
+use std::alloc::System;
+#[cfg(verif = "allocator")]
+use verif::System;
 
 use crate::metrics_allocator::ring_buffer::{RingBuffer, RingBufferConsumer, RingBufferOverflowError};
 
@@ -301,6 +305,48 @@ pub mod verif {
     use super::*;
     use crate::metrics_allocator::ring_buffer;
 
+    /// stand-in for the system's allocator: keeps the last request and lets what is granted be dictated
+    pub struct System;
+    #[derive(Clone, Copy, PartialEq, Debug)]
+    pub enum Operation { Alloc, Dealloc, AllocZeroed, Realloc }
+    #[derive(Clone, Copy, PartialEq, Debug)]
+    pub struct Request { pub operation: Operation, pub ptr: usize, pub size: usize, pub align: usize, pub new_size: usize }
+    pub struct Requests {
+        /// the address to be given for any request -- if set; otherwise, the real system's allocator is used
+        pub answer: Option<usize>,
+        /// the number of requests made since `answer` was set
+        pub count: u32,
+        pub last: Request,
+    }
+    pub static mut REQUESTS: Requests = Requests { answer: None, count: 0x5E5E0001, last: Request { operation: Operation::Dealloc, ptr: 0x5E5E0002, size: 0x5E5E0003, align: 0x5E5E0004, new_size: 0x5E5E0005 } };
+    impl System {
+        /// `Some(address)` if the answer was dictated
+        unsafe fn request(&self, operation: Operation, ptr: *mut u8, layout: Layout, new_size: usize) -> Option<*mut u8> {
+            let requests = &mut *std::ptr::addr_of_mut!(REQUESTS);
+            requests.answer.map(|answer| {
+                requests.count += 1;
+                requests.last = Request { operation, ptr: ptr as usize, size: layout.size(), align: layout.align(), new_size };
+                answer as *mut u8
+            })
+        }
+    }
+    unsafe impl GlobalAlloc for System {
+        unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
+            self.request(Operation::Alloc, std::ptr::null_mut(), layout, 0).unwrap_or_else(|| std::alloc::System.alloc(layout))
+        }
+        unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
+            if self.request(Operation::Dealloc, ptr, layout, 0).is_none() {
+                std::alloc::System.dealloc(ptr, layout);
+            }
+        }
+        unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
+            self.request(Operation::AllocZeroed, std::ptr::null_mut(), layout, 0).unwrap_or_else(|| std::alloc::System.alloc_zeroed(layout))
+        }
+        unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
+            self.request(Operation::Realloc, ptr, layout, new_size).unwrap_or_else(|| std::alloc::System.realloc(ptr, layout, new_size))
+        }
+    }
+
     pub const fn statistics<NumericType: Copy>(s: [NumericType; 12]) -> MetricsAllocatorStatistics<NumericType> {
         MetricsAllocatorStatistics {
             allocations_count: s[0], deallocations_count: s[1], zeroed_allocations_count: s[2], reallocations_count: s[3],
-- 
2.43.0


From 42cac37e2a63ef54abb2954179123ce52278f876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:32 +0000
Subject: [PATCH 14/16] verification hooks: save point ring buffer size

---
 src/verif_hooks.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 4e94408..574925a 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -8,6 +8,8 @@
 pub use crate::low_level_analysis::types::*;
 #[cfg(verif = "runners")]
 pub use crate::runners::common::{PassResult, run_iterator_pass_verbosely, run_sync_pass_verbosely, run_async_pass_verbosely};
+#[cfg(verif = "runners")]
+pub use crate::features::SAVE_POINT_RING_BUFFER_SIZE;
 #[cfg(verif = "measurer")]
 pub use crate::utils::measurements::measurer::*;
 #[cfg(any(verif = "measurer", verif = "presentable"))]
-- 
2.43.0


From 953c291038b9717c2079d9b34f8d6d45cb5bf349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:26 +0000
Subject: [PATCH 15/16] fix: consumers of the ring buffer synchronize with its
 producers, so they never see elements not fully stored yet

---
 src/metrics_allocator/ring_buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 1e7bd28..e06fc93 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -123,7 +123,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     pub fn dequeue(&self) -> Result<Option<&Slot>, RingBufferOverflowError> {
         let mut head = self.head.load(Ordering::Relaxed);
         loop {
-            let published_tail = self.ring_buffer.published_tail.load(Ordering::Relaxed);
+            let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
             if head > published_tail {
                 head = self.head.load(Ordering::Relaxed);
                 continue;
@@ -169,7 +169,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     ///   # Ok(())}
     pub fn peek_all(&self) -> Result<[&[Slot];2], RingBufferOverflowError> {
         let head = self.head.load(Ordering::Relaxed);
-        let published_tail = self.ring_buffer.published_tail.load(Ordering::Relaxed);
+        let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
         let head_index           = head % RING_BUFFER_SIZE;
         let published_tail_index = published_tail % RING_BUFFER_SIZE;
         if head == published_tail {
-- 
2.43.0


From bdc888bebead30d227de6834e7366f87833aaaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:16 +0000
Subject: [PATCH 16/16] fix: the sign of the presented memory was lost to f32
 precision

With 16 MiB or more in use, retaining (or giving back) a few bytes was presented as if no extra RAM was being used.
---
 src/low_level_analysis/types/types_impl.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/low_level_analysis/types/types_impl.rs b/src/low_level_analysis/types/types_impl.rs
index 861ab6b..8a31820 100644
--- a/src/low_level_analysis/types/types_impl.rs
+++ b/src/low_level_analysis/types/types_impl.rs
@@ -190,8 +190,7 @@ impl BigOSpacePassMeasurements {
     /// When `n` is 1.0, shows the absolute RAM usage;
     /// otherwise, `n` should be the number of elements and the output will represent the memory usage per element
     pub fn fmt_over_n(&self, n: u32) -> String {
-        let used_memory = (self.used_memory_after as f32 - self.used_memory_before as f32) / n as f32;
-        let sign = if used_memory > 0.0 {"+"} else if used_memory < 0.0 {"-"} else {""};
+        let sign = if self.used_memory_after > self.used_memory_before {"+"} else if self.used_memory_after < self.used_memory_before {"-"} else {""};
         let used_memory = std::cmp::max( self.max_used_memory    - self.used_memory_before,
                                               self.used_memory_before - self.min_used_memory ) as f32 / n as f32;
         let memory_unit = if used_memory.abs() > (1<<30) as f32 {"GiB"}                        else if used_memory.abs() > (1<<20) as f32 {"MiB"}                              else if used_memory.abs() > (1<<10) as f32 {"KiB"}                              else {"b"};
-- 
2.43.0

