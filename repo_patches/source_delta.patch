From 2dedfc1056841527af7d92aa89accbf33c7dc19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 01/17] fix: register an update source before notifying about
 it

---
 crates/craballoc/src/slab.rs  | 4 +++-
 crates/craballoc/src/value.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 4d09fb1..40811a5 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -303,9 +303,11 @@ impl<R: IsRuntime> SlabAllocator<R> {
 
     pub(crate) fn insert_update_source(&self, k: usize, source: WeakGpuRef) {
         log::trace!("slab insert_update_source {k}",);
-        let _ = self.notifier.0.try_send(k);
         // UNWRAP: panic on purpose
         self.update_sources.write().unwrap().insert(k, source);
+        // Notify only once the source can be found, otherwise a concurrent commit would
+        // discard the notification along with the update it stands for.
+        let _ = self.notifier.0.try_send(k);
     }
 
     fn len(&self) -> usize {
diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index fd5e8ce..11ce156 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -361,8 +361,8 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> Gpu<T> {
             notify: mngr.notifier.0.clone(),
             update: Default::default(),
         };
-        s.set(value);
         mngr.insert_update_source(notifier_index, WeakGpuRef::from_gpu(&s));
+        s.set(value);
         s
     }
 
-- 
2.43.0


From 9df8d303297c2c2214e573278673fc149092a628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 02/17] fix: encode array values before allocating space for
 them

A panicking encoder leaked the space.
---
 crates/craballoc/src/value.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index 11ce156..bf33248 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -423,14 +423,13 @@ impl<T> Clone for GpuArray<T> {
 
 impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
     pub fn new(mngr: &SlabAllocator<impl IsRuntime>, values: &[T]) -> Self {
+        // Encode the values first. If that panics, no allocation is leaked.
+        let mut elements = vec![0u32; T::SLAB_SIZE * values.len()];
+        elements.write_indexed_slice(values, 0);
         let array = mngr.allocate_array::<T>(values.len());
-        let update = {
-            let mut elements = vec![0u32; T::SLAB_SIZE * array.len()];
-            elements.write_indexed_slice(values, 0);
-            SlabUpdate {
-                array: array.into_u32_array(),
-                elements,
-            }
+        let update = SlabUpdate {
+            array: array.into_u32_array(),
+            elements,
         };
         let notifier_index = mngr.next_update_k();
         let g = GpuArray {
-- 
2.43.0


From 23fab90e66130a948658c531c50981a6e8dc3fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:53 +0000
Subject: [PATCH 03/17] fix: take the update queue in one step

A source id queued by a concurrent get_updated_source_ids between the copy
and the reset of the queue was lost, and its update with it.
---
 crates/craballoc/src/slab.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 40811a5..8f47207 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -450,9 +450,14 @@ impl<R: IsRuntime> SlabAllocator<R> {
     ///
     /// This also places recycled items into the recycle bin.
     fn drain_updated_sources(&self) -> RangeManager<SlabUpdate> {
-        let update_set = self.get_updated_source_ids();
-        // UNWRAP: panic on purpose
-        *self.update_queue.write().unwrap() = Default::default();
+        let update_set = {
+            // UNWRAP: panic on purpose
+            let mut update_queue = self.update_queue.write().unwrap();
+            while let Ok(source_index) = self.notifier.1.try_recv() {
+                update_queue.insert(source_index);
+            }
+            std::mem::take(&mut *update_queue)
+        };
         // Prepare all of our GPU buffer writes
         let mut writes = RangeManager::<SlabUpdate>::default();
         {
-- 
2.43.0


From 6ef5e618f66b87761924e8e1be6bb1bbf7bbc6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 04/17] fix: grow the slab under the allocation lock

Two threads that allocated at once could both find the capacity sufficient,
or one overwrite the larger capacity of the other.
---
 crates/craballoc/src/slab.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 8f47207..4997ee1 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -316,7 +316,10 @@ impl<R: IsRuntime> SlabAllocator<R> {
 
     pub(crate) fn allocate<T: SlabItem>(&self) -> Id<T> {
         // UNWRAP: we want to panic
-        let may_range = self.recycles.write().unwrap().remove(T::SLAB_SIZE as u32);
+        //
+        // The lock is held until the slab has grown, as that is a check followed by updates.
+        let mut recycles_guard = self.recycles.write().unwrap();
+        let may_range = recycles_guard.remove(T::SLAB_SIZE as u32);
         if let Some(range) = may_range {
             let id = Id::<T>::new(range.first_index);
             log::trace!(
@@ -341,11 +344,10 @@ impl<R: IsRuntime> SlabAllocator<R> {
         }
 
         // UNWRAP: we want to panic
-        let may_range = self
-            .recycles
-            .write()
-            .unwrap()
-            .remove((T::SLAB_SIZE * len) as u32);
+        //
+        // The lock is held until the slab has grown, as that is a check followed by updates.
+        let mut recycles_guard = self.recycles.write().unwrap();
+        let may_range = recycles_guard.remove((T::SLAB_SIZE * len) as u32);
         if let Some(range) = may_range {
             let array = Array::<T>::new(range.first_index, len as u32);
             log::trace!(
-- 
2.43.0


From 664477b33a4a4bc693d048b026874d40e5af6878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:57 +0000
Subject: [PATCH 05/17] fix: serialize commits, and take updates before sizing
 the buffer

Concurrent commits could find no buffer, write to one that had just been
replaced, or write an older value over a newer one. Values created while a
commit was recreating the buffer could be written past its end.
---
 crates/craballoc/src/slab.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 4997ee1..f52f4a2 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -5,7 +5,7 @@ use rustc_hash::{FxHashMap, FxHashSet};
 use snafu::prelude::*;
 use std::{
     ops::Deref,
-    sync::{atomic::AtomicBool, Arc, RwLock},
+    sync::{atomic::AtomicBool, Arc, Mutex, RwLock},
 };
 
 use crate::{
@@ -243,6 +243,8 @@ pub struct SlabAllocator<Runtime: IsRuntime> {
     update_queue: Arc<RwLock<FxHashSet<usize>>>,
     // Recycled memory ranges
     pub(crate) recycles: Arc<RwLock<RangeManager<Range>>>,
+    // Held for the duration of a commit, so that updates reach the buffer in order
+    commit_lock: Arc<Mutex<()>>,
 }
 
 impl<R: IsRuntime> Clone for SlabAllocator<R> {
@@ -262,6 +264,7 @@ impl<R: IsRuntime> Clone for SlabAllocator<R> {
             update_sources: self.update_sources.clone(),
             update_queue: self.update_queue.clone(),
             recycles: self.recycles.clone(),
+            commit_lock: self.commit_lock.clone(),
         }
     }
 }
@@ -285,6 +288,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
             update_sources: Default::default(),
             update_queue: Default::default(),
             recycles: Default::default(),
+            commit_lock: Default::default(),
             len: Default::default(),
             // Start with size 1, because some of `wgpu`'s validation depends on it.
             // See <https://github.com/gfx-rs/wgpu/issues/6414> for more info.
@@ -528,10 +532,17 @@ impl<R: IsRuntime> SlabAllocator<R> {
     ///
     /// Returns a [`SlabBuffer`] wrapping the internal buffer that is currently in use by the allocator.
     pub fn commit(&self) -> SlabBuffer<R::Buffer> {
+        // There is nothing behind this lock that a panicking runtime could have left half done
+        let _commit_guard = self
+            .commit_lock
+            .lock()
+            .unwrap_or_else(|poisoned| poisoned.into_inner());
         let invocation_k = self
             .invocation_k
             .fetch_add(1, std::sync::atomic::Ordering::Relaxed)
             + 1;
+        // Take the updates before looking at the capacity, which then covers all of them
+        let writes = self.drain_updated_sources();
         let buffer = if self.needs_expansion.swap(false, Ordering::Relaxed) {
             self.invalidation_k
                 .store(invocation_k, std::sync::atomic::Ordering::Relaxed);
@@ -540,7 +551,6 @@ impl<R: IsRuntime> SlabAllocator<R> {
             // UNWRAP: Safe because we know it exists or else it would need expansion
             self.get_buffer().unwrap()
         };
-        let writes = self.drain_updated_sources();
         if !writes.is_empty() {
             self.runtime
                 .buffer_write(writes.ranges.into_iter(), &buffer);
-- 
2.43.0


From 61febcc4f3cc018638c15a18266eaaa6081cf7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:58 +0000
Subject: [PATCH 06/17] fix: survive a runtime that panics while the buffer is
 recreated

The old buffer was taken out before the new one was complete, under a lock
that the panic poisoned, so that the allocator was unusable ever after.
---
 crates/craballoc/src/slab.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index f52f4a2..2ac6fae 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -408,16 +408,17 @@ impl<R: IsRuntime> SlabAllocator<R> {
     /// Recreate the internal buffer, writing the contents of the previous buffer (if it
     /// exists) to the new one, then return the new buffer.
     fn recreate_buffer(&self) -> SlabBuffer<R::Buffer> {
+        let capacity = self.capacity();
         let new_buffer = self.runtime.buffer_create(
-            self.capacity(),
+            capacity,
             self.label.as_deref(),
             self.buffer_usages.clone(),
         );
-        let mut guard = self.buffer.write().unwrap();
-        if let Some(old_buffer) = guard.take() {
+        if let Some(old_buffer) = self.get_buffer() {
             self.runtime
                 .buffer_copy(&old_buffer, &new_buffer, self.label.as_deref());
         }
+        let mut guard = self.buffer.write().unwrap();
         let slab_buffer = SlabBuffer::new(
             self.invalidation_k.clone(),
             self.invocation_k.clone(),
@@ -425,6 +426,12 @@ impl<R: IsRuntime> SlabAllocator<R> {
             self.buffer.clone(),
         );
         *guard = Some(slab_buffer.clone());
+        // Unless the slab has grown again in the meantime, this is all it needed. Had the
+        // runtime panicked, the next commit would try again.
+        let _recycles_guard = self.recycles.write().unwrap();
+        if self.capacity() == capacity {
+            self.needs_expansion.store(false, Ordering::Relaxed);
+        }
         slab_buffer
     }
 
@@ -543,7 +550,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
             + 1;
         // Take the updates before looking at the capacity, which then covers all of them
         let writes = self.drain_updated_sources();
-        let buffer = if self.needs_expansion.swap(false, Ordering::Relaxed) {
+        let buffer = if self.needs_expansion.load(Ordering::Relaxed) {
             self.invalidation_k
                 .store(invocation_k, std::sync::atomic::Ordering::Relaxed);
             self.recreate_buffer()
-- 
2.43.0


From b653c7a3c86376c8014f9abb58722db573baed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 07/17] fix: invalidate buffers in the same step that replaces
 them

In between, update_if_invalid claimed an update but returned the old buffer,
or failed its debug assertion.
---
 crates/craballoc/src/slab.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 2ac6fae..4a337be 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -199,9 +199,10 @@ impl<T> SlabBuffer<T> {
             // is created, source_slab_buffer will always be Some.
             let updated_buffer = {
                 let guard = self.source_slab_buffer.read().unwrap();
-                guard.as_ref().unwrap().clone()
+                let updated_buffer = guard.as_ref().unwrap().clone();
+                debug_assert!(updated_buffer.is_valid());
+                updated_buffer
             };
-            debug_assert!(updated_buffer.is_valid());
             *self = updated_buffer;
             true
         } else {
@@ -407,7 +408,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
 
     /// Recreate the internal buffer, writing the contents of the previous buffer (if it
     /// exists) to the new one, then return the new buffer.
-    fn recreate_buffer(&self) -> SlabBuffer<R::Buffer> {
+    fn recreate_buffer(&self, invocation_k: usize) -> SlabBuffer<R::Buffer> {
         let capacity = self.capacity();
         let new_buffer = self.runtime.buffer_create(
             capacity,
@@ -419,6 +420,9 @@ impl<R: IsRuntime> SlabAllocator<R> {
                 .buffer_copy(&old_buffer, &new_buffer, self.label.as_deref());
         }
         let mut guard = self.buffer.write().unwrap();
+        // Under the lock: whoever finds their buffer invalid also finds the new one
+        self.invalidation_k
+            .store(invocation_k, std::sync::atomic::Ordering::Relaxed);
         let slab_buffer = SlabBuffer::new(
             self.invalidation_k.clone(),
             self.invocation_k.clone(),
@@ -551,9 +555,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
         // Take the updates before looking at the capacity, which then covers all of them
         let writes = self.drain_updated_sources();
         let buffer = if self.needs_expansion.load(Ordering::Relaxed) {
-            self.invalidation_k
-                .store(invocation_k, std::sync::atomic::Ordering::Relaxed);
-            self.recreate_buffer()
+            self.recreate_buffer(invocation_k)
         } else {
             // UNWRAP: Safe because we know it exists or else it would need expansion
             self.get_buffer().unwrap()
-- 
2.43.0


From d8d8863f6411357dab4895b6291b3c7a68971562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:02 +0000
Subject: [PATCH 08/17] fix: let go of a dropped value before notifying the
 slab

A concurrent commit could see the notification while the value was still
counted as alive. Its space was then never recycled.
---
 crates/craballoc/src/value.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index bf33248..ccb580e 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -336,6 +336,9 @@ pub struct Gpu<T> {
 
 impl<T> Drop for Gpu<T> {
     fn drop(&mut self) {
+        // Let go of the value before notifying: a concurrent commit that finds it still alive
+        // would not recycle it, and nobody would tell the next one.
+        drop(std::mem::take(&mut self.update));
         let _ = self.notify.try_send(self.notifier_index);
     }
 }
@@ -406,6 +409,8 @@ pub struct GpuArray<T> {
 
 impl<T> Drop for GpuArray<T> {
     fn drop(&mut self) {
+        // As in `Gpu`, let go of the values before notifying
+        drop(std::mem::take(&mut self.updates));
         let _ = self.notifier.try_send(self.notifier_index);
     }
 }
-- 
2.43.0


From a62dfdcde102aa59f3bb3d1e693280cf3a74aac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 09/17] fix: skip updates that have no elements

Committing an empty array panicked, as its update starts at index u32::MAX.
---
 crates/craballoc/src/slab.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 4a337be..3ff90e1 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -502,6 +502,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
                             .get_update()
                             .into_iter()
                             .flatten()
+                            .filter(|u| !u.elements.is_empty())
                             .for_each(|u| writes.add_range(u));
                         false
                     }
-- 
2.43.0


From 0a375c831d5ee44b24440735c6752dd56bcf169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 10/17] fix: allocate zero sized values without taking from the
 recycled ranges

Removing a range of length zero underflowed.
---
 crates/craballoc/src/range.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/craballoc/src/range.rs b/crates/craballoc/src/range.rs
index 0d83dfc..25352ae 100644
--- a/crates/craballoc/src/range.rs
+++ b/crates/craballoc/src/range.rs
@@ -130,6 +130,10 @@ impl<R: IsRange> RangeManager<R> {
 impl RangeManager<Range> {
     /// Removes a range of `count` elements, if possible.
     pub fn remove(&mut self, count: u32) -> Option<Range> {
+        if count == 0 {
+            // Zero sized values occupy nothing
+            return None;
+        }
         let mut remove_index = usize::MAX;
         for (i, range) in self.ranges.iter_mut().enumerate() {
             // This is potentially a hot path, so use the `if` even
-- 
2.43.0


From 99859f3480b117d0ef56a2793593a944b36e3b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 11/17] fix: merge all adjacent recycled ranges

A single pass in arbitrary order left ranges apart that only became
adjacent through a later merge.
---
 crates/craballoc/src/range.rs | 10 ++++++++++
 crates/craballoc/src/slab.rs  | 12 +++---------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/crates/craballoc/src/range.rs b/crates/craballoc/src/range.rs
index 25352ae..ed19318 100644
--- a/crates/craballoc/src/range.rs
+++ b/crates/craballoc/src/range.rs
@@ -128,6 +128,16 @@ impl<R: IsRange> RangeManager<R> {
 }
 
 impl RangeManager<Range> {
+    /// Merge all ranges that touch.
+    pub fn defrag(&mut self) {
+        let mut ranges = std::mem::take(&mut self.ranges);
+        // In order, each range meets all of those it may touch
+        ranges.sort_by_key(|range| range.first_index);
+        for range in ranges {
+            self.add_range(range);
+        }
+    }
+
     /// Removes a range of `count` elements, if possible.
     pub fn remove(&mut self, count: u32) -> Option<Range> {
         if count == 0 {
diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 3ff90e1..0819bc2 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -515,11 +515,8 @@ impl<R: IsRuntime> SlabAllocator<R> {
                 }
             }
             // Defrag the recycle ranges
-            let ranges = std::mem::take(&mut recycles_guard.ranges);
-            let num_ranges_to_defrag = ranges.len();
-            for range in ranges.into_iter() {
-                recycles_guard.add_range(range);
-            }
+            let num_ranges_to_defrag = recycles_guard.ranges.len();
+            recycles_guard.defrag();
             let num_ranges = recycles_guard.ranges.len();
             if num_ranges < num_ranges_to_defrag {
                 log::trace!("{num_ranges_to_defrag} ranges before, {num_ranges} after");
@@ -576,10 +573,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
     /// Defragments the internal "recycle" buffer.
     pub fn defrag(&self) {
         // UNWRAP: panic on purpose
-        let mut recycle_guard = self.recycles.write().unwrap();
-        for range in std::mem::take(&mut recycle_guard.ranges) {
-            recycle_guard.add_range(range);
-        }
+        self.recycles.write().unwrap().defrag();
     }
 
     pub fn runtime(&self) -> &R {
-- 
2.43.0


From 2274566ba2cee6cc505d00d140d09e99903e965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 12/17] fix: tolerate a buffer read that is cancelled before it
 is mapped

The callback panicked inside of whoever polled the device next.
---
 crates/craballoc/src/runtime.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/runtime.rs b/crates/craballoc/src/runtime.rs
index 6e7a4b9..46240a3 100644
--- a/crates/craballoc/src/runtime.rs
+++ b/crates/craballoc/src/runtime.rs
@@ -279,7 +279,10 @@ impl IsRuntime for WgpuRuntime {
         let buffer_slice = output_buffer.slice(..);
         let (tx, rx) = async_channel::bounded(1);
         tracing::trace_span!("map_async").in_scope(|| {
-            buffer_slice.map_async(wgpu::MapMode::Read, move |res| tx.try_send(res).unwrap());
+            buffer_slice.map_async(wgpu::MapMode::Read, move |res| {
+                // The receiver is gone if the read was cancelled
+                let _ = tx.try_send(res);
+            });
         });
         tracing::trace_span!("poll").in_scope(|| {
             self.device.poll(wgpu::Maintain::wait_for(submission_index));
-- 
2.43.0


From d9259a9bed542ee4ea7d2032db3394dcff6fbca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 13/17] fix: read back no more than the buffer holds

Reading everything overran the buffer when values were not yet committed,
and reading an empty range, such as that of an empty array, was invalid.
---
 crates/craballoc/src/runtime.rs        | 4 ++++
 crates/craballoc/src/slab/wgpu_slab.rs | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/runtime.rs b/crates/craballoc/src/runtime.rs
index 46240a3..565c00e 100644
--- a/crates/craballoc/src/runtime.rs
+++ b/crates/craballoc/src/runtime.rs
@@ -246,6 +246,10 @@ impl IsRuntime for WgpuRuntime {
         range: impl std::ops::RangeBounds<usize>,
     ) -> Result<Vec<u32>, SlabAllocatorError> {
         let (start, _end, len) = crate::runtime::range_to_indices_and_len(buffer_len, range);
+        if len == 0 {
+            // Neither can an empty buffer be mapped, nor is there a need to
+            return Ok(vec![]);
+        }
         let byte_offset = start * std::mem::size_of::<u32>();
         let length = len * std::mem::size_of::<u32>();
         let output_buffer_size = length as u64;
diff --git a/crates/craballoc/src/slab/wgpu_slab.rs b/crates/craballoc/src/slab/wgpu_slab.rs
index 8982657..a3c65d5 100644
--- a/crates/craballoc/src/slab/wgpu_slab.rs
+++ b/crates/craballoc/src/slab/wgpu_slab.rs
@@ -17,8 +17,10 @@ impl SlabAllocator<WgpuRuntime> {
         range: impl std::ops::RangeBounds<usize>,
     ) -> Result<Vec<u32>, SlabAllocatorError> {
         let internal_buffer = self.get_buffer().context(NoInternalBufferSnafu)?;
+        // Values that have not been committed yet may lie outside of the buffer
+        let buffer_len = internal_buffer.size() as usize / std::mem::size_of::<u32>();
         self.runtime
-            .buffer_read(&internal_buffer, self.len(), range)
+            .buffer_read(&internal_buffer, self.len().min(buffer_len), range)
             .await
     }
 
-- 
2.43.0


From 9fc2c1ba9abaceb3254bbbe41ee8a0d15e1d4204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 14/17] fix: let values outlive their slab

Writing to a value panicked once the slab it came from had been dropped,
which for a Hybrid also poisoned the value.
---
 crates/craballoc/src/value.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index ccb580e..5bedf41 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -383,8 +383,8 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> Gpu<T> {
                 es
             },
         }];
-        // UNWRAP: safe because it's unbounded
-        self.notify.try_send(self.notifier_index).unwrap();
+        // The channel is unbounded, and closed once the slab is gone
+        let _ = self.notify.try_send(self.notifier_index);
     }
 
     /// A unique identifier.
@@ -472,8 +472,8 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
             .lock()
             .unwrap()
             .push(SlabUpdate { array, elements });
-        // UNWRAP: safe because it's unbounded
-        self.notifier.try_send(self.notifier_index).unwrap();
+        // The channel is unbounded, and closed once the slab is gone
+        let _ = self.notifier.try_send(self.notifier_index);
     }
 
     /// A unique identifier.
-- 
2.43.0


From 4109c0f145d8d8cf2686863a45fee5efda2cba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:13 +0000
Subject: [PATCH 15/17] fix: ignore writes past the end of a GpuArray

The update was queued for index u32::MAX and made the next commit panic.
---
 crates/craballoc/src/value.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index 5bedf41..383e5c3 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -464,6 +464,9 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
     }
 
     pub fn set_item(&self, index: usize, value: &T) {
+        if index >= self.array.len() {
+            return;
+        }
         let id = self.array.at(index);
         let array = Array::<u32>::new(id.inner(), T::SLAB_SIZE as u32);
         let mut elements = vec![0u32; T::SLAB_SIZE];
-- 
2.43.0


From a42e07d8a11ee3a835d0337bf2c80a13aa289e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:35 +0000
Subject: [PATCH 16/17] fix: free the buffer along with its slab

The slab kept its buffer in a place that the buffer itself referred to, so
that neither was ever dropped.
---
 crates/craballoc/src/slab.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 0819bc2..5fc7e8f 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -54,9 +54,14 @@ pub struct SlabBuffer<T> {
     // The buffer created at `buffer_creation_k`
     buffer: Arc<T>,
     // The buffer the source slab is currently working with
-    source_slab_buffer: Arc<RwLock<Option<SlabBuffer<T>>>>,
+    source_slab_buffer: SourceSlabBuffer<T>,
 }
 
+// The buffer a slab is currently working with and when it was created.
+//
+// This is not a `SlabBuffer`, as that would keep itself alive forever by its reference back.
+type SourceSlabBuffer<T> = Arc<RwLock<Option<(usize, Arc<T>)>>>;
+
 impl<T> Clone for SlabBuffer<T> {
     fn clone(&self) -> Self {
         Self {
@@ -82,7 +87,7 @@ impl<T> SlabBuffer<T> {
         invalidation_k: Arc<AtomicUsize>,
         invocation_k: Arc<AtomicUsize>,
         buffer: T,
-        source_slab_buffer: Arc<RwLock<Option<SlabBuffer<T>>>>,
+        source_slab_buffer: SourceSlabBuffer<T>,
     ) -> Self {
         SlabBuffer {
             buffer: buffer.into(),
@@ -199,7 +204,12 @@ impl<T> SlabBuffer<T> {
             // is created, source_slab_buffer will always be Some.
             let updated_buffer = {
                 let guard = self.source_slab_buffer.read().unwrap();
-                let updated_buffer = guard.as_ref().unwrap().clone();
+                let (buffer_creation_k, buffer) = guard.as_ref().unwrap().clone();
+                let updated_buffer = SlabBuffer {
+                    buffer_creation_k,
+                    buffer,
+                    ..self.clone()
+                };
                 debug_assert!(updated_buffer.is_valid());
                 updated_buffer
             };
@@ -230,7 +240,7 @@ pub struct SlabAllocator<Runtime: IsRuntime> {
     len: Arc<AtomicUsize>,
     capacity: Arc<AtomicUsize>,
     needs_expansion: Arc<AtomicBool>,
-    buffer: Arc<RwLock<Option<SlabBuffer<Runtime::Buffer>>>>,
+    buffer: SourceSlabBuffer<Runtime::Buffer>,
     buffer_usages: Runtime::BufferUsages,
     // The value of invocation_k when the last buffer invalidation happened
     invalidation_k: Arc<AtomicUsize>,
@@ -403,7 +413,14 @@ impl<R: IsRuntime> SlabAllocator<R> {
     /// Return the internal buffer used by this slab, if it has
     /// been created.
     pub fn get_buffer(&self) -> Option<SlabBuffer<R::Buffer>> {
-        self.buffer.read().unwrap().clone()
+        let (buffer_creation_k, buffer) = self.buffer.read().unwrap().clone()?;
+        Some(SlabBuffer {
+            slab_commit_invocation_k: self.invocation_k.clone(),
+            slab_invalidation_k: self.invalidation_k.clone(),
+            buffer_creation_k,
+            buffer,
+            source_slab_buffer: self.buffer.clone(),
+        })
     }
 
     /// Recreate the internal buffer, writing the contents of the previous buffer (if it
@@ -429,7 +446,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
             new_buffer,
             self.buffer.clone(),
         );
-        *guard = Some(slab_buffer.clone());
+        *guard = Some((slab_buffer.buffer_creation_k, slab_buffer.buffer.clone()));
         // Unless the slab has grown again in the meantime, this is all it needed. Had the
         // runtime panicked, the next commit would try again.
         let _recycles_guard = self.recycles.write().unwrap();
-- 
2.43.0


From e8d6b361d7629e7f31799b494dc78a47ffd8b92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:27 +0000
Subject: [PATCH 17/17] fix: a commit that takes a value's updates counted as
 one of its owners

While it took the updates of a value, a commit held a strong reference to them. Had the last handle
been dropped in the meantime, a weak handle could still be upgraded, and the number of owners
that ref_count and strong_count reported was one too high.
---
 crates/craballoc/src/value.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index 383e5c3..3c1d206 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -12,6 +12,13 @@ use crate::{
     slab::SlabAllocator,
 };
 
+/// Updates waiting for a commit, shared by the handles that own a value.
+///
+/// The outer `Arc` counts the owners. The inner one is what a commit holds while it takes the
+/// updates, so that it does not count as an owner, nor keeps alive (and open to upgrades) a
+/// value that has none.
+type SharedUpdates = Arc<Arc<Mutex<Vec<SlabUpdate>>>>;
+
 pub struct WeakGpuRef {
     pub(crate) u32_array: Array<u32>,
     pub(crate) weak: Weak<Mutex<Vec<SlabUpdate>>>,
@@ -39,7 +46,7 @@ impl WeakGpuRef {
     fn from_gpu<T: SlabItem>(gpu: &Gpu<T>) -> Self {
         WeakGpuRef {
             u32_array: Array::new(gpu.id.inner(), T::SLAB_SIZE as u32),
-            weak: Arc::downgrade(&gpu.update),
+            weak: Arc::downgrade(gpu.update.as_ref()),
             takes_update: true,
         }
     }
@@ -47,7 +54,7 @@ impl WeakGpuRef {
     fn from_gpu_array<T: SlabItem>(gpu_array: &GpuArray<T>) -> Self {
         WeakGpuRef {
             u32_array: gpu_array.array.into_u32_array(),
-            weak: Arc::downgrade(&gpu_array.updates),
+            weak: Arc::downgrade(gpu_array.updates.as_ref()),
             takes_update: true,
         }
     }
@@ -58,7 +65,7 @@ pub struct WeakGpu<T> {
     pub(crate) id: Id<T>,
     pub(crate) notifier_index: usize,
     pub(crate) notify: async_channel::Sender<usize>,
-    pub(crate) update: Weak<Mutex<Vec<SlabUpdate>>>,
+    pub(crate) update: Weak<Arc<Mutex<Vec<SlabUpdate>>>>,
 }
 
 impl<T> Clone for WeakGpu<T> {
@@ -331,7 +338,7 @@ pub struct Gpu<T> {
     pub(crate) id: Id<T>,
     pub(crate) notifier_index: usize,
     pub(crate) notify: async_channel::Sender<usize>,
-    pub(crate) update: Arc<Mutex<Vec<SlabUpdate>>>,
+    pub(crate) update: SharedUpdates,
 }
 
 impl<T> Drop for Gpu<T> {
@@ -404,7 +411,7 @@ pub struct GpuArray<T> {
     array: Array<T>,
     notifier_index: usize,
     notifier: async_channel::Sender<usize>,
-    updates: Arc<Mutex<Vec<SlabUpdate>>>,
+    updates: SharedUpdates,
 }
 
 impl<T> Drop for GpuArray<T> {
@@ -441,7 +448,7 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
             notifier_index,
             notifier: mngr.notifier.0.clone(),
             array,
-            updates: Arc::new(Mutex::new(vec![update])),
+            updates: Arc::new(Arc::new(Mutex::new(vec![update]))),
         };
         mngr.insert_update_source(notifier_index, WeakGpuRef::from_gpu_array(&g));
         g
-- 
2.43.0

