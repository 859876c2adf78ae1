From 51227aa33151775f68b1af8b98265e7a8db924f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 01/12] fix: do not treat a partial storage scan as a complete
 one

A read error (or cancellation) after the first good Write Record left the
cache half populated, and it was then used as if the scan had finished: stale
values were loaded, sequence numbers reused, and newer records collected.
---
 crates/cfg-noodle/src/storage_list.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index e1b8438..99c9311 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -631,6 +631,11 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
         // We have NOT hydrated, do so now.
         //
         // Start by getting an iterator, and setting up some tracking state
+        //
+        // NOTE: the results are collected locally, and only become our cache once the ENTIRE
+        // storage was visited: a scan that fails (or is cancelled) half way must not be
+        // mistaken for a completed one.
+        let mut seq_state = SeqState::new();
         let mut iter = s.iter_elems().await.map_err(LoadStoreError::FlashRead)?;
         let mut current: Option<(NonZeroU32, usize)> = None;
         let mut crc = Crc32::new();
@@ -696,7 +701,7 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
                         start_idx,
                         idx
                     );
-                    self.seq_state.insert_good(GoodWriteRecord {
+                    seq_state.insert_good(GoodWriteRecord {
                         seq: seq_no,
                         range: start_idx..=idx,
                     });
@@ -704,10 +709,11 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
             }
         }
 
-        let highest = self.seq_state.highest_seen();
+        let highest = seq_state.highest_seen();
         if highest.is_none() {
-            self.seq_state.next_seq = NonZeroU32::new(1);
+            seq_state.next_seq = NonZeroU32::new(1);
         }
+        self.seq_state = seq_state;
 
         Ok(highest)
     }
-- 
2.43.0


From 32b757cf0d07543852621e601110f9ebd80b03e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 02/12] fix: require garbage collection after a failed write

A failed or cancelled process_writes leaves a partial Write Record behind that
has the sequence number the retry uses as well. Verification of the retry then
found the old Start element, and failed on every further attempt.
---
 crates/cfg-noodle/src/storage_list.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index 99c9311..31be40e 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -375,6 +375,10 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
 
         debug!("Attempt write_to_flash");
 
+        // Until the new record has been written AND verified, we have to assume that a partial
+        // record is left behind in the storage. It needs to be removed before we write again.
+        inner.seq_state.needs_gc = true;
+
         // TODO: Retries have to be handled in the OUTER context, so we can
         // start over from the beginning.
         let rpt = inner.write_to_flash(buf, storage, next_seq).await?;
-- 
2.43.0


From 08598417d403261927794714a452bc9739b783fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 03/12] fix: collect leftovers when the storage has no valid
 record

If the very first write was interrupted, its leftovers were never removed, and
the verification of every later write failed on them.
---
 crates/cfg-noodle/src/storage_list.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index 31be40e..a64da7f 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -716,6 +716,9 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
         let highest = seq_state.highest_seen();
         if highest.is_none() {
             seq_state.next_seq = NonZeroU32::new(1);
+            // Anything that IS there is left over from an incomplete write, clean it up
+            // before we write our first record.
+            seq_state.needs_gc = ctr > 0;
         }
         self.seq_state = seq_state;
 
-- 
2.43.0


From 58db5cd22cf00066c7eb46fcd304ab157fa9eea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 04/12] fix: verified record range ended one past its End
 element

Garbage collection kept the unrelated element that follows the record.
---
 crates/cfg-noodle/src/storage_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index a64da7f..74aa4c4 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -1305,7 +1305,7 @@ async fn verify_list_in_flash<S: NdlDataStorage>(
                     seq_chk, crc_chk1, crc_chk2, ctr_chk, good
                 );
                 if good {
-                    return Ok(RangeInclusive::new(start_pos, total_items_seen_ctr));
+                    return Ok(RangeInclusive::new(start_pos, total_items_seen_ctr - 1));
                 } else {
                     return Err(LoadStoreError::WriteVerificationFailed);
                 }
-- 
2.43.0


From a3dde90c105ac886a1f8dd9084ea1686f0f98edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 05/12] fix: report read errors in extract_all as such

A read error on the Start element was reported as InconsistentFlash.
---
 crates/cfg-noodle/src/storage_list.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index 74aa4c4..c54bdd9 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -760,7 +760,11 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
         }
 
         // We need the next item to exist...
-        let Ok(Some(item)) = queue_iter.next(buf).await else {
+        let Some(item) = queue_iter
+            .next(buf)
+            .await
+            .map_err(LoadStoreError::FlashRead)?
+        else {
             return Err(LoadStoreError::AppError(Error::InconsistentFlash));
         };
         // update the counter
-- 
2.43.0


From ea1974dbbd5e900fb626dd0ce0db3d6b1e491fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 06/12] fix: do not panic when a value does not fit the buffer

The debug assertion on the encoded length was evaluated before checking if
encoding succeeded, so debug builds panicked instead of returning
Error::Serialization.
---
 crates/cfg-noodle/src/storage_node.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_node.rs b/crates/cfg-noodle/src/storage_node.rs
index b056ce7..e769590 100644
--- a/crates/cfg-noodle/src/storage_node.rs
+++ b/crates/cfg-noodle/src/storage_node.rs
@@ -879,12 +879,14 @@ where
         len_with(tref, &mut ()),
         &cursor.get_ref()[..cursor.position()],
     );
-    // Make sure len_with returns the correct number of bytes
-    // Important because we depend on it in deserialize()
-    debug_assert_eq!(cursor.position(), len_with(tref, &mut ()));
 
     match res {
-        Ok(()) => Ok(cursor.position()),
+        Ok(()) => {
+            // Make sure len_with returns the correct number of bytes
+            // Important because we depend on it in deserialize()
+            debug_assert_eq!(cursor.position(), len_with(tref, &mut ()));
+            Ok(cursor.position())
+        }
         Err(_e) => {
             // We know this was an "end of slice" error
             Err(())
-- 
2.43.0


From 22982d5c3263858b1cb4fb00dc930ac44454c06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:28 +0000
Subject: [PATCH 07/12] fix: release a node when its attach future is dropped

A cancelled attach left the "is taken" bit set for ever: the node could then
neither be attached nor detached again.
---
 crates/cfg-noodle/src/storage_node.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_node.rs b/crates/cfg-noodle/src/storage_node.rs
index e769590..3b17706 100644
--- a/crates/cfg-noodle/src/storage_node.rs
+++ b/crates/cfg-noodle/src/storage_node.rs
@@ -342,6 +342,7 @@ where
     {
         debug!("Attaching new node");
         let already_attached;
+        let handle;
 
         // Add a scope so that the list mutex is unlocked afterwards
         {
@@ -432,6 +433,13 @@ where
                 }
             }
 
+            // Create the handle now, so that the "is taken" bit is released again if this
+            // future is dropped, or the default closure panics, before we can return it.
+            handle = StorageListNodeHandle {
+                list_ty: PhantomData,
+                inner: self,
+            };
+
             // Let read task know we MAY have work. This may not be true if we
             // are re-attaching, but `process_reads` is smart enough to skip
             // a read if no nodes actually are in a state where they need data.
@@ -502,10 +510,7 @@ where
         // - Rule 6.1: The node is attached to a list
         // - Rule 6.2: No other handles exist
         // - Rule 6.3: We have passed the Initial/NonResident state
-        Ok(StorageListNodeHandle {
-            list_ty: PhantomData,
-            inner: self,
-        })
+        Ok(handle)
     }
 
     /// Detach a node from a given list
-- 
2.43.0


From 4173e180cca3dcea39b428e8db5f7559afc2f5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:28 +0000
Subject: [PATCH 08/12] fix: require Send + Sync values for nodes shared with
 the worker

StorageListNode<T> was Sync for T that are not, although load() hands out
clones without locking (racing other loads and the worker's serialization), and
a leaked node with a value that is not even Send could be attached to a list
served by another thread.
---
 crates/cfg-noodle/src/storage_node.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/cfg-noodle/src/storage_node.rs b/crates/cfg-noodle/src/storage_node.rs
index 3b17706..de5b8e4 100644
--- a/crates/cfg-noodle/src/storage_node.rs
+++ b/crates/cfg-noodle/src/storage_node.rs
@@ -272,6 +272,7 @@ where
         list: &'static StorageList<R, KEPT_RECORDS>,
     ) -> impl Future<Output = Result<StorageListNodeHandle<T, R, KEPT_RECORDS>, Error>>
     where
+        T: Send + Sync,
         R: ScopedRawMutex + 'static,
     {
         self.attach_with_default(list, Default::default)
@@ -338,6 +339,8 @@ where
         f: F,
     ) -> Result<StorageListNodeHandle<T, R, KEPT_RECORDS>, Error>
     where
+        // The worker task accesses the value, possibly from another thread
+        T: Send + Sync,
         R: ScopedRawMutex + 'static,
     {
         debug!("Attaching new node");
@@ -633,7 +636,10 @@ where
 
 /// SAFETY: Sync-safety is guaranteed by adhering to the rules in the [`crate::safety_guide`]
 /// and the StorageList mutex.
-unsafe impl<T> Sync for StorageListNode<T> where T: Send + 'static + MaybeDefmtFormat {}
+///
+/// A shared `T` can be observed from several threads at once: `load()` does not lock the list, so
+/// it can overlap with another `load()`, or with the worker task serializing the value.
+unsafe impl<T> Sync for StorageListNode<T> where T: Send + Sync + 'static + MaybeDefmtFormat {}
 
 // ---- impl StorageListNodeHandle ----
 
-- 
2.43.0


From bfd8c88917f1cc59eb20e447825f8b2d07676e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 09/12] fix: recover in the default worker when a write needs a
 read or gc first

A failed or cancelled garbage collection invalidates the cache, so every later
write failed with NeedsFirstRead until another node happened to be attached,
and pending writes were dropped if that was the state when stopping.
---
 crates/cfg-noodle/src/worker_task.rs | 58 +++++++++++++++++++---------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/crates/cfg-noodle/src/worker_task.rs b/crates/cfg-noodle/src/worker_task.rs
index 5427418..fc5393d 100644
--- a/crates/cfg-noodle/src/worker_task.rs
+++ b/crates/cfg-noodle/src/worker_task.rs
@@ -144,10 +144,7 @@ pub async fn default_worker_task<
                         Ok(rpt) => info!("process_garbage success: {:?}", rpt),
                         Err(e) => error!("Error in process_garbage: {:?}", e),
                     }
-                    match list.process_writes(&mut flash, buf).await {
-                        Ok(rpt) => info!("process_writes success: {:?}", rpt),
-                        Err(e) => error!("Error in process_writes: {:?}", e),
-                    }
+                    flush_writes(list, &mut flash, buf).await;
 
                     info!("worker task finished process_writes, triggering process_garbage");
                     match list.process_garbage(&mut flash, buf).await {
@@ -176,25 +173,48 @@ pub async fn default_worker_task<
     let Either::Second(_) = select(waker_future, stopper).await;
 
     info!("stopper future completed, stopping worker task");
-    match list.process_writes(&mut flash, buf).await {
-        Ok(rpt) => info!("process_writes success: {:?}", rpt),
-        Err(LoadStoreError::AppError(Error::NeedsGarbageCollect)) => {
-            match list.process_garbage(&mut flash, buf).await {
-                Ok(rpt) => info!("process_garbage success: {:?}", rpt),
-                Err(e) => error!("Error in process_garbage: {:?}", e),
+    flush_writes(list, &mut flash, buf).await;
+
+    info!("worker task stopped!");
+}
+
+/// Write any pending changes, performing the reads or garbage collection that are required first
+///
+/// A failed (or, when stopping, cancelled) operation may leave the list in a state where it has to
+/// be read and/or garbage collected again before anything can be written.
+async fn flush_writes<R: ScopedRawMutex, S: NdlDataStorage, const KEPT_RECORDS: usize>(
+    list: &'static StorageList<R, KEPT_RECORDS>,
+    flash: &mut S,
+    buf: &mut [u8],
+) where
+    S::Error: Debug,
+{
+    // At most a read and a garbage collection are needed, and one more attempt if either fails
+    for _ in 0..4 {
+        match list.process_writes(flash, buf).await {
+            Ok(rpt) => {
+                info!("process_writes success: {:?}", rpt);
+                return;
             }
-            match list.process_writes(&mut flash, buf).await {
-                Ok(rpt) => info!("process_writes success: {:?}", rpt),
-                Err(e) => error!("Error in process_writes: {:?}", e),
+            Err(LoadStoreError::AppError(Error::NeedsFirstRead)) => {
+                match list.process_reads(flash, buf).await {
+                    Ok(rpt) => info!("process_reads success: {:?}", rpt),
+                    Err(e) => error!("Error in process_reads: {:?}", e),
+                }
+            }
+            Err(LoadStoreError::AppError(Error::NeedsGarbageCollect)) => {
+                match list.process_garbage(flash, buf).await {
+                    Ok(rpt) => info!("process_garbage success: {:?}", rpt),
+                    Err(e) => error!("Error in process_garbage: {:?}", e),
+                }
+            }
+            Err(e) => {
+                error!("Error in process_writes: {:?}", e);
+                return;
             }
         }
-        Err(LoadStoreError::AppError(Error::NeedsFirstRead)) => {
-            warn!("closing worker without performing first read");
-        }
-        Err(e) => error!("Error in process_writes: {:?}", e),
     }
-
-    info!("worker task stopped!");
+    warn!("pending writes could not be flushed");
 }
 
 /// A worker tasks that always reads no entries and ignores all writes
-- 
2.43.0


From de8c49ce57833e0f15d7ab70155bb39d72a1f2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 10/12] fix: do not lose signals in the default worker

A needs_write (or needs_read) signal that was consumed, but still debouncing
when another future was selected, was lost: the write was never flushed, or
the attach never completed.
---
 crates/cfg-noodle/src/worker_task.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/cfg-noodle/src/worker_task.rs b/crates/cfg-noodle/src/worker_task.rs
index fc5393d..58912e0 100644
--- a/crates/cfg-noodle/src/worker_task.rs
+++ b/crates/cfg-noodle/src/worker_task.rs
@@ -1,6 +1,6 @@
 //! Default worker task implementation
 
-use core::fmt::Debug;
+use core::{cell::Cell, fmt::Debug};
 use embassy_futures::select::{Either, Either3, select};
 use embassy_sync::{blocking_mutex::raw::NoopRawMutex, signal::Signal};
 use embassy_time::Duration;
@@ -61,6 +61,10 @@ pub async fn default_worker_task<
     // Create one future for the waker signals so that we can `select` between this
     // future and the `stopper` future.
     let waker_future = async {
+        // Signals that have been consumed, but not acted upon yet. These must outlive the futures
+        // below: those are dropped, debouncing or not, when one of the others completes first.
+        let read_pending = Cell::new(false);
+        let write_pending = Cell::new(false);
         let mut first_gc_done = false;
         let needs_gc: Signal<NoopRawMutex, Duration> = Signal::new();
 
@@ -69,7 +73,10 @@ pub async fn default_worker_task<
             let read_fut = async {
                 // Wait for needs_read to be signaled once
                 debug!("worker_task waiting for needs_read signal");
-                list.needs_read().await;
+                if !read_pending.get() {
+                    list.needs_read().await;
+                    read_pending.set(true);
+                }
 
                 // Run debounce loop that breaks when needs_read hasn't been signaled
                 // for more than 100ms
@@ -89,7 +96,10 @@ pub async fn default_worker_task<
             let write_fut = async {
                 // Wait for needs_read to be signaled once
                 debug!("worker_task waiting for needs_write signal");
-                list.needs_write().await;
+                if !write_pending.get() {
+                    list.needs_write().await;
+                    write_pending.set(true);
+                }
 
                 // Run debounce loop that breaks when needs_write hasn't been signaled
                 // for more than 100ms
@@ -118,6 +128,7 @@ pub async fn default_worker_task<
                 // needs_read signaled
                 Either3::First(_) => {
                     info!("worker task got needs_read signal, processing reads");
+                    read_pending.set(false);
 
                     match list.process_reads(&mut flash, buf).await {
                         Ok(rpt) => info!("process_reads success: {:?}", rpt),
@@ -139,6 +150,7 @@ pub async fn default_worker_task<
                 // needs_write signaled
                 Either3::Second(_) => {
                     info!("worker task got needs_write signal, first process_garbage then write");
+                    write_pending.set(false);
 
                     match list.process_garbage(&mut flash, buf).await {
                         Ok(rpt) => info!("process_garbage success: {:?}", rpt),
-- 
2.43.0


From d65c23000f046256d2da6938dcab79e3aa7be6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:08 +0000
Subject: [PATCH 11/12] fix: do not promise element sizes the queue can not
 store

---
 crates/cfg-noodle/src/flash.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/cfg-noodle/src/flash.rs b/crates/cfg-noodle/src/flash.rs
index 202f577..9330c6a 100644
--- a/crates/cfg-noodle/src/flash.rs
+++ b/crates/cfg-noodle/src/flash.rs
@@ -158,7 +158,18 @@ where
         let item_metadata = QueueStorage::<T, C>::item_overhead_size() as usize;
 
         // The max size is the baseline minus any overhead.
-        baseline - sector_metadata - item_metadata
+        let available = baseline - sector_metadata - item_metadata;
+
+        // The queue stores the length of an item as a u16, and reads items into
+        // buffers in units of words, so large sectors can not be filled by one item.
+        let max_item = u16::MAX as usize;
+        let max_item = max_item - max_item % crate::max(T::WRITE_SIZE, T::READ_SIZE);
+
+        if available < max_item {
+            available
+        } else {
+            max_item
+        }
     };
 }
 
-- 
2.43.0


From 637c85a06f99ebab34636b47d1672f9af2357f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:16 +0000
Subject: [PATCH 12/12] fix: acquire the node in the exchange that takes it

A node that is detached from one list and attached to another one goes
through a null mark.  The exchange in attach() that takes the node only
released: when the mark changed to the other list and back to null between
the initial load and the exchange, nothing ordered the other thread's detach
before this thread's push of the node.
---
 crates/cfg-noodle/src/storage_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cfg-noodle/src/storage_node.rs b/crates/cfg-noodle/src/storage_node.rs
index de5b8e4..caaa348 100644
--- a/crates/cfg-noodle/src/storage_node.rs
+++ b/crates/cfg-noodle/src/storage_node.rs
@@ -382,7 +382,7 @@ where
             // Attempt to swap the contents with a pointer to the current list
             let old =
                 self.taken_for_list
-                    .fetch_update(Ordering::Release, Ordering::Acquire, |old| {
+                    .fetch_update(Ordering::AcqRel, Ordering::Acquire, |old| {
                         // If the old value was null (no list, not attached), OR
                         // if the old value was for THIS list (not attached), then
                         // swap for THIS list + attached
-- 
2.43.0

