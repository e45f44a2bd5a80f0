From 1b41c24e0588dfb8f3777999c4bba7c47036dd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:22 +0000
Subject: [PATCH 01/11] fix: keep scan results local until the scan of the
 storage completed

A read error (or a dropped future) in the middle of the initial scan left
the records seen so far in the cached state, which was then treated as a
complete scan: nodes were hydrated with outdated values, and the next
garbage collection invalidated the newer records.
---
 crates/cfg-noodle/src/storage_list.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index e1b8438..660aa0a 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -632,6 +632,11 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
         //
         // Start by getting an iterator, and setting up some tracking state
         let mut iter = s.iter_elems().await.map_err(LoadStoreError::FlashRead)?;
+        //
+        // NOTE: we collect what we find in a local SeqState, and only store it once the
+        // scan is complete: if we fail or are cancelled part way through, we must not
+        // treat the (possibly outdated) records we have seen so far as the latest ones.
+        let mut seq_state = SeqState::new();
         let mut current: Option<(NonZeroU32, usize)> = None;
         let mut crc = Crc32::new();
         let mut ctr = 0;
@@ -696,7 +701,7 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
                         start_idx,
                         idx
                     );
-                    self.seq_state.insert_good(GoodWriteRecord {
+                    seq_state.insert_good(GoodWriteRecord {
                         seq: seq_no,
                         range: start_idx..=idx,
                     });
@@ -704,10 +709,11 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
             }
         }
 
-        let highest = self.seq_state.highest_seen();
+        let highest = seq_state.highest_seen();
         if highest.is_none() {
-            self.seq_state.next_seq = NonZeroU32::new(1);
+            seq_state.next_seq = NonZeroU32::new(1);
         }
+        self.seq_state = seq_state;
 
         Ok(highest)
     }
-- 
2.43.0


From 43cc5a183ddd5eee07841e0f6c2d0a7edd7a79ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 02/11] fix: recover from writes that failed part way through

A process_writes that failed or was dropped after the first element left an
incomplete record behind without requesting a garbage collection. The next
attempt reused the sequence number, and verification found the first (the
incomplete) record, so that all later writes failed with
WriteVerificationFailed. The same happened on boot when the storage only
contained such left-overs.
---
 crates/cfg-noodle/src/storage_list.rs | 41 +++++++++++++++++++++------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index 660aa0a..cf9aace 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -354,14 +354,14 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
         let mut inner = self.inner.lock().await;
         debug!("process_writes locked list");
 
-        let Some(next_seq) = inner.seq_state.next_seq else {
-            return Err(LoadStoreError::AppError(Error::NeedsFirstRead));
-        };
-
         if inner.seq_state.needs_gc {
             return Err(LoadStoreError::AppError(Error::NeedsGarbageCollect));
         }
 
+        let Some(next_seq) = inner.seq_state.next_seq else {
+            return Err(LoadStoreError::AppError(Error::NeedsFirstRead));
+        };
+
         let needs_writing = inner.needs_writing()?;
 
         // If the list is unchanged, there is no need to write it to flash!
@@ -375,6 +375,11 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
 
         debug!("Attempt write_to_flash");
 
+        // Take the seq_state while the storage is being modified: if we fail or are
+        // cancelled part way through, an incomplete Write Record may be left behind,
+        // and a re-index and garbage collection are required before the next attempt.
+        let mut seq_state = core::mem::replace(&mut inner.seq_state, SeqState::new_dirty());
+
         // TODO: Retries have to be handled in the OUTER context, so we can
         // start over from the beginning.
         let rpt = inner.write_to_flash(buf, storage, next_seq).await?;
@@ -389,10 +394,11 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
             range.start(),
             range.end()
         );
-        inner.seq_state.insert_good(GoodWriteRecord {
+        seq_state.insert_good(GoodWriteRecord {
             seq: next_seq,
             range,
         });
+        inner.seq_state = seq_state;
 
         // The write must have succeeded. So mark all nodes accordingly.
         for hdrref in inner.list.iter() {
@@ -437,6 +443,10 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
         storage: &mut S,
         buf: &mut [u8],
     ) -> Result<ProcessGarbageCounters, LoadStoreError<S::Error>> {
+        // Setup counters
+        let mut total_bytes_read = 0;
+        let mut total_bytes_popped = 0;
+
         // Take the mutex for a short time to copy out the current seq_state.
         let cur_seq_state = {
             let mut guard = self.inner.lock().await;
@@ -449,6 +459,12 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
                 });
             }
 
+            // If an earlier write did not complete, we first need to re-index, as we
+            // would otherwise not know which records to keep
+            guard
+                .get_or_populate_latest(storage, buf, &mut total_bytes_read)
+                .await?;
+
             // Take the seq_state to inhibit any other reads/writes until
             // we successfully complete, AND that a re-index will be required
             // even if we early-return here
@@ -467,10 +483,6 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
                 .any(|r| r.range.contains(&n))
         };
 
-        // Setup counters
-        let mut total_bytes_read = 0;
-        let mut total_bytes_popped = 0;
-
         // Create an iterator
         let mut elems = storage
             .iter_elems()
@@ -713,6 +725,8 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
         if highest.is_none() {
             seq_state.next_seq = NonZeroU32::new(1);
         }
+        // Elements that are not part of any good record need to be collected as well
+        seq_state.needs_gc = ctr > 0;
         self.seq_state = seq_state;
 
         Ok(highest)
@@ -1036,6 +1050,15 @@ impl<const KEPT_RECORDS: usize> SeqState<KEPT_RECORDS> {
         }
     }
 
+    /// The state to use while the contents of the storage are being modified: we must
+    /// re-scan the storage, and perform a garbage collection before the next write.
+    const fn new_dirty() -> Self {
+        Self {
+            needs_gc: true,
+            ..Self::new()
+        }
+    }
+
     /// Have we hydrated from the external flash?
     #[inline]
     fn initial_scan_completed(&self) -> bool {
-- 
2.43.0


From 62e6702cd7e8771271d81f33e6f907c39f86e914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:50 +0000
Subject: [PATCH 03/11] fix: keep the garbage collection due if it did not
 complete

A failed or dropped process_garbage cleared the request to collect garbage,
so that retrying it was a no-op, and process_writes failed with
NeedsFirstRead although the first read had been performed.
---
 crates/cfg-noodle/src/storage_list.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index cf9aace..c0d9686 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -467,8 +467,9 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
 
             // Take the seq_state to inhibit any other reads/writes until
             // we successfully complete, AND that a re-index will be required
-            // even if we early-return here
-            core::mem::replace(&mut guard.seq_state, SeqState::new())
+            // even if we early-return here. As we haven't collected all garbage in that
+            // case, a garbage collection is still due.
+            core::mem::replace(&mut guard.seq_state, SeqState::new_dirty())
         };
 
         // Helper function that iterates over each present GoodWriteRecord,
-- 
2.43.0


From eca56b5bb55320c8c87f7372c1e71f4c3a82d8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:16 +0000
Subject: [PATCH 04/11] fix: don't lose read and write requests in the default
 worker

When one of the read, write or collect triggers fired, the futures of the
others were dropped even if they had already consumed their request and were
debouncing: the write was never persisted, or the attach hung, until another
request came in. A write that came due while a newly attached node was still
waiting to be read was lost as well.
---
 crates/cfg-noodle/src/worker_task.rs | 35 ++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/crates/cfg-noodle/src/worker_task.rs b/crates/cfg-noodle/src/worker_task.rs
index 5427418..06450e1 100644
--- a/crates/cfg-noodle/src/worker_task.rs
+++ b/crates/cfg-noodle/src/worker_task.rs
@@ -1,6 +1,6 @@
 //! Default worker task implementation
 
-use core::fmt::Debug;
+use core::{cell::Cell, fmt::Debug};
 use embassy_futures::select::{Either, Either3, select};
 use embassy_sync::{blocking_mutex::raw::NoopRawMutex, signal::Signal};
 use embassy_time::Duration;
@@ -64,12 +64,21 @@ pub async fn default_worker_task<
         let mut first_gc_done = false;
         let needs_gc: Signal<NoopRawMutex, Duration> = Signal::new();
 
+        // The futures below are dropped and re-created whenever one of them completes.
+        // Remember the signals that have been received, but not been processed yet, so
+        // they aren't lost if this happens while debouncing.
+        let read_pending = Cell::new(false);
+        let write_pending = Cell::new(false);
+
         // Wait for either the needs_read or needs_write to be signaled
         loop {
             let read_fut = async {
                 // Wait for needs_read to be signaled once
-                debug!("worker_task waiting for needs_read signal");
-                list.needs_read().await;
+                if !read_pending.get() {
+                    debug!("worker_task waiting for needs_read signal");
+                    list.needs_read().await;
+                    read_pending.set(true);
+                }
 
                 // Run debounce loop that breaks when needs_read hasn't been signaled
                 // for more than 100ms
@@ -87,9 +96,12 @@ pub async fn default_worker_task<
                 }
             };
             let write_fut = async {
-                // Wait for needs_read to be signaled once
-                debug!("worker_task waiting for needs_write signal");
-                list.needs_write().await;
+                // Wait for needs_write to be signaled once
+                if !write_pending.get() {
+                    debug!("worker_task waiting for needs_write signal");
+                    list.needs_write().await;
+                    write_pending.set(true);
+                }
 
                 // Run debounce loop that breaks when needs_write hasn't been signaled
                 // for more than 100ms
@@ -118,6 +130,7 @@ pub async fn default_worker_task<
                 // needs_read signaled
                 Either3::First(_) => {
                     info!("worker task got needs_read signal, processing reads");
+                    read_pending.set(false);
 
                     match list.process_reads(&mut flash, buf).await {
                         Ok(rpt) => info!("process_reads success: {:?}", rpt),
@@ -139,6 +152,7 @@ pub async fn default_worker_task<
                 // needs_write signaled
                 Either3::Second(_) => {
                     info!("worker task got needs_write signal, first process_garbage then write");
+                    write_pending.set(false);
 
                     match list.process_garbage(&mut flash, buf).await {
                         Ok(rpt) => info!("process_garbage success: {:?}", rpt),
@@ -146,7 +160,14 @@ pub async fn default_worker_task<
                     }
                     match list.process_writes(&mut flash, buf).await {
                         Ok(rpt) => info!("process_writes success: {:?}", rpt),
-                        Err(e) => error!("Error in process_writes: {:?}", e),
+                        Err(e) => {
+                            error!("Error in process_writes: {:?}", e);
+                            // A node has just been attached and is not hydrated yet: try
+                            // again after it has been read.
+                            if matches!(e, LoadStoreError::AppError(Error::NeedsFirstRead)) {
+                                write_pending.set(true);
+                            }
+                        }
                     }
 
                     info!("worker task finished process_writes, triggering process_garbage");
-- 
2.43.0


From cead309d616fef050d480385d0542fea9fe07ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 05/11] fix: flush pending writes when stopping the default
 worker while a node is unhydrated

If a node had been attached, but not read yet when the worker was stopped,
process_writes failed with NeedsFirstRead and the pending writes of all other
nodes were silently lost.
---
 crates/cfg-noodle/src/storage_list.rs |  9 +++++++
 crates/cfg-noodle/src/worker_task.rs  | 39 ++++++++++++++++++---------
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index c0d9686..a63a9f4 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -551,6 +551,15 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
         let _ = self.needs_write.wait().await;
     }
 
+    /// Does any attached node have changes that have not been written to flash yet?
+    pub(crate) async fn has_pending_writes(&self) -> bool {
+        let inner = self.inner.lock().await;
+        inner
+            .list
+            .iter()
+            .any(|hdr| hdr.state.load(Ordering::Acquire) == State::NeedsWrite)
+    }
+
     /// Manually reset the `cfg-noodle` cache
     ///
     /// This should not normally be necessary, and has some important caveats:
diff --git a/crates/cfg-noodle/src/worker_task.rs b/crates/cfg-noodle/src/worker_task.rs
index 06450e1..1c15bf8 100644
--- a/crates/cfg-noodle/src/worker_task.rs
+++ b/crates/cfg-noodle/src/worker_task.rs
@@ -197,22 +197,35 @@ pub async fn default_worker_task<
     let Either::Second(_) = select(waker_future, stopper).await;
 
     info!("stopper future completed, stopping worker task");
-    match list.process_writes(&mut flash, buf).await {
-        Ok(rpt) => info!("process_writes success: {:?}", rpt),
-        Err(LoadStoreError::AppError(Error::NeedsGarbageCollect)) => {
-            match list.process_garbage(&mut flash, buf).await {
-                Ok(rpt) => info!("process_garbage success: {:?}", rpt),
-                Err(e) => error!("Error in process_garbage: {:?}", e),
+    // A garbage collection might be due, and nodes might still be waiting to be read, before
+    // we are able to write
+    for _ in 0..3 {
+        match list.process_writes(&mut flash, buf).await {
+            Ok(rpt) => {
+                info!("process_writes success: {:?}", rpt);
+                break;
             }
-            match list.process_writes(&mut flash, buf).await {
-                Ok(rpt) => info!("process_writes success: {:?}", rpt),
-                Err(e) => error!("Error in process_writes: {:?}", e),
+            Err(LoadStoreError::AppError(Error::NeedsGarbageCollect)) => {
+                match list.process_garbage(&mut flash, buf).await {
+                    Ok(rpt) => info!("process_garbage success: {:?}", rpt),
+                    Err(e) => error!("Error in process_garbage: {:?}", e),
+                }
+            }
+            Err(LoadStoreError::AppError(Error::NeedsFirstRead)) => {
+                if !list.has_pending_writes().await {
+                    warn!("closing worker without performing first read");
+                    break;
+                }
+                match list.process_reads(&mut flash, buf).await {
+                    Ok(rpt) => info!("process_reads success: {:?}", rpt),
+                    Err(e) => error!("Error in process_reads: {:?}", e),
+                }
+            }
+            Err(e) => {
+                error!("Error in process_writes: {:?}", e);
+                break;
             }
         }
-        Err(LoadStoreError::AppError(Error::NeedsFirstRead)) => {
-            warn!("closing worker without performing first read");
-        }
-        Err(e) => error!("Error in process_writes: {:?}", e),
     }
 
     info!("worker task stopped!");
-- 
2.43.0


From 4f18dba25bb49df4f6f07accb4468fdcd0a8b849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:48 +0000
Subject: [PATCH 06/11] fix: report values too large for the buffer as an error
 in debug builds

The assertion on the encoded length was evaluated before checking whether
encoding succeeded, so that oversized values caused a panic instead of
Error::Serialization.
---
 crates/cfg-noodle/src/storage_node.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_node.rs b/crates/cfg-noodle/src/storage_node.rs
index b056ce7..e769590 100644
--- a/crates/cfg-noodle/src/storage_node.rs
+++ b/crates/cfg-noodle/src/storage_node.rs
@@ -879,12 +879,14 @@ where
         len_with(tref, &mut ()),
         &cursor.get_ref()[..cursor.position()],
     );
-    // Make sure len_with returns the correct number of bytes
-    // Important because we depend on it in deserialize()
-    debug_assert_eq!(cursor.position(), len_with(tref, &mut ()));
 
     match res {
-        Ok(()) => Ok(cursor.position()),
+        Ok(()) => {
+            // Make sure len_with returns the correct number of bytes
+            // Important because we depend on it in deserialize()
+            debug_assert_eq!(cursor.position(), len_with(tref, &mut ()));
+            Ok(cursor.position())
+        }
         Err(_e) => {
             // We know this was an "end of slice" error
             Err(())
-- 
2.43.0


From 192c37c8c2716133218c944ac089038ff1d0547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 07/11] fix: release the node when a pending attach is dropped

The node stayed marked as taken although no handle was ever created, so that
all further attaches and detaches failed with AlreadyTaken.
---
 crates/cfg-noodle/src/safety_guide.rs |  2 +-
 crates/cfg-noodle/src/storage_node.rs | 29 +++++++++++++++++++++++++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/crates/cfg-noodle/src/safety_guide.rs b/crates/cfg-noodle/src/safety_guide.rs
index 33bea79..1a5ddfa 100644
--- a/crates/cfg-noodle/src/safety_guide.rs
+++ b/crates/cfg-noodle/src/safety_guide.rs
@@ -70,7 +70,7 @@
 //!     1. When attaching a Node to a List, the list's mutex is locked AND:
 //!         1. The "List Pointer" is currently null, OR
 //!         2. The "List Pointer" points to the list we are attaching to, and we are re-attaching
-//!     2. When dropping a `StorageListNodeHandle`:
+//!     2. When dropping a `StorageListNodeHandle` (or a pending `attach()` which has not returned one yet):
 //!         1. The lowest bit of the "List Pointer" is changed from `0b1` to `0b0`
 //!     3. When detaching a Node from a List:
 //!         1. No `StorageListNodeHandle` is live for this Node, AND
diff --git a/crates/cfg-noodle/src/storage_node.rs b/crates/cfg-noodle/src/storage_node.rs
index e769590..2809260 100644
--- a/crates/cfg-noodle/src/storage_node.rs
+++ b/crates/cfg-noodle/src/storage_node.rs
@@ -440,6 +440,12 @@ where
             debug!("attach() release Lock on list");
         }
 
+        // If this future is dropped before we can return a handle, the node must not
+        // remain taken, otherwise it could never be attached or detached again.
+        let untake = UntakeOnDrop {
+            taken_for_list: &self.taken_for_list,
+        };
+
         debug!("Waiting for reading_done");
 
         // We know our node is now on the list. Create a ref to the header which
@@ -502,6 +508,9 @@ where
         // - Rule 6.1: The node is attached to a list
         // - Rule 6.2: No other handles exist
         // - Rule 6.3: We have passed the Initial/NonResident state
+        //
+        // From now on the handle is responsible for clearing the "taken" bit
+        core::mem::forget(untake);
         Ok(StorageListNodeHandle {
             list_ty: PhantomData,
             inner: self,
@@ -630,6 +639,26 @@ where
 /// and the StorageList mutex.
 unsafe impl<T> Sync for StorageListNode<T> where T: Send + 'static + MaybeDefmtFormat {}
 
+/// Clears the "taken" bit of a node when an `attach` is dropped while waiting for hydration
+struct UntakeOnDrop {
+    taken_for_list: &'static AtomicPtr<()>,
+}
+
+impl Drop for UntakeOnDrop {
+    fn drop(&mut self) {
+        // The pending attach has taken the node, which means that neither attach, nor detach, nor
+        // the drop of a handle can have changed the pointer in the meantime.
+        let old = self.taken_for_list.load(Ordering::Acquire);
+        debug_assert_eq!((old as usize) & 1, 1, "'is taken' bit should be set");
+
+        // SAFETY: the pointer is one byte past the start of the StorageList
+        //
+        // Rule 2.2.1 - No handle has been created, so this is the same as dropping it
+        let old = unsafe { old.byte_sub(1) };
+        self.taken_for_list.store(old, Ordering::Release);
+    }
+}
+
 // ---- impl StorageListNodeHandle ----
 
 impl<T, R, const KEPT_RECORDS: usize> StorageListNodeHandle<T, R, KEPT_RECORDS>
-- 
2.43.0


From 5b31d69305245d56fa175318bbd9d863e6701d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:16 +0000
Subject: [PATCH 08/11] fix: require payloads to be Send and Sync

Handles clone the payload by shared reference without holding the lock while
the worker task may serialize it at the same time on another thread, and
attach allowed payloads that are neither Send nor Sync to be accessed by the
worker: safe code could cause data races with e.g. Cell or Rc payloads.
---
 crates/cfg-noodle/src/storage_node.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/cfg-noodle/src/storage_node.rs b/crates/cfg-noodle/src/storage_node.rs
index 2809260..6f4279b 100644
--- a/crates/cfg-noodle/src/storage_node.rs
+++ b/crates/cfg-noodle/src/storage_node.rs
@@ -239,6 +239,8 @@ type DeserFn = unsafe fn(NonNull<Node<()>>, &[u8]) -> Result<usize, ()>;
 impl<T> StorageListNode<T>
 where
     T: 'static,
+    // The data is accessed by the worker task, potentially from another thread
+    T: Send + Sync,
     T: Encode<()>,
     T: CborLen<()>,
     for<'a> T: Decode<'a, ()>,
@@ -281,6 +283,8 @@ where
 impl<T> StorageListNode<T>
 where
     T: 'static,
+    // The data is accessed by the worker task, potentially from another thread
+    T: Send + Sync,
     T: Encode<()>,
     T: CborLen<()>,
     for<'a> T: Decode<'a, ()>,
@@ -637,7 +641,10 @@ where
 
 /// SAFETY: Sync-safety is guaranteed by adhering to the rules in the [`crate::safety_guide`]
 /// and the StorageList mutex.
-unsafe impl<T> Sync for StorageListNode<T> where T: Send + 'static + MaybeDefmtFormat {}
+///
+/// `T` is required to be `Sync` as well, as [`StorageListNodeHandle::load()`] and `process_writes()`
+/// access the data by shared reference, potentially at the same time from different threads.
+unsafe impl<T> Sync for StorageListNode<T> where T: Send + Sync + 'static + MaybeDefmtFormat {}
 
 /// Clears the "taken" bit of a node when an `attach` is dropped while waiting for hydration
 struct UntakeOnDrop {
-- 
2.43.0


From 40cfca7bfe7f71d088c14b89516bd4cc30548731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:21 +0000
Subject: [PATCH 09/11] fix: limit the maximum element size to what the queue
 can store

With pages of 64 KiB or more, MAX_ELEM_SIZE exceeded the maximum item size of
sequential-storage, so that check_node_size accepted nodes that can never be
written.
---
 crates/cfg-noodle/src/flash.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/cfg-noodle/src/flash.rs b/crates/cfg-noodle/src/flash.rs
index 202f577..ff20cfb 100644
--- a/crates/cfg-noodle/src/flash.rs
+++ b/crates/cfg-noodle/src/flash.rs
@@ -157,8 +157,15 @@ where
         // Each pushed item has some metadata
         let item_metadata = QueueStorage::<T, C>::item_overhead_size() as usize;
 
-        // The max size is the baseline minus any overhead.
-        baseline - sector_metadata - item_metadata
+        // The max size is the baseline minus any overhead...
+        let max_size = baseline - sector_metadata - item_metadata;
+
+        // ...but the length of an item is stored in 16 bits
+        if max_size > u16::MAX as usize {
+            u16::MAX as usize
+        } else {
+            max_size
+        }
     };
 }
 
-- 
2.43.0


From dfb6174375a93788ba955bd62a18c53664452f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:50 +0000
Subject: [PATCH 10/11] fix: don't include the element after a written record
 in its range

The range is inclusive, so that an element following the newly written record
was considered to be part of it and survived the garbage collection.
---
 crates/cfg-noodle/src/storage_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index a63a9f4..94a6b52 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -1331,7 +1331,7 @@ async fn verify_list_in_flash<S: NdlDataStorage>(
                     seq_chk, crc_chk1, crc_chk2, ctr_chk, good
                 );
                 if good {
-                    return Ok(RangeInclusive::new(start_pos, total_items_seen_ctr));
+                    return Ok(RangeInclusive::new(start_pos, total_items_seen_ctr - 1));
                 } else {
                     return Err(LoadStoreError::WriteVerificationFailed);
                 }
-- 
2.43.0


From 39b7059c8c16dcae580f8da0fc493a7abe21da2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:51 +0000
Subject: [PATCH 11/11] fix: keep MAX_ELEM_SIZE readable with a buffer of that
 length on large pages

---
 crates/cfg-noodle/src/flash.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/cfg-noodle/src/flash.rs b/crates/cfg-noodle/src/flash.rs
index ff20cfb..30c4151 100644
--- a/crates/cfg-noodle/src/flash.rs
+++ b/crates/cfg-noodle/src/flash.rs
@@ -160,9 +160,12 @@ where
         // The max size is the baseline minus any overhead...
         let max_size = baseline - sector_metadata - item_metadata;
 
-        // ...but the length of an item is stored in 16 bits
-        if max_size > u16::MAX as usize {
-            u16::MAX as usize
+        // ...but the length of an item is stored in 16 bits. Reading an item back takes a buffer
+        // of its length rounded up to a whole number of words, which must not exceed the maximum.
+        let length_limit = u16::MAX as usize;
+        let length_limit = length_limit - length_limit % crate::max(T::WRITE_SIZE, T::READ_SIZE);
+        if max_size > length_limit {
+            length_limit
         } else {
             max_size
         }
-- 
2.43.0

