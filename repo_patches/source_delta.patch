From 93b76e8d970008f22ca3b071faaf63cad20f5185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:13 +0000
Subject: [PATCH 01/43] fix: delta sync relays additions received ahead of a
 gap

---
 crates/logicaffeine_data/src/crdt/orset.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/logicaffeine_data/src/crdt/orset.rs b/crates/logicaffeine_data/src/crdt/orset.rs
index 1b5fe5c..84e5e6c 100644
--- a/crates/logicaffeine_data/src/crdt/orset.rs
+++ b/crates/logicaffeine_data/src/crdt/orset.rs
@@ -273,11 +273,6 @@ impl<T: Hash + Eq + Clone + Serialize + DeserializeOwned + Send + 'static, B: Se
     type Delta = ORSetDelta<T>;
 
     fn delta_since(&self, since: &VClock) -> Option<Self::Delta> {
-        let current = self.version();
-        if since.dominates(&current) {
-            return None;
-        }
-
         // A TRUE incremental delta (δ-CRDT): ship only the dots NEWER than `since`, with a MINIMAL
         // context covering exactly those dots. Two reasons this beats "full state as delta":
         //   • size — a one-element add on a 10k-element set ships one dot, not all 10k;
@@ -296,6 +291,11 @@ impl<T: Hash + Eq + Clone + Serialize + DeserializeOwned + Send + 'static, B: Se
                 entries.insert(value.clone(), fresh);
             }
         }
+        // The version clock stops at the first gap, so dots received ahead of it (by an earlier
+        // delta) are news to the peer even when its clock dominates ours.
+        if entries.is_empty() && since.dominates(&self.version()) {
+            return None;
+        }
         Some(ORSetDelta { entries, context })
     }
 
-- 
2.43.0


From 24aec330ff68b9744b60cdf8c443d7cd4dac06cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:13 +0000
Subject: [PATCH 02/43] fix: delta buffer refuses peers that may need an
 evicted delta

---
 crates/logicaffeine_data/src/crdt/delta_buffer.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/logicaffeine_data/src/crdt/delta_buffer.rs b/crates/logicaffeine_data/src/crdt/delta_buffer.rs
index b65def6..55962ed 100644
--- a/crates/logicaffeine_data/src/crdt/delta_buffer.rs
+++ b/crates/logicaffeine_data/src/crdt/delta_buffer.rs
@@ -17,7 +17,7 @@ pub struct DeltaBuffer<D> {
     deltas: VecDeque<(VClock, D)>,
     /// Maximum number of deltas to retain
     max_size: usize,
-    /// The oldest version we can provide deltas from
+    /// Everything evicted so far: we can only provide deltas past this version
     oldest_version: VClock,
 }
 
@@ -35,7 +35,7 @@ impl<D: Clone> DeltaBuffer<D> {
     pub fn push(&mut self, version: VClock, delta: D) {
         if self.deltas.len() >= self.max_size {
             if let Some((old_version, _)) = self.deltas.pop_front() {
-                self.oldest_version = old_version;
+                self.oldest_version.merge_vclock(&old_version);
             }
         }
         self.deltas.push_back((version, delta));
@@ -43,12 +43,15 @@ impl<D: Clone> DeltaBuffer<D> {
 
     /// Get all deltas since the given version.
     ///
-    /// Returns `None` if the version is older than or equal to our oldest evicted delta.
+    /// Returns `None` if the version is older than or equal to our oldest evicted delta,
+    /// or concurrent with it (the peer may still need an evicted delta).
     /// Returns `Some(vec![])` if the peer is up-to-date.
     pub fn deltas_since(&self, version: &VClock) -> Option<Vec<D>> {
-        // If we've evicted deltas and the peer is at or behind what we evicted,
+        // If we've evicted deltas and the peer is not strictly past everything we evicted,
         // we can't help them catch up (they need the evicted delta).
-        if self.oldest_version != VClock::new() && self.oldest_version.dominates(version) {
+        if self.oldest_version != VClock::new()
+            && (self.oldest_version.dominates(version) || !version.dominates(&self.oldest_version))
+        {
             return None;
         }
 
-- 
2.43.0


From 577f21f831a0c4bb33dc051dd517bf7add066901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:24 +0000
Subject: [PATCH 03/43] fix: a select naming one channel twice leaves no stale
 waiter behind

---
 crates/logicaffeine_runtime/src/scheduler.rs | 22 +++++++-------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/crates/logicaffeine_runtime/src/scheduler.rs b/crates/logicaffeine_runtime/src/scheduler.rs
index 817973e..d4dfdbb 100644
--- a/crates/logicaffeine_runtime/src/scheduler.rs
+++ b/crates/logicaffeine_runtime/src/scheduler.rs
@@ -611,17 +611,15 @@ impl<'t> Scheduler<'t> {
                 slot.state = TaskState::Ready;
             }
             self.ready.push(rid);
-            self.cancel_select_registrations(rid, Some(ch));
+            self.cancel_select_registrations(rid);
         } else {
             self.mark_ready(rid, value);
         }
     }
 
-    fn cancel_select_registrations(&mut self, rid: TaskId, except: Option<ChanId>) {
-        for (cid, chan) in self.chans.iter_mut() {
-            if Some(*cid) == except {
-                continue;
-            }
+    fn cancel_select_registrations(&mut self, rid: TaskId) {
+        // Every channel, including the delivering one: several arms may name the same channel.
+        for chan in self.chans.values_mut() {
             chan.blocked_receivers.retain(|t| *t != rid);
         }
         self.timers.retain(|t| t.tid != rid);
@@ -742,7 +740,7 @@ impl<'t> Scheduler<'t> {
                 }
                 self.ready.push(tid);
                 if had.is_some() {
-                    self.cancel_select_registrations(tid, None);
+                    self.cancel_select_registrations(tid);
                 }
             }
             None => self.mark_ready(tid, RtPayload::Nothing),
@@ -795,12 +793,8 @@ impl<'t> Scheduler<'t> {
     }
 
     fn do_close(&mut self, ch: ChanId) {
-        let waiters: Vec<TaskId> = {
-            let chan = self.chans.get_mut(&ch).unwrap();
-            chan.closed = true;
-            chan.blocked_receivers.drain(..).collect()
-        };
-        for rid in waiters {
+        self.chans.get_mut(&ch).unwrap().closed = true;
+        while let Some(rid) = self.chans.get_mut(&ch).unwrap().blocked_receivers.pop_front() {
             self.wake_closed_receiver(rid, ch);
         }
     }
@@ -819,7 +813,7 @@ impl<'t> Scheduler<'t> {
                 slot.state = TaskState::Ready;
             }
             self.ready.push(rid);
-            self.cancel_select_registrations(rid, Some(ch));
+            self.cancel_select_registrations(rid);
         } else {
             self.mark_ready(rid, RtPayload::Nothing);
         }
-- 
2.43.0


From ee1c77a8af6f3aba6eb8372583ef3f0e8b31cf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:24 +0000
Subject: [PATCH 04/43] fix: a task aborted while its slice is in flight stays
 aborted

---
 crates/logicaffeine_runtime/src/executor.rs  |  5 +++++
 crates/logicaffeine_runtime/src/scheduler.rs | 11 ++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_runtime/src/executor.rs b/crates/logicaffeine_runtime/src/executor.rs
index 90a5453..ed4600b 100644
--- a/crates/logicaffeine_runtime/src/executor.rs
+++ b/crates/logicaffeine_runtime/src/executor.rs
@@ -248,6 +248,11 @@ where
             for tid in &order {
                 let WorkerReport { tid: rt, output: slice_out, step } =
                     reports.remove(tid).expect("report for dispatched task");
+                // Aborted by an earlier task of this batch: cooperatively it would not have
+                // run at all, so its slice leaves no trace.
+                if sched.ws_is_done(rt) {
+                    continue;
+                }
                 output.extend(slice_out);
                 apply_step(&mut sched, &mut fresh, rt, step);
             }
diff --git a/crates/logicaffeine_runtime/src/scheduler.rs b/crates/logicaffeine_runtime/src/scheduler.rs
index d4dfdbb..542cb06 100644
--- a/crates/logicaffeine_runtime/src/scheduler.rs
+++ b/crates/logicaffeine_runtime/src/scheduler.rs
@@ -404,6 +404,12 @@ impl<'t> Scheduler<'t> {
         })
     }
 
+    /// Has this task finished (or been aborted)?
+    #[cfg(not(target_arch = "wasm32"))]
+    pub(crate) fn ws_is_done(&self, tid: TaskId) -> bool {
+        matches!(self.tasks[&tid].state, TaskState::Done)
+    }
+
     /// Every task finished?
     #[cfg(not(target_arch = "wasm32"))]
     pub(crate) fn ws_all_done(&self) -> bool {
@@ -458,7 +464,10 @@ impl<'t> Scheduler<'t> {
             TaskStep::Await(target) => self.do_await(tid, target),
             TaskStep::Abort(target) => {
                 self.do_abort(target);
-                self.mark_ready(tid, RtPayload::Nothing);
+                // A task that aborted itself is done, not ready.
+                if !matches!(self.tasks[&tid].state, TaskState::Done) {
+                    self.mark_ready(tid, RtPayload::Nothing);
+                }
             }
             TaskStep::Close(ch) => {
                 self.do_close(ch);
-- 
2.43.0


From dce16293d27f0eaf410b7394a7586a025318d1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:28:29 +0000
Subject: [PATCH 05/43] fix: a torn journal tail or failed append no longer
 loses later entries

Mounting a journal drops a partially written last entry instead of appending
after it. A failed append is followed by a fresh snapshot. Compaction and
appends hold the state lock, so no entry falls between snapshot and truncate.
---
 crates/logicaffeine_system/src/distributed.rs | 83 ++++++++++++++-----
 crates/logicaffeine_system/src/storage/mod.rs | 69 ++++++++++++---
 2 files changed, 122 insertions(+), 30 deletions(-)

diff --git a/crates/logicaffeine_system/src/distributed.rs b/crates/logicaffeine_system/src/distributed.rs
index b7b0d51..bacf838 100644
--- a/crates/logicaffeine_system/src/distributed.rs
+++ b/crates/logicaffeine_system/src/distributed.rs
@@ -51,6 +51,7 @@ use logicaffeine_data::crdt::Merge;
 use crate::fs::{Vfs, VfsResult, VfsError};
 use async_lock::Mutex;
 use serde::{de::DeserializeOwned, Serialize};
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
 
 /// Compaction threshold: auto-compact when journal exceeds this many entries.
@@ -88,13 +89,16 @@ impl JournalHeader {
 }
 
 /// Replay journal entries to reconstruct state.
-fn replay_journal<T>(data: &[u8]) -> Result<(T, u64), VfsError>
+///
+/// Returns the state, the number of entries and the length of the valid prefix.
+fn replay_journal<T>(data: &[u8]) -> Result<(T, u64, usize), VfsError>
 where
     T: Merge + Serialize + DeserializeOwned + Clone + Default,
 {
     let mut state = T::default();
     let mut entry_count = 0u64;
     let mut pos = 0;
+    let mut valid = 0;
 
     while pos + JournalHeader::SIZE <= data.len() {
         let header_bytes: [u8; 8] = data[pos..pos + 8].try_into().unwrap();
@@ -125,10 +129,11 @@ where
         }
 
         pos = payload_end;
+        valid = pos;
         entry_count += 1;
     }
 
-    Ok((state, entry_count))
+    Ok((state, entry_count, valid))
 }
 
 // =============================================================================
@@ -154,6 +159,8 @@ where
     journal_path: String,
     topic: Option<String>,
     entry_count: Arc<Mutex<u64>>,
+    /// A failed append may have left part of an entry at the end of the journal.
+    torn: Arc<AtomicBool>,
     local_peer_id: Option<String>,
 }
 
@@ -194,7 +201,12 @@ where
         // 1. Replay journal to reconstruct state
         let (state, entry_count) = if vfs.exists(path).await.unwrap_or(false) {
             let data = vfs.read(path).await?;
-            replay_journal(&data)?
+            let (state, entry_count, valid) = replay_journal(&data)?;
+            if valid < data.len() {
+                // Drop a torn last entry, or the next append would land behind it.
+                vfs.write(path, &data[..valid]).await?;
+            }
+            (state, entry_count)
         } else {
             (T::default(), 0)
         };
@@ -208,6 +220,7 @@ where
             journal_path: path.to_string(),
             topic: topic.clone(),
             entry_count: Arc::new(Mutex::new(entry_count)),
+            torn: Arc::new(AtomicBool::new(false)),
             local_peer_id,
         };
 
@@ -233,10 +246,10 @@ where
         let mut guard = self.inner.lock().await;
         let result = f(&mut *guard);
         let snapshot = (*guard).clone();
-        drop(guard);
 
-        // 2. Persist delta to Journal
+        // 2. Persist delta to Journal (under the lock, so that no compaction overtakes it)
         self.append_to_journal(&snapshot).await?;
+        drop(guard);
 
         // 3. Broadcast to Network (if synced)
         if let Some(topic) = &self.topic {
@@ -259,8 +272,9 @@ where
 
     /// Manual compaction.
     pub async fn compact(&self) -> VfsResult<()> {
-        let snapshot = self.inner.lock().await.clone();
-        self.do_compact(&snapshot).await
+        // Held until the snapshot is in place: an entry appended meanwhile would be lost.
+        let guard = self.inner.lock().await;
+        self.do_compact(&*guard).await
     }
 
     /// Get the number of journal entries.
@@ -277,6 +291,7 @@ where
         let path = self.journal_path.clone();
         let local_id = self.local_peer_id.clone();
         let entry_count = self.entry_count.clone();
+        let torn = self.torn.clone();
 
         tokio::spawn(async move {
             let mut rx = crate::network::gossip::subscribe(&topic).await;
@@ -292,7 +307,8 @@ where
                 };
 
                 // Merge to RAM
-                inner.lock().await.merge(&delta);
+                let mut guard = inner.lock().await;
+                guard.merge(&delta);
 
                 // CRITICAL: Persist to Journal
                 // This ensures remote updates survive restarts
@@ -310,7 +326,11 @@ where
                 entry.extend_from_slice(&header);
                 entry.extend_from_slice(&payload);
 
-                if let Err(e) = vfs.append(&path, &entry).await {
+                if torn.load(Ordering::Relaxed) {
+                    // The next local mutation or compaction writes the merged state.
+                    eprintln!("[Distributed] Journal awaits compaction");
+                } else if let Err(e) = vfs.append(&path, &entry).await {
+                    torn.store(true, Ordering::Relaxed);
                     eprintln!("[Distributed] Journal append failed: {:?}", e);
                 } else {
                     *entry_count.lock().await += 1;
@@ -324,6 +344,10 @@ where
 
     /// Append state as delta to journal.
     async fn append_to_journal(&self, state: &T) -> VfsResult<()> {
+        if self.torn.load(Ordering::Relaxed) {
+            return self.do_compact(state).await;
+        }
+
         let op = JournalOp::Delta(state.clone());
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
@@ -333,7 +357,10 @@ where
         entry.extend_from_slice(&header);
         entry.extend_from_slice(&payload);
 
-        self.vfs.append(&self.journal_path, &entry).await?;
+        if let Err(e) = self.vfs.append(&self.journal_path, &entry).await {
+            self.torn.store(true, Ordering::Relaxed);
+            return Err(e);
+        }
         *self.entry_count.lock().await += 1;
 
         Ok(())
@@ -343,8 +370,7 @@ where
     async fn maybe_compact(&self) -> VfsResult<()> {
         let count = *self.entry_count.lock().await;
         if count >= COMPACT_THRESHOLD {
-            let snapshot = self.inner.lock().await.clone();
-            self.do_compact(&snapshot).await?;
+            self.compact().await?;
         }
         Ok(())
     }
@@ -365,6 +391,7 @@ where
         self.vfs.write(&temp_path, &entry).await?;
         self.vfs.rename(&temp_path, &self.journal_path).await?;
 
+        self.torn.store(false, Ordering::Relaxed);
         *self.entry_count.lock().await = 1;
         Ok(())
     }
@@ -387,6 +414,8 @@ where
     vfs: Arc<dyn Vfs>,
     journal_path: String,
     entry_count: Arc<Mutex<u64>>,
+    /// A failed append may have left part of an entry at the end of the journal.
+    torn: Arc<AtomicBool>,
 }
 
 #[cfg(target_arch = "wasm32")]
@@ -405,7 +434,12 @@ where
     ) -> VfsResult<Self> {
         let (state, entry_count) = if vfs.exists(path).await.unwrap_or(false) {
             let data = vfs.read(path).await?;
-            replay_journal(&data)?
+            let (state, entry_count, valid) = replay_journal(&data)?;
+            if valid < data.len() {
+                // Drop a torn last entry, or the next append would land behind it.
+                vfs.write(path, &data[..valid]).await?;
+            }
+            (state, entry_count)
         } else {
             (T::default(), 0)
         };
@@ -415,6 +449,7 @@ where
             vfs,
             journal_path: path.to_string(),
             entry_count: Arc::new(Mutex::new(entry_count)),
+            torn: Arc::new(AtomicBool::new(false)),
         })
     }
 
@@ -426,10 +461,10 @@ where
         let mut guard = self.inner.lock().await;
         let result = f(&mut *guard);
         let snapshot = (*guard).clone();
-        drop(guard);
 
-        // Persist delta to Journal
+        // Persist delta to Journal (under the lock, so that no compaction overtakes it)
         self.append_to_journal(&snapshot).await?;
+        drop(guard);
 
         // Auto-compact if needed
         self.maybe_compact().await?;
@@ -444,8 +479,9 @@ where
 
     /// Manual compaction.
     pub async fn compact(&self) -> VfsResult<()> {
-        let snapshot = self.inner.lock().await.clone();
-        self.do_compact(&snapshot).await
+        // Held until the snapshot is in place: an entry appended meanwhile would be lost.
+        let guard = self.inner.lock().await;
+        self.do_compact(&*guard).await
     }
 
     /// Get the number of journal entries.
@@ -454,6 +490,10 @@ where
     }
 
     async fn append_to_journal(&self, state: &T) -> VfsResult<()> {
+        if self.torn.load(Ordering::Relaxed) {
+            return self.do_compact(state).await;
+        }
+
         let op = JournalOp::Delta(state.clone());
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
@@ -463,7 +503,10 @@ where
         entry.extend_from_slice(&header);
         entry.extend_from_slice(&payload);
 
-        self.vfs.append(&self.journal_path, &entry).await?;
+        if let Err(e) = self.vfs.append(&self.journal_path, &entry).await {
+            self.torn.store(true, Ordering::Relaxed);
+            return Err(e);
+        }
         *self.entry_count.lock().await += 1;
 
         Ok(())
@@ -472,8 +515,7 @@ where
     async fn maybe_compact(&self) -> VfsResult<()> {
         let count = *self.entry_count.lock().await;
         if count >= COMPACT_THRESHOLD {
-            let snapshot = self.inner.lock().await.clone();
-            self.do_compact(&snapshot).await?;
+            self.compact().await?;
         }
         Ok(())
     }
@@ -493,6 +535,7 @@ where
         self.vfs.write(&temp_path, &entry).await?;
         self.vfs.rename(&temp_path, &self.journal_path).await?;
 
+        self.torn.store(false, Ordering::Relaxed);
         *self.entry_count.lock().await = 1;
         Ok(())
     }
diff --git a/crates/logicaffeine_system/src/storage/mod.rs b/crates/logicaffeine_system/src/storage/mod.rs
index b2405e0..04f9461 100644
--- a/crates/logicaffeine_system/src/storage/mod.rs
+++ b/crates/logicaffeine_system/src/storage/mod.rs
@@ -52,6 +52,7 @@ use logicaffeine_data::crdt::Merge;
 use crate::fs::{Vfs, VfsResult, VfsError};
 use serde::{de::DeserializeOwned, Serialize};
 use std::marker::PhantomData;
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
 use async_lock::Mutex;
 
@@ -103,6 +104,8 @@ where
     vfs: Arc<dyn Vfs + Send + Sync>,
     journal_path: String,
     entry_count: Arc<Mutex<u64>>,
+    /// A failed append may have left part of an entry at the end of the journal.
+    torn: AtomicBool,
     _marker: PhantomData<T>,
 }
 
@@ -116,17 +119,22 @@ where
     vfs: Arc<dyn Vfs>,
     journal_path: String,
     entry_count: Arc<Mutex<u64>>,
+    /// A failed append may have left part of an entry at the end of the journal.
+    torn: AtomicBool,
     _marker: PhantomData<T>,
 }
 
 /// Helper function to replay journal entries (shared between platforms).
-fn replay_journal<T>(data: &[u8]) -> Result<(T, u64), VfsError>
+///
+/// Returns the state, the number of entries and the length of the valid prefix.
+fn replay_journal<T>(data: &[u8]) -> Result<(T, u64, usize), VfsError>
 where
     T: Merge + Serialize + DeserializeOwned + Clone + Default,
 {
     let mut state = T::default();
     let mut entry_count = 0u64;
     let mut pos = 0;
+    let mut valid = 0;
 
     while pos + JournalHeader::SIZE <= data.len() {
         let header_bytes: [u8; 8] = data[pos..pos + 8].try_into().unwrap();
@@ -157,10 +165,11 @@ where
         }
 
         pos = payload_end;
+        valid = pos;
         entry_count += 1;
     }
 
-    Ok((state, entry_count))
+    Ok((state, entry_count, valid))
 }
 
 /// Native implementation with Send bounds.
@@ -177,7 +186,12 @@ where
         pub async fn mount(vfs: Arc<dyn Vfs + Send + Sync>, path: &str) -> VfsResult<Self> {
         let (state, entry_count) = if vfs.exists(path).await.unwrap_or(false) {
             let data = vfs.read(path).await?;
-            replay_journal(&data)?
+            let (state, entry_count, valid) = replay_journal(&data)?;
+            if valid < data.len() {
+                // Drop a torn last entry, or the next append would land behind it.
+                vfs.write(path, &data[..valid]).await?;
+            }
+            (state, entry_count)
         } else {
             (T::default(), 0)
         };
@@ -187,6 +201,7 @@ where
             vfs,
             journal_path: path.to_string(),
             entry_count: Arc::new(Mutex::new(entry_count)),
+            torn: AtomicBool::new(false),
             _marker: PhantomData,
         })
     }
@@ -204,6 +219,11 @@ where
         let mut guard = self.inner.lock().await;
         let result = f(&mut *guard);
 
+        if self.torn.load(Ordering::Relaxed) {
+            self.write_snapshot(&*guard).await?;
+            return Ok(result);
+        }
+
         let op = JournalOp::Delta(guard.clone());
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
@@ -213,7 +233,10 @@ where
         entry.extend_from_slice(&header);
         entry.extend_from_slice(&payload);
 
-        self.vfs.append(&self.journal_path, &entry).await?;
+        if let Err(e) = self.vfs.append(&self.journal_path, &entry).await {
+            self.torn.store(true, Ordering::Relaxed);
+            return Err(e);
+        }
         *self.entry_count.lock().await += 1;
 
         Ok(result)
@@ -221,9 +244,14 @@ where
 
     /// Compact the journal by writing a snapshot.
     pub async fn compact(&self) -> VfsResult<()> {
-        let state = self.inner.lock().await.clone();
+        // Held until the snapshot is in place: an entry appended meanwhile would be lost.
+        let guard = self.inner.lock().await;
+        self.write_snapshot(&*guard).await
+    }
 
-        let op = JournalOp::<T>::Snapshot(state);
+    /// Replace the journal by one snapshot entry. The caller holds the state lock.
+    async fn write_snapshot(&self, state: &T) -> VfsResult<()> {
+        let op = JournalOp::<T>::Snapshot(state.clone());
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
 
@@ -233,6 +261,7 @@ where
         entry.extend_from_slice(&payload);
 
         self.vfs.write(&self.journal_path, &entry).await?;
+        self.torn.store(false, Ordering::Relaxed);
         *self.entry_count.lock().await = 1;
 
         Ok(())
@@ -264,7 +293,12 @@ where
     pub async fn mount(vfs: Arc<dyn Vfs>, path: &str) -> VfsResult<Self> {
         let (state, entry_count) = if vfs.exists(path).await.unwrap_or(false) {
             let data = vfs.read(path).await?;
-            replay_journal(&data)?
+            let (state, entry_count, valid) = replay_journal(&data)?;
+            if valid < data.len() {
+                // Drop a torn last entry, or the next append would land behind it.
+                vfs.write(path, &data[..valid]).await?;
+            }
+            (state, entry_count)
         } else {
             (T::default(), 0)
         };
@@ -274,6 +308,7 @@ where
             vfs,
             journal_path: path.to_string(),
             entry_count: Arc::new(Mutex::new(entry_count)),
+            torn: AtomicBool::new(false),
             _marker: PhantomData,
         })
     }
@@ -291,6 +326,11 @@ where
         let mut guard = self.inner.lock().await;
         let result = f(&mut *guard);
 
+        if self.torn.load(Ordering::Relaxed) {
+            self.write_snapshot(&*guard).await?;
+            return Ok(result);
+        }
+
         let op = JournalOp::Delta(guard.clone());
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
@@ -300,7 +340,10 @@ where
         entry.extend_from_slice(&header);
         entry.extend_from_slice(&payload);
 
-        self.vfs.append(&self.journal_path, &entry).await?;
+        if let Err(e) = self.vfs.append(&self.journal_path, &entry).await {
+            self.torn.store(true, Ordering::Relaxed);
+            return Err(e);
+        }
         *self.entry_count.lock().await += 1;
 
         Ok(result)
@@ -308,9 +351,14 @@ where
 
     /// Compact the journal by writing a snapshot.
     pub async fn compact(&self) -> VfsResult<()> {
-        let state = self.inner.lock().await.clone();
+        // Held until the snapshot is in place: an entry appended meanwhile would be lost.
+        let guard = self.inner.lock().await;
+        self.write_snapshot(&*guard).await
+    }
 
-        let op = JournalOp::<T>::Snapshot(state);
+    /// Replace the journal by one snapshot entry. The caller holds the state lock.
+    async fn write_snapshot(&self, state: &T) -> VfsResult<()> {
+        let op = JournalOp::<T>::Snapshot(state.clone());
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
 
@@ -320,6 +368,7 @@ where
         entry.extend_from_slice(&payload);
 
         self.vfs.write(&self.journal_path, &entry).await?;
+        self.torn.store(false, Ordering::Relaxed);
         *self.entry_count.lock().await = 1;
 
         Ok(())
-- 
2.43.0


From c53d9deccd08b995d6f88a8df71eb6d3a4578eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:28:29 +0000
Subject: [PATCH 06/43] fix: file paths with dot-dot segments cannot leave the
 base directory

---
 crates/logicaffeine_system/src/fs/mod.rs   | 20 +++++++++++++++++---
 crates/logicaffeine_system/src/fs/uring.rs |  3 +--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/crates/logicaffeine_system/src/fs/mod.rs b/crates/logicaffeine_system/src/fs/mod.rs
index 04fcd46..dce43e9 100644
--- a/crates/logicaffeine_system/src/fs/mod.rs
+++ b/crates/logicaffeine_system/src/fs/mod.rs
@@ -197,12 +197,26 @@ impl NativeVfs {
 
     /// Resolve a virtual path to an absolute filesystem path.
     fn resolve(&self, path: &str) -> PathBuf {
-        // Security: Prevent path traversal attacks
-        let clean = path.trim_start_matches('/').trim_start_matches("../");
-        self.base_dir.join(clean)
+        resolve_under(&self.base_dir, path)
     }
 }
 
+/// Join a virtual path to `base`, resolving `.` and `..` so that it cannot leave `base`.
+#[cfg(not(target_arch = "wasm32"))]
+pub(crate) fn resolve_under(base: &std::path::Path, path: &str) -> PathBuf {
+    let mut clean = PathBuf::new();
+    for part in path.split('/') {
+        match part {
+            "" | "." => {}
+            ".." => {
+                clean.pop();
+            }
+            name => clean.push(name),
+        }
+    }
+    base.join(clean)
+}
+
 #[cfg(not(target_arch = "wasm32"))]
 #[async_trait]
 impl Vfs for NativeVfs {
diff --git a/crates/logicaffeine_system/src/fs/uring.rs b/crates/logicaffeine_system/src/fs/uring.rs
index ff7f69f..fbbb16d 100644
--- a/crates/logicaffeine_system/src/fs/uring.rs
+++ b/crates/logicaffeine_system/src/fs/uring.rs
@@ -70,8 +70,7 @@ impl UringVfs {
     }
 
     fn resolve(&self, path: &str) -> PathBuf {
-        let clean = path.trim_start_matches('/').trim_start_matches("../");
-        self.base_dir.join(clean)
+        super::resolve_under(&self.base_dir, path)
     }
 
     fn send(&self, cmd: UringCommand) -> VfsResult<()> {
-- 
2.43.0


From 8f5d1406387c05ab58ecd0f9f9cf93483b496f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:28:29 +0000
Subject: [PATCH 07/43] fix: file write syncs a private temp file before
 renaming it

Two writers no longer share one temp file, the data reaches disk before the
rename, and writing to a directory path is refused.
---
 crates/logicaffeine_system/src/fs/mod.rs | 26 +++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_system/src/fs/mod.rs b/crates/logicaffeine_system/src/fs/mod.rs
index dce43e9..4d3ad11 100644
--- a/crates/logicaffeine_system/src/fs/mod.rs
+++ b/crates/logicaffeine_system/src/fs/mod.rs
@@ -217,6 +217,18 @@ pub(crate) fn resolve_under(base: &std::path::Path, path: &str) -> PathBuf {
     base.join(clean)
 }
 
+/// A name next to `path` that no other file and no other write in progress uses.
+#[cfg(not(target_arch = "wasm32"))]
+fn temp_sibling(path: &std::path::Path) -> PathBuf {
+    use std::sync::atomic::{AtomicU64, Ordering};
+    static NEXT: AtomicU64 = AtomicU64::new(0);
+
+    let mut name = std::ffi::OsString::from(".");
+    name.push(path.file_name().unwrap_or_default());
+    name.push(format!(".{}-{}.tmp", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
+    path.with_file_name(name)
+}
+
 #[cfg(not(target_arch = "wasm32"))]
 #[async_trait]
 impl Vfs for NativeVfs {
@@ -231,16 +243,24 @@ impl Vfs for NativeVfs {
     }
 
     async fn write(&self, path: &str, contents: &[u8]) -> VfsResult<()> {
+        use tokio::io::AsyncWriteExt;
+
         let full_path = self.resolve(path);
+        if full_path == self.base_dir || full_path.is_dir() {
+            return Err(VfsError::AlreadyExists(format!("{} is a directory", path)));
+        }
 
         // Ensure parent directory exists
         if let Some(parent) = full_path.parent() {
             tokio::fs::create_dir_all(parent).await?;
         }
 
-        // Atomic write: write to temp file, then rename
-        let temp_path = full_path.with_extension("tmp");
-        tokio::fs::write(&temp_path, contents).await?;
+        // Atomic write: write to a temp file of its own name, make it durable, then rename
+        let temp_path = temp_sibling(&full_path);
+        let mut file = tokio::fs::File::create(&temp_path).await?;
+        file.write_all(contents).await?;
+        file.sync_all().await?;
+        drop(file);
         tokio::fs::rename(&temp_path, &full_path).await?;
 
         Ok(())
-- 
2.43.0


From a585633b6d0eef964ae835908be9c62897f8f62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:32:25 +0000
Subject: [PATCH 08/43] fix: a native loop passes list arguments to the
 functions it calls

The callee reads a list parameter through a pointer and length kept in its own
frame. The loop staged only the argument registers, so the callee saw an empty
list.
---
 crates/logicaffeine_compile/src/vm/machine.rs |  2 ++
 .../src/vm/native_tier.rs                     |  3 +++
 crates/logicaffeine_jit/src/lib.rs            | 24 ++++++++++++++++++-
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_compile/src/vm/machine.rs b/crates/logicaffeine_compile/src/vm/machine.rs
index 1e3bffc..939412a 100644
--- a/crates/logicaffeine_compile/src/vm/machine.rs
+++ b/crates/logicaffeine_compile/src/vm/machine.rs
@@ -855,6 +855,7 @@ impl<'p> Vm<'p> {
                             );
                             super::native_tier::CalleeSig {
                                 param_kinds: f.param_kinds.clone(),
+                                register_count: f.register_count,
                                 ret: f.ret_kind,
                                 list_params_stable,
                                 returns_list_param,
@@ -1619,6 +1620,7 @@ impl<'p> Vm<'p> {
                         );
                         super::native_tier::CalleeSig {
                             param_kinds: g.param_kinds.clone(),
+                            register_count: g.register_count,
                             ret: g.ret_kind,
                             list_params_stable,
                             returns_list_param,
diff --git a/crates/logicaffeine_compile/src/vm/native_tier.rs b/crates/logicaffeine_compile/src/vm/native_tier.rs
index fc5b32f..a48095b 100644
--- a/crates/logicaffeine_compile/src/vm/native_tier.rs
+++ b/crates/logicaffeine_compile/src/vm/native_tier.rs
@@ -374,6 +374,9 @@ pub struct ArrayPin {
 #[derive(Debug, Clone)]
 pub struct CalleeSig {
     pub param_kinds: Vec<Option<ParamKind>>,
+    /// The callee's frame registers: its list-parameter pin triples sit at a
+    /// fixed offset past them, where a region call stages them.
+    pub register_count: usize,
     /// Declared scalar return; `None` keeps the callee out of regions.
     pub ret: Option<SlotKind>,
     /// LEVER B (a region may CALL a list-parameter function). Sound only when
diff --git a/crates/logicaffeine_jit/src/lib.rs b/crates/logicaffeine_jit/src/lib.rs
index 5ea1bdf..4a2a7da 100644
--- a/crates/logicaffeine_jit/src/lib.rs
+++ b/crates/logicaffeine_jit/src/lib.rs
@@ -1256,6 +1256,12 @@ fn jt(which: &str) {
     }
 }
 
+/// First pin-triple slot of a native function frame: past its registers, the
+/// two conversion scratches and the three call-plant slots.
+fn fn_pins_start(register_count: usize) -> usize {
+    register_count + 5
+}
+
 fn adapt_function(
     ops: &[Op],
     entry_pc: usize,
@@ -1587,7 +1593,7 @@ fn adapt_function(
     let plant_window = (rc + 2) as u16;
     let plant_resume = (rc + 3) as u16;
     let plant_dst = (rc + 4) as u16;
-    let pins_start = rc + 5;
+    let pins_start = fn_pins_start(rc);
     let mut micro: Vec<MicroOp> = Vec::with_capacity(ops.len());
     let mut pc_to_micro: Vec<usize> = Vec::with_capacity(ops.len());
     let mut fixups: Vec<usize> = Vec::new();
@@ -3758,6 +3764,22 @@ fn adapt_region(
                 for j in 0..arg_count {
                     micro.push(MicroOp::Move { dst: window + j, src: args_start + j });
                 }
+                // The callee reads a list parameter through its pin triple —
+                // plant each from the staged handle.
+                let sig = &callees[func as usize];
+                let pins = window + fn_pins_start(sig.register_count) as u16;
+                let list_params = (0u16..)
+                    .zip(&sig.param_kinds)
+                    .filter(|(_, k)| matches!(k, Some(ParamKind::List(_))));
+                for (slot, (preg, _)) in (0u16..).zip(list_params) {
+                    micro.push(MicroOp::ListTriple {
+                        handle_slot: window + preg,
+                        vec_slot: pins + 3 * slot,
+                        ptr_slot: pins + 3 * slot + 1,
+                        len_slot: pins + 3 * slot + 2,
+                        helper_addr: logos_rt_list_triple as usize as i64,
+                    });
+                }
                 micro.push(MicroOp::Call {
                     dst,
                     args_start: window,
-- 
2.43.0


From 1ff3d49e80861f3389feef32fb4a97d06918488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:32:25 +0000
Subject: [PATCH 09/43] fix: native code leaves a list passed by value
 unchanged for the caller

A function that writes through a by-value list parameter now stays on bytecode,
which copies the list before the first write.
---
 crates/logicaffeine_compile/src/vm/machine.rs | 65 ++++++++++++++++++-
 1 file changed, 64 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_compile/src/vm/machine.rs b/crates/logicaffeine_compile/src/vm/machine.rs
index 939412a..2f60f37 100644
--- a/crates/logicaffeine_compile/src/vm/machine.rs
+++ b/crates/logicaffeine_compile/src/vm/machine.rs
@@ -76,6 +76,50 @@ fn analyze_list_call_safety(
     (list_params_stable, returns_list_param)
 }
 
+/// Does `body` write in place through a list PARAMETER that passes by value?
+/// The interpreter copies such a list on the first write (`ensure_reg_owned`);
+/// native code writes the pinned buffer directly, so the caller would see it.
+/// Registers in `exempt` (`mutable` and inferred mutable-borrow parameters) are
+/// written in place by design.
+fn writes_by_value_list_param(
+    body: &[Op],
+    param_count: u16,
+    param_kinds: &[Option<super::native_tier::ParamKind>],
+    register_count: usize,
+    exempt: &[Reg],
+) -> bool {
+    use super::native_tier::ParamKind;
+    let n = register_count.max(param_count as usize);
+    let mut from_param = vec![false; n];
+    for i in 0..param_count as usize {
+        from_param[i] = matches!(param_kinds.get(i), Some(Some(ParamKind::List(_))));
+    }
+    loop {
+        let mut changed = false;
+        for op in body {
+            if let Op::Move { dst, src } = *op {
+                let (d, s) = (dst as usize, src as usize);
+                if d < n && s < n && from_param[s] && !from_param[d] {
+                    from_param[d] = true;
+                    changed = true;
+                }
+            }
+        }
+        if !changed {
+            break;
+        }
+    }
+    body.iter().any(|op| match *op {
+        Op::ListPush { list: reg, .. }
+        | Op::ListPop { list: reg, .. }
+        | Op::SetIndex { collection: reg, .. }
+        | Op::SetIndexUnchecked { collection: reg, .. } => {
+            from_param.get(reg as usize) == Some(&true) && !exempt.contains(&reg)
+        }
+        _ => false,
+    })
+}
+
 /// Whether `LOGOS_JIT_CANARY=1` armed the region-frame sentinel guard
 /// (read once; the per-region path stays branch-cheap). Off by default and
 /// in release, so normal runs pay nothing — it is a diagnostic for native
@@ -853,11 +897,18 @@ impl<'p> Vm<'p> {
                                 &f.param_kinds,
                                 f.register_count,
                             );
+                            let by_value_write = writes_by_value_list_param(
+                                &prog.code[f.entry_pc..end],
+                                f.param_count,
+                                &f.param_kinds,
+                                f.register_count,
+                                &f.mutable_param_regs,
+                            );
                             super::native_tier::CalleeSig {
                                 param_kinds: f.param_kinds.clone(),
                                 register_count: f.register_count,
                                 ret: f.ret_kind,
-                                list_params_stable,
+                                list_params_stable: list_params_stable && !by_value_write,
                                 returns_list_param,
                             }
                         })
@@ -1599,6 +1650,18 @@ impl<'p> Vm<'p> {
                 .filter(|&e| e > f.entry_pc)
                 .min()
                 .unwrap_or(self.program.code.len());
+            // A by-value list parameter written in place needs the interpreter's
+            // copy-on-write.
+            if writes_by_value_list_param(
+                &self.program.code[f.entry_pc..end],
+                f.param_count,
+                &f.param_kinds,
+                f.register_count,
+                &f.mutable_param_regs,
+            ) {
+                self.native[fi] = NativeSlot::Failed;
+                return NativeDisposition::Interpret;
+            }
             let callees: Vec<super::native_tier::CalleeSig> = {
                 let prog = &self.program;
                 let code_len = prog.code.len();
-- 
2.43.0


From 20bc35e4b20b05ca9a3d7594894dc6d5f88e8fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:24:27 +0000
Subject: [PATCH 10/43] fix: division by a constant works once the dividend has
 outgrown 64 bits

The strength-reduced division assumed a machine integer and stopped the
program when the dividend had been promoted to a big integer.
---
 crates/logicaffeine_compile/src/vm/compiler.rs | 16 ++++++++++++++++
 crates/logicaffeine_compile/src/vm/machine.rs  | 15 ++++++++++-----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/crates/logicaffeine_compile/src/vm/compiler.rs b/crates/logicaffeine_compile/src/vm/compiler.rs
index 6189d7a..6abdd7d 100644
--- a/crates/logicaffeine_compile/src/vm/compiler.rs
+++ b/crates/logicaffeine_compile/src/vm/compiler.rs
@@ -84,6 +84,22 @@ pub fn magic_eval(x: i64, magic: u64, more: u8, mul_back: i64) -> i64 {
     }
 }
 
+/// The divisor a `(magic, more)` pair divides by: the least dividend whose
+/// quotient is 1. Only the exact-integer slow path needs it, when the dividend
+/// of a magic division has grown past a machine word.
+pub fn magic_divisor(magic: u64, more: u8) -> i64 {
+    let (mut lo, mut hi) = (1i64, i64::MAX);
+    while lo < hi {
+        let mid = lo + (hi - lo) / 2;
+        if magic_eval(mid, magic, more, 0) >= 1 {
+            hi = mid;
+        } else {
+            lo = mid + 1;
+        }
+    }
+    lo
+}
+
 /// Constant-pool dedup key. Floats are keyed by bit pattern so that distinct
 /// NaN payloads and -0.0/0.0 stay distinct pool entries.
 #[derive(Clone, PartialEq, Eq, Hash)]
diff --git a/crates/logicaffeine_compile/src/vm/machine.rs b/crates/logicaffeine_compile/src/vm/machine.rs
index 2f60f37..d828820 100644
--- a/crates/logicaffeine_compile/src/vm/machine.rs
+++ b/crates/logicaffeine_compile/src/vm/machine.rs
@@ -2068,11 +2068,16 @@ impl<'p> Vm<'p> {
                     // (`magic`/`more`). Emitted only for an Oracle-proven Int,
                     // non-negative `lhs`, so the result is bit-identical to
                     // `Op::Div`/`Op::Mod` by the constant `c`.
-                    let x = self.reg(lhs).as_int().ok_or_else(|| {
-                        "MagicDivU on a non-Int operand".to_string()
-                    })?;
-                    let v = crate::vm::compiler::magic_eval(x, magic, more, mul_back);
-                    self.set(dst, Value::int(v));
+                    let v = match self.reg(lhs).as_int() {
+                        Some(x) => Value::int(crate::vm::compiler::magic_eval(x, magic, more, mul_back)),
+                        // An Int that outgrew the machine word is exact: divide it so.
+                        None if mul_back == 0 => {
+                            let c = crate::vm::compiler::magic_divisor(magic, more);
+                            self.reg(lhs).div(&Value::int(c))?
+                        }
+                        None => self.reg(lhs).modulo(&Value::int(mul_back))?,
+                    };
+                    self.set(dst, v);
                     pc += 1;
                 }
                 Op::Lt { dst, lhs, rhs } => { self.binop(dst, lhs, rhs, Value::lt)?; pc += 1; }
-- 
2.43.0


From 789f06083cf4d7a8897e205b2ffeb3bb6241db31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:24:27 +0000
Subject: [PATCH 11/43] fix: loop-invariant code motion sees every write in the
 loop body

Writes through `item i of g` or `b's field`, writes in zones, tasks and
match arms, and writes made by a function taking a mutable parameter were
not counted, so reads of the changed value were moved out of the loop.
---
 .../logicaffeine_compile/src/optimize/licm.rs | 195 +++++++++++++-----
 .../src/optimize/loop_split.rs                |   3 +-
 .../logicaffeine_compile/src/vm/compiler.rs   |  11 +-
 3 files changed, 150 insertions(+), 59 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/licm.rs b/crates/logicaffeine_compile/src/optimize/licm.rs
index 43783eb..b190312 100644
--- a/crates/logicaffeine_compile/src/optimize/licm.rs
+++ b/crates/logicaffeine_compile/src/optimize/licm.rs
@@ -7,81 +7,162 @@
 use std::collections::HashSet;
 
 use crate::arena::Arena;
-use crate::ast::stmt::{BinaryOpKind, Block, Expr, Stmt};
+use crate::ast::stmt::{BinaryOpKind, Block, Expr, Stmt, TypeExpr};
 use crate::intern::{Interner, Symbol};
 
+/// The variable a write to `place` changes: `item 1 of g` and `b's tags` are
+/// parts of `g` and `b`.
+pub(crate) fn place_root(place: &Expr) -> Option<Symbol> {
+    match place {
+        Expr::Identifier(sym) => Some(*sym),
+        Expr::Index { collection, .. } => place_root(collection),
+        Expr::FieldAccess { object, .. } => place_root(object),
+        _ => None,
+    }
+}
+
 /// Collect all symbols written in a block of statements (recursively).
 pub(crate) fn collect_loop_writes(stmts: &[Stmt]) -> HashSet<Symbol> {
     let mut writes = HashSet::new();
     for stmt in stmts {
-        match stmt {
-            Stmt::Set { target, .. } => {
-                writes.insert(*target);
-            }
-            // A Let introduces an ITERATION-LOCAL binding: any expression
-            // reading it is body-dependent, never invariant. (Treating it
-            // as a "write" is exactly the right approximation — hoisting a
-            // reader above the loop would read a name that does not exist
-            // there: the nbody `mag`/`dist` miscompilation.)
-            Stmt::Let { var, .. } => {
-                writes.insert(*var);
-            }
-            Stmt::ReadFrom { var, .. } => {
-                writes.insert(*var);
-            }
-            Stmt::Push { collection, .. }
-            | Stmt::Add { collection, .. }
-            | Stmt::Remove { collection, .. } => {
-                if let Expr::Identifier(sym) = collection {
-                    writes.insert(*sym);
-                }
-            }
-            Stmt::Pop { collection, into } => {
-                if let Expr::Identifier(sym) = collection {
-                    writes.insert(*sym);
-                }
-                if let Some(v) = into {
-                    writes.insert(*v);
-                }
+        collect_stmt_writes(stmt, &mut writes);
+    }
+    writes
+}
+
+fn collect_stmt_writes(stmt: &Stmt, writes: &mut HashSet<Symbol>) {
+    use crate::ast::stmt::{Pattern, SelectBranch};
+    collect_call_writes(stmt, writes);
+    match stmt {
+        Stmt::Set { target, .. } => {
+            writes.insert(*target);
+        }
+        // A Let introduces an ITERATION-LOCAL binding: any expression
+        // reading it is body-dependent, never invariant. (Treating it
+        // as a "write" is exactly the right approximation — hoisting a
+        // reader above the loop would read a name that does not exist
+        // there: the nbody `mag`/`dist` miscompilation.)
+        Stmt::Let { var, .. }
+        | Stmt::ReadFrom { var, .. }
+        | Stmt::AwaitMessage { into: var, .. }
+        | Stmt::Spawn { name: var, .. }
+        | Stmt::LetPeerAgent { var, .. }
+        | Stmt::Sync { var, .. }
+        | Stmt::Mount { var, .. }
+        | Stmt::LaunchTaskWithHandle { handle: var, .. }
+        | Stmt::CreatePipe { var, .. }
+        | Stmt::ReceivePipe { var, .. }
+        | Stmt::TryReceivePipe { var, .. }
+        | Stmt::TrySendPipe { result: Some(var), .. } => {
+            writes.insert(*var);
+        }
+        Stmt::Push { collection: place, .. }
+        | Stmt::Add { collection: place, .. }
+        | Stmt::Remove { collection: place, .. }
+        | Stmt::SetIndex { collection: place, .. }
+        | Stmt::SetField { object: place, .. }
+        | Stmt::MergeCrdt { target: place, .. }
+        | Stmt::IncreaseCrdt { object: place, .. }
+        | Stmt::DecreaseCrdt { object: place, .. }
+        | Stmt::AppendToSequence { sequence: place, .. }
+        | Stmt::ResolveConflict { object: place, .. } => {
+            writes.extend(place_root(place));
+        }
+        Stmt::Pop { collection, into } => {
+            writes.extend(place_root(collection));
+            writes.extend(*into);
+        }
+        Stmt::If { then_block, else_block, .. } => {
+            writes.extend(collect_loop_writes(then_block));
+            if let Some(eb) = else_block {
+                writes.extend(collect_loop_writes(eb));
             }
-            Stmt::SetIndex { collection, .. } | Stmt::SetField { object: collection, .. } => {
-                if let Expr::Identifier(sym) = collection {
+        }
+        Stmt::Repeat { body, pattern, .. } => {
+            match pattern {
+                Pattern::Identifier(sym) => {
                     writes.insert(*sym);
                 }
-            }
-            Stmt::If { then_block, else_block, .. } => {
-                writes.extend(collect_loop_writes(then_block));
-                if let Some(eb) = else_block {
-                    writes.extend(collect_loop_writes(eb));
+                Pattern::Tuple(syms) => {
+                    writes.extend(syms.iter().copied());
                 }
             }
-            Stmt::While { body, .. } => {
-                writes.extend(collect_loop_writes(body));
+            writes.extend(collect_loop_writes(body));
+        }
+        Stmt::While { body, .. }
+        | Stmt::Zone { body, .. }
+        | Stmt::Splice { body }
+        | Stmt::Concurrent { tasks: body }
+        | Stmt::Parallel { tasks: body } => {
+            writes.extend(collect_loop_writes(body));
+        }
+        Stmt::Inspect { arms, .. } => {
+            for arm in arms {
+                writes.extend(arm.bindings.iter().map(|(_, bound)| *bound));
+                writes.extend(collect_loop_writes(arm.body));
             }
-            Stmt::Repeat { body, pattern, .. } => {
-                use crate::ast::stmt::Pattern;
-                match pattern {
-                    Pattern::Identifier(sym) => {
-                        writes.insert(*sym);
+        }
+        Stmt::Select { branches } => {
+            for branch in branches {
+                match branch {
+                    SelectBranch::Receive { var, body, .. } => {
+                        writes.insert(*var);
+                        writes.extend(collect_loop_writes(body));
                     }
-                    Pattern::Tuple(syms) => {
-                        writes.extend(syms.iter().copied());
+                    SelectBranch::Timeout { body, .. } => {
+                        writes.extend(collect_loop_writes(body));
                     }
                 }
-                writes.extend(collect_loop_writes(body));
             }
-            Stmt::Zone { body, .. } => {
-                writes.extend(collect_loop_writes(body));
+        }
+        _ => {}
+    }
+}
+
+thread_local! {
+    /// Functions of the program being optimized that take a `mutable`
+    /// parameter: calling one writes to the variable passed.
+    static MUTATING_FUNCTIONS: std::cell::RefCell<HashSet<Symbol>> = Default::default();
+}
+
+/// Remember which functions of `stmts` can write to the caller's variables.
+/// Every pass asking [`collect_loop_writes`] does this for its program first.
+pub(crate) fn note_mutating_functions(stmts: &[Stmt]) {
+    let found = stmts
+        .iter()
+        .filter_map(|s| match s {
+            Stmt::FunctionDef { name, params, .. }
+                if params.iter().any(|(_, ty)| matches!(ty, TypeExpr::Mutable { .. })) =>
+            {
+                Some(*name)
+            }
+            _ => None,
+        })
+        .collect();
+    MUTATING_FUNCTIONS.with(|m| *m.borrow_mut() = found);
+}
+
+/// The variables handed to a [mutating function](note_mutating_functions) by
+/// `stmt` itself (its nested blocks excluded).
+pub(crate) fn collect_call_writes(stmt: &Stmt, writes: &mut HashSet<Symbol>) {
+    MUTATING_FUNCTIONS.with(|m| {
+        let mutating = m.borrow();
+        if mutating.is_empty() {
+            return;
+        }
+        if let Stmt::Call { function, args } = stmt {
+            if mutating.contains(function) {
+                writes.extend(args.iter().filter_map(|a| place_root(a)));
             }
-            Stmt::Inspect { arms, .. } => {
-                for arm in arms {
-                    writes.extend(collect_loop_writes(arm.body));
+        }
+        crate::vm::compiler::visit_stmt_exprs(stmt, &mut |e| {
+            if let Expr::Call { function, args } = e {
+                if mutating.contains(function) {
+                    writes.extend(args.iter().filter_map(|a| place_root(a)));
                 }
             }
-            _ => {}
-        }
-    }
-    writes
+        });
+    });
 }
 
 /// Check if an expression is loop-invariant: only reads symbols NOT in loop_writes.
@@ -697,6 +778,7 @@ pub fn licm_stmts<'a>(
     stmt_arena: &'a Arena<Stmt<'a>>,
     interner: &mut Interner,
 ) -> Vec<Stmt<'a>> {
+    note_mutating_functions(&stmts);
     licm_stmts_with(stmts, expr_arena, stmt_arena, interner, false)
 }
 
@@ -707,6 +789,7 @@ pub fn licm_stmts_run<'a>(
     stmt_arena: &'a Arena<Stmt<'a>>,
     interner: &mut Interner,
 ) -> Vec<Stmt<'a>> {
+    note_mutating_functions(&stmts);
     licm_stmts_with(stmts, expr_arena, stmt_arena, interner, true)
 }
 
diff --git a/crates/logicaffeine_compile/src/optimize/loop_split.rs b/crates/logicaffeine_compile/src/optimize/loop_split.rs
index 47500a7..927bd02 100644
--- a/crates/logicaffeine_compile/src/optimize/loop_split.rs
+++ b/crates/logicaffeine_compile/src/optimize/loop_split.rs
@@ -61,7 +61,7 @@ use crate::intern::{Interner, Symbol};
 use crate::optimization::{Opt, OptimizationConfig};
 use crate::codegen::peephole::is_simple_expr;
 use super::abstract_interp::{count_writes_of, self_increment};
-use super::licm::{collect_loop_writes, is_loop_invariant};
+use super::licm::{collect_loop_writes, is_loop_invariant, note_mutating_functions};
 
 /// A recognized IV guard: the iteration space splits at `split_point`, with the
 /// guard's then-block belonging to the high (suffix) range when `then_is_suffix`.
@@ -85,6 +85,7 @@ pub fn loop_split_stmts<'a>(
     if !cfg.is_on(Opt::LoopSplit) {
         return stmts;
     }
+    note_mutating_functions(&stmts);
     split_block(stmts, expr_arena, stmt_arena, interner)
 }
 
diff --git a/crates/logicaffeine_compile/src/vm/compiler.rs b/crates/logicaffeine_compile/src/vm/compiler.rs
index 6abdd7d..46bfe8d 100644
--- a/crates/logicaffeine_compile/src/vm/compiler.rs
+++ b/crates/logicaffeine_compile/src/vm/compiler.rs
@@ -3238,7 +3238,7 @@ fn collect_nonlocal_idents_stmt(
 /// Apply `f` to every expression directly held by `s` (and, via the walker in
 /// `f` itself when needed, their subexpressions are reached by the free-vars
 /// collector — Closure bodies included).
-fn visit_stmt_exprs(s: &Stmt, f: &mut dyn FnMut(&Expr)) {
+pub(crate) fn visit_stmt_exprs(s: &Stmt, f: &mut dyn FnMut(&Expr)) {
     // Iterative walk: expressions can be arbitrarily deep (degenerate inputs),
     // so no native recursion here.
     fn walk_expr<'a>(root: &'a Expr<'a>, f: &mut dyn FnMut(&Expr)) {
@@ -3290,12 +3290,19 @@ fn visit_stmt_exprs(s: &Stmt, f: &mut dyn FnMut(&Expr)) {
                 }
                 Expr::OptionSome { value } => stack.push(value),
                 Expr::WithCapacity { value, .. } => stack.push(value),
+                Expr::InterpolatedString(parts) => {
+                    for p in parts {
+                        if let StringPart::Expr { value, .. } = p {
+                            stack.push(value);
+                        }
+                    }
+                }
                 _ => {}
             }
         }
     }
 
-    use crate::ast::stmt::ReadSource;
+    use crate::ast::stmt::{ReadSource, StringPart};
     match s {
         Stmt::Let { value, .. } | Stmt::Set { value, .. } => walk_expr(value, f),
         Stmt::Return { value: Some(e) } => walk_expr(e, f),
-- 
2.43.0


From 4445590de5480390d6408a079602327ba980ee5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:24:27 +0000
Subject: [PATCH 12/43] fix: common-subexpression elimination forgets values
 that were overwritten

A value computed before a loop was reused inside it although the loop
changes its operands, and writes other than plain assignments were not
noticed at all. The right side of `and`/`or` is no longer evaluated early.
---
 .../logicaffeine_compile/src/optimize/gvn.rs  | 105 +++++++-----------
 1 file changed, 39 insertions(+), 66 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/gvn.rs b/crates/logicaffeine_compile/src/optimize/gvn.rs
index 5eb13f5..df8c879 100644
--- a/crates/logicaffeine_compile/src/optimize/gvn.rs
+++ b/crates/logicaffeine_compile/src/optimize/gvn.rs
@@ -7,7 +7,7 @@
 use std::collections::{HashMap, HashSet};
 
 use crate::arena::Arena;
-use crate::ast::stmt::{BinaryOpKind, Expr, Literal, Stmt};
+use crate::ast::stmt::{BinaryOpKind, Expr, Literal, Pattern, Stmt};
 use crate::intern::{Interner, Symbol};
 
 /// Structural key for expressions, used for equality comparison in CSE.
@@ -112,6 +112,8 @@ impl CseState {
     fn insert(&mut self, key: ExprKey, sym: Symbol) {
         let mut syms = HashSet::new();
         collect_key_symbols(&key, &mut syms);
+        // The value is reused through `sym`, so overwriting `sym` loses it too.
+        syms.insert(sym);
         for s in syms {
             self.deps.entry(s).or_default().push(key.clone());
         }
@@ -142,6 +144,11 @@ fn count_subexpressions(expr: &Expr, counts: &mut HashMap<ExprKey, usize>) {
     }
     // Recurse into sub-expressions
     match expr {
+        // The right side of `and`/`or` may never be evaluated, so it must not
+        // be computed ahead of the whole expression.
+        Expr::BinaryOp { op: BinaryOpKind::And | BinaryOpKind::Or, left, .. } => {
+            count_subexpressions(left, counts);
+        }
         Expr::BinaryOp { left, right, .. } => {
             count_subexpressions(left, counts);
             count_subexpressions(right, counts);
@@ -284,6 +291,20 @@ fn cse_block<'a>(
     let mut result = Vec::with_capacity(stmts.len());
 
     for stmt in stmts {
+        // A call may write to the variables it is passed: nothing computed from
+        // them before holds, and the statement itself stays in evaluation order.
+        let mut call_writes = std::collections::HashSet::new();
+        super::licm::collect_call_writes(&stmt, &mut call_writes);
+        if !call_writes.is_empty() {
+            for sym in call_writes {
+                state.invalidate(sym);
+            }
+            if let Stmt::Let { var: sym, .. } | Stmt::Set { target: sym, .. } = stmt {
+                state.invalidate(sym);
+                result.push(stmt);
+                continue;
+            }
+        }
         match stmt {
             Stmt::Let { var, ty, value, mutable } => {
                 // Count intra-expression subexpression occurrences
@@ -301,6 +322,7 @@ fn cse_block<'a>(
                         state, &mut hoisted, interner, expr_arena, stmt_arena,
                     );
                     result.extend(hoisted);
+                    state.invalidate(var);
                     // Add the whole expression to cross-statement cache
                     if let Some(key) = compute_key(new_value) {
                         if is_non_trivial(new_value) {
@@ -311,6 +333,7 @@ fn cse_block<'a>(
                 } else {
                     // Simple cross-statement check
                     let new_value = cse_expr_cross_stmt(value, state, expr_arena);
+                    state.invalidate(var);
                     // Add to cache
                     if let Some(key) = compute_key(value) {
                         if is_non_trivial(value) {
@@ -324,42 +347,6 @@ fn cse_block<'a>(
                 state.invalidate(target);
                 result.push(Stmt::Set { target, value });
             }
-            Stmt::Push { value, collection } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
-                }
-                result.push(Stmt::Push { value, collection });
-            }
-            Stmt::Pop { collection, into } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
-                }
-                result.push(Stmt::Pop { collection, into });
-            }
-            Stmt::Add { value, collection } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
-                }
-                result.push(Stmt::Add { value, collection });
-            }
-            Stmt::Remove { value, collection } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
-                }
-                result.push(Stmt::Remove { value, collection });
-            }
-            Stmt::SetIndex { collection, index, value } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
-                }
-                result.push(Stmt::SetIndex { collection, index, value });
-            }
-            Stmt::SetField { object, field, value } => {
-                if let Expr::Identifier(sym) = object {
-                    state.invalidate(*sym);
-                }
-                result.push(Stmt::SetField { object, field, value });
-            }
             // Control flow: process inner blocks with fresh state, then clear outer cache
             Stmt::If { cond, then_block, else_block } => {
                 let saved_cache = state.cache.clone();
@@ -393,6 +380,9 @@ fn cse_block<'a>(
                 let saved_cache = state.cache.clone();
                 let saved_deps = state.deps.clone();
 
+                // A value from before the loop is stale once an iteration has
+                // changed what it was computed from.
+                invalidate_block_writes(body, state);
                 let new_body = cse_block(body.to_vec(), state, expr_arena, stmt_arena, interner);
                 let new_body_block: Block = stmt_arena.alloc_slice(new_body);
 
@@ -407,6 +397,11 @@ fn cse_block<'a>(
                 let saved_cache = state.cache.clone();
                 let saved_deps = state.deps.clone();
 
+                match &pattern {
+                    Pattern::Identifier(sym) => state.invalidate(*sym),
+                    Pattern::Tuple(syms) => syms.iter().for_each(|s| state.invalidate(*s)),
+                }
+                invalidate_block_writes(body, state);
                 let new_body = cse_block(body.to_vec(), state, expr_arena, stmt_arena, interner);
                 let new_body_block: Block = stmt_arena.alloc_slice(new_body);
 
@@ -429,7 +424,10 @@ fn cse_block<'a>(
                 });
             }
             // All other statements pass through unchanged
-            other => result.push(other),
+            other => {
+                invalidate_block_writes(std::slice::from_ref(&other), state);
+                result.push(other);
+            }
         }
     }
 
@@ -438,34 +436,8 @@ fn cse_block<'a>(
 
 /// Scan a block for all write targets and invalidate them in the CSE state.
 fn invalidate_block_writes(stmts: &[Stmt], state: &mut CseState) {
-    for stmt in stmts {
-        match stmt {
-            Stmt::Set { target, .. } => state.invalidate(*target),
-            Stmt::Push { collection, .. } | Stmt::Pop { collection, .. }
-            | Stmt::Add { collection, .. } | Stmt::Remove { collection, .. } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
-                }
-            }
-            Stmt::SetIndex { collection, .. } | Stmt::SetField { object: collection, .. } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
-                }
-            }
-            Stmt::If { then_block, else_block, .. } => {
-                invalidate_block_writes(then_block, state);
-                if let Some(eb) = else_block {
-                    invalidate_block_writes(eb, state);
-                }
-            }
-            Stmt::While { body, .. } | Stmt::Repeat { body, .. } => {
-                invalidate_block_writes(body, state);
-            }
-            Stmt::Zone { body, .. } => {
-                invalidate_block_writes(body, state);
-            }
-            _ => {}
-        }
+    for sym in super::licm::collect_loop_writes(stmts) {
+        state.invalidate(sym);
     }
 }
 
@@ -478,6 +450,7 @@ pub fn cse_stmts<'a>(
     stmt_arena: &'a Arena<Stmt<'a>>,
     interner: &mut Interner,
 ) -> Vec<Stmt<'a>> {
+    super::licm::note_mutating_functions(&stmts);
     let mut state = CseState::new();
     cse_block(stmts, &mut state, expr_arena, stmt_arena, interner)
 }
-- 
2.43.0


From 30c39b33d0789a8853385cce577b54ef192ce744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:24:27 +0000
Subject: [PATCH 13/43] fix: interval analysis drops facts a statement
 invalidates

List lengths survived loops, pops and reassignments, and variables kept
their range across zones, tasks, match arms and Break, so reachable
branches were removed. Ranges are now used for integers only.
---
 .../src/optimize/abstract_interp.rs           | 352 +++++++++++-------
 .../logicaffeine_compile/src/optimize/mod.rs  |   4 +-
 2 files changed, 228 insertions(+), 128 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
index f73d11a..366f5c2 100644
--- a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
+++ b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
@@ -1,8 +1,9 @@
 use std::collections::{HashMap, HashSet};
+use std::rc::Rc;
 
 use crate::arena::Arena;
-use crate::ast::stmt::{BinaryOpKind, Expr, Literal, MatchArm, Pattern, Stmt};
-use crate::intern::Symbol;
+use crate::ast::stmt::{BinaryOpKind, Expr, Literal, MatchArm, Pattern, Stmt, TypeExpr};
+use crate::intern::{Interner, Symbol};
 
 /// Per-collection ELEMENT-TYPE tracking: a read `item k of arr` carries `arr`'s
 /// proven element type (the join of every value written into it). A
@@ -1078,6 +1079,10 @@ struct AbstractState {
     /// pushed into `arr` ⟹ `item i of arr ∈ [0,999]`), which in turn proves a
     /// scatter index `counts[v+1]` in bounds. `None`/absent = unknown (`top`).
     elem: HashMap<Symbol, Interval>,
+    /// When given, the only variables whose values are known to be integers:
+    /// the interval arithmetic (`x > 3` means `x >= 4`, `/` truncates) holds for
+    /// no other. The Oracle tracks types itself and leaves this out.
+    ints: Option<Rc<HashSet<Symbol>>>,
 }
 
 impl AbstractState {
@@ -1086,9 +1091,18 @@ impl AbstractState {
             vars: HashMap::new(),
             lengths: HashMap::new(),
             elem: HashMap::new(),
+            ints: None,
         }
     }
 
+    fn with_ints(ints: HashSet<Symbol>) -> Self {
+        AbstractState { ints: Some(Rc::new(ints)), ..AbstractState::new() }
+    }
+
+    fn may_be_narrowed(&self, sym: &Symbol) -> bool {
+        self.ints.as_ref().map_or(true, |ints| ints.contains(sym))
+    }
+
     fn get_var(&self, sym: &Symbol) -> Interval {
         self.vars.get(sym).cloned().unwrap_or(Interval::top())
     }
@@ -1097,6 +1111,28 @@ impl AbstractState {
         self.vars.insert(sym, range);
     }
 
+    /// Drop everything known about the variables `stmts` write.
+    fn forget_writes(&mut self, stmts: &[Stmt]) {
+        for sym in super::licm::collect_loop_writes(stmts) {
+            self.forget(sym);
+        }
+    }
+
+    /// Drop everything known about the variables a call in `stmt` writes.
+    fn forget_calls(&mut self, stmt: &Stmt) {
+        let mut writes = std::collections::HashSet::new();
+        super::licm::collect_call_writes(stmt, &mut writes);
+        for sym in writes {
+            self.forget(sym);
+        }
+    }
+
+    fn forget(&mut self, sym: Symbol) {
+        self.vars.remove(&sym);
+        self.lengths.remove(&sym);
+        self.elem.remove(&sym);
+    }
+
     fn get_length(&self, sym: &Symbol) -> Interval {
         self.lengths.get(sym).cloned().unwrap_or(Interval::non_negative())
     }
@@ -1135,6 +1171,9 @@ fn eval_expr(expr: &Expr, state: &AbstractState) -> Interval {
         Expr::Literal(Literal::Float(_)) => Interval::top(),
         Expr::Identifier(sym) => state.get_var(sym),
         Expr::BinaryOp { op, left, right } => {
+            if state.ints.as_ref().map_or(false, |ints| !is_int(expr, ints)) {
+                return Interval::top();
+            }
             let l = eval_expr(left, state);
             let r = eval_expr(right, state);
             match op {
@@ -1196,15 +1235,23 @@ fn eval_condition(cond: &Expr, state: &AbstractState) -> Option<bool> {
     }
 }
 
+/// The variable a comparison of `expr` tells something about.
+fn narrowable(expr: &Expr, state: &AbstractState) -> Option<Symbol> {
+    match expr {
+        Expr::Identifier(sym) if state.may_be_narrowed(sym) => Some(*sym),
+        _ => None,
+    }
+}
+
 fn narrow_state(cond: &Expr, state: &mut AbstractState) {
     match cond {
         Expr::BinaryOp { op: BinaryOpKind::Gt, left, right } => {
-            if let Expr::Identifier(sym) = left {
+            if let Some(sym) = narrowable(left, state) {
                 let r = eval_expr(right, state);
                 if let Some(n) = r.is_exact() {
-                    let cur = state.get_var(sym);
+                    let cur = state.get_var(&sym);
                     if let Some(new_lo) = n.checked_add(1) {
-                        state.set_var(*sym, Interval {
+                        state.set_var(sym, Interval {
                             lo: Bound::max_bound(&cur.lo, &Bound::Finite(new_lo)),
                             hi: cur.hi,
                         });
@@ -1213,12 +1260,12 @@ fn narrow_state(cond: &Expr, state: &mut AbstractState) {
             }
         }
         Expr::BinaryOp { op: BinaryOpKind::Lt, left, right } => {
-            if let Expr::Identifier(sym) = left {
+            if let Some(sym) = narrowable(left, state) {
                 let r = eval_expr(right, state);
                 if let Some(n) = r.is_exact() {
-                    let cur = state.get_var(sym);
+                    let cur = state.get_var(&sym);
                     if let Some(new_hi) = n.checked_sub(1) {
-                        state.set_var(*sym, Interval {
+                        state.set_var(sym, Interval {
                             lo: cur.lo,
                             hi: Bound::min_bound(&cur.hi, &Bound::Finite(new_hi)),
                         });
@@ -1227,11 +1274,11 @@ fn narrow_state(cond: &Expr, state: &mut AbstractState) {
             }
         }
         Expr::BinaryOp { op: BinaryOpKind::GtEq, left, right } => {
-            if let Expr::Identifier(sym) = left {
+            if let Some(sym) = narrowable(left, state) {
                 let r = eval_expr(right, state);
                 if let Some(n) = r.is_exact() {
-                    let cur = state.get_var(sym);
-                    state.set_var(*sym, Interval {
+                    let cur = state.get_var(&sym);
+                    state.set_var(sym, Interval {
                         lo: Bound::max_bound(&cur.lo, &Bound::Finite(n)),
                         hi: cur.hi,
                     });
@@ -1239,11 +1286,11 @@ fn narrow_state(cond: &Expr, state: &mut AbstractState) {
             }
         }
         Expr::BinaryOp { op: BinaryOpKind::LtEq, left, right } => {
-            if let Expr::Identifier(sym) = left {
+            if let Some(sym) = narrowable(left, state) {
                 let r = eval_expr(right, state);
                 if let Some(n) = r.is_exact() {
-                    let cur = state.get_var(sym);
-                    state.set_var(*sym, Interval {
+                    let cur = state.get_var(&sym);
+                    state.set_var(sym, Interval {
                         lo: cur.lo,
                         hi: Bound::min_bound(&cur.hi, &Bound::Finite(n)),
                     });
@@ -1257,11 +1304,11 @@ fn narrow_state(cond: &Expr, state: &mut AbstractState) {
 fn narrow_state_negated(cond: &Expr, state: &mut AbstractState) {
     match cond {
         Expr::BinaryOp { op: BinaryOpKind::Gt, left, right } => {
-            if let Expr::Identifier(sym) = left {
+            if let Some(sym) = narrowable(left, state) {
                 let r = eval_expr(right, state);
                 if let Some(n) = r.is_exact() {
-                    let cur = state.get_var(sym);
-                    state.set_var(*sym, Interval {
+                    let cur = state.get_var(&sym);
+                    state.set_var(sym, Interval {
                         lo: cur.lo,
                         hi: Bound::min_bound(&cur.hi, &Bound::Finite(n)),
                     });
@@ -1269,11 +1316,11 @@ fn narrow_state_negated(cond: &Expr, state: &mut AbstractState) {
             }
         }
         Expr::BinaryOp { op: BinaryOpKind::Lt, left, right } => {
-            if let Expr::Identifier(sym) = left {
+            if let Some(sym) = narrowable(left, state) {
                 let r = eval_expr(right, state);
                 if let Some(n) = r.is_exact() {
-                    let cur = state.get_var(sym);
-                    state.set_var(*sym, Interval {
+                    let cur = state.get_var(&sym);
+                    state.set_var(sym, Interval {
                         lo: Bound::max_bound(&cur.lo, &Bound::Finite(n)),
                         hi: cur.hi,
                     });
@@ -1281,12 +1328,12 @@ fn narrow_state_negated(cond: &Expr, state: &mut AbstractState) {
             }
         }
         Expr::BinaryOp { op: BinaryOpKind::GtEq, left, right } => {
-            if let Expr::Identifier(sym) = left {
+            if let Some(sym) = narrowable(left, state) {
                 let r = eval_expr(right, state);
                 if let Some(n) = r.is_exact() {
-                    let cur = state.get_var(sym);
+                    let cur = state.get_var(&sym);
                     if let Some(new_hi) = n.checked_sub(1) {
-                        state.set_var(*sym, Interval {
+                        state.set_var(sym, Interval {
                             lo: cur.lo,
                             hi: Bound::min_bound(&cur.hi, &Bound::Finite(new_hi)),
                         });
@@ -1295,12 +1342,12 @@ fn narrow_state_negated(cond: &Expr, state: &mut AbstractState) {
             }
         }
         Expr::BinaryOp { op: BinaryOpKind::LtEq, left, right } => {
-            if let Expr::Identifier(sym) = left {
+            if let Some(sym) = narrowable(left, state) {
                 let r = eval_expr(right, state);
                 if let Some(n) = r.is_exact() {
-                    let cur = state.get_var(sym);
+                    let cur = state.get_var(&sym);
                     if let Some(new_lo) = n.checked_add(1) {
-                        state.set_var(*sym, Interval {
+                        state.set_var(sym, Interval {
                             lo: Bound::max_bound(&cur.lo, &Bound::Finite(new_lo)),
                             hi: cur.hi,
                         });
@@ -1312,13 +1359,108 @@ fn narrow_state_negated(cond: &Expr, state: &mut AbstractState) {
     }
 }
 
+/// Is `expr` an integer whenever every variable of `ints` is one?
+fn is_int(expr: &Expr, ints: &HashSet<Symbol>) -> bool {
+    match expr {
+        Expr::Literal(Literal::Number(_)) | Expr::Length { .. } => true,
+        Expr::Identifier(sym) => ints.contains(sym),
+        Expr::BinaryOp {
+            op: BinaryOpKind::Add
+            | BinaryOpKind::Subtract
+            | BinaryOpKind::Multiply
+            | BinaryOpKind::Divide
+            | BinaryOpKind::Modulo
+            | BinaryOpKind::Shl
+            | BinaryOpKind::Shr,
+            left,
+            right,
+        } => is_int(left, ints) && is_int(right, ints),
+        _ => false,
+    }
+}
+
+/// The variables of one function body (or of Main) that only ever hold integers.
+fn int_variables(
+    params: &[(Symbol, &TypeExpr)],
+    body: &[Stmt],
+    interner: &Interner,
+) -> HashSet<Symbol> {
+    fn is_int_type(ty: &TypeExpr, interner: &Interner) -> bool {
+        matches!(ty, TypeExpr::Primitive(s) | TypeExpr::Named(s) if interner.resolve(*s) == "Int")
+    }
+    /// `defs` gets the integer-or-not values of the variables bound, `others`
+    /// the variables bound in some other way.
+    fn collect<'s>(
+        body: &'s [Stmt<'s>],
+        defs: &mut Vec<(Symbol, &'s Expr<'s>)>,
+        others: &mut HashSet<Symbol>,
+        interner: &Interner,
+    ) {
+        for stmt in body {
+            match stmt {
+                Stmt::Let { var, ty: Some(ty), .. } if !is_int_type(ty, interner) => {
+                    others.insert(*var);
+                }
+                Stmt::Let { var, value, .. } | Stmt::Set { target: var, value } => {
+                    defs.push((*var, *value));
+                }
+                Stmt::If { then_block, else_block, .. } => {
+                    collect(then_block, defs, others, interner);
+                    if let Some(eb) = else_block {
+                        collect(eb, defs, others, interner);
+                    }
+                }
+                Stmt::Repeat { pattern, iterable, body } => {
+                    match (pattern, iterable) {
+                        (Pattern::Identifier(var), Expr::Range { start, end }) => {
+                            defs.push((*var, *start));
+                            defs.push((*var, *end));
+                        }
+                        (Pattern::Identifier(var), _) => {
+                            others.insert(*var);
+                        }
+                        (Pattern::Tuple(vars), _) => others.extend(vars.iter().copied()),
+                    }
+                    collect(body, defs, others, interner);
+                }
+                Stmt::While { body, .. } => collect(body, defs, others, interner),
+                Stmt::FunctionDef { .. } => {}
+                other => others.extend(super::licm::collect_loop_writes(std::slice::from_ref(other))),
+            }
+        }
+    }
+    let mut defs = Vec::new();
+    let mut others = HashSet::new();
+    for (param, ty) in params {
+        if !is_int_type(ty, interner) {
+            others.insert(*param);
+        }
+    }
+    collect(body, &mut defs, &mut others, interner);
+    let mut ints: HashSet<Symbol> =
+        params.iter().map(|(param, _)| *param).chain(defs.iter().map(|(var, _)| *var)).collect();
+    ints.retain(|sym| !others.contains(sym));
+    loop {
+        let not: Vec<Symbol> =
+            defs.iter().filter(|(v, e)| ints.contains(v) && !is_int(e, &ints)).map(|(v, _)| *v).collect();
+        if not.is_empty() {
+            return ints;
+        }
+        for sym in not {
+            ints.remove(&sym);
+        }
+    }
+}
+
 pub fn abstract_interp_stmts<'a>(
     stmts: Vec<Stmt<'a>>,
     expr_arena: &'a Arena<Expr<'a>>,
     stmt_arena: &'a Arena<Stmt<'a>>,
+    interner: &Interner,
 ) -> Vec<Stmt<'a>> {
-    let mut state = AbstractState::new();
-    interp_block(stmts, &mut state, expr_arena, stmt_arena)
+    super::licm::note_mutating_functions(&stmts);
+    let mut state = AbstractState::with_ints(int_variables(&[], &stmts, interner));
+    interp_block(stmts, &mut state, expr_arena, stmt_arena, interner)
 }
 
 fn interp_block<'a>(
@@ -1326,32 +1468,39 @@ fn interp_block<'a>(
     state: &mut AbstractState,
     expr_arena: &'a Arena<Expr<'a>>,
     stmt_arena: &'a Arena<Stmt<'a>>,
+    interner: &Interner,
 ) -> Vec<Stmt<'a>> {
     let mut result = Vec::with_capacity(stmts.len());
 
     for stmt in stmts {
+        state.forget_calls(&stmt);
         match stmt {
-            Stmt::Let { var, ty, value, mutable } => {
+            Stmt::Let { var, value, .. } => {
                 let range = eval_expr(value, state);
+                state.forget_writes(std::slice::from_ref(&stmt));
                 state.set_var(var, range);
                 if matches!(value, Expr::New { .. }) {
                     state.set_length(var, Interval::exact(0));
                 }
-                result.push(Stmt::Let { var, ty, value, mutable });
+                result.push(stmt);
             }
 
             Stmt::Set { target, value } => {
                 let range = eval_expr(value, state);
+                state.forget_writes(std::slice::from_ref(&stmt));
                 state.set_var(target, range);
-                result.push(Stmt::Set { target, value });
+                result.push(stmt);
             }
 
-            Stmt::Push { value, collection } => {
+            Stmt::Push { collection, .. } => {
                 if let Expr::Identifier(sym) = collection {
                     let cur_len = state.get_length(sym);
+                    state.forget_writes(std::slice::from_ref(&stmt));
                     state.set_length(*sym, cur_len.add(&Interval::exact(1)));
+                } else {
+                    state.forget_writes(std::slice::from_ref(&stmt));
                 }
-                result.push(Stmt::Push { value, collection });
+                result.push(stmt);
             }
 
             Stmt::If { cond, then_block, else_block } => {
@@ -1360,7 +1509,7 @@ fn interp_block<'a>(
                     if val {
                         let mut then_state = state.clone();
                         narrow_state(cond, &mut then_state);
-                        let new_then = interp_nested_block(then_block, &mut then_state, expr_arena, stmt_arena);
+                        let new_then = interp_nested_block(then_block, &mut then_state, expr_arena, stmt_arena, interner);
                         *state = then_state;
                         result.push(Stmt::If {
                             cond: new_cond,
@@ -1371,7 +1520,7 @@ fn interp_block<'a>(
                         if let Some(eb) = else_block {
                             let mut else_state = state.clone();
                             narrow_state_negated(cond, &mut else_state);
-                            let new_else = interp_nested_block(eb, &mut else_state, expr_arena, stmt_arena);
+                            let new_else = interp_nested_block(eb, &mut else_state, expr_arena, stmt_arena, interner);
                             *state = else_state;
                             result.push(Stmt::If {
                                 cond: new_cond,
@@ -1389,12 +1538,12 @@ fn interp_block<'a>(
                 } else {
                     let mut then_state = state.clone();
                     narrow_state(cond, &mut then_state);
-                    let new_then = interp_nested_block(then_block, &mut then_state, expr_arena, stmt_arena);
+                    let new_then = interp_nested_block(then_block, &mut then_state, expr_arena, stmt_arena, interner);
 
                     let (new_else, else_state) = if let Some(eb) = else_block {
                         let mut es = state.clone();
                         narrow_state_negated(cond, &mut es);
-                        let ne = interp_nested_block(eb, &mut es, expr_arena, stmt_arena);
+                        let ne = interp_nested_block(eb, &mut es, expr_arena, stmt_arena, interner);
                         (Some(ne), Some(es))
                     } else {
                         (None, None)
@@ -1412,61 +1561,35 @@ fn interp_block<'a>(
             }
 
             Stmt::While { cond, body, decreasing } => {
-                let mut loop_state = state.clone();
-
-                let loop_writes = collect_writes(body);
-                let bounded_var = extract_bounded_var(cond);
-
-                // Widen all loop-written variables (including the counter)
-                // to their full possible range before analyzing the body.
-                for w in &loop_writes {
-                    loop_state.set_var(*w, Interval::top());
-                }
+                // Nothing the loop writes is known before, during or after it.
+                state.forget_writes(std::slice::from_ref(&stmt));
 
                 // Now narrow the loop state based on the condition.
-                // For the bounded variable (counter), this gives it the range
-                // from its initial value (widened to top above) narrowed by the
-                // condition, resulting in [-inf, bound].
+                let mut loop_state = state.clone();
                 narrow_state(cond, &mut loop_state);
 
-                let new_body = interp_nested_block(body, &mut loop_state, expr_arena, stmt_arena);
+                let new_body = interp_nested_block(body, &mut loop_state, expr_arena, stmt_arena, interner);
 
                 // After loop: condition is false (loop exited)
-                narrow_state_negated(cond, state);
-                // Variables written in loop body get widened to top
-                for w in &loop_writes {
-                    if Some(*w) != bounded_var {
-                        state.set_var(*w, Interval::top());
-                    }
+                if !breaks_out(body) {
+                    narrow_state_negated(cond, state);
                 }
 
                 result.push(Stmt::While { cond, body: new_body, decreasing });
             }
 
-            Stmt::Repeat { pattern, iterable, body } => {
-                let mut loop_state = state.clone();
-
-                if let Pattern::Identifier(var) = &pattern {
-                    loop_state.set_var(*var, Interval::top());
-                }
-
-                let loop_writes = collect_writes(body);
-                for w in &loop_writes {
-                    loop_state.set_var(*w, Interval::top());
-                }
-
-                let new_body = interp_nested_block(body, &mut loop_state, expr_arena, stmt_arena);
+            Stmt::Repeat { ref pattern, iterable, body } => {
+                state.forget_writes(std::slice::from_ref(&stmt));
 
-                for w in &loop_writes {
-                    state.set_var(*w, Interval::top());
-                }
+                let mut loop_state = state.clone();
+                let new_body = interp_nested_block(body, &mut loop_state, expr_arena, stmt_arena, interner);
 
-                result.push(Stmt::Repeat { pattern, iterable, body: new_body });
+                result.push(Stmt::Repeat { pattern: pattern.clone(), iterable, body: new_body });
             }
 
             Stmt::FunctionDef { name, params, generics, body, return_type, is_native, native_path, is_exported, export_target, opt_flags } => {
-                let mut func_state = AbstractState::new();
-                let new_body = interp_nested_block(body, &mut func_state, expr_arena, stmt_arena);
+                let mut func_state = AbstractState::with_ints(int_variables(&params, body, interner));
+                let new_body = interp_nested_block(body, &mut func_state, expr_arena, stmt_arena, interner);
                 result.push(Stmt::FunctionDef {
                     name, params, generics,
                     body: new_body,
@@ -1474,39 +1597,43 @@ fn interp_block<'a>(
                 });
             }
 
-            Stmt::Inspect { target, arms, has_otherwise } => {
-                let new_arms: Vec<_> = arms.into_iter().map(|arm| {
+            Stmt::Inspect { target, ref arms, has_otherwise } => {
+                let new_arms: Vec<_> = arms.iter().map(|arm| {
                     let mut arm_state = state.clone();
-                    let new_body = interp_nested_block(arm.body, &mut arm_state, expr_arena, stmt_arena);
+                    for (_, bound) in &arm.bindings {
+                        arm_state.forget(*bound);
+                    }
+                    let new_body = interp_nested_block(arm.body, &mut arm_state, expr_arena, stmt_arena, interner);
                     crate::ast::stmt::MatchArm {
                         enum_name: arm.enum_name,
                         variant: arm.variant,
-                        bindings: arm.bindings,
+                        bindings: arm.bindings.clone(),
                         body: new_body,
                     }
                 }).collect();
+                state.forget_writes(std::slice::from_ref(&stmt));
                 result.push(Stmt::Inspect { target, arms: new_arms, has_otherwise });
             }
 
-            Stmt::Zone { .. } => {
-                // Don't analyze inside zones — zone-scoped bindings must be
-                // preserved for escape analysis (same as propagation pass).
-                result.push(stmt);
-            }
-
             Stmt::Concurrent { tasks } => {
+                // The tasks may interleave: none sees the facts of before.
+                state.forget_writes(tasks);
                 let mut sub_state = state.clone();
-                let new_tasks = interp_nested_block(tasks, &mut sub_state, expr_arena, stmt_arena);
+                let new_tasks = interp_nested_block(tasks, &mut sub_state, expr_arena, stmt_arena, interner);
                 result.push(Stmt::Concurrent { tasks: new_tasks });
             }
 
             Stmt::Parallel { tasks } => {
+                state.forget_writes(tasks);
                 let mut sub_state = state.clone();
-                let new_tasks = interp_nested_block(tasks, &mut sub_state, expr_arena, stmt_arena);
+                let new_tasks = interp_nested_block(tasks, &mut sub_state, expr_arena, stmt_arena, interner);
                 result.push(Stmt::Parallel { tasks: new_tasks });
             }
 
+            // Zones are not analyzed inside — zone-scoped bindings must be
+            // preserved for escape analysis (same as propagation pass).
             other => {
+                state.forget_writes(std::slice::from_ref(&other));
                 result.push(other);
             }
         }
@@ -1520,9 +1647,10 @@ fn interp_nested_block<'a>(
     state: &mut AbstractState,
     expr_arena: &'a Arena<Expr<'a>>,
     stmt_arena: &'a Arena<Stmt<'a>>,
+    interner: &Interner,
 ) -> &'a [Stmt<'a>] {
     let stmts: Vec<Stmt<'a>> = block.iter().cloned().collect();
-    let result = interp_block(stmts, state, expr_arena, stmt_arena);
+    let result = interp_block(stmts, state, expr_arena, stmt_arena, interner);
     stmt_arena.alloc_slice(result)
 }
 
@@ -1558,45 +1686,17 @@ fn join_states(out: &mut AbstractState, a: &AbstractState, b: &AbstractState) {
     }
 }
 
-fn collect_writes(block: &[Stmt]) -> Vec<Symbol> {
-    let mut writes = Vec::new();
-    for stmt in block {
-        collect_writes_stmt(stmt, &mut writes);
-    }
-    writes
-}
-
-fn collect_writes_stmt(stmt: &Stmt, writes: &mut Vec<Symbol>) {
-    match stmt {
-        Stmt::Set { target, .. } => {
-            if !writes.contains(target) {
-                writes.push(*target);
-            }
-        }
+/// Can `body` leave its loop by `Break`, that is with the condition still true?
+fn breaks_out(body: &[Stmt]) -> bool {
+    body.iter().any(|stmt| match stmt {
+        Stmt::Break => true,
         Stmt::If { then_block, else_block, .. } => {
-            for s in *then_block { collect_writes_stmt(s, writes); }
-            if let Some(eb) = else_block {
-                for s in *eb { collect_writes_stmt(s, writes); }
-            }
+            breaks_out(then_block) || else_block.map_or(false, breaks_out)
         }
-        Stmt::While { body, .. } | Stmt::Repeat { body, .. } => {
-            for s in *body { collect_writes_stmt(s, writes); }
-        }
-        _ => {}
-    }
-}
-
-fn extract_bounded_var(cond: &Expr) -> Option<Symbol> {
-    match cond {
-        Expr::BinaryOp { op: BinaryOpKind::Lt | BinaryOpKind::LtEq | BinaryOpKind::Gt | BinaryOpKind::GtEq, left, .. } => {
-            if let Expr::Identifier(sym) = left {
-                Some(*sym)
-            } else {
-                None
-            }
-        }
-        _ => None,
-    }
+        Stmt::Inspect { arms, .. } => arms.iter().any(|arm| breaks_out(arm.body)),
+        Stmt::Zone { body, .. } | Stmt::Splice { body } => breaks_out(body),
+        _ => false,
+    })
 }
 
 // ============================================================================
diff --git a/crates/logicaffeine_compile/src/optimize/mod.rs b/crates/logicaffeine_compile/src/optimize/mod.rs
index 6503405..7bfa2a6 100644
--- a/crates/logicaffeine_compile/src/optimize/mod.rs
+++ b/crates/logicaffeine_compile/src/optimize/mod.rs
@@ -492,7 +492,7 @@ pub fn optimize_for_run_tiered<'a>(
     }
     if admits_pinned(cfg, hs, tier, Opt::Oracle) {
         current = run_traced(Opt::Oracle, current, |c| {
-            abstract_interp::abstract_interp_stmts(c, expr_arena, stmt_arena)
+            abstract_interp::abstract_interp_stmts(c, expr_arena, stmt_arena, interner)
         });
     }
     if admits_pinned(cfg, hs, tier, Opt::DeadCode) {
@@ -664,7 +664,7 @@ pub fn optimize_program<'a>(
     }
     if cfg.is_on(Opt::Oracle) {
         current = run_traced(Opt::Oracle, current, |c| {
-            abstract_interp::abstract_interp_stmts(c, expr_arena, stmt_arena)
+            abstract_interp::abstract_interp_stmts(c, expr_arena, stmt_arena, interner)
         });
     }
     let dced = if cfg.is_on(Opt::DeadCode) {
-- 
2.43.0


From caa8b25ca92ee7daed1f91abdd5f444f2def6c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:24:27 +0000
Subject: [PATCH 14/43] fix: removing a decided branch keeps its names local

Splicing the branch into the surrounding block let its bindings replace
those of the enclosing scope for the statements that follow.
---
 .../logicaffeine_compile/src/optimize/dce.rs  | 27 +++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/dce.rs b/crates/logicaffeine_compile/src/optimize/dce.rs
index 13ca808..abb69af 100644
--- a/crates/logicaffeine_compile/src/optimize/dce.rs
+++ b/crates/logicaffeine_compile/src/optimize/dce.rs
@@ -267,14 +267,24 @@ pub fn eliminate_dead_code<'a>(
     // Then: dead branch elimination
     let mut result = Vec::with_capacity(stmts.len());
 
-    for stmt in stmts {
+    let mut rest = stmts.into_iter().peekable();
+    while let Some(stmt) = rest.next() {
         match stmt {
             Stmt::If { cond, then_block, else_block } => {
                 if let Expr::Literal(Literal::Boolean(val)) = cond {
-                    if *val {
-                        result.extend(then_block.iter().cloned());
-                    } else if let Some(else_stmts) = else_block {
-                        result.extend(else_stmts.iter().cloned());
+                    let taken = if *val { Some(then_block) } else { else_block };
+                    match taken {
+                        // A name the branch binds must not outlive it, so with
+                        // statements to follow the branch keeps its own scope.
+                        Some(block) if rest.peek().is_some() && binds_name(block) => {
+                            result.push(Stmt::If {
+                                cond: expr_arena.alloc(Expr::Literal(Literal::Boolean(true))),
+                                then_block: dce_block(block, stmt_arena, expr_arena),
+                                else_block: None,
+                            });
+                        }
+                        Some(block) => result.extend(block.iter().cloned()),
+                        None => {}
                     }
                 } else {
                     let then_dce = dce_block(then_block, stmt_arena, expr_arena);
@@ -354,6 +364,13 @@ pub fn eliminate_dead_code<'a>(
     dead_variable_elimination(result)
 }
 
+/// Whether the block itself (not a block inside it) binds a name.
+fn binds_name(block: &[Stmt]) -> bool {
+    block.iter().any(|s| {
+        matches!(s, Stmt::Let { .. } | Stmt::ReadFrom { .. } | Stmt::Pop { into: Some(_), .. })
+    })
+}
+
 fn dce_block<'a>(block: &'a [Stmt<'a>], stmt_arena: &'a Arena<Stmt<'a>>, expr_arena: &'a Arena<Expr<'a>>) -> &'a [Stmt<'a>] {
     let stmts: Vec<Stmt<'a>> = block.iter().cloned().collect();
     let dce_result = eliminate_dead_code(stmts, stmt_arena, expr_arena);
-- 
2.43.0


From 62aeaf5d56288e28c384a835e94b5da2cf05ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:24:27 +0000
Subject: [PATCH 15/43] fix: programs that rebind a name are not rewritten by
 name

The optimizer keys its facts by name and moves statements between blocks.
A program that shadows or rebinds a name is now left as written.
---
 .../logicaffeine_compile/src/optimize/mod.rs  |  6 +-
 .../src/optimize/rebinding.rs                 | 60 +++++++++++++++++++
 2 files changed, 65 insertions(+), 1 deletion(-)
 create mode 100644 crates/logicaffeine_compile/src/optimize/rebinding.rs

diff --git a/crates/logicaffeine_compile/src/optimize/mod.rs b/crates/logicaffeine_compile/src/optimize/mod.rs
index 7bfa2a6..b22dff9 100644
--- a/crates/logicaffeine_compile/src/optimize/mod.rs
+++ b/crates/logicaffeine_compile/src/optimize/mod.rs
@@ -39,6 +39,7 @@ mod affine_scalarize;
 mod loop_split;
 mod affine;
 mod abstract_interp;
+mod rebinding;
 pub use abstract_interp::{
     lin_to_rust, oracle_analyze, oracle_analyze_with, oracle_analyze_with_entry_guards, OracleFacts,
     ScalarKind, VarProvenFacts,
@@ -318,7 +319,7 @@ pub fn optimize_for_run_tiered<'a>(
         return stmts;
     }
     const MAX_RUN_OPT_STMTS: usize = 5_000;
-    if stmts.len() > MAX_RUN_OPT_STMTS {
+    if stmts.len() > MAX_RUN_OPT_STMTS || rebinding::rebinds_a_name(&stmts) {
         return stmts;
     }
     let bta_cache = bta::analyze_with_sccs(&stmts, interner);
@@ -548,6 +549,9 @@ pub fn optimize_program<'a>(
     // Splices fuse back to the direct nested writes every downstream pass
     // (BTA, borrow-hoist, bounds elision) pattern-matches.
     let stmts = splice_fuse::fuse_place_splices(stmts, expr_arena, stmt_arena, interner);
+    if rebinding::rebinds_a_name(&stmts) {
+        return stmts;
+    }
     // NOTE: no early tiny-fn inliner here — that is a RUN-PATH device
     // (optimize_for_run skips supercompile for budget). This AOT pipeline
     // inlines through supercompile at the end exactly like v1, so the PE
diff --git a/crates/logicaffeine_compile/src/optimize/rebinding.rs b/crates/logicaffeine_compile/src/optimize/rebinding.rs
new file mode 100644
index 0000000..caba112
--- /dev/null
+++ b/crates/logicaffeine_compile/src/optimize/rebinding.rs
@@ -0,0 +1,60 @@
+//! Detecting programs that bind a name which is already bound.
+//!
+//! The passes key their facts by name and move statements between blocks, which
+//! is only meaning-preserving while a name stands for one variable. A program
+//! that shadows or rebinds a name is left as written.
+
+use std::collections::HashSet;
+
+use crate::ast::stmt::{Pattern, SelectBranch, Stmt};
+use crate::intern::Symbol;
+
+/// Does a function of the program (or Main) bind a name inside the scope of an
+/// earlier binding of the same name?
+pub(crate) fn rebinds_a_name(stmts: &[Stmt]) -> bool {
+    let mut bound = HashSet::new();
+    block_rebinds(stmts, &mut bound)
+}
+
+/// `bound` holds the names in scope at the end of the block.
+fn block_rebinds(stmts: &[Stmt], bound: &mut HashSet<Symbol>) -> bool {
+    stmts.iter().any(|stmt| stmt_rebinds(stmt, bound))
+}
+
+/// A nested block with names of its own: they go out of scope behind it.
+fn scope_rebinds(names: &[Symbol], block: &[Stmt], bound: &HashSet<Symbol>) -> bool {
+    let mut inner = bound.clone();
+    names.iter().any(|name| !inner.insert(*name)) || block_rebinds(block, &mut inner)
+}
+
+fn stmt_rebinds(stmt: &Stmt, bound: &mut HashSet<Symbol>) -> bool {
+    match stmt {
+        Stmt::Let { var, .. } => !bound.insert(*var),
+        Stmt::FunctionDef { params, body, .. } => {
+            let params: Vec<Symbol> = params.iter().map(|(name, _)| *name).collect();
+            scope_rebinds(&params, body, &HashSet::new())
+        }
+        Stmt::If { then_block, else_block, .. } => {
+            scope_rebinds(&[], then_block, bound)
+                || else_block.map_or(false, |b| scope_rebinds(&[], b, bound))
+        }
+        Stmt::Repeat { pattern, body, .. } => match pattern {
+            Pattern::Identifier(name) => scope_rebinds(&[*name], body, bound),
+            Pattern::Tuple(names) => scope_rebinds(names, body, bound),
+        },
+        Stmt::While { body, .. }
+        | Stmt::Zone { body, .. }
+        | Stmt::Concurrent { tasks: body }
+        | Stmt::Parallel { tasks: body } => scope_rebinds(&[], body, bound),
+        Stmt::Splice { body } => block_rebinds(body, bound),
+        Stmt::Inspect { arms, .. } => arms.iter().any(|arm| {
+            let names: Vec<Symbol> = arm.bindings.iter().map(|(_, name)| *name).collect();
+            scope_rebinds(&names, arm.body, bound)
+        }),
+        Stmt::Select { branches } => branches.iter().any(|branch| match branch {
+            SelectBranch::Receive { var, body, .. } => scope_rebinds(&[*var], body, bound),
+            SelectBranch::Timeout { body, .. } => scope_rebinds(&[], body, bound),
+        }),
+        _ => false,
+    }
+}
-- 
2.43.0


From 10201ae74bb1486fffef5360109e2fcd2f165166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:46:23 +0000
Subject: [PATCH 16/43] fix: native code does not reuse n + 1 after n = n + 1

The block-local value table remembered an instruction's result under a key that
mentions the register it just overwrote, so the next `n + 1` read the old one.
---
 crates/logicaffeine_jit/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_jit/src/lib.rs b/crates/logicaffeine_jit/src/lib.rs
index 4a2a7da..8437c26 100644
--- a/crates/logicaffeine_jit/src/lib.rs
+++ b/crates/logicaffeine_jit/src/lib.rs
@@ -4601,9 +4601,12 @@ fn copy_propagate(
                 Some(h) if h != dst => {
                     root.insert(dst, h);
                 }
-                _ => {
+                // `n = n + 1` consumes its own operand: afterwards `dst` is not
+                // the value of `dst + 1`, so there is nothing to remember.
+                _ if k.1 != dst && k.2 != dst => {
                     value_holder.insert(k, dst);
                 }
+                _ => {}
             }
         }
         // NB: copies/CSE are NOT cleared after a branch. A branch defines no
-- 
2.43.0


From 3c695cfafa9e428f7219ee65720fe4106ae83112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:46:23 +0000
Subject: [PATCH 17/43] fix: native loops decline lists rebound before an
 in-place call

`Set xs to ys` followed by a call that writes its list in place wrote through to
`ys`. Only `xs = f(xs, ...)` keeps the list and its register in step.
---
 crates/logicaffeine_jit/src/lib.rs | 39 ++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/crates/logicaffeine_jit/src/lib.rs b/crates/logicaffeine_jit/src/lib.rs
index 8437c26..93b4d09 100644
--- a/crates/logicaffeine_jit/src/lib.rs
+++ b/crates/logicaffeine_jit/src/lib.rs
@@ -3217,6 +3217,45 @@ fn adapt_region(
             }
         }
     }
+    // A pinned list REBOUND here (`Set xs to ys`, `Set xs to pick(xs, ys)`) may
+    // share a buffer the callee then writes in place, and its VM register no
+    // longer names the list the region works on. The one sound rebinding is
+    // `arr = f(arr, …)`: the callee hands its only list argument straight back.
+    if has_list_param_call {
+        let hands_back = |call: usize, list: u16| {
+            let Op::Call { func, args_start, .. } = ops[call] else { return false };
+            let Some(sig) = callees.get(func as usize) else { return false };
+            let mut lists = (0u16..)
+                .zip(&sig.param_kinds)
+                .filter(|(_, p)| matches!(p, Some(ParamKind::List(_))));
+            let (Some((at, _)), None) = (lists.next(), lists.next()) else { return false };
+            ops[..call]
+                .iter()
+                .rev()
+                .find_map(|op| match *op {
+                    Op::Move { dst, src } if dst == args_start + at => Some(src == list),
+                    _ => None,
+                })
+                .unwrap_or(false)
+        };
+        let rebinds = |at: usize| match ops[at] {
+            Op::Move { dst, src } if named.get(dst as usize) == Some(&true) && pin_regs.iter().any(|&(p, _)| p == dst) => {
+                let from_call =
+                    at > 0 && matches!(ops[at - 1], Op::Call { dst: d, .. } if d == src);
+                !(from_call && hands_back(at - 1, dst))
+            }
+            Op::Call { dst, .. } if named.get(dst as usize) == Some(&true) && pin_regs.iter().any(|&(p, _)| p == dst) => {
+                !hands_back(at, dst)
+            }
+            _ => false,
+        };
+        if (0..ops.len()).any(rebinds) {
+            if std::env::var_os("LOGOS_RDIAG").is_some() {
+                eprintln!("RDIAG-BAIL head_pc={head_pc} pinned-list-rebound");
+            }
+            return None;
+        }
+    }
     // In-region Returns: the value's kind must agree across every return
     // site (re-boxed by SlotKind at the boundary).
     let has_return = ops.iter().any(|op| matches!(op, Op::Return { .. }));
-- 
2.43.0


From bd9c93e99a12a1716fe63f5af90fadb4de0221ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:46:23 +0000
Subject: [PATCH 18/43] fix: a native loop that overflows restores the lists
 and maps it wrote

Overflow hands the loop back to bytecode, which repeats it from the entry state.
Lists were restored only when some other exit was possible, and maps never.
---
 crates/logicaffeine_compile/src/vm/machine.rs | 15 +++++++++
 crates/logicaffeine_jit/src/lib.rs            | 31 +++++++++++++++++--
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_compile/src/vm/machine.rs b/crates/logicaffeine_compile/src/vm/machine.rs
index d828820..7d3d621 100644
--- a/crates/logicaffeine_compile/src/vm/machine.rs
+++ b/crates/logicaffeine_compile/src/vm/machine.rs
@@ -1090,6 +1090,7 @@ impl<'p> Vm<'p> {
                 usize,
                 std::cell::RefMut<'_, crate::interpreter::MapStorage>,
             )> = Vec::new();
+            let mut map_mutated: Vec<bool> = Vec::new();
             // A pinned MUTABLE Text accumulator grows THROUGH the VM register
             // cell (the planted `*mut Value`). A classic replay-from-head Deopt
             // would re-run the appends the native prefix already landed in the
@@ -1106,8 +1107,10 @@ impl<'p> Vm<'p> {
                     if !map_handles.iter().any(|(k, _)| *k == key) {
                         let Ok(b) = rc.try_borrow_mut() else { return None };
                         map_handles.push((key, b));
+                        map_mutated.push(false);
                     }
                     let idx = map_handles.iter().position(|(k, _)| *k == key).unwrap();
+                    map_mutated[idx] |= pin.mutated;
                     let storage = &mut *map_handles[idx].1;
                     frame[pin.vec_slot as usize] =
                         storage as *mut crate::interpreter::MapStorage as i64;
@@ -1246,8 +1249,20 @@ impl<'p> Vm<'p> {
                 .zip(handle_mutated.iter())
                 .map(|((_, h), &mt)| if mt { Some((**h).clone()) } else { None })
                 .collect();
+            // Likewise a map the region inserts into: the replay must find the
+            // entries it had on entry.
+            let map_snapshots: Vec<Option<crate::interpreter::MapStorage>> = map_handles
+                .iter()
+                .zip(map_mutated.iter())
+                .map(|((_, h), &mt)| if mt { Some((**h).clone()) } else { None })
+                .collect();
             let out = rf.run(&mut frame[..need], depth_now);
             if matches!(out, super::native_tier::RegionOutcome::Deopt) {
+                for ((_, h), snap) in map_handles.iter_mut().zip(map_snapshots) {
+                    if let Some(s) = snap {
+                        **h = s;
+                    }
+                }
                 for (((_, h), &n), snap) in handles
                     .iter_mut()
                     .zip(entry_lens.iter())
diff --git a/crates/logicaffeine_jit/src/lib.rs b/crates/logicaffeine_jit/src/lib.rs
index 93b4d09..ad6ed9a 100644
--- a/crates/logicaffeine_jit/src/lib.rs
+++ b/crates/logicaffeine_jit/src/lib.rs
@@ -3270,12 +3270,39 @@ fn adapt_region(
     // region entry and restored on a classic replay-from-head `Deopt`. That cost
     // is only owed when the region can ACTUALLY take a recoverable side exit:
     // a checked list `Index` (bounds), ANY map `Index`/`Contains` (int-lane
-    // miss), `Div`/`Mod` (div-by-zero), or a `Call` (callee deopt). Unchecked
-    // list reads, pure arithmetic, and control flow never side-exit — so a
+    // miss), `Div`/`Mod` (div-by-zero), a `Call` (callee deopt), or arithmetic
+    // that can overflow the native integer. Unchecked list reads, offsets of a
+    // bounds-guarded induction variable, and control flow never side-exit — so a
     // deopt-free swap loop (bubble/quick sort) pays nothing. A PRECISE region
     // resumes AT the faulting op (no replay), so it never needs the snapshot.
     let is_map = |c: u16| matches!(observed.get(c as usize), Some(ObservedKind::Map));
+    // A register that only ever holds small integer constants here.
+    let small_const = |r: u16| {
+        let mut loads = ops
+            .iter()
+            .filter(|op| region_use_def(op).is_some_and(|(_, defs)| defs.contains(&r)))
+            .peekable();
+        loads.peek().is_some()
+            && loads.all(|op| match *op {
+                Op::LoadConst { idx, .. } => matches!(
+                    constants.get(idx as usize),
+                    Some(Constant::Int(v)) if v.unsigned_abs() <= u32::MAX as u64
+                ),
+                _ => false,
+            })
+    };
+    // The induction variable of a hoisted bounds guard stays below the array
+    // length, so stepping or offsetting it by a small constant cannot overflow.
+    let bounded_iv = |r: u16| {
+        ops.iter().any(|op| matches!(*op, Op::RegionBoundsGuard { iv, .. } if iv == r))
+    };
+    let bounded_step = |a: u16, b: u16| {
+        (bounded_iv(a) && small_const(b)) || (small_const(a) && bounded_iv(b))
+    };
     let region_has_deopt_source = ops.iter().any(|op| match *op {
+        Op::Add { lhs, rhs, .. } | Op::Sub { lhs, rhs, .. } => !bounded_step(lhs, rhs),
+        Op::AddAssign { dst, src } => !bounded_step(dst, src),
+        Op::Mul { .. } => true,
         Op::Div { .. } | Op::Mod { .. } | Op::Call { .. } | Op::Index { .. } => true,
         Op::IndexUnchecked { collection, .. } | Op::Contains { collection, .. } => is_map(collection),
         _ => false,
-- 
2.43.0


From 9f49296aaada60cffc1b19450480640ce166364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:46:23 +0000
Subject: [PATCH 19/43] fix: appending to a text next to list work no longer
 aborts compilation

The register-pinned backend has no text append; it now declines instead of
reaching an unreachable arm.
---
 crates/logicaffeine_forge/src/jit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/logicaffeine_forge/src/jit.rs b/crates/logicaffeine_forge/src/jit.rs
index ea6e5e6..0064a86 100644
--- a/crates/logicaffeine_forge/src/jit.rs
+++ b/crates/logicaffeine_forge/src/jit.rs
@@ -1897,6 +1897,11 @@ pub fn compile_straightline_pinned_float(
     if !matches!(ops.last(), Some(MicroOp::Return { .. }) | Some(MicroOp::Jump { .. })) {
         return Err(JitCompileError::FallsOffTheEnd);
     }
+    // Only the contiguous regalloc backend appends to a mutable Text (see
+    // `compile_straightline_coded`): the caller falls back to bytecode.
+    if ops.iter().any(|op| matches!(op, MicroOp::StrAppend { .. })) {
+        return Err(JitCompileError::Unsupported("StrAppend"));
+    }
     let loc = |slot: u16| -> usize {
         pins.iter().position(|&p| p == slot).map(|i| i + 1).unwrap_or(0)
     };
-- 
2.43.0


From 44835f1325c8c31811900497850955b86aa9d73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:26:51 +0000
Subject: [PATCH 20/43] fix: loops are not replaced by a closed form with a
 stale start value

The search for the loop variables' start values skipped statements such as
Inspect and Pop that can assign them, so the folded result started from an
older value.
---
 crates/logicaffeine_compile/src/optimize/closed_form.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/logicaffeine_compile/src/optimize/closed_form.rs b/crates/logicaffeine_compile/src/optimize/closed_form.rs
index 142290a..31646d9 100644
--- a/crates/logicaffeine_compile/src/optimize/closed_form.rs
+++ b/crates/logicaffeine_compile/src/optimize/closed_form.rs
@@ -153,6 +153,9 @@ fn find_init_value(stmts: &[Stmt], sym: Symbol) -> Option<i64> {
             | Stmt::Call { .. } | Stmt::Escape { .. } | Stmt::Zone { .. } => {
                 return None;
             }
+            _ if super::licm::collect_loop_writes(std::slice::from_ref(s)).contains(&sym) => {
+                return None;
+            }
             _ => {}
         }
     }
-- 
2.43.0


From c8c00c4d365e8603c8540abe86a239c80fd529ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:26:51 +0000
Subject: [PATCH 21/43] fix: affine tables respect where the index is stepped
 and set

A list filled behind the index step, or with an index last assigned by
Inspect, If or Pop, was replaced by the formula for an index starting at 0
and stepped behind the push.
---
 .../src/optimize/affine_scalarize.rs                   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/affine_scalarize.rs b/crates/logicaffeine_compile/src/optimize/affine_scalarize.rs
index c9f5b39..00acc4a 100644
--- a/crates/logicaffeine_compile/src/optimize/affine_scalarize.rs
+++ b/crates/logicaffeine_compile/src/optimize/affine_scalarize.rs
@@ -166,8 +166,8 @@ fn match_build_loop(
         match s {
             // The build push of `a`.
             Stmt::Push { collection, value } if names_collection(collection, a) => {
-                if push_fit.is_some() {
-                    return None; // more than one push to a
+                if push_fit.is_some() || iv_increments != 0 {
+                    return None; // more than one push to a, or position != iteration
                 }
                 let (coeff, offset) = extract_affine(value, iv)?;
                 push_fit = Some(AffineInfo { coeff, offset });
@@ -211,6 +211,7 @@ fn iv_starts_at_zero(body: &[Stmt], bi: usize, iv: Symbol) -> bool {
         match &body[idx] {
             Stmt::Let { var, value, .. } if *var == iv => return const_eval(value) == Some(0),
             Stmt::Set { target, value } if *target == iv => return const_eval(value) == Some(0),
+            other if assigns_var(other, iv) => return false,
             _ => {}
         }
     }
@@ -264,10 +265,9 @@ fn names_collection(e: &Expr, a: Symbol) -> bool {
     matches!(e, Expr::Identifier(s) if *s == a)
 }
 
-/// `s` is a `Let`/`Set` that assigns `v`.
+/// `s` (or a statement nested in it) assigns `v`.
 fn assigns_var(s: &Stmt, v: Symbol) -> bool {
-    matches!(s, Stmt::Let { var, .. } if *var == v)
-        || matches!(s, Stmt::Set { target, .. } if *target == v)
+    super::licm::collect_loop_writes(std::slice::from_ref(s)).contains(&v)
 }
 
 /// `s` opens a nested control-flow scope (so a push inside the build loop could
-- 
2.43.0


From 34554136f29abc0749e82fd3042a3cb105411a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:26:51 +0000
Subject: [PATCH 22/43] fix: loops are fused only when their bodies do not
 interfere

Fusing a producer loop with its consumer interleaves the two bodies. It was
done even when one body read what the other writes, when both print or can
fail, when the consumer still names the list, and across statements that
depend on the producer.
---
 .../src/optimize/deforest.rs                  | 83 +++++++++++++++++--
 .../logicaffeine_compile/src/optimize/fold.rs |  2 +-
 2 files changed, 78 insertions(+), 7 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/deforest.rs b/crates/logicaffeine_compile/src/optimize/deforest.rs
index 75eec8d..46e7017 100644
--- a/crates/logicaffeine_compile/src/optimize/deforest.rs
+++ b/crates/logicaffeine_compile/src/optimize/deforest.rs
@@ -17,6 +17,9 @@ use crate::arena::Arena;
 use crate::ast::stmt::{Block, Expr, Pattern, StringPart, Stmt};
 use crate::intern::{Interner, Symbol};
 
+use super::fold::expr_is_total;
+use super::licm::collect_loop_writes;
+
 pub fn deforest_stmts<'a>(
     stmts: Vec<Stmt<'a>>,
     expr_arena: &'a Arena<Expr<'a>>,
@@ -133,7 +136,7 @@ fn try_deforest<'a>(
         if stmt_references_symbol(&stmts[j], temp_sym) {
             return None;
         }
-        if !is_safe_intermediate(&stmts[j]) {
+        if !is_safe_intermediate(&stmts[j], &stmts[producer_idx]) {
             return None;
         }
         intermediates.push(stmts[j].clone());
@@ -160,14 +163,19 @@ fn try_deforest<'a>(
         return None;
     }
 
+    // Fusing interleaves the two bodies: neither may see what the other writes
+    if !bodies_commute(&stmts[producer_idx], temp_sym, pattern_var, consumer_body) {
+        return None;
+    }
+
     // Step 7: Build the fused loop
     let fused = build_fused_repeat(
         &stmts[producer_idx], temp_sym, pattern_var, consumer_body,
         expr_arena, stmt_arena,
     )?;
 
-    // Verify no residual pushes to temp remain
-    if fused_still_pushes_to(&fused, temp_sym) {
+    // Verify no residual pushes to temp (or other uses of it) remain
+    if fused_still_pushes_to(&fused, temp_sym) || stmt_references_symbol(&fused, temp_sym) {
         return None;
     }
 
@@ -234,9 +242,72 @@ fn is_repeat_over_sym(stmt: &Stmt, sym: Symbol) -> bool {
 }
 
 /// Check if an intermediate statement is safe to move before the fused loop.
-/// Only allow Let bindings (new variables, no mutation of existing ones).
-fn is_safe_intermediate(stmt: &Stmt) -> bool {
-    matches!(stmt, Stmt::Let { .. })
+/// Only allow Let bindings (new variables, no mutation of existing ones) whose value
+/// cannot fail and does not depend on what the producer writes.
+fn is_safe_intermediate(stmt: &Stmt, producer: &Stmt) -> bool {
+    let Stmt::Let { value, .. } = stmt else { return false };
+    let total = match value {
+        Expr::New { init_fields, .. } => init_fields.is_empty(),
+        _ => expr_is_total(value),
+    };
+    total
+        && collect_loop_writes(std::slice::from_ref(producer))
+            .iter()
+            .all(|written| !expr_references_symbol(value, *written))
+}
+
+/// May each round of the consumer run right behind the push it consumes, instead of
+/// behind the whole producer?
+fn bodies_commute(producer: &Stmt, temp_sym: Symbol, pattern_var: Symbol, consumer_body: &[Stmt]) -> bool {
+    let Stmt::Repeat { body: producer_body, .. } = producer else { return false };
+    let mut consumer_writes = collect_loop_writes(consumer_body);
+    consumer_writes.insert(pattern_var);
+    let producer_writes = collect_loop_writes(std::slice::from_ref(producer));
+    is_straight_line(producer_body)
+        && is_straight_line(consumer_body)
+        && consumer_writes.iter().all(|written| !stmt_references_symbol(producer, *written))
+        && producer_writes
+            .iter()
+            .filter(|written| **written != temp_sym)
+            .all(|written| !consumer_body.iter().any(|s| stmt_references_symbol(s, *written)))
+        && !(is_observable(producer_body) && is_observable(consumer_body))
+}
+
+/// Only statements that always continue with the next one.
+fn is_straight_line(block: &[Stmt]) -> bool {
+    block.iter().all(|stmt| match stmt {
+        Stmt::Let { .. }
+        | Stmt::Set { .. }
+        | Stmt::Push { .. }
+        | Stmt::Pop { .. }
+        | Stmt::Add { .. }
+        | Stmt::Remove { .. }
+        | Stmt::SetIndex { .. }
+        | Stmt::SetField { .. }
+        | Stmt::Show { .. }
+        | Stmt::Call { .. } => true,
+        Stmt::If { then_block, else_block, .. } => {
+            is_straight_line(then_block) && else_block.map_or(true, is_straight_line)
+        }
+        Stmt::While { body, .. } | Stmt::Repeat { body, .. } => is_straight_line(body),
+        _ => false,
+    })
+}
+
+/// Can running the block be noticed other than through the variables it writes: by
+/// output, by an error, or by not ending?
+fn is_observable(block: &[Stmt]) -> bool {
+    block.iter().any(|stmt| match stmt {
+        Stmt::Let { value, .. }
+        | Stmt::Set { value, .. }
+        | Stmt::Push { value, .. }
+        | Stmt::Add { value, .. } => !expr_is_total(value),
+        Stmt::If { cond, then_block, else_block } => {
+            !expr_is_total(cond) || is_observable(then_block) || else_block.map_or(false, is_observable)
+        }
+        Stmt::Repeat { iterable, body, .. } => !expr_is_total(iterable) || is_observable(body),
+        _ => true,
+    })
 }
 
 /// Collect symbols from the producer's iterable expression.
diff --git a/crates/logicaffeine_compile/src/optimize/fold.rs b/crates/logicaffeine_compile/src/optimize/fold.rs
index 2bafce5..7496673 100644
--- a/crates/logicaffeine_compile/src/optimize/fold.rs
+++ b/crates/logicaffeine_compile/src/optimize/fold.rs
@@ -275,7 +275,7 @@ fn fold_stmt<'a>(
 /// runtime error? Fail-closed: only literals, identifiers and total
 /// operators over them qualify (division, modulo, indexing, calls and
 /// anything unrecognized can error or have effects).
-fn expr_is_total(expr: &Expr) -> bool {
+pub(crate) fn expr_is_total(expr: &Expr) -> bool {
     match expr {
         Expr::Literal(_) | Expr::Identifier(_) => true,
         Expr::BinaryOp { op, left, right } => {
-- 
2.43.0


From 6a53ad48b6fc5ca6cb7037bd226df925286b0f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:26:51 +0000
Subject: [PATCH 23/43] fix: float progressions are kept incrementally only for
 plain counters

The accumulator replacing c1*k + c2 went out of step with k when k was also
assigned in a nested statement, when the term was used behind the step, or
when k starts at a fraction or beyond the exactly represented range.
---
 .../src/optimize/float_induction_sr.rs        | 45 +++++++++++++++----
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/float_induction_sr.rs b/crates/logicaffeine_compile/src/optimize/float_induction_sr.rs
index 9a5848b..2049d97 100644
--- a/crates/logicaffeine_compile/src/optimize/float_induction_sr.rs
+++ b/crates/logicaffeine_compile/src/optimize/float_induction_sr.rs
@@ -28,6 +28,9 @@
 use crate::arena::Arena;
 use crate::ast::stmt::{BinaryOpKind, Block, Expr, Literal, Stmt};
 use crate::intern::{Interner, Symbol};
+use crate::loop_shape::const_eval_i64;
+
+use super::licm::collect_loop_writes;
 
 /// `2^52` — the fast-path bound divisor base. For coefficient `c1`, the loop
 /// bound must be `< 2^52 / |c1|` so `|c1*k|` and `k` both stay `< 2^53`.
@@ -41,7 +44,7 @@ pub fn float_induction_sr_stmts<'a>(
     interner: &mut Interner,
 ) -> (Vec<Stmt<'a>>, bool) {
     let mut changed = false;
-    let out = rewrite_block(stmts, expr_arena, stmt_arena, interner, &mut changed);
+    let out = rewrite_block(stmts, true, expr_arena, stmt_arena, interner, &mut changed);
     (out, changed)
 }
 
@@ -61,6 +64,7 @@ struct AffineInduction {
 
 fn rewrite_block<'a>(
     stmts: Vec<Stmt<'a>>,
+    outermost: bool,
     ea: &'a Arena<Expr<'a>>,
     sa: &'a Arena<Stmt<'a>>,
     it: &mut Interner,
@@ -69,7 +73,7 @@ fn rewrite_block<'a>(
     let mut out: Vec<Stmt<'a>> = Vec::with_capacity(stmts.len());
     for stmt in stmts {
         if let Stmt::While { cond, body, decreasing } = &stmt {
-            if let Some(ind) = detect(cond, body) {
+            if let Some(ind) = detect(cond, body).filter(|ind| starts_exact(&out, outermost, ind)) {
                 out.push(build_guarded(cond, body, *decreasing, &ind, ea, sa, it));
                 *changed = true;
                 continue;
@@ -88,7 +92,7 @@ fn recurse_stmt<'a>(
     changed: &mut bool,
 ) -> Stmt<'a> {
     let recur = |block: Block<'a>, it: &mut Interner, changed: &mut bool| -> Block<'a> {
-        let v = rewrite_block(block.to_vec(), ea, sa, it, changed);
+        let v = rewrite_block(block.to_vec(), false, ea, sa, it, changed);
         sa.alloc_slice(v)
     };
     match stmt {
@@ -127,10 +131,14 @@ fn detect(cond: &Expr, body: &[Stmt]) -> Option<AffineInduction> {
         _ => return None,
     };
     // The body must increment `k` by an integer literal exactly once: `k = k + s`.
-    let step = find_int_step(body, k)?;
+    let (step, step_at) = find_int_step(body, k)?;
     if step <= 0 {
         return None;
     }
+    // Behind the step `k` is already the next round's, the accumulator is not.
+    if body[step_at + 1..].iter().any(|s| stmt_find_affine(s, k).is_some()) {
+        return None;
+    }
     // Find an affine `c1*k + c2` recomputed in the body (not in the loop test,
     // which we already matched as a pure `k < n`).
     let (c1, c2) = body.iter().find_map(|s| stmt_find_affine(s, k))?;
@@ -154,11 +162,26 @@ fn is_int_float(f: f64) -> bool {
     f.is_finite() && f.fract() == 0.0
 }
 
-/// The single integer step of `k = k + s` in `body`, or `None` if `k` is not
-/// incremented by exactly one integer-literal `Set`.
-fn find_int_step(body: &[Stmt], k: Symbol) -> Option<i64> {
+/// Is the counter known to start on an integer the accumulator represents exactly?
+fn starts_exact(before: &[Stmt], outermost: bool, ind: &AffineInduction) -> bool {
+    for s in before.iter().rev() {
+        match s {
+            Stmt::Let { var, value, .. } | Stmt::Set { target: var, value } if *var == ind.k => {
+                return const_eval_i64(value)
+                    .is_some_and(|start| (start as f64).abs() < POW2_52 / ind.c1.abs());
+            }
+            other if collect_loop_writes(std::slice::from_ref(other)).contains(&ind.k) => return false,
+            _ => {}
+        }
+    }
+    outermost
+}
+
+/// The single integer step of `k = k + s` in `body` with its position, or `None` if
+/// `k` is not incremented by exactly one integer-literal `Set`.
+fn find_int_step(body: &[Stmt], k: Symbol) -> Option<(i64, usize)> {
     let mut step = None;
-    for s in body {
+    for (at, s) in body.iter().enumerate() {
         if let Stmt::Set { target, value } = s {
             if *target == k {
                 let add = match value {
@@ -172,9 +195,13 @@ fn find_int_step(body: &[Stmt], k: Symbol) -> Option<i64> {
                 if step.is_some() {
                     return None; // mutated twice
                 }
-                step = Some(add);
+                step = Some((add, at));
+                continue;
             }
         }
+        if collect_loop_writes(std::slice::from_ref(s)).contains(&k) {
+            return None;
+        }
     }
     step
 }
-- 
2.43.0


From ef8a853aba534db2931726da71c441de2309e0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:47:26 +0000
Subject: [PATCH 24/43] fix: closed forms only for loops that sum before
 stepping and whose limit is fixed

A loop that added its counter after stepping it, or whose limit changed in the
body, was replaced by a formula for a different number of terms.
---
 .../src/optimize/closed_form.rs                   | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/closed_form.rs b/crates/logicaffeine_compile/src/optimize/closed_form.rs
index 31646d9..4622e31 100644
--- a/crates/logicaffeine_compile/src/optimize/closed_form.rs
+++ b/crates/logicaffeine_compile/src/optimize/closed_form.rs
@@ -9,6 +9,8 @@ use crate::ast::stmt::{BinaryOpKind, Block, Expr, Literal, Stmt, TypeExpr};
 use crate::optimization::Opt;
 use crate::intern::{Interner, Symbol};
 
+use super::licm::{collect_loop_writes, is_loop_invariant};
+
 #[derive(Debug)]
 enum AccumPattern {
     SumOfCounter,
@@ -76,7 +78,8 @@ fn try_extract_candidate(body: &[Stmt], while_cond: &Expr) -> Option<Candidate>
             if let Expr::Identifier(lhs) = &**left {
                 if *lhs == *accum {
                     if let Expr::Identifier(rhs) = &**right {
-                        if *rhs == counter {
+                        // Behind the increment the sum is of the stepped counter.
+                        if *rhs == counter && accum_idx == 0 {
                             return Some(Candidate { accum: *accum, counter, pattern: AccumPattern::SumOfCounter });
                         }
                     }
@@ -153,7 +156,7 @@ fn find_init_value(stmts: &[Stmt], sym: Symbol) -> Option<i64> {
             | Stmt::Call { .. } | Stmt::Escape { .. } | Stmt::Zone { .. } => {
                 return None;
             }
-            _ if super::licm::collect_loop_writes(std::slice::from_ref(s)).contains(&sym) => {
+            _ if collect_loop_writes(std::slice::from_ref(s)).contains(&sym) => {
                 return None;
             }
             _ => {}
@@ -266,6 +269,9 @@ fn try_defer_modulus<'a>(
         _ => return None,
     };
     let (limit_expr, inclusive) = extract_while_limit(cond, counter)?;
+    if !is_loop_invariant(limit_expr, &collect_loop_writes(body)) {
+        return None;
+    }
 
     // Body must be exactly the accumulate + the unit counter increment.
     if body.len() != 2 {
@@ -276,7 +282,7 @@ fn try_defer_modulus<'a>(
     for s in body {
         match s {
             Stmt::Set { target, value } if *target == counter => {
-                if is_counter_plus_one(value, counter) {
+                if accum.is_some() && is_counter_plus_one(value, counter) {
                     counter_inc = true;
                 } else {
                     return None;
@@ -484,6 +490,9 @@ fn try_replace_with_closed_form<'a>(
 ) -> Option<Vec<Stmt<'a>>> {
     let candidate = try_extract_candidate(body, cond)?;
     let (limit_expr, inclusive) = extract_while_limit(cond, candidate.counter)?;
+    if !is_loop_invariant(limit_expr, &collect_loop_writes(body)) {
+        return None;
+    }
     let init = find_init_value(preceding, candidate.accum)?;
     let start = find_init_value(preceding, candidate.counter)?;
 
-- 
2.43.0


From 2afbe9a00014204fc73cbb3e782a557a61830336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:47:26 +0000
Subject: [PATCH 25/43] fix: range facts of a loop condition cover every
 evaluation of it

Facts about the condition were recorded for the loop entry only, so the
bytecode compiler could pick unsigned division for a value that turns negative
in the body.
---
 .../src/optimize/abstract_interp.rs                    | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
index 366f5c2..ea002f2 100644
--- a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
+++ b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
@@ -5620,6 +5620,10 @@ fn rich_walk_loop(
             }
         }
         rich_walk_block(body, &mut record_state, facts);
+        // The condition is evaluated again behind every round of the body.
+        if let Some(c) = cond {
+            record_expr(c, &record_state, facts);
+        }
         let mut after = rich_join(st, &inside);
         if let Some(c) = cond {
             narrow_state_negated(c, &mut after.intervals);
@@ -5644,6 +5648,12 @@ fn rich_walk_loop(
     } else {
         // Sound fallback: forget everything the body can write.
         if let Some(c) = cond {
+            let mut again = st.clone();
+            for &m in &mutated {
+                again.invalidate_var(m);
+                again.intervals.set_length(m, Interval::non_negative());
+            }
+            record_expr(c, &again, facts);
             narrow_state_negated(c, &mut st.intervals);
         }
         for m in mutated {
-- 
2.43.0


From f829a3ae915d3f0498f659814d4d9ac9767c6d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:10:17 +0000
Subject: [PATCH 26/43] Move the rebinding test of the optimiser into its
 module

---
 .../logicaffeine_compile/src/optimize/mod.rs  | 61 +++++++++++++++++--
 .../src/optimize/rebinding.rs                 | 60 ------------------
 2 files changed, 56 insertions(+), 65 deletions(-)
 delete mode 100644 crates/logicaffeine_compile/src/optimize/rebinding.rs

diff --git a/crates/logicaffeine_compile/src/optimize/mod.rs b/crates/logicaffeine_compile/src/optimize/mod.rs
index b22dff9..ade3764 100644
--- a/crates/logicaffeine_compile/src/optimize/mod.rs
+++ b/crates/logicaffeine_compile/src/optimize/mod.rs
@@ -39,7 +39,6 @@ mod affine_scalarize;
 mod loop_split;
 mod affine;
 mod abstract_interp;
-mod rebinding;
 pub use abstract_interp::{
     lin_to_rust, oracle_analyze, oracle_analyze_with, oracle_analyze_with_entry_guards, OracleFacts,
     ScalarKind, VarProvenFacts,
@@ -50,10 +49,10 @@ pub mod effects;
 pub mod bta;
 pub mod partial_eval;
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use crate::arena::Arena;
-use crate::ast::stmt::{Expr, Stmt};
+use crate::ast::stmt::{Expr, Pattern, SelectBranch, Stmt};
 use crate::intern::{Interner, Symbol};
 use crate::optimization::{
     admits_pinned, FiredOptimizations, HotswapConfig, Opt, OptimizationConfig, Pin, Tier,
@@ -319,7 +318,7 @@ pub fn optimize_for_run_tiered<'a>(
         return stmts;
     }
     const MAX_RUN_OPT_STMTS: usize = 5_000;
-    if stmts.len() > MAX_RUN_OPT_STMTS || rebinding::rebinds_a_name(&stmts) {
+    if stmts.len() > MAX_RUN_OPT_STMTS || rebinds_a_name(&stmts) {
         return stmts;
     }
     let bta_cache = bta::analyze_with_sccs(&stmts, interner);
@@ -549,7 +548,7 @@ pub fn optimize_program<'a>(
     // Splices fuse back to the direct nested writes every downstream pass
     // (BTA, borrow-hoist, bounds elision) pattern-matches.
     let stmts = splice_fuse::fuse_place_splices(stmts, expr_arena, stmt_arena, interner);
-    if rebinding::rebinds_a_name(&stmts) {
+    if rebinds_a_name(&stmts) {
         return stmts;
     }
     // NOTE: no early tiny-fn inliner here — that is a RUN-PATH device
@@ -729,3 +728,55 @@ pub fn optimize_program<'a>(
         propagated
     }
 }
+
+/// Does a function of the program (or Main) bind a name inside the scope of an
+/// earlier binding of the same name? The passes key their facts by name and move
+/// statements between blocks, which is only meaning-preserving while a name
+/// stands for one variable: such a program is left as written.
+fn rebinds_a_name(stmts: &[Stmt]) -> bool {
+    let mut bound = HashSet::new();
+    block_rebinds(stmts, &mut bound)
+}
+
+/// `bound` holds the names in scope at the end of the block.
+fn block_rebinds(stmts: &[Stmt], bound: &mut HashSet<Symbol>) -> bool {
+    stmts.iter().any(|stmt| stmt_rebinds(stmt, bound))
+}
+
+/// A nested block with names of its own: they go out of scope behind it.
+fn scope_rebinds(names: &[Symbol], block: &[Stmt], bound: &HashSet<Symbol>) -> bool {
+    let mut inner = bound.clone();
+    names.iter().any(|name| !inner.insert(*name)) || block_rebinds(block, &mut inner)
+}
+
+fn stmt_rebinds(stmt: &Stmt, bound: &mut HashSet<Symbol>) -> bool {
+    match stmt {
+        Stmt::Let { var, .. } => !bound.insert(*var),
+        Stmt::FunctionDef { params, body, .. } => {
+            let params: Vec<Symbol> = params.iter().map(|(name, _)| *name).collect();
+            scope_rebinds(&params, body, &HashSet::new())
+        }
+        Stmt::If { then_block, else_block, .. } => {
+            scope_rebinds(&[], then_block, bound)
+                || else_block.map_or(false, |b| scope_rebinds(&[], b, bound))
+        }
+        Stmt::Repeat { pattern, body, .. } => match pattern {
+            Pattern::Identifier(name) => scope_rebinds(&[*name], body, bound),
+            Pattern::Tuple(names) => scope_rebinds(names, body, bound),
+        },
+        Stmt::While { body, .. }
+        | Stmt::Zone { body, .. }
+        | Stmt::Concurrent { tasks: body }
+        | Stmt::Parallel { tasks: body } => scope_rebinds(&[], body, bound),
+        Stmt::Splice { body } => block_rebinds(body, bound),
+        Stmt::Inspect { arms, .. } => arms.iter().any(|arm| {
+            let names: Vec<Symbol> = arm.bindings.iter().map(|(_, name)| *name).collect();
+            scope_rebinds(&names, arm.body, bound)
+        }),
+        Stmt::Select { branches } => branches.iter().any(|branch| match branch {
+            SelectBranch::Receive { var, body, .. } => scope_rebinds(&[*var], body, bound),
+            SelectBranch::Timeout { body, .. } => scope_rebinds(&[], body, bound),
+        }),
+        _ => false,
+    }
+}
diff --git a/crates/logicaffeine_compile/src/optimize/rebinding.rs b/crates/logicaffeine_compile/src/optimize/rebinding.rs
deleted file mode 100644
index caba112..0000000
--- a/crates/logicaffeine_compile/src/optimize/rebinding.rs
+++ /dev/null
@@ -1,60 +0,0 @@
-//! Detecting programs that bind a name which is already bound.
-//!
-//! The passes key their facts by name and move statements between blocks, which
-//! is only meaning-preserving while a name stands for one variable. A program
-//! that shadows or rebinds a name is left as written.
-
-use std::collections::HashSet;
-
-use crate::ast::stmt::{Pattern, SelectBranch, Stmt};
-use crate::intern::Symbol;
-
-/// Does a function of the program (or Main) bind a name inside the scope of an
-/// earlier binding of the same name?
-pub(crate) fn rebinds_a_name(stmts: &[Stmt]) -> bool {
-    let mut bound = HashSet::new();
-    block_rebinds(stmts, &mut bound)
-}
-
-/// `bound` holds the names in scope at the end of the block.
-fn block_rebinds(stmts: &[Stmt], bound: &mut HashSet<Symbol>) -> bool {
-    stmts.iter().any(|stmt| stmt_rebinds(stmt, bound))
-}
-
-/// A nested block with names of its own: they go out of scope behind it.
-fn scope_rebinds(names: &[Symbol], block: &[Stmt], bound: &HashSet<Symbol>) -> bool {
-    let mut inner = bound.clone();
-    names.iter().any(|name| !inner.insert(*name)) || block_rebinds(block, &mut inner)
-}
-
-fn stmt_rebinds(stmt: &Stmt, bound: &mut HashSet<Symbol>) -> bool {
-    match stmt {
-        Stmt::Let { var, .. } => !bound.insert(*var),
-        Stmt::FunctionDef { params, body, .. } => {
-            let params: Vec<Symbol> = params.iter().map(|(name, _)| *name).collect();
-            scope_rebinds(&params, body, &HashSet::new())
-        }
-        Stmt::If { then_block, else_block, .. } => {
-            scope_rebinds(&[], then_block, bound)
-                || else_block.map_or(false, |b| scope_rebinds(&[], b, bound))
-        }
-        Stmt::Repeat { pattern, body, .. } => match pattern {
-            Pattern::Identifier(name) => scope_rebinds(&[*name], body, bound),
-            Pattern::Tuple(names) => scope_rebinds(names, body, bound),
-        },
-        Stmt::While { body, .. }
-        | Stmt::Zone { body, .. }
-        | Stmt::Concurrent { tasks: body }
-        | Stmt::Parallel { tasks: body } => scope_rebinds(&[], body, bound),
-        Stmt::Splice { body } => block_rebinds(body, bound),
-        Stmt::Inspect { arms, .. } => arms.iter().any(|arm| {
-            let names: Vec<Symbol> = arm.bindings.iter().map(|(_, name)| *name).collect();
-            scope_rebinds(&names, arm.body, bound)
-        }),
-        Stmt::Select { branches } => branches.iter().any(|branch| match branch {
-            SelectBranch::Receive { var, body, .. } => scope_rebinds(&[*var], body, bound),
-            SelectBranch::Timeout { body, .. } => scope_rebinds(&[], body, bound),
-        }),
-        _ => false,
-    }
-}
-- 
2.43.0


From d917a43bcea9f49e5c80dbe258dade2155def96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:27 +0000
Subject: [PATCH 27/43] fix: keep lengths sound for names that may share a
 collection, calls that change it and loops left early

---
 .../src/optimize/abstract_interp.rs           | 118 ++++++++++++++----
 1 file changed, 92 insertions(+), 26 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
index ea002f2..dee4eb0 100644
--- a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
+++ b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
@@ -1917,6 +1917,19 @@ impl RichAbstractState {
         self.scalar_lower.remove(&sym);
         self.scalar_lower.retain(|_, e| !e.coefficients.contains_key(&si));
     }
+
+    /// The collection `sym` may hold anything now, and so may every name
+    /// sharing its allocation.
+    fn forget_contents(&mut self, sym: Symbol) {
+        for a in self.aliases.may_alias(sym) {
+            self.shapes.insert(a, CollectionShape::Top);
+            self.intervals.set_length(a, Interval::non_negative());
+            self.intervals.clear_elem(&a);
+            self.length_def.remove(&a);
+            self.elem_upper.remove(&a);
+            self.elem_type.remove(&a);
+        }
+    }
 }
 
 /// Run the Oracle's rich abstract interpretation, returning the (unchanged)
@@ -4531,6 +4544,7 @@ fn gather_insert_coverage(
 }
 
 pub fn oracle_analyze(stmts: &[Stmt]) -> OracleFacts {
+    super::licm::note_mutating_functions(stmts);
     let mut facts = OracleFacts::default();
     let mut st = RichAbstractState::new();
     rich_walk_block(stmts, &mut st, &mut facts);
@@ -4636,6 +4650,7 @@ fn oracle_analyze_with_opts(
         }
     }
     let fn_returns = std::rc::Rc::new(fn_returns);
+    super::licm::note_mutating_functions(stmts);
     let mut st = RichAbstractState::new();
     st.fn_returns = fn_returns.clone();
     rich_walk_block(stmts, &mut st, &mut facts);
@@ -4742,6 +4757,7 @@ pub(crate) fn rich_abstract_interp_stmts<'a>(
     _expr_arena: &'a Arena<Expr<'a>>,
     _stmt_arena: &'a Arena<Stmt<'a>>,
 ) -> (Vec<Stmt<'a>>, RichAbstractState) {
+    super::licm::note_mutating_functions(&stmts);
     let mut st = RichAbstractState::new();
     let mut facts = OracleFacts::default();
     rich_walk_block(&stmts, &mut st, &mut facts);
@@ -4750,6 +4766,13 @@ pub(crate) fn rich_abstract_interp_stmts<'a>(
 
 fn rich_walk_block(block: &[Stmt], st: &mut RichAbstractState, facts: &mut OracleFacts) {
     for stmt in block {
+        // A call can change what it takes by `mutable` in the middle of the
+        // statement's expressions.
+        let mut called = std::collections::HashSet::new();
+        super::licm::collect_call_writes(stmt, &mut called);
+        for sym in called {
+            st.forget_contents(sym);
+        }
         record_stmt_exprs(stmt, st, facts);
         rich_walk_stmt(stmt, st, facts);
     }
@@ -4797,10 +4820,14 @@ fn rich_walk_stmt(stmt: &Stmt, st: &mut RichAbstractState, facts: &mut OracleFac
     match stmt {
         Stmt::Let { var, value, .. } => rich_bind(*var, value, st),
         Stmt::Set { target, value } => rich_bind(*target, value, st),
-        Stmt::Push { collection, value } | Stmt::Add { collection, value } => {
+        Stmt::Push { collection, value } => {
             rich_grow(collection, st);
             observe_written_elem(collection, value, st);
         }
+        Stmt::Add { collection, value } => {
+            rich_grow_maybe(collection, st);
+            observe_written_elem(collection, value, st);
+        }
         Stmt::Pop { collection, into } => {
             rich_shrink(collection, st);
             if let Some(v) = into {
@@ -4811,7 +4838,7 @@ fn rich_walk_stmt(stmt: &Stmt, st: &mut RichAbstractState, facts: &mut OracleFac
                 st.aliases.taint(*v);
             }
         }
-        Stmt::Remove { collection, .. } => rich_shrink(collection, st),
+        Stmt::Remove { collection, .. } => rich_shrink_maybe(collection, st),
         // A store leaves the length unchanged but adds an element value: join
         // it into the collection's element bound (the scatter `Set item k of
         // arr to V` case).
@@ -5125,9 +5152,16 @@ fn rich_bind(var: Symbol, value: &Expr, st: &mut RichAbstractState) {
     }
 
     match value {
-        Expr::New { .. } => {
-            st.shapes.insert(var, CollectionShape::Empty);
-            st.intervals.set_length(var, Interval::exact(0));
+        Expr::New { type_args, .. } => {
+            // A map (two type arguments) grows by plain stores, which leave the
+            // tracked length alone: nothing is known of its length.
+            if type_args.len() == 2 {
+                st.shapes.insert(var, CollectionShape::Top);
+                st.intervals.set_length(var, Interval::non_negative());
+            } else {
+                st.shapes.insert(var, CollectionShape::Empty);
+                st.intervals.set_length(var, Interval::exact(0));
+            }
             st.coll_vars.insert(var);
             // A fresh empty collection has NO elements: element bound `⊥`, so
             // the first `Push` seeds an exact bound and a 0-trip build loop's
@@ -5239,31 +5273,54 @@ fn rich_bind(var: Symbol, value: &Expr, st: &mut RichAbstractState) {
     }
 }
 
-/// `Push`/`Add` — one element added to a shared allocation: grow the shape and
-/// length of the collection and every variable that aliases it.
+/// `Push` — the list has one element more.
 fn rich_grow(collection: &Expr, st: &mut RichAbstractState) {
-    if let Expr::Identifier(sym) = collection {
-        let new_shape = st.shapes.get(sym).cloned().unwrap_or(CollectionShape::Top).pushed();
-        let new_len = st.intervals.get_length(sym).add(&Interval::exact(1));
-        for a in st.aliases.may_alias(*sym) {
-            st.shapes.insert(a, new_shape.clone());
-            st.intervals.set_length(a, new_len.clone());
-            // A resize moves length off its build-time relation — drop it
-            // (conservative; a grow keeps `>=` valid but we re-derive cleanly).
-            st.length_def.remove(&a);
-        }
-    }
+    rich_resize(collection, st, true, CollectionShape::pushed, |len| len.add(&Interval::exact(1)));
 }
 
-/// `Pop`/`Remove` — one element removed from a shared allocation.
+/// `Add` — the set has one element more, unless it had the element already.
+fn rich_grow_maybe(collection: &Expr, st: &mut RichAbstractState) {
+    rich_resize(collection, st, false, CollectionShape::pushed, |len| len.add(&Interval::exact(1)));
+}
+
+/// `Pop` — the list has one element less.
 fn rich_shrink(collection: &Expr, st: &mut RichAbstractState) {
+    rich_resize(collection, st, true, CollectionShape::popped, one_less);
+}
+
+/// `Remove` — one element less, unless the element was not there.
+fn rich_shrink_maybe(collection: &Expr, st: &mut RichAbstractState) {
+    rich_resize(collection, st, false, CollectionShape::popped, one_less);
+}
+
+fn one_less(len: &Interval) -> Interval {
+    let less = len.sub(&Interval::exact(1)).meet(&Interval::non_negative());
+    if less.is_bottom() { Interval::exact(0) } else { less }
+}
+
+/// The size of `collection` changes, certainly or possibly. A name that may
+/// share its allocation may see the change or not: the owner copies on write.
+fn rich_resize(
+    collection: &Expr,
+    st: &mut RichAbstractState,
+    certain: bool,
+    shape: impl Fn(&CollectionShape) -> CollectionShape,
+    length: impl Fn(&Interval) -> Interval,
+) {
     if let Expr::Identifier(sym) = collection {
-        let new_shape = st.shapes.get(sym).cloned().unwrap_or(CollectionShape::Top).popped();
-        let new_len = st.intervals.get_length(sym).sub(&Interval::exact(1));
         for a in st.aliases.may_alias(*sym) {
-            st.shapes.insert(a, new_shape.clone());
-            st.intervals.set_length(a, new_len.clone());
-            // A shrink can break the `length(arr) >= n` lower bound — drop it.
+            let old_shape = st.shapes.get(&a).cloned().unwrap_or(CollectionShape::Top);
+            let old_len = st.intervals.get_length(&a);
+            let (mut new_shape, mut new_len) = (shape(&old_shape), length(&old_len));
+            if !certain {
+                new_shape = old_shape.join(&new_shape);
+            }
+            if !certain || a != *sym {
+                new_len = old_len.join(&new_len);
+            }
+            st.shapes.insert(a, new_shape);
+            st.intervals.set_length(a, new_len);
+            // A resize moves length off its build-time relation — drop it.
             st.length_def.remove(&a);
         }
     }
@@ -5625,7 +5682,14 @@ fn rich_walk_loop(
             record_expr(c, &record_state, facts);
         }
         let mut after = rich_join(st, &inside);
-        if let Some(c) = cond {
+        if breaks_out(body) {
+            // Left in the middle of the body, the condition still true.
+            for &m in &mutated {
+                after.forget_contents(m);
+                after.invalidate_var(m);
+                after.aliases.taint(m);
+            }
+        } else if let Some(c) = cond {
             narrow_state_negated(c, &mut after.intervals);
             // Allocation-size fact: a counted build loop establishes a length
             // bound on the array it fills (`st` is the pre-loop entry state —
@@ -5654,7 +5718,9 @@ fn rich_walk_loop(
                 again.intervals.set_length(m, Interval::non_negative());
             }
             record_expr(c, &again, facts);
-            narrow_state_negated(c, &mut st.intervals);
+            if !breaks_out(body) {
+                narrow_state_negated(c, &mut st.intervals);
+            }
         }
         for m in mutated {
             st.intervals.set_var(m, Interval::top());
-- 
2.43.0


From ff4db06d70ec22f456b0b658898348d899b2676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:27 +0000
Subject: [PATCH 28/43] fix: forget what a statement or loop body writes before
 specialising on it

---
 .../src/optimize/supercompile.rs              | 66 +++++--------------
 1 file changed, 16 insertions(+), 50 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/supercompile.rs b/crates/logicaffeine_compile/src/optimize/supercompile.rs
index 5bd8322..c07fad2 100644
--- a/crates/logicaffeine_compile/src/optimize/supercompile.rs
+++ b/crates/logicaffeine_compile/src/optimize/supercompile.rs
@@ -13,7 +13,7 @@
 //! Scope: pure integer/boolean code only. Collections, IO, and escape blocks
 //! are treated conservatively (passed through unchanged).
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use crate::arena::Arena;
 use crate::ast::stmt::{BinaryOpKind, Block, Expr, Literal, Stmt};
@@ -539,6 +539,7 @@ fn drive_stmt<'a>(
     match stmt {
         Stmt::Let { var, ty, value, mutable } => {
             let driven = drive_expr(value, env, expr_arena, depth);
+            env.store.remove(&var);
             if !mutable {
                 // Try to resolve the driven expression to a value for the store
                 if let Some(val) = expr_to_value(driven, &env.store) {
@@ -680,6 +681,10 @@ fn drive_stmt<'a>(
                 env.store.remove(sym);
             }
             let driven_body = drive_block(body, env, expr_arena, stmt_arena, interner, depth);
+            // The body may run any number of times, none included
+            for sym in &modified {
+                env.store.remove(sym);
+            }
             Some(Stmt::Repeat { pattern, iterable: driven_iter, body: driven_body })
         }
         Stmt::Show { object, recipient } => {
@@ -736,9 +741,14 @@ fn drive_stmt<'a>(
         }
         // Zone blocks: pass through unchanged. Propagating inside zones can
         // eliminate zone escape patterns that the Rust compiler needs to detect.
-        Stmt::Zone { .. } => Some(stmt),
-        // Pass through everything else unchanged
-        other => Some(other),
+        // Everything else passes through unchanged too; what it writes is no
+        // longer known.
+        other => {
+            for sym in collect_modified_vars_block(std::slice::from_ref(&other)) {
+                env.store.remove(&sym);
+            }
+            Some(other)
+        }
     }
 }
 
@@ -759,52 +769,8 @@ fn drive_block<'a>(
     stmt_arena.alloc_slice(result)
 }
 
-fn collect_modified_vars_block(stmts: &[Stmt]) -> Vec<Symbol> {
-    let mut modified = Vec::new();
-    for stmt in stmts {
-        collect_modified_vars_stmt(stmt, &mut modified);
-    }
-    modified
-}
-
-fn collect_modified_vars_stmt(stmt: &Stmt, out: &mut Vec<Symbol>) {
-    match stmt {
-        Stmt::Set { target, .. } => out.push(*target),
-        Stmt::Let { var, mutable: true, .. } => out.push(*var),
-        Stmt::If { then_block, else_block, .. } => {
-            for s in *then_block {
-                collect_modified_vars_stmt(s, out);
-            }
-            if let Some(eb) = else_block {
-                for s in *eb {
-                    collect_modified_vars_stmt(s, out);
-                }
-            }
-        }
-        Stmt::While { body, .. } => {
-            for s in *body {
-                collect_modified_vars_stmt(s, out);
-            }
-        }
-        Stmt::Repeat { body, .. } => {
-            for s in *body {
-                collect_modified_vars_stmt(s, out);
-            }
-        }
-        Stmt::Inspect { arms, .. } => {
-            for arm in arms {
-                for s in arm.body {
-                    collect_modified_vars_stmt(s, out);
-                }
-            }
-        }
-        Stmt::Zone { body, .. } => {
-            for s in *body {
-                collect_modified_vars_stmt(s, out);
-            }
-        }
-        _ => {}
-    }
+fn collect_modified_vars_block(stmts: &[Stmt]) -> HashSet<Symbol> {
+    super::licm::collect_loop_writes(stmts)
 }
 
 // =============================================================================
-- 
2.43.0


From cece9e558276dade73456d4ddfc775319f6af3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:27 +0000
Subject: [PATCH 29/43] fix: count the target of a pop as assigned in copy
 propagation

---
 crates/logicaffeine_compile/src/optimize/propagate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/logicaffeine_compile/src/optimize/propagate.rs b/crates/logicaffeine_compile/src/optimize/propagate.rs
index b78adc9..a22bbd5 100644
--- a/crates/logicaffeine_compile/src/optimize/propagate.rs
+++ b/crates/logicaffeine_compile/src/optimize/propagate.rs
@@ -372,7 +372,7 @@ fn collect_all_set_targets_from_block(block: &[Stmt]) -> HashSet<Symbol> {
 
 fn collect_set_targets_in_stmt(stmt: &Stmt, targets: &mut HashSet<Symbol>) {
     match stmt {
-        Stmt::Set { target, .. } => { targets.insert(*target); }
+        Stmt::Set { target, .. } | Stmt::Pop { into: Some(target), .. } => { targets.insert(*target); }
         Stmt::If { then_block, else_block, .. } => {
             for s in *then_block { collect_set_targets_in_stmt(s, targets); }
             if let Some(eb) = else_block {
-- 
2.43.0


From a3f1b98f56d739493a1099ace762321758a145e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:27 +0000
Subject: [PATCH 30/43] fix: take ownership of a hoisted map before borrowing
 it for a loop

---
 crates/logicaffeine_compile/src/codegen/hoist.rs | 4 ++++
 crates/logicaffeine_compile/src/codegen/stmt.rs  | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_compile/src/codegen/hoist.rs b/crates/logicaffeine_compile/src/codegen/hoist.rs
index 511af92..4348048 100644
--- a/crates/logicaffeine_compile/src/codegen/hoist.rs
+++ b/crates/logicaffeine_compile/src/codegen/hoist.rs
@@ -566,6 +566,10 @@ pub(crate) fn emit_hoist_open(
         return;
     }
     let names = RustNames::new(interner);
+    // A binding written through the guard gets a buffer of its own first.
+    for e in entries.iter().filter(|e| !e.is_vec && !matches!(e.kind, HoistKind::Shared)) {
+        super::stmt::emit_cow(&Expr::Identifier(e.sym), ctx, &names, indent_str, output);
+    }
     writeln!(output, "{}{{", indent_str).unwrap();
     for e in entries {
         let n = names.ident(e.sym);
diff --git a/crates/logicaffeine_compile/src/codegen/stmt.rs b/crates/logicaffeine_compile/src/codegen/stmt.rs
index a8189e3..6612feb 100644
--- a/crates/logicaffeine_compile/src/codegen/stmt.rs
+++ b/crates/logicaffeine_compile/src/codegen/stmt.rs
@@ -646,7 +646,7 @@ fn cow_target(
 /// (`LOGOS_VALUE_SEMANTICS=0`, or the compile-time PE reference scope) collections
 /// share their allocation permanently and mutations ARE meant to alias, so no
 /// `cow()` is emitted — the shared `Rc` is left untouched.
-fn emit_cow(
+pub(super) fn emit_cow(
     collection: &Expr,
     ctx: &RefinementContext,
     names: &RustNames,
-- 
2.43.0


From 449c750d9ba4bd3eb8227f383b486f01525d23dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:27 +0000
Subject: [PATCH 31/43] fix: ignore tautological clauses as resolution parents
 in variable elimination

---
 crates/logicaffeine_proof/src/inprocess.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/logicaffeine_proof/src/inprocess.rs b/crates/logicaffeine_proof/src/inprocess.rs
index 1e4b9c7..10c97f2 100644
--- a/crates/logicaffeine_proof/src/inprocess.rs
+++ b/crates/logicaffeine_proof/src/inprocess.rs
@@ -32,8 +32,9 @@ fn resolve(a: &[Lit], b: &[Lit], x: Var) -> Option<Vec<Lit>> {
 /// `None` otherwise. Verdict-invariant: a model of the result extends to a model of the input.
 pub fn eliminate_variable(clauses: &[Vec<Lit>], x: Var) -> Option<(Vec<Vec<Lit>>, Vec<ProofStep>)> {
     let (pos, neg) = (Lit::pos(x), Lit::neg(x));
-    let pos_clauses: Vec<&Vec<Lit>> = clauses.iter().filter(|c| c.contains(&pos)).collect();
-    let neg_clauses: Vec<&Vec<Lit>> = clauses.iter().filter(|c| c.contains(&neg)).collect();
+    // A clause holding both `x` and `¬x` is a tautology: it is a parent of no resolvent.
+    let pos_clauses: Vec<&Vec<Lit>> = clauses.iter().filter(|c| c.contains(&pos) && !c.contains(&neg)).collect();
+    let neg_clauses: Vec<&Vec<Lit>> = clauses.iter().filter(|c| c.contains(&neg) && !c.contains(&pos)).collect();
     if pos_clauses.is_empty() && neg_clauses.is_empty() {
         return None; // `x` does not occur
     }
@@ -188,8 +189,9 @@ pub fn bucket_elimination_refute(num_vars: usize, clauses: &[Vec<Lit>], width_ca
         }
         let v = *vars.iter().min_by_key(|&&v| cur.iter().filter(|c| c.iter().any(|l| l.var() == v)).count()).unwrap();
         let (pos, neg) = (Lit::pos(v), Lit::neg(v));
-        let pos_c: Vec<Vec<Lit>> = cur.iter().filter(|c| c.contains(&pos)).cloned().collect();
-        let neg_c: Vec<Vec<Lit>> = cur.iter().filter(|c| c.contains(&neg)).cloned().collect();
+        // A clause holding both `v` and `¬v` is a tautology: it is a parent of no resolvent.
+        let pos_c: Vec<Vec<Lit>> = cur.iter().filter(|c| c.contains(&pos) && !c.contains(&neg)).cloned().collect();
+        let neg_c: Vec<Vec<Lit>> = cur.iter().filter(|c| c.contains(&neg) && !c.contains(&pos)).cloned().collect();
         // Even under the min-degree order the resolvent product `|pos| · |neg|` can explode once a dense
         // (high-treewidth) core is reached — each resolvent stays narrow (so the width cap never trips)
         // yet there are quadratically many. Bail before doing that work: a bounded-treewidth family keeps
-- 
2.43.0


From 0f0aa2efacaca02276543bd0068c7eeafbee202d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:28 +0000
Subject: [PATCH 32/43] fix: return only refutations of the clauses given

---
 crates/logicaffeine_proof/src/solve.rs | 34 ++++++++++++++++++++------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/crates/logicaffeine_proof/src/solve.rs b/crates/logicaffeine_proof/src/solve.rs
index 48077be..e3cad01 100644
--- a/crates/logicaffeine_proof/src/solve.rs
+++ b/crates/logicaffeine_proof/src/solve.rs
@@ -308,6 +308,19 @@ fn exact_cover_route(num_vars: usize, clauses: &[Vec<Lit>]) -> Option<Solved> {
     None
 }
 
+/// The refutation `solver` found after `added` joined `clauses`. Its learned clauses rest on the added
+/// ones, so those open the proof; one that is implied but not RUP leaves no proof in this form.
+fn rup_proof(num_vars: usize, clauses: &[Vec<Lit>], added: &[Vec<Lit>], solver: &Solver) -> Vec<ProofStep> {
+    let mut db = clauses.to_vec();
+    for c in added {
+        if !crate::rup::is_rup(num_vars, &db, c) {
+            return Vec::new();
+        }
+        db.push(c.clone());
+    }
+    added.iter().chain(solver.learned().iter().map(|lc| &lc.lits)).cloned().map(ProofStep::Rup).collect()
+}
+
 /// The authoritative CDCL fallback — enriched with the mined clause bundle: every structure-mining
 /// contributor's implied no-goods, unioned into the formula so CDCL inherits the discovered structure.
 /// Sound (only implied clauses) and never-worse.
@@ -316,15 +329,16 @@ fn cdcl_fallback(num_vars: usize, clauses: &[Vec<Lit>]) -> Solved {
     for c in clauses {
         solver.add_clause(c.clone());
     }
-    for c in mine_clauses(num_vars, clauses) {
-        solver.add_clause(c);
+    let mined = mine_clauses(num_vars, clauses);
+    for c in &mined {
+        solver.add_clause(c.clone());
     }
     match solver.solve() {
         SolveResult::Sat(model) => {
             Solved { answer: Answer::Sat(model), via: Route::Cdcl, proof: Vec::new(), conflicts: solver.conflicts() }
         }
         SolveResult::Unsat => {
-            let proof = solver.learned().iter().map(|lc| ProofStep::Rup(lc.lits.clone())).collect();
+            let proof = rup_proof(num_vars, clauses, &mined, &solver);
             Solved { answer: Answer::Unsat, via: Route::Cdcl, proof, conflicts: solver.conflicts() }
         }
     }
@@ -3504,7 +3518,12 @@ pub fn solve_by_symmetry_breaking(num_vars: usize, clauses: &[Vec<Lit>]) -> Solv
                 solve_comprehensive(num_vars, clauses) // re-check failed ⇒ authoritative fallback
             }
         }
-        Answer::Unsat => Solved { answer: Answer::Unsat, via: inner.via, proof: inner.proof, conflicts: inner.conflicts },
+        Answer::Unsat => {
+            // The inner proof refutes the BROKEN clauses; it stands for the original ones only when
+            // nothing was added.
+            let proof = if broken.len() == clauses.len() { inner.proof } else { Vec::new() };
+            Solved { answer: Answer::Unsat, via: inner.via, proof, conflicts: inner.conflicts }
+        }
     }
 }
 
@@ -3758,8 +3777,8 @@ fn hybrid_xor(num_vars: usize, clauses: &[Vec<Lit>]) -> Option<Solved> {
     for c in clauses {
         solver.add_clause(c.clone());
     }
-    for c in derived {
-        solver.add_clause(c);
+    for c in &derived {
+        solver.add_clause(c.clone());
     }
     if xor_seed() {
         solver.set_initial_phase(&witness);
@@ -3787,7 +3806,8 @@ fn hybrid_xor(num_vars: usize, clauses: &[Vec<Lit>]) -> Option<Solved> {
             conflicts: solver.conflicts(),
         }),
         SolveResult::Unsat => {
-            let proof = solver.learned().iter().map(|lc| ProofStep::Rup(lc.lits.clone())).collect();
+            // Under the live engine a learned clause may rest on a Gaussian reason, which is not RUP.
+            let proof = if xor_live() { Vec::new() } else { rup_proof(num_vars, clauses, &derived, &solver) };
             Some(Solved { answer: Answer::Unsat, via: Route::HybridXor, proof, conflicts: solver.conflicts() })
         }
     }
-- 
2.43.0


From a443c3f4963dea0c8bb068edf9727121d269198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:30:05 +0000
Subject: [PATCH 33/43] fix: reject a proof text naming a variable the formula
 does not have

---
 crates/logicaffeine_proof/src/proof_emit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/logicaffeine_proof/src/proof_emit.rs b/crates/logicaffeine_proof/src/proof_emit.rs
index b0f807d..39d56d8 100644
--- a/crates/logicaffeine_proof/src/proof_emit.rs
+++ b/crates/logicaffeine_proof/src/proof_emit.rs
@@ -679,6 +679,10 @@ pub fn check_lrat(num_vars: usize, original: &[Vec<Lit>], lrat: &str) -> bool {
             if n == 0 {
                 break;
             }
+            // A literal over a variable the formula does not have cannot be part of a derivation.
+            if n.unsigned_abs() > num_vars as u64 {
+                return false;
+            }
             clause.push(Lit::new((n.unsigned_abs() - 1) as u32, n > 0));
         }
         let mut hints = Vec::new();
-- 
2.43.0


From 91107372cec61730cbfb78cb9e0732237661d4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:30:51 +0000
Subject: [PATCH 34/43] fix: cancel repeated variables when the parity engine
 reads equations

---
 crates/logicaffeine_proof/src/xor_engine.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_proof/src/xor_engine.rs b/crates/logicaffeine_proof/src/xor_engine.rs
index 0bb011a..d856c5f 100644
--- a/crates/logicaffeine_proof/src/xor_engine.rs
+++ b/crates/logicaffeine_proof/src/xor_engine.rs
@@ -64,6 +64,11 @@ fn words_for(n: usize) -> usize {
 fn bit_set(bits: &mut [u64], i: usize) {
     bits[i / 64] |= 1u64 << (i % 64);
 }
+/// Toggle a variable in an equation: one named twice cancels itself out.
+#[inline]
+fn bit_flip(bits: &mut [u64], i: usize) {
+    bits[i / 64] ^= 1u64 << (i % 64);
+}
 #[inline]
 fn bit_get(bits: &[u64], i: usize) -> bool {
     (bits[i / 64] >> (i % 64)) & 1 == 1
@@ -131,7 +136,7 @@ impl XorEngine {
                     ok = false;
                     break;
                 }
-                bit_set(&mut vars, v);
+                bit_flip(&mut vars, v);
             }
             if !ok {
                 continue;
@@ -348,7 +353,7 @@ impl IncXor {
                     ok = false;
                     break;
                 }
-                bit_set(&mut bits, v);
+                bit_flip(&mut bits, v);
             }
             if !ok {
                 continue;
-- 
2.43.0


From 678284233f04ad553f7490b9866b50fd081aad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:32:33 +0000
Subject: [PATCH 35/43] fix: name slots without room in capacity witnesses

---
 crates/logicaffeine_proof/src/matching.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_proof/src/matching.rs b/crates/logicaffeine_proof/src/matching.rs
index 73038ed..9789751 100644
--- a/crates/logicaffeine_proof/src/matching.rs
+++ b/crates/logicaffeine_proof/src/matching.rs
@@ -257,8 +257,14 @@ pub fn assign_or_hall_capacitated(adj: &[Vec<usize>], capacities: &[usize]) -> C
         }
         MatchOutcome::Infeasible(w) => {
             // Reachable copies are exactly all copies of the reachable original slots, so their
-            // total capacity equals |w.slots| < |w.items| — the capacitated Hall deficiency.
-            let mut slots: Vec<usize> = w.slots.into_iter().map(copy_to_slot).collect();
+            // total capacity equals |w.slots| < |w.items| — the capacitated Hall deficiency. A
+            // slot of capacity 0 has no copies, so the slots are read off the items.
+            let mut slots: Vec<usize> = w
+                .items
+                .iter()
+                .flat_map(|&i| adj[i].iter().copied())
+                .filter(|&s| s < num_slots)
+                .collect();
             slots.sort_unstable();
             slots.dedup();
             CapMatchOutcome::Infeasible(CapHallWitness { items: w.items, slots })
-- 
2.43.0


From cc1ec2206e0c745df27045b7a50a52c3badf59ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:35:36 +0000
Subject: [PATCH 36/43] fix: count distinct members in Hall, overflow and spill
 witnesses and let empty intervals overlap nothing

---
 crates/logicaffeine_proof/src/interval_sched.rs | 15 ++++++++++-----
 crates/logicaffeine_proof/src/matching.rs       | 12 +++++++-----
 crates/logicaffeine_proof/src/register_alloc.rs | 13 +++++++------
 3 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/crates/logicaffeine_proof/src/interval_sched.rs b/crates/logicaffeine_proof/src/interval_sched.rs
index 3b1ba5e..c4738d9 100644
--- a/crates/logicaffeine_proof/src/interval_sched.rs
+++ b/crates/logicaffeine_proof/src/interval_sched.rs
@@ -37,10 +37,10 @@ pub enum ScheduleOutcome {
     Infeasible(Vec<usize>),
 }
 
-/// Two half-open intervals overlap iff each starts before the other ends.
+/// Two half-open intervals overlap iff they share an instant (an empty interval shares none).
 #[inline]
 fn overlaps(a: &Interval, b: &Interval) -> bool {
-    a.start < b.end && b.start < a.end
+    a.start.max(b.start) < a.end.min(b.end)
 }
 
 /// Decide whether `tasks` can be scheduled on `machines` machines. Sweeps the endpoints to find the
@@ -99,6 +99,10 @@ fn greedy_assign(tasks: &[Interval], machines: usize) -> Vec<usize> {
     let mut free_at = vec![i64::MIN; machines.max(1)];
     let mut assignment = vec![0usize; tasks.len()];
     for &i in &order {
+        // An empty task occupies no machine.
+        if tasks[i].start >= tasks[i].end {
+            continue;
+        }
         let m = (0..free_at.len())
             .find(|&m| free_at[m] <= tasks[i].start)
             .unwrap_or(0);
@@ -123,18 +127,19 @@ pub fn is_valid_schedule(tasks: &[Interval], machines: usize, assignment: &[usiz
     true
 }
 
-/// Re-check an overflow witness: all the listed tasks pairwise overlap and there are more than
-/// `machines` of them — a clique that cannot be coloured with `machines` colours.
+/// Re-check an overflow witness: all the listed tasks are distinct, pairwise overlap and there are
+/// more than `machines` of them — a clique that cannot be coloured with `machines` colours.
 pub fn is_overflow_witness(tasks: &[Interval], machines: usize, witness: &[usize]) -> bool {
     if witness.len() <= machines {
         return false;
     }
     witness.iter().enumerate().all(|(a, &i)| {
         i < tasks.len()
+            && overlaps(&tasks[i], &tasks[i])
             && witness
                 .iter()
                 .skip(a + 1)
-                .all(|&j| j < tasks.len() && overlaps(&tasks[i], &tasks[j]))
+                .all(|&j| j != i && j < tasks.len() && overlaps(&tasks[i], &tasks[j]))
     })
 }
 
diff --git a/crates/logicaffeine_proof/src/matching.rs b/crates/logicaffeine_proof/src/matching.rs
index 9789751..63b5957 100644
--- a/crates/logicaffeine_proof/src/matching.rs
+++ b/crates/logicaffeine_proof/src/matching.rs
@@ -182,10 +182,11 @@ fn extract_hall(
 /// `|T| < |S|`. This is the certificate verifier — a trusted, solver-free check that the claimed
 /// infeasibility is genuine.
 pub fn is_hall_witness(adj: &[Vec<usize>], w: &HallWitness) -> bool {
-    if w.items.len() <= w.slots.len() {
+    let slot_set: std::collections::HashSet<usize> = w.slots.iter().copied().collect();
+    let item_set: std::collections::HashSet<usize> = w.items.iter().copied().collect();
+    if item_set.len() <= slot_set.len() {
         return false;
     }
-    let slot_set: std::collections::HashSet<usize> = w.slots.iter().copied().collect();
     w.items.iter().all(|&i| {
         i < adj.len() && adj[i].iter().all(|s| slot_set.contains(s))
     })
@@ -275,11 +276,12 @@ pub fn assign_or_hall_capacitated(adj: &[Vec<usize>], capacities: &[usize]) -> C
 /// Re-check a capacitated Hall witness: every item in `S` reaches only slots in `T`, and the total
 /// capacity of `T` is below `|S|`.
 pub fn is_cap_hall_witness(adj: &[Vec<usize>], capacities: &[usize], w: &CapHallWitness) -> bool {
-    let cap: usize = w.slots.iter().map(|&s| capacities.get(s).copied().unwrap_or(0)).sum();
-    if w.items.len() <= cap {
+    let slot_set: std::collections::HashSet<usize> = w.slots.iter().copied().collect();
+    let item_set: std::collections::HashSet<usize> = w.items.iter().copied().collect();
+    let cap: usize = slot_set.iter().map(|&s| capacities.get(s).copied().unwrap_or(0)).sum();
+    if item_set.len() <= cap {
         return false;
     }
-    let slot_set: std::collections::HashSet<usize> = w.slots.iter().copied().collect();
     w.items
         .iter()
         .all(|&i| i < adj.len() && adj[i].iter().all(|s| slot_set.contains(s)))
diff --git a/crates/logicaffeine_proof/src/register_alloc.rs b/crates/logicaffeine_proof/src/register_alloc.rs
index 20fd88f..28d280b 100644
--- a/crates/logicaffeine_proof/src/register_alloc.rs
+++ b/crates/logicaffeine_proof/src/register_alloc.rs
@@ -69,7 +69,7 @@ pub fn allocate(ranges: &[LiveRange], registers: usize) -> Allocation {
 }
 
 fn live_overlap(a: &LiveRange, b: &LiveRange) -> bool {
-    a.start < b.end && b.start < a.end
+    a.start.max(b.start) < a.end.min(b.end)
 }
 
 /// Re-check an allocation: every variable is assigned a register `< registers`, and no two
@@ -94,7 +94,7 @@ pub fn is_valid_allocation(ranges: &[LiveRange], registers: usize, reg_of: &[(us
     true
 }
 
-/// Re-check a spill certificate: the listed variables pairwise interfere (are mutually live) and
+/// Re-check a spill certificate: the listed variables are distinct, pairwise interfere (are mutually live) and
 /// number more than `registers` — so they cannot all reside in registers at once.
 pub fn is_spill_certificate(ranges: &[LiveRange], registers: usize, must_spill: &[usize]) -> bool {
     if must_spill.len() <= registers {
@@ -104,10 +104,11 @@ pub fn is_spill_certificate(ranges: &[LiveRange], registers: usize, must_spill:
         ranges.iter().map(|r| (r.var, r)).collect();
     must_spill.iter().enumerate().all(|(a, v)| {
         by_var.get(v).is_some_and(|rv| {
-            must_spill
-                .iter()
-                .skip(a + 1)
-                .all(|u| by_var.get(u).is_some_and(|ru| live_overlap(rv, ru)))
+            live_overlap(rv, rv)
+                && must_spill
+                    .iter()
+                    .skip(a + 1)
+                    .all(|u| u != v && by_var.get(u).is_some_and(|ru| live_overlap(rv, ru)))
         })
     })
 }
-- 
2.43.0


From 42d2150c06890c3c192415e50ffcef17879c2387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:36:25 +0000
Subject: [PATCH 37/43] fix: clamp saturated coefficients at zero for
 constraints that always hold

---
 crates/logicaffeine_proof/src/pseudo_boolean.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_proof/src/pseudo_boolean.rs b/crates/logicaffeine_proof/src/pseudo_boolean.rs
index f3d8544..82bea4e 100644
--- a/crates/logicaffeine_proof/src/pseudo_boolean.rs
+++ b/crates/logicaffeine_proof/src/pseudo_boolean.rs
@@ -120,11 +120,12 @@ impl PbConstraint {
 
     /// **Saturation** — clamp every coefficient to the degree (`min(aᵢ, degree)`). A single 0/1
     /// variable can contribute at most `degree` toward the bound, so the excess is redundant. Sound,
-    /// and it keeps coefficients from blowing up across many additions.
+    /// and it keeps coefficients from blowing up across many additions. A non-positive degree holds
+    /// of every assignment: its coefficients clamp to 0, never below.
     pub fn saturate(&self) -> PbConstraint {
         let d = self.degree;
         PbConstraint {
-            terms: self.terms.iter().map(|(&v, &(c, s))| (v, (c.min(d), s))).collect(),
+            terms: self.terms.iter().map(|(&v, &(c, s))| (v, (c.min(d.max(0)), s))).collect(),
             degree: d,
         }
     }
-- 
2.43.0


From 7fa26499e824e39566ded4bc777a979d9afb7513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:55:20 +0000
Subject: [PATCH 38/43] fix: treat the first frame as a state predicate in the
 frame-based safety engine

Clauses of the initial frame spoke of step 0 only, so carrying them to a
later frame always looked inductive. Unsafe systems deeper than the frame
bound were then called safe.
---
 crates/logicaffeine_verify/src/ic3.rs        |  3 ++-
 crates/logicaffeine_verify/src/kinduction.rs | 11 ++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_verify/src/ic3.rs b/crates/logicaffeine_verify/src/ic3.rs
index 4fb5638..c3775b8 100644
--- a/crates/logicaffeine_verify/src/ic3.rs
+++ b/crates/logicaffeine_verify/src/ic3.rs
@@ -106,7 +106,8 @@ pub fn ic3(
     // Phase 2: IC3 proper — frame-based backward reachability
     // Frame[0] = init, Frame[i] overapproximates states reachable in <= i steps
     let mut frames: Vec<Frame> = vec![Frame::new()];
-    frames[0].add_clause(init.clone());
+    // as a predicate on any state: propagation has to ask whether it holds after a step too
+    frames[0].add_clause(kinduction::generalize_initial(init));
     frames[0].add_clause(property.clone());
 
     for _iteration in 0..max_frames {
diff --git a/crates/logicaffeine_verify/src/kinduction.rs b/crates/logicaffeine_verify/src/kinduction.rs
index 9e39c6f..51b69b8 100644
--- a/crates/logicaffeine_verify/src/kinduction.rs
+++ b/crates/logicaffeine_verify/src/kinduction.rs
@@ -158,6 +158,11 @@ pub fn instantiate_at(expr: &VerifyExpr, step: u32) -> VerifyExpr {
     rename_timestep(expr, "t", step)
 }
 
+/// Turn a predicate on the initial step into one on any step: replace @0 with @t.
+pub fn generalize_initial(expr: &VerifyExpr) -> VerifyExpr {
+    rename_timestep(expr, "0", "t")
+}
+
 /// Instantiate a transition relation: replace @t with @{step} and @t' with @{step+1}.
 pub fn instantiate_transition(expr: &VerifyExpr, step: u32) -> VerifyExpr {
     let e1 = rename_timestep(expr, "t", step);
@@ -165,7 +170,11 @@ pub fn instantiate_transition(expr: &VerifyExpr, step: u32) -> VerifyExpr {
 }
 
 /// Replace @{old_suffix} with @{new_step} in all variable names.
-fn rename_timestep(expr: &VerifyExpr, suffix: &str, step: u32) -> VerifyExpr {
+fn rename_timestep(
+    expr: &VerifyExpr,
+    suffix: &str,
+    step: impl std::fmt::Display + Copy,
+) -> VerifyExpr {
     match expr {
         VerifyExpr::Var(name) => {
             let target = format!("@{}", suffix);
-- 
2.43.0


From 28cce37580b9dd5426bb0f58911269406eabdede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:55:20 +0000
Subject: [PATCH 39/43] fix: start the abstract model from every concrete
 initial state

The abstract initial states left out those that do not satisfy the
predicates, so a violation starting there went unseen.
---
 crates/logicaffeine_verify/src/abstraction.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_verify/src/abstraction.rs b/crates/logicaffeine_verify/src/abstraction.rs
index f2a363e..b8d9874 100644
--- a/crates/logicaffeine_verify/src/abstraction.rs
+++ b/crates/logicaffeine_verify/src/abstraction.rs
@@ -252,9 +252,10 @@ pub fn cegar_verify(
         // Build the abstract model
         let abs_model = abstract_model_full(init, transition, &predicates);
 
-        // Verify the abstract model using k-induction.
+        // Verify the abstract model using k-induction, from every concrete initial state: the
+        // abstract ones leave out those that do not satisfy the predicates.
         let abs_result = kinduction::k_induction(
-            &abs_model.abstract_init,
+            init,
             &abs_model.abstract_transition,
             property,
             &[],
-- 
2.43.0


From 8ebb0b092b6b164b4d60a98a08aeb14212a3d70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:07:04 +0000
Subject: [PATCH 40/43] fix: write changes of collections inside records back
 to the record

The bytecode compiler changed a copy of its own when a set, map or list
element of a record field was added, removed or set.
---
 .../logicaffeine_compile/src/vm/compiler.rs   | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_compile/src/vm/compiler.rs b/crates/logicaffeine_compile/src/vm/compiler.rs
index 46bfe8d..5a0899f 100644
--- a/crates/logicaffeine_compile/src/vm/compiler.rs
+++ b/crates/logicaffeine_compile/src/vm/compiler.rs
@@ -1585,7 +1585,7 @@ impl<'i> Compiler<'i> {
                     let val = self.compile_expr(value)?;
                     let set = self.compile_expr(collection)?;
                     self.emit(Op::SetAdd { set, value: val });
-                    return Ok(());
+                    return self.store_field_back(collection, set);
                 }
                 let (sym, nr) = self.resolve_collection(collection)?;
                 match self.collection_reg(sym, &nr)? {
@@ -1610,7 +1610,7 @@ impl<'i> Compiler<'i> {
                     let val = self.compile_expr(value)?;
                     let coll = self.compile_expr(collection)?;
                     self.emit(Op::RemoveFrom { collection: coll, value: val });
-                    return Ok(());
+                    return self.store_field_back(collection, coll);
                 }
                 let (sym, nr) = self.resolve_collection(collection)?;
                 match self.collection_reg(sym, &nr)? {
@@ -1639,7 +1639,7 @@ impl<'i> Compiler<'i> {
                     let val = self.compile_expr(value)?;
                     let coll = self.compile_expr(collection)?;
                     self.emit(Op::SetIndex { collection: coll, index: idx, value: val });
-                    return Ok(());
+                    return self.store_field_back(collection, coll);
                 }
                 let proven = self.index_in_bounds(collection, index);
                 let (sym, nr) = self.resolve_collection(collection)?;
@@ -2952,6 +2952,28 @@ impl<'i> Compiler<'i> {
         Ok(())
     }
 
+    /// After a collection read out of a struct field was changed in `reg`: the change may have
+    /// been made on a copy of its own, so put it back into the field.
+    fn store_field_back(&mut self, collection: &Expr, reg: Reg) -> Result<(), String> {
+        let Expr::FieldAccess { object: Expr::Identifier(obj_sym), field } = collection else {
+            return Ok(());
+        };
+        let name = self.interner.resolve(*field).to_string();
+        let field = self.add_const(Constant::Text(name))?;
+        match self.resolve_name(*obj_sym) {
+            NameRef::Local(obj) => {
+                self.emit(Op::StructInsert { obj, field, value: reg });
+                Ok(())
+            }
+            _ => {
+                let obj = self.alloc_reg()?;
+                self.emit_read(*obj_sym, obj)?;
+                self.emit(Op::StructInsert { obj, field, value: reg });
+                self.emit_write(*obj_sym, obj)
+            }
+        }
+    }
+
     /// Compile `Show x to f` / `Give x to f` — the value goes to a FUNCTION
     /// recipient via the tree-walker's `call_function_with_values` dispatch,
     /// which knows only `show`, user functions, and closures (NOT the other
-- 
2.43.0


From a4d3f117b37954070ee95f5145769be533ea0937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:32:06 +0000
Subject: [PATCH 41/43] fix: keep locals apart when entering binders in the
 type checker

---
 .../logicaffeine_kernel/src/type_checker.rs   | 188 +++++++++++++-----
 1 file changed, 139 insertions(+), 49 deletions(-)

diff --git a/crates/logicaffeine_kernel/src/type_checker.rs b/crates/logicaffeine_kernel/src/type_checker.rs
index a8b31e1..5af055b 100644
--- a/crates/logicaffeine_kernel/src/type_checker.rs
+++ b/crates/logicaffeine_kernel/src/type_checker.rs
@@ -23,6 +23,8 @@
 //!         Γ ⊢ f a : B[x := a]
 //! ```
 
+use std::borrow::Cow;
+
 use crate::context::Context;
 use crate::error::{KernelError, KernelResult};
 use crate::reduction::normalize;
@@ -94,8 +96,9 @@ pub fn infer_type(ctx: &Context, term: &Term) -> KernelResult<Term> {
             let a_sort = infer_sort(ctx, param_type)?;
 
             // B must be a type in the extended context
-            let extended_ctx = ctx.extend(param, (**param_type).clone());
-            let b_sort = infer_sort(&extended_ctx, body_type)?;
+            let (param, body_type) = open_binder(ctx, param, body_type);
+            let extended_ctx = ctx.extend(&param, (**param_type).clone());
+            let b_sort = infer_sort(&extended_ctx, &body_type)?;
 
             // Product formation (CIC). `Prop` is **impredicative**: a Π whose
             // codomain is a proposition is itself a proposition, no matter the
@@ -119,12 +122,13 @@ pub fn infer_type(ctx: &Context, term: &Term) -> KernelResult<Term> {
             let _ = infer_sort(ctx, param_type)?;
 
             // Infer body type in extended context
-            let extended_ctx = ctx.extend(param, (**param_type).clone());
-            let body_type = infer_type(&extended_ctx, body)?;
+            let (param, body) = open_binder(ctx, param, body);
+            let extended_ctx = ctx.extend(&param, (**param_type).clone());
+            let body_type = infer_type(&extended_ctx, &body)?;
 
             // The lambda has a Pi type
             Ok(Term::Pi {
-                param: param.clone(),
+                param: param.into_owned(),
                 param_type: param_type.clone(),
                 body_type: Box::new(body_type),
             })
@@ -336,8 +340,9 @@ pub fn infer_type(ctx: &Context, term: &Term) -> KernelResult<Term> {
             crate::termination::check_termination(ctx, name, body)?;
 
             // Sanity check: verify the body is well-formed with f bound
-            let extended = ctx.extend(name, structural_type.clone());
-            let _ = infer_type(&extended, body)?;
+            let (name, body) = open_binder(ctx, name, body);
+            let extended = ctx.extend(&name, structural_type.clone());
+            let _ = infer_type(&extended, &body)?;
 
             Ok(structural_type)
         }
@@ -365,10 +370,20 @@ pub fn infer_type(ctx: &Context, term: &Term) -> KernelResult<Term> {
             // Sanity: every body is well-formed with ALL names bound to their structural
             // types (a sibling call `rec_Odd n' o` sees `rec_Odd`'s type this way).
             let mut extended = ctx.clone();
+            let mut bodies: Vec<Term> = defs.iter().map(|(_, body)| body.clone()).collect();
             for ((name, _), ty) in defs.iter().zip(types.iter()) {
-                extended = extended.extend(name, ty.clone());
+                let mut name = name.clone();
+                if extended.get(&name).is_some() {
+                    let mut avoid = std::collections::HashSet::new();
+                    bodies.iter().for_each(|b| all_var_names(b, &mut avoid));
+                    avoid.extend(defs.iter().map(|(n, _)| n.clone()));
+                    let fresh = fresh_local(&extended, &name, &mut avoid);
+                    bodies = bodies.iter().map(|b| rename_var(b, &name, &fresh)).collect();
+                    name = fresh;
+                }
+                extended = extended.extend(&name, ty.clone());
             }
-            for (_, body) in defs {
+            for body in &bodies {
                 let _ = infer_type(&extended, body)?;
             }
 
@@ -396,12 +411,13 @@ fn infer_fix_type_structurally(ctx: &Context, term: &Term) -> KernelResult<Term>
             let _ = infer_sort(ctx, param_type)?;
 
             // Extend context and recurse into body
-            let extended = ctx.extend(param, (**param_type).clone());
-            let body_type = infer_fix_type_structurally(&extended, body)?;
+            let (param, body) = open_binder(ctx, param, body);
+            let extended = ctx.extend(&param, (**param_type).clone());
+            let body_type = infer_fix_type_structurally(&extended, &body)?;
 
             // Build Pi type
             Ok(Term::Pi {
-                param: param.clone(),
+                param: param.into_owned(),
                 param_type: param_type.clone(),
                 body_type: Box::new(body_type),
             })
@@ -489,14 +505,10 @@ fn check_type(ctx: &Context, term: &Term, expected: &Term) -> KernelResult<()> {
                 } = expected
                 {
                     // Check body in extended context using expected param type
-                    let extended_ctx = ctx.extend(param, (**expected_param_type).clone());
-                    // Substitute in expected_body_type if param names differ
-                    let body_expected = if param != expected_param {
-                        substitute(expected_body_type, expected_param, &Term::Var(param.clone()))
-                    } else {
-                        (**expected_body_type).clone()
-                    };
-                    return check_type(&extended_ctx, body, &body_expected);
+                    let (param, body, body_expected) =
+                        open_binders(Some(ctx), param, body, expected_param, expected_body_type);
+                    let extended_ctx = ctx.extend(&param, (**expected_param_type).clone());
+                    return check_type(&extended_ctx, &body, &body_expected);
                 }
             }
         }
@@ -562,9 +574,9 @@ pub fn check_constructor_universes(
     // Walk the constructor telescope; the leading `num_params` are the inductive's uniform
     // parameters, the rest are stored VALUE fields subject to the constraint.
     let mut ext = ctx.clone();
-    let mut cur = ty;
+    let mut cur = ty.clone();
     let mut i = 0usize;
-    while let Term::Pi { param, param_type, body_type } = cur {
+    while let Term::Pi { param, param_type, body_type } = &cur {
         if i >= num_params {
             let s = infer_sort(&ext, param_type)?;
             if !s.is_subtype_of(&target) {
@@ -574,8 +586,9 @@ pub fn check_constructor_universes(
                 )));
             }
         }
-        ext = ext.extend(param, (**param_type).clone());
-        cur = body_type;
+        let (param, body_type) = open_binder(&ext, param, body_type);
+        ext = ext.extend(&param, (**param_type).clone());
+        cur = body_type.into_owned();
         i += 1;
     }
     Ok(())
@@ -1056,6 +1069,81 @@ fn fresh_name(base: &str, avoid: &std::collections::HashSet<String>) -> String {
     candidate
 }
 
+/// A name for a local that neither `ctx` nor `avoid` knows.
+fn fresh_local(ctx: &Context, base: &str, avoid: &mut std::collections::HashSet<String>) -> String {
+    let mut name = fresh_name(base, avoid);
+    while ctx.get(&name).is_some() {
+        avoid.insert(name);
+        name = fresh_name(base, avoid);
+    }
+    name
+}
+
+/// Whether entering a binder `param` over `body` would hide a local that types in `ctx` may
+/// mention. The anonymous `_` is bound again and again, so it is kept unless it is referred to.
+fn hides(ctx: &Context, param: &str, body: &Term) -> bool {
+    if param == "_" {
+        occurs_free(body, param)
+    } else {
+        ctx.get(param).is_some()
+    }
+}
+
+/// The binder's name and body, renamed where the name would hide a local of `ctx`: the types
+/// recorded in a context refer to its locals by name, so a name may not be bound in it twice.
+fn open_binder<'a>(ctx: &Context, param: &'a str, body: &'a Term) -> (Cow<'a, str>, Cow<'a, Term>) {
+    if !hides(ctx, param, body) {
+        return (Cow::Borrowed(param), Cow::Borrowed(body));
+    }
+    let mut avoid = std::collections::HashSet::new();
+    all_var_names(body, &mut avoid);
+    let fresh = fresh_local(ctx, param, &mut avoid);
+    let body = rename_var(body, param, &fresh);
+    (Cow::Owned(fresh), Cow::Owned(body))
+}
+
+/// [`open_binder`] with a name that does not occur free in `other` either.
+fn open_binder_apart<'a>(
+    ctx: &Context,
+    param: &'a str,
+    body: &'a Term,
+    other: &Term,
+) -> (Cow<'a, str>, Cow<'a, Term>) {
+    if !hides(ctx, param, body) && !occurs_free(other, param) {
+        return (Cow::Borrowed(param), Cow::Borrowed(body));
+    }
+    let mut avoid = std::collections::HashSet::new();
+    all_var_names(body, &mut avoid);
+    all_var_names(other, &mut avoid);
+    let fresh = fresh_local(ctx, param, &mut avoid);
+    let body = rename_var(body, param, &fresh);
+    (Cow::Owned(fresh), Cow::Owned(body))
+}
+
+/// The bodies of two binders under one common name that captures nothing in either.
+fn open_binders<'a>(
+    ctx: Option<&Context>,
+    p1: &'a str,
+    b1: &'a Term,
+    p2: &str,
+    b2: &Term,
+) -> (Cow<'a, str>, Cow<'a, Term>, Term) {
+    let clash = (p1 != p2 && occurs_free(b2, p1)) || ctx.is_some_and(|c| hides(c, p1, b1));
+    if !clash {
+        return (Cow::Borrowed(p1), Cow::Borrowed(b1), substitute(b2, p2, &Term::Var(p1.to_string())));
+    }
+    let mut avoid = std::collections::HashSet::new();
+    all_var_names(b1, &mut avoid);
+    all_var_names(b2, &mut avoid);
+    let fresh = match ctx {
+        Some(ctx) => fresh_local(ctx, p1, &mut avoid),
+        None => fresh_name(p1, &avoid),
+    };
+    let b1 = rename_var(b1, p1, &fresh);
+    let b2 = rename_var(b2, p2, &fresh);
+    (Cow::Owned(fresh), Cow::Owned(b1), b2)
+}
+
 /// Choose a fresh binder name for `param`, avoiding the replacement's free vars,
 /// every name occurring in `body`, and the variable being substituted.
 fn freshen(
@@ -1348,9 +1436,9 @@ fn is_subtype_normalized(ctx: &Context, a: &Term, b: &Term) -> bool {
             // Contravariant: t2 ≤ t1 (the expected param can be more specific)
             is_subtype_normalized(ctx, t2, t1) && {
                 // Covariant: b1 ≤ b2 (alpha-rename to compare bodies, under the binder)
-                let ext = ctx.extend(p1, (**t1).clone());
-                let b2_renamed = substitute(b2, p2, &Term::Var(p1.clone()));
-                is_subtype_normalized(&ext, b1, &b2_renamed)
+                let (p, b1, b2) = open_binders(Some(ctx), p1, b1, p2, b2);
+                let ext = ctx.extend(&p, (**t1).clone());
+                is_subtype_normalized(&ext, &b1, &b2)
             }
         }
 
@@ -1452,16 +1540,18 @@ fn def_eq_normalized(ctx: &Context, a: &Term, b: &Term) -> bool {
     // the other side applied to the bound variable, under the binder.
     if let Term::Lambda { param, param_type, body } = a {
         if !matches!(b, Term::Lambda { .. }) {
-            let ext = ctx.extend(param, (**param_type).clone());
-            let bx = normalize(ctx, &Term::App(Box::new(b.clone()), Box::new(Term::Var(param.clone()))));
-            return def_eq_normalized(&ext, body, &bx);
+            let (param, body) = open_binder_apart(ctx, param, body, b);
+            let ext = ctx.extend(&param, (**param_type).clone());
+            let bx = normalize(ctx, &Term::App(Box::new(b.clone()), Box::new(Term::Var(param.to_string()))));
+            return def_eq_normalized(&ext, &body, &bx);
         }
     }
     if let Term::Lambda { param, param_type, body } = b {
         if !matches!(a, Term::Lambda { .. }) {
-            let ext = ctx.extend(param, (**param_type).clone());
-            let ax = normalize(ctx, &Term::App(Box::new(a.clone()), Box::new(Term::Var(param.clone()))));
-            return def_eq_normalized(&ext, &ax, body);
+            let (param, body) = open_binder_apart(ctx, param, body, a);
+            let ext = ctx.extend(&param, (**param_type).clone());
+            let ax = normalize(ctx, &Term::App(Box::new(a.clone()), Box::new(Term::Var(param.to_string()))));
+            return def_eq_normalized(&ext, &ax, &body);
         }
     }
 
@@ -1499,9 +1589,9 @@ fn def_eq_normalized(ctx: &Context, a: &Term, b: &Term) -> bool {
             Term::Pi { param: p2, param_type: t2, body_type: b2 },
         ) => {
             def_eq_normalized(ctx, t1, t2) && {
-                let ext = ctx.extend(p1, (**t1).clone());
-                let b2r = substitute(b2, p2, &Term::Var(p1.clone()));
-                def_eq_normalized(&ext, b1, &b2r)
+                let (p, b1, b2) = open_binders(Some(ctx), p1, b1, p2, b2);
+                let ext = ctx.extend(&p, (**t1).clone());
+                def_eq_normalized(&ext, &b1, &b2)
             }
         }
         (
@@ -1509,9 +1599,9 @@ fn def_eq_normalized(ctx: &Context, a: &Term, b: &Term) -> bool {
             Term::Lambda { param: p2, param_type: t2, body: b2 },
         ) => {
             def_eq_normalized(ctx, t1, t2) && {
-                let ext = ctx.extend(p1, (**t1).clone());
-                let b2r = substitute(b2, p2, &Term::Var(p1.clone()));
-                def_eq_normalized(&ext, b1, &b2r)
+                let (p, b1, b2) = open_binders(Some(ctx), p1, b1, p2, b2);
+                let ext = ctx.extend(&p, (**t1).clone());
+                def_eq_normalized(&ext, &b1, &b2)
             }
         }
         (Term::App(f1, a1), Term::App(f2, a2)) => {
@@ -1527,8 +1617,8 @@ fn def_eq_normalized(ctx: &Context, a: &Term, b: &Term) -> bool {
                 && c1.iter().zip(c2.iter()).all(|(x, y)| def_eq_normalized(ctx, x, y))
         }
         (Term::Fix { name: n1, body: b1 }, Term::Fix { name: n2, body: b2 }) => {
-            let b2r = substitute(b2, n2, &Term::Var(n1.clone()));
-            def_eq_normalized(ctx, b1, &b2r)
+            let (_, b1, b2) = open_binders(Some(ctx), n1, b1, n2, b2);
+            def_eq_normalized(ctx, &b1, &b2)
         }
         _ => false,
     };
@@ -1618,9 +1708,9 @@ fn types_equal(a: &Term, b: &Term) -> bool {
             },
         ) => {
             types_equal(t1, t2) && {
-                // Alpha-equivalence: rename p2 to p1 in b2
-                let b2_renamed = substitute(b2, p2, &Term::Var(p1.clone()));
-                types_equal(b1, &b2_renamed)
+                // Alpha-equivalence: the same name for both binders
+                let (_, b1, b2) = open_binders(None, p1, b1, p2, b2);
+                types_equal(&b1, &b2)
             }
         }
 
@@ -1637,8 +1727,8 @@ fn types_equal(a: &Term, b: &Term) -> bool {
             },
         ) => {
             types_equal(t1, t2) && {
-                let b2_renamed = substitute(b2, p2, &Term::Var(p1.clone()));
-                types_equal(b1, &b2_renamed)
+                let (_, b1, b2) = open_binders(None, p1, b1, p2, b2);
+                types_equal(&b1, &b2)
             }
         }
 
@@ -1672,9 +1762,9 @@ fn types_equal(a: &Term, b: &Term) -> bool {
                 body: b2,
             },
         ) => {
-            // Alpha-equivalence: rename n2 to n1 in b2
-            let b2_renamed = substitute(b2, n2, &Term::Var(n1.clone()));
-            types_equal(b1, &b2_renamed)
+            // Alpha-equivalence: the same name for both binders
+            let (_, b1, b2) = open_binders(None, n1, b1, n2, b2);
+            types_equal(&b1, &b2)
         }
 
         _ => false,
-- 
2.43.0


From c6ad131f3dd07a8f4692a4c5a88346aae87e84d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:32:06 +0000
Subject: [PATCH 42/43] fix: count only recursive fields as smaller in the
 termination guard

---
 crates/logicaffeine_kernel/src/termination.rs | 63 ++++++++++++-------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/crates/logicaffeine_kernel/src/termination.rs b/crates/logicaffeine_kernel/src/termination.rs
index e2c7824..ccc8569 100644
--- a/crates/logicaffeine_kernel/src/termination.rs
+++ b/crates/logicaffeine_kernel/src/termination.rs
@@ -409,13 +409,13 @@ fn check_match_cases_guarded(
     let constructors = ctx.get_constructors(&guard_ctx.struct_type);
 
     for (case, (ctor_name, ctor_type)) in cases.iter().zip(constructors.iter()) {
-        // Count constructor parameters
-        let param_count = count_pi_params(ctor_type);
+        // The case binds the constructor's arguments past the inductive's parameters, which are
+        // fixed by the discriminant; a further λ belongs to the case's result.
+        let fields = constructor_fields(ctor_type, ctx.inductive_num_params(&guard_ctx.struct_type));
 
-        // Extract the smaller variables from this case
         // The case is typically: λx1. λx2. ... λxn. body
-        // where x1..xn are the constructor parameters
-        let (smaller_vars, case_body) = extract_lambda_params(case, param_count);
+        // where x1..xn are the constructor's fields
+        let (field_vars, case_body) = extract_lambda_params(case, fields.len());
 
         // Create extended guard context with these variables as smaller
         let mut extended_ctx = GuardContext {
@@ -427,24 +427,24 @@ fn check_match_cases_guarded(
             shadowed_fix: guard_ctx.shadowed_fix.clone(),
         };
 
-        // Mark every constructor parameter as structurally smaller.
+        // Mark the recursive fields as structurally smaller.
         //
         // Soundness: we only reach here when the discriminant is the structural
         // parameter itself (see `check_guarded`'s `Match` arm), so the matched
-        // value is `ctor x1 … xn` and each `xi` is a *direct argument* of that
-        // constructor — hence a genuine structural subterm of the parameter.
-        // Recursing on any `xi` therefore decreases. Parameters of a foreign
-        // type are still marked, but a recursive call on one cannot type-check
-        // (the fixpoint expects the structural type), and complex (non-variable)
-        // recursive arguments are rejected outright — so the over-approximation
-        // never admits a non-terminating fixpoint. `ctor_name`/`ctor_type` are
-        // bound for the constructor-arity computation above.
+        // value is `ctor x1 … xn` and a field that is a value of the inductive (or
+        // of its mutual block), or a function into it, holds proper subterms. A
+        // field of any other type is not marked: one such as `Π(P:Prop). P → P`
+        // can be applied to the whole value and hand it back.
         let _ = ctor_name;
-        for var in &smaller_vars {
-            extended_ctx.smaller_than.insert(var.clone());
+        for (var, ty) in field_vars.iter().zip(fields.iter()) {
+            if is_recursive_field(ctx, &guard_ctx.struct_type, ty) {
+                extended_ctx.smaller_than.insert(var.clone());
+            } else {
+                extended_ctx.smaller_than.remove(var);
+            }
             // A constructor binder may reuse the name of the structural parameter
             // or the fixpoint; inside this case that name now refers to the
-            // (smaller) bound variable, so the original meaning is shadowed.
+            // bound variable, so the original meaning is shadowed.
             if var == &guard_ctx.struct_param {
                 extended_ctx.struct_param_live = false;
             }
@@ -460,11 +460,30 @@ fn check_match_cases_guarded(
     Ok(())
 }
 
-/// Count the number of Pi parameters in a type.
-fn count_pi_params(ty: &Term) -> usize {
-    match ty {
-        Term::Pi { body_type, .. } => 1 + count_pi_params(body_type),
-        _ => 0,
+/// The types of a constructor's arguments past the first `num_params`.
+fn constructor_fields(ty: &Term, num_params: usize) -> Vec<&Term> {
+    let mut fields = Vec::new();
+    let mut cur = ty;
+    while let Term::Pi { param_type, body_type, .. } = cur {
+        fields.push(param_type.as_ref());
+        cur = body_type;
+    }
+    fields.split_off(num_params.min(fields.len()))
+}
+
+/// Whether a field holds values of `inductive` or of a member of its mutual block: the type is
+/// such an inductive, or a function into one.
+fn is_recursive_field(ctx: &Context, inductive: &str, ty: &Term) -> bool {
+    let mut cur = ty;
+    while let Term::Pi { body_type, .. } = cur {
+        cur = body_type;
+    }
+    match extract_inductive_name(ctx, cur) {
+        Some(name) => {
+            name == inductive
+                || ctx.mutual_block_of(inductive).is_some_and(|block| block.contains(&name))
+        }
+        None => false,
     }
 }
 
-- 
2.43.0


From f70d274f1f82dd240db170c74c1df8ffcf7b9ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:32:06 +0000
Subject: [PATCH 43/43] fix: data arguments of an indexed proposition block
 large elimination

---
 .../logicaffeine_kernel/src/type_checker.rs   | 32 ++++++++-----------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/crates/logicaffeine_kernel/src/type_checker.rs b/crates/logicaffeine_kernel/src/type_checker.rs
index 5af055b..f63fe68 100644
--- a/crates/logicaffeine_kernel/src/type_checker.rs
+++ b/crates/logicaffeine_kernel/src/type_checker.rs
@@ -1781,38 +1781,32 @@ pub(crate) fn is_subsingleton_prop(ctx: &Context, inductive_name: &str) -> Kerne
         0 => Ok(true),
         1 => {
             let ctor_type = ctors[0].1.clone();
-            let ind_type = ctx
-                .get_global(inductive_name)
-                .cloned()
-                .ok_or_else(|| KernelError::UnboundVariable(inductive_name.to_string()))?;
-            // The inductive's arity prefix (parameters + indices) is not "data"; only constructor
-            // arguments beyond it carry content and must be propositional.
-            let arity = pi_param_count(&ind_type);
+            // The parameters are not "data", and neither is an argument that the type itself shows
+            // as an index; every other constructor argument must be propositional.
+            let num_params = ctx.inductive_num_params(inductive_name);
             let mut local = ctx.clone();
             let mut t = ctor_type;
             let mut i = 0;
+            let mut data: Vec<String> = Vec::new();
             while let Term::Pi { param, param_type, body_type } = t {
-                if i >= arity && infer_sort(&local, &param_type)? != Universe::Prop {
-                    return Ok(false);
+                let (param, body_type) = {
+                    let (p, b) = open_binder(&local, &param, &body_type);
+                    (p.into_owned(), b.into_owned())
+                };
+                if i >= num_params && infer_sort(&local, &param_type)? != Universe::Prop {
+                    data.push(param.clone());
                 }
                 local = local.extend(&param, (*param_type).clone());
-                t = *body_type;
+                t = body_type;
                 i += 1;
             }
-            Ok(true)
+            let shown = extract_type_args(&t);
+            Ok(data.iter().all(|d| shown.iter().any(|a| matches!(a, Term::Var(v) if v == d))))
         }
         _ => Ok(false),
     }
 }
 
-/// Count the leading `Π` binders of a type (an inductive's arity).
-fn pi_param_count(ty: &Term) -> usize {
-    match ty {
-        Term::Pi { body_type, .. } => 1 + pi_param_count(body_type),
-        _ => 0,
-    }
-}
-
 #[cfg(test)]
 mod large_elim_tests {
     use super::*;
-- 
2.43.0

