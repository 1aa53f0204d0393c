From 3ec9f1d93cc638b296466bfa84ac3e2274cdce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 01/33] hook: cfg(tonbo_verif)-guarded module that includes an
 external verification harness

---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3e0b47b..5dfb412 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -280,3 +280,14 @@ pub(crate) mod ondisk;
 
 /// Simple compaction orchestrators.
 pub(crate) mod compaction;
+
+/// Verification harness compiled into the crate only under `--cfg tonbo_verif`.
+///
+/// The source path comes from the `TONBO_VERIF_SRC` environment variable at build time.
+#[allow(unexpected_cfgs)]
+#[cfg(tonbo_verif)]
+#[doc(hidden)]
+#[allow(missing_docs, dead_code, unused, clippy::all, clippy::unwrap_used)]
+pub mod verif {
+    include!(env!("TONBO_VERIF_SRC"));
+}
-- 
2.43.0


From 8a5f47f40b1c6ba8e90887cfc01b18dcfa755a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:28 +0000
Subject: [PATCH 02/33] fix: a refused batch must not seal the full write
 buffer and drop it

insert_batch/insert_delete_batch reserved a slot (and sealed when none was left) before the
keys were extracted. A batch refused by key extraction at capacity therefore sealed the buffer
and dropped the sealed segment with the error; below capacity it leaked a slot. Extract keys
first.
---
 src/inmem/mutable/memtable.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/inmem/mutable/memtable.rs b/src/inmem/mutable/memtable.rs
index 654e707..79c5c64 100644
--- a/src/inmem/mutable/memtable.rs
+++ b/src/inmem/mutable/memtable.rs
@@ -143,6 +143,14 @@ impl DynMemInner {
         batch: RecordBatch,
         commit_ts_column: UInt64Array,
     ) -> Result<Result<(), KeyExtractError>, ()> {
+        // Extract the keys before reserving anything, so that a refused batch neither consumes a
+        // slot nor triggers a seal.
+        let row_indices: Vec<usize> = (0..batch.num_rows()).collect();
+        let key_rows = match extractor.project_view(&batch, &row_indices) {
+            Ok(rows) => rows,
+            Err(e) => return Ok(Err(e)),
+        };
+
         // Reserve a slot atomically - no global lock needed.
         let batch_id = self.batch_cursor.fetch_add(1, Ordering::SeqCst);
         if batch_id >= self.batch_slots.len() {
@@ -160,12 +168,6 @@ impl DynMemInner {
             ))
             .expect("batch slot already initialized - invariant violated");
 
-        let row_indices: Vec<usize> = (0..batch.num_rows()).collect();
-        let key_rows = match extractor.project_view(&batch, &row_indices) {
-            Ok(rows) => rows,
-            Err(e) => return Ok(Err(e)),
-        };
-
         for (row_idx, key_row) in key_rows.into_iter().enumerate() {
             let key_size = key_row.heap_size();
             let key_owned = key_row.to_owned();
@@ -237,13 +239,6 @@ impl DynMemInner {
             ))));
         }
 
-        // Reserve a delete slot atomically (lock-free).
-        let slot_idx = self.delete_cursor.fetch_add(1, Ordering::SeqCst);
-        if slot_idx >= self.delete_slots.len() {
-            self.delete_cursor.fetch_sub(1, Ordering::SeqCst);
-            return Err(()); // Capacity exhausted
-        }
-
         let row_indices: Vec<usize> = (0..batch.num_rows()).collect();
         let key_rows = match delete_projection.project_view(&batch, &row_indices) {
             Ok(rows) => rows,
@@ -260,6 +255,13 @@ impl DynMemInner {
         };
         let attachment = DeleteAttachment::new(key_batch, commit_array.clone());
 
+        // Reserve a delete slot atomically (lock-free).
+        let slot_idx = self.delete_cursor.fetch_add(1, Ordering::SeqCst);
+        if slot_idx >= self.delete_slots.len() {
+            self.delete_cursor.fetch_sub(1, Ordering::SeqCst);
+            return Err(()); // Capacity exhausted
+        }
+
         // Write once via OnceLock (no concurrent writes to same slot).
         self.delete_slots[slot_idx]
             .set(attachment)
-- 
2.43.0


From ce4c2690a05fba7f37fb876de27e71ae83b005c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:28 +0000
Subject: [PATCH 03/33] fix: commit time bounds of a sealed buffer must include
 its deletes

prune_segments skips a segment whose oldest commit is newer than the read timestamp, but only
upserts were considered, so a delete older than every upsert of its segment was ignored and the
deleted row reappeared.
---
 src/inmem/immutable/memtable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inmem/immutable/memtable.rs b/src/inmem/immutable/memtable.rs
index fae1e7e..de0f210 100644
--- a/src/inmem/immutable/memtable.rs
+++ b/src/inmem/immutable/memtable.rs
@@ -148,7 +148,7 @@ impl ImmutableMemTable {
     }
 
     pub(crate) fn commit_ts_bounds(&self) -> Option<(Timestamp, Timestamp)> {
-        let mut iter = self.mvcc.commit_ts.iter();
+        let mut iter = self.mvcc.commit_ts.iter().chain(&self.deletes.commit_ts);
         let first = iter.next()?;
         let mut min_ts = *first;
         let mut max_ts = *first;
-- 
2.43.0


From 2444c9f0b653ba6eea6e67a6f4b3855ea8d94a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:28 +0000
Subject: [PATCH 04/33] fix: empty batches must not exhaust the write buffer

A batch without rows consumed a slot; with only such batches attached the buffer could not be
sealed (its index is empty) and every later insert failed for lack of capacity.
---
 src/inmem/mutable/memtable.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/inmem/mutable/memtable.rs b/src/inmem/mutable/memtable.rs
index 79c5c64..09ba778 100644
--- a/src/inmem/mutable/memtable.rs
+++ b/src/inmem/mutable/memtable.rs
@@ -151,6 +151,10 @@ impl DynMemInner {
             Err(e) => return Ok(Err(e)),
         };
 
+        if key_rows.is_empty() {
+            return Ok(Ok(()));
+        }
+
         // Reserve a slot atomically - no global lock needed.
         let batch_id = self.batch_cursor.fetch_add(1, Ordering::SeqCst);
         if batch_id >= self.batch_slots.len() {
-- 
2.43.0


From 54ad9051c6ade89cfe89f82cd081ad12c2323af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:43 +0000
Subject: [PATCH 05/33] fix: float keys need one total order that agrees with
 equality and hashing

NaN compared equal to every number in the ordering (so ordered structures misplaced entries)
while differing under ==; 0.0 and -0.0 were equal but hashed differently.
---
 src/key/row.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/key/row.rs b/src/key/row.rs
index 30b7c10..5b23e18 100644
--- a/src/key/row.rs
+++ b/src/key/row.rs
@@ -323,18 +323,22 @@ fn floats_equal_f64(lhs: f64, rhs: f64) -> bool {
 }
 
 fn floats_cmp_f32(lhs: f32, rhs: f32) -> Ordering {
-    lhs.partial_cmp(&rhs).unwrap_or(Ordering::Equal)
+    // NaN equals NaN and sorts after every number, matching the equality above.
+    lhs.partial_cmp(&rhs)
+        .unwrap_or_else(|| lhs.is_nan().cmp(&rhs.is_nan()))
 }
 
 fn floats_cmp_f64(lhs: f64, rhs: f64) -> Ordering {
-    lhs.partial_cmp(&rhs).unwrap_or(Ordering::Equal)
+    lhs.partial_cmp(&rhs)
+        .unwrap_or_else(|| lhs.is_nan().cmp(&rhs.is_nan()))
 }
 
 fn hash_float_f32<H: Hasher>(value: f32, state: &mut H) {
     if value.is_nan() {
         0xFFu8.hash(state);
     } else {
-        value.to_bits().hash(state);
+        // 0.0 and -0.0 are equal keys and must hash alike.
+        (value + 0.0).to_bits().hash(state);
     }
 }
 
@@ -342,7 +346,8 @@ fn hash_float_f64<H: Hasher>(value: f64, state: &mut H) {
     if value.is_nan() {
         0xFFu8.hash(state);
     } else {
-        value.to_bits().hash(state);
+        // 0.0 and -0.0 are equal keys and must hash alike.
+        (value + 0.0).to_bits().hash(state);
     }
 }
 
-- 
2.43.0


From c58684482f454fbb97db353c223c4f8c501dffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:43 +0000
Subject: [PATCH 06/33] fix: refuse union key columns instead of panicking

Union keys cannot be compared, stored or written to Parquet; declaring one panicked inside the
projection. Report UnsupportedType like for every other unsupported key type.
---
 src/extractor/extractors.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/extractor/extractors.rs b/src/extractor/extractors.rs
index eefda74..fb11a41 100644
--- a/src/extractor/extractors.rs
+++ b/src/extractor/extractors.rs
@@ -150,7 +150,6 @@ fn ensure_supported_type(data_type: &DataType, col: usize) -> Result<(), KeyExtr
         | DataType::LargeUtf8
         | DataType::Binary
         | DataType::LargeBinary
-        | DataType::Union(_, _)
         | DataType::FixedSizeBinary(_) => Ok(()),
         other => Err(KeyExtractError::UnsupportedType {
             col,
-- 
2.43.0


From 208c65a5dce85ac201027d1c6187e91271d1be31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:04 +0000
Subject: [PATCH 07/33] fix: float keys must survive being stored in the
 manifest

Key bounds of data files are stored as JSON. NaN and infinities were written as null, which made
the manifest unreadable afterwards. Store float components as bit patterns; the previous form is
still read.
---
 src/key/owned.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/key/owned.rs b/src/key/owned.rs
index e310566..f27fcb6 100644
--- a/src/key/owned.rs
+++ b/src/key/owned.rs
@@ -203,7 +203,12 @@ impl Serialize for KeyOwned {
                 .as_ref()
                 .ok_or_else(|| SerError::custom(format!("key component {idx} was null")))?;
             cell_data_type(value).map_err(|err| SerError::custom(err.to_string()))?;
-            seq.serialize_element(value)?;
+            match value {
+                // The JSON metadata encodings have no NaN or infinities and round other floats.
+                DynCell::F32(v) => seq.serialize_element(&StoredFloat::F32Bits(v.to_bits()))?,
+                DynCell::F64(v) => seq.serialize_element(&StoredFloat::F64Bits(v.to_bits()))?,
+                other => seq.serialize_element(other)?,
+            }
         }
         seq.end()
     }
@@ -267,6 +272,20 @@ fn cell_data_type(cell: &DynCell) -> Result<DataType, KeyOwnedError> {
     }
 }
 
+/// Exact encoding of float components, which plain JSON numbers cannot represent in full.
+#[derive(Serialize, Deserialize)]
+enum StoredFloat {
+    F32Bits(u32),
+    F64Bits(u64),
+}
+
+#[derive(Deserialize)]
+#[serde(untagged)]
+enum StoredCell {
+    Float(StoredFloat),
+    Plain(DynCell),
+}
+
 struct DynCellSeqVisitor;
 
 impl<'de> Visitor<'de> for DynCellSeqVisitor {
@@ -281,8 +300,16 @@ impl<'de> Visitor<'de> for DynCellSeqVisitor {
         A: SeqAccess<'de>,
     {
         let mut cells = Vec::new();
-        while let Some(cell) = seq.next_element::<DynCell>()? {
-            cells.push(cell);
+        while let Some(cell) = seq.next_element::<StoredCell>()? {
+            cells.push(match cell {
+                StoredCell::Float(StoredFloat::F32Bits(bits)) => {
+                    DynCell::F32(f32::from_bits(bits))
+                }
+                StoredCell::Float(StoredFloat::F64Bits(bits)) => {
+                    DynCell::F64(f64::from_bits(bits))
+                }
+                StoredCell::Plain(cell) => cell,
+            });
         }
         Ok(cells)
     }
-- 
2.43.0


From 9412ba5e9b040828004d0c9a8dc930cf24911f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:50 +0000
Subject: [PATCH 08/33] fix: record sequence must continue after a restart on a
 freshly rotated log file

Right after a rotation the active segment is empty, so the writer restarted
record sequence numbers (from 1 without a state record, or from a lagging
state record) and reused numbers already present in sealed segments.
---
 src/wal/writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wal/writer.rs b/src/wal/writer.rs
index fd6d505..800dac5 100644
--- a/src/wal/writer.rs
+++ b/src/wal/writer.rs
@@ -549,6 +549,10 @@ where
 
         let (completed_segments, active_segment, mut state_dirty) =
             Self::rehydrate_segment_metadata(&storage, &tail, state.as_ref()).await?;
+        // The active segment is empty right after a rotation; continue from the sealed ones.
+        for meta in &completed_segments {
+            next_frame_seq = next_frame_seq.max(meta.bounds.last_frame.saturating_add(1));
+        }
 
         if let Some(handle) = state.as_mut()
             && Self::align_state_with_segments(handle, &completed_segments, active_segment.as_ref())
-- 
2.43.0


From 9441e09cf7bb870f1a442be91371d0013629a4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:13 +0000
Subject: [PATCH 09/33] fix: cut a torn log tail in one step on local disks

The repair of a torn last record truncated the segment to zero and rewrote
its complete records; a crash between the two lost acknowledged records.
---
 src/wal/storage.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/wal/storage.rs b/src/wal/storage.rs
index 9086ffb..e3be7f1 100644
--- a/src/wal/storage.rs
+++ b/src/wal/storage.rs
@@ -2,6 +2,8 @@
 
 use std::{io, sync::Arc};
 
+#[cfg(not(target_arch = "wasm32"))]
+use fusio::path::path_to_local;
 use fusio::{
     DynFs, Read, Write,
     dynamic::fs::DynFile,
@@ -399,6 +401,24 @@ impl WalStorage {
 
     async fn overwrite_segment(&self, path: &Path, data: Vec<u8>) -> WalResult<()> {
         let path_display = path.to_string();
+        // `data` is a prefix of the segment: on a local disk cut the file in one step, so that a
+        // crash in between cannot lose the records before the torn one.
+        #[cfg(not(target_arch = "wasm32"))]
+        if self.fs.file_system() == FileSystemTag::Local {
+            let local_path = path_to_local(path).map_err(|err| {
+                WalError::Storage(format!("failed to resolve wal segment path: {err}"))
+            })?;
+            return std::fs::OpenOptions::new()
+                .write(true)
+                .open(&local_path)
+                .and_then(|file| file.set_len(data.len() as u64))
+                .map_err(|err| {
+                    WalError::Storage(format!(
+                        "failed to truncate wal segment {}: {}",
+                        path_display, err
+                    ))
+                });
+        }
         let mut file = self
             .fs
             .open_options(path, OpenOptions::default().truncate(true))
-- 
2.43.0


From cfea305af5219a5e4e5915cde5299644c74c8d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:02 +0000
Subject: [PATCH 10/33] fix: transaction ids must not be reused while their
 records are still in the log

---
 src/wal/storage.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/wal/storage.rs b/src/wal/storage.rs
index e3be7f1..d6d4bff 100644
--- a/src/wal/storage.rs
+++ b/src/wal/storage.rs
@@ -273,13 +273,20 @@ impl WalStorage {
         let completed = segments;
         let TailScan {
             last,
+            max_provisional_id,
             file_len,
             truncated,
             buffer,
         } = self.scan_tail(&active.path).await?;
 
         let last_frame_seq = last.as_ref().map(|meta| meta.seq);
-        let last_provisional_id = last.as_ref().and_then(|meta| meta.provisional_id);
+        // Unfinished transactions may sit anywhere in the log, so new identifiers must exceed all
+        // of those still present, not just the one in the last record.
+        let mut last_provisional_id = max_provisional_id;
+        for descriptor in &completed {
+            let scan = self.scan_tail(&descriptor.path).await?;
+            last_provisional_id = last_provisional_id.max(scan.max_provisional_id);
+        }
         let last_valid_offset = last.as_ref().map(|meta| meta.end_offset);
 
         let mut truncated_tail = truncated;
@@ -337,6 +344,7 @@ impl WalStorage {
         let file_len = data.len();
         let mut offset = 0usize;
         let mut last = None;
+        let mut max_provisional_id = None;
         let mut truncated = false;
         while offset < data.len() {
             let slice = &data[offset..];
@@ -360,8 +368,10 @@ impl WalStorage {
 
             let payload = &data[(offset + FRAME_HEADER_SIZE)..payload_end];
             let provisional_id = match header.frame_type {
-                crate::wal::frame::FrameType::TxnAppend
-                | crate::wal::frame::FrameType::TxnCommit => {
+                crate::wal::frame::FrameType::TxnBegin
+                | crate::wal::frame::FrameType::TxnAppend
+                | crate::wal::frame::FrameType::TxnCommit
+                | crate::wal::frame::FrameType::TxnAbort => {
                     if payload.len() < 8 {
                         truncated = true;
                         break;
@@ -373,9 +383,9 @@ impl WalStorage {
                 _ => None,
             };
 
+            max_provisional_id = max_provisional_id.max(provisional_id);
             last = Some(FrameTailMeta {
                 seq: header.seq,
-                provisional_id,
                 end_offset: payload_end,
             });
             offset = payload_end;
@@ -393,6 +403,7 @@ impl WalStorage {
 
         Ok(TailScan {
             last,
+            max_provisional_id,
             file_len,
             truncated,
             buffer,
@@ -480,12 +491,12 @@ impl WalStorage {
 
 struct FrameTailMeta {
     seq: u64,
-    provisional_id: Option<u64>,
     end_offset: usize,
 }
 
 struct TailScan {
     last: Option<FrameTailMeta>,
+    max_provisional_id: Option<u64>,
     file_len: usize,
     truncated: bool,
     buffer: Option<Vec<u8>>,
@@ -546,7 +557,7 @@ pub(crate) struct TailMetadata {
     pub(super) completed: Vec<SegmentDescriptor>,
     /// Sequence of the last fully decoded frame (if any).
     pub(super) last_frame_seq: Option<u64>,
-    /// Provisional ID carried by the last complete frame (if any).
+    /// Highest provisional ID carried by any complete frame still in the log (if any).
     pub(super) last_provisional_id: Option<u64>,
 }
 
-- 
2.43.0


From de182acceca7a28a7837e5bca1c71038e2aa2dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:04 +0000
Subject: [PATCH 11/33] fix: keep compaction outputs when publication fails
 with an unknown outcome

---
 src/compaction/driver.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/compaction/driver.rs b/src/compaction/driver.rs
index 9801450..614e2cb 100644
--- a/src/compaction/driver.rs
+++ b/src/compaction/driver.rs
@@ -621,7 +621,12 @@ where
                     continue;
                 }
                 Err(err) => {
-                    executor.cleanup_outputs(&outcome.outputs).await?;
+                    // A backend failure leaves it unknown whether the edits took effect (or will,
+                    // once another session adopts the written segment), so the outputs may be
+                    // referenced by the manifest and must be kept.
+                    if !matches!(err, ManifestError::Backend(_)) {
+                        executor.cleanup_outputs(&outcome.outputs).await?;
+                    }
                     log_warn!(
                         component = "manifest",
                         event = "manifest_apply_failed",
@@ -846,7 +851,12 @@ where
                     continue;
                 }
                 Err(err) => {
-                    executor.cleanup_outputs(&outcome.outputs).await?;
+                    // A backend failure leaves it unknown whether the edits took effect (or will,
+                    // once another session adopts the written segment), so the outputs may be
+                    // referenced by the manifest and must be kept.
+                    if !matches!(err, ManifestError::Backend(_)) {
+                        executor.cleanup_outputs(&outcome.outputs).await?;
+                    }
                     log_warn!(
                         component = "manifest",
                         event = "manifest_apply_failed",
-- 
2.43.0


From 082efd0e9cc03b79c5d05f656aac6d752e44bba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:28 +0000
Subject: [PATCH 12/33] fix: merging files must not lose rows when data and
 deletes span different batches

---
 src/ondisk/merge.rs | 194 +++++++++++++++++++++-----------------------
 1 file changed, 94 insertions(+), 100 deletions(-)

diff --git a/src/ondisk/merge.rs b/src/ondisk/merge.rs
index a7f3185..8a6cce2 100644
--- a/src/ondisk/merge.rs
+++ b/src/ondisk/merge.rs
@@ -6,7 +6,7 @@
 //! surface focused while merge-specific plumbing evolves.
 
 use std::{
-    collections::BinaryHeap,
+    collections::{BinaryHeap, VecDeque},
     sync::{Arc, atomic::AtomicU64},
 };
 
@@ -136,13 +136,46 @@ impl PartialOrd for HeapEntry {
     }
 }
 
+/// Position in one of the two ordered row runs (data or deletes) of a source.
+///
+/// The reader pairs data and delete batches arbitrarily, so each run is consumed at its own pace.
+#[derive(Default)]
+struct RunCursor {
+    pending: VecDeque<RecordBatch>,
+    row_idx: usize,
+}
+
+impl RunCursor {
+    fn push(&mut self, batch: RecordBatch) {
+        if batch.num_rows() > 0 {
+            self.pending.push_back(batch);
+        }
+    }
+
+    fn current(&self) -> Option<&RecordBatch> {
+        self.pending.front()
+    }
+
+    fn advance(&mut self) {
+        self.row_idx += 1;
+        if self
+            .pending
+            .front()
+            .is_some_and(|batch| self.row_idx >= batch.num_rows())
+        {
+            self.pending.pop_front();
+            self.row_idx = 0;
+        }
+    }
+}
+
 struct SourceCursor {
     source_idx: usize,
     extractor: Arc<dyn KeyProjection>,
     source: SsTableMergeSource,
-    batch: Option<SsTableStreamBatch>,
-    data_idx: usize,
-    delete_idx: usize,
+    exhausted: bool,
+    data: RunCursor,
+    deletes: RunCursor,
 }
 
 impl SourceCursor {
@@ -155,17 +188,31 @@ impl SourceCursor {
             source_idx,
             extractor,
             source,
-            batch: None,
-            data_idx: 0,
-            delete_idx: 0,
+            exhausted: false,
+            data: RunCursor::default(),
+            deletes: RunCursor::default(),
         }
     }
 
-    async fn ensure_batch(&mut self) -> Result<(), SsTableError> {
-        if self.batch.is_none() {
-            self.batch = self.source.next().await?;
-            self.data_idx = 0;
-            self.delete_idx = 0;
+    fn run(&self, kind: RowKind) -> &RunCursor {
+        match kind {
+            RowKind::Data => &self.data,
+            RowKind::Delete => &self.deletes,
+        }
+    }
+
+    /// Read from the source until `kind` has a current row or the source is exhausted.
+    async fn fill(&mut self, kind: RowKind) -> Result<(), SsTableError> {
+        while self.run(kind).current().is_none() && !self.exhausted {
+            match self.source.next().await? {
+                Some(batch) => {
+                    self.data.push(batch.data);
+                    if let Some(delete) = batch.delete {
+                        self.deletes.push(delete);
+                    }
+                }
+                None => self.exhausted = true,
+            }
         }
         Ok(())
     }
@@ -177,113 +224,62 @@ impl SourceCursor {
         skip_key: Option<&KeyOwned>,
     ) -> Result<(), SsTableError> {
         loop {
-            self.ensure_batch().await?;
-            let Some(batch) = self.batch.as_ref() else {
+            self.fill(kind).await?;
+            let run = self.run(kind);
+            let row_idx = run.row_idx;
+            let Some(batch) = run.current() else {
                 return Ok(());
             };
-
-            match kind {
-                RowKind::Data => {
-                    if batch.data.num_rows() == 0 {
-                        self.data_idx = batch.data.num_rows();
-                        return Ok(());
-                    }
-                    if self.data_idx >= batch.data.num_rows() {
-                        return Ok(());
-                    }
-                    let key = extract_key_at(&batch.data, self.extractor.as_ref(), self.data_idx)?;
-                    if skip_key.is_some_and(|k| k == &key) {
-                        self.advance(kind);
-                        continue;
-                    }
-                    let commit_ts = commit_ts_at(&batch.data, self.data_idx)?;
-                    let seq = sequence_at(&batch.data, self.data_idx)?;
-                    heap.push(HeapEntry {
-                        key,
-                        commit_ts,
-                        seq,
-                        kind,
-                        source_idx: self.source_idx,
-                        row_idx: self.data_idx,
-                    });
-                    return Ok(());
-                }
-                RowKind::Delete => {
-                    let Some(delete_batch) = batch.delete.as_ref() else {
-                        return Ok(());
-                    };
-                    if delete_batch.num_rows() == 0 {
-                        self.delete_idx = delete_batch.num_rows();
-                        return Ok(());
-                    }
-                    if self.delete_idx >= delete_batch.num_rows() {
-                        return Ok(());
-                    }
-                    let key = extract_delete_key_at(
-                        delete_batch,
-                        self.extractor.as_ref(),
-                        self.delete_idx,
-                    )?;
-                    if skip_key.is_some_and(|k| k == &key) {
-                        self.advance(kind);
-                        continue;
-                    }
-                    let commit_ts = commit_ts_at_delete(delete_batch, self.delete_idx)?;
-                    let seq = sequence_at_delete(delete_batch, self.delete_idx)?;
-                    heap.push(HeapEntry {
-                        key,
-                        commit_ts,
-                        seq,
-                        kind,
-                        source_idx: self.source_idx,
-                        row_idx: self.delete_idx,
-                    });
-                    return Ok(());
-                }
+            let (key, commit_ts, seq) = match kind {
+                RowKind::Data => (
+                    extract_key_at(batch, self.extractor.as_ref(), row_idx)?,
+                    commit_ts_at(batch, row_idx)?,
+                    sequence_at(batch, row_idx)?,
+                ),
+                RowKind::Delete => (
+                    extract_delete_key_at(batch, self.extractor.as_ref(), row_idx)?,
+                    commit_ts_at_delete(batch, row_idx)?,
+                    sequence_at_delete(batch, row_idx)?,
+                ),
+            };
+            if skip_key.is_some_and(|k| k == &key) {
+                self.advance(kind);
+                continue;
             }
+            heap.push(HeapEntry {
+                key,
+                commit_ts,
+                seq,
+                kind,
+                source_idx: self.source_idx,
+                row_idx,
+            });
+            return Ok(());
         }
     }
 
     fn advance(&mut self, kind: RowKind) {
         match kind {
-            RowKind::Data => self.data_idx += 1,
-            RowKind::Delete => self.delete_idx += 1,
-        }
-
-        if let Some(batch) = &self.batch {
-            let data_done = self.data_idx >= batch.data.num_rows();
-            let delete_done = batch
-                .delete
-                .as_ref()
-                .is_none_or(|d| self.delete_idx >= d.num_rows());
-            if data_done && delete_done {
-                self.batch = None;
-                self.data_idx = 0;
-                self.delete_idx = 0;
-            }
+            RowKind::Data => self.data.advance(),
+            RowKind::Delete => self.deletes.advance(),
         }
     }
 
     fn append_data(&self, row_idx: usize, output: &mut OutputState) -> Result<(), SsTableError> {
-        let Some(batch) = self.batch.as_ref() else {
+        let Some(batch) = self.data.current() else {
             return Ok(());
         };
         let index = [row_idx as u32];
-        let data = take_record_batch(&batch.data, &index)?;
-        output.push_data(data);
+        output.push_data(take_record_batch(batch, &index)?);
         Ok(())
     }
 
     fn append_delete(&self, row_idx: usize, output: &mut OutputState) -> Result<(), SsTableError> {
-        let Some(batch) = self.batch.as_ref() else {
-            return Ok(());
-        };
-        let Some(delete_batch) = batch.delete.as_ref() else {
+        let Some(batch) = self.deletes.current() else {
             return Ok(());
         };
         let index = [row_idx as u32];
-        let delete = take_record_batch(delete_batch, &index)?;
-        output.push_delete(delete);
+        output.push_delete(take_record_batch(batch, &index)?);
         Ok(())
     }
 }
@@ -689,9 +685,7 @@ impl SsTableMerger {
             let source =
                 SsTableMergeSource::new(Arc::clone(&self.config), descriptor, executor.clone())
                     .await?;
-            let mut cursor = SourceCursor::new(idx, Arc::clone(&extractor), source);
-            cursor.ensure_batch().await?;
-            sources.push(cursor);
+            sources.push(SourceCursor::new(idx, Arc::clone(&extractor), source));
         }
 
         let mut heap: BinaryHeap<HeapEntry> = BinaryHeap::new();
-- 
2.43.0


From 16ff82bbbcf25122ad778bce8621317679870760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:28 +0000
Subject: [PATCH 13/33] fix: a storage error while writing a data file must be
 returned, not panic

---
 src/ondisk/sstable.rs | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/src/ondisk/sstable.rs b/src/ondisk/sstable.rs
index 9e24702..9563e7f 100644
--- a/src/ondisk/sstable.rs
+++ b/src/ondisk/sstable.rs
@@ -1116,18 +1116,6 @@ where
     }
 }
 
-impl<E> Drop for WriteContext<E>
-where
-    E: Executor + Clone,
-{
-    fn drop(&mut self) {
-        debug_assert!(
-            self.data_writer.is_none() && self.delete_writer.is_none(),
-            "WriteContext dropped without closing writers"
-        );
-    }
-}
-
 fn build_table_paths(
     config: &SsTableConfig,
     level: usize,
-- 
2.43.0


From 0bd2abb05fcf91a7107a48c8070b64cc1aabf9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:30 +0000
Subject: [PATCH 14/33] hook: cfg(tonbo_verif)-guarded access to the database
 handle and its seal policy

---
 src/db/mod.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index 6b9c595..fddea97 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -1223,6 +1223,23 @@ where
     }
 }
 
+// Access for the external verification harness (never compiled in normal builds).
+#[cfg(tonbo_verif)]
+impl<FS, E> DB<FS, E>
+where
+    FS: ManifestFs<E>,
+    E: Executor + Timer + Clone + 'static,
+    <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
+{
+    pub(crate) fn verif_inner(&self) -> &Arc<DbInner<FS, E>> {
+        &self.inner
+    }
+
+    pub(crate) fn verif_set_seal_policy(&mut self, policy: Arc<dyn SealPolicy + Send + Sync>) {
+        Arc::get_mut(&mut self.inner).expect("sole owner").policy = policy;
+    }
+}
+
 // In-memory convenience constructors.
 #[cfg(test)]
 impl<E> DbInner<InMemoryFs, E>
-- 
2.43.0


From 87059de40fd2c1b590c7aa9963c90293a74c0b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:24 +0000
Subject: [PATCH 15/33] fix: snapshots and transactions must keep reading rows
 flushed after they were opened

A snapshot reads the SSTs of the manifest version it captured plus the segments
in memory, so a flush after that made the flushed rows disappear from it, and a
transaction no longer saw conflicting commits once they were flushed. Open
snapshots now retain the segments that are flushed while they live.
---
 src/db/mod.rs          | 26 +++++++++++++++++--
 src/db/scan.rs         | 39 ++++++++++++++++++++--------
 src/db/wal.rs          |  5 +++-
 src/query/scan.rs      |  5 ++++
 src/transaction/mod.rs | 59 ++++++++++++++++++++++++++++++++++++++++--
 5 files changed, 118 insertions(+), 16 deletions(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index fddea97..f9ce09e 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -7,7 +7,7 @@
 use std::{
     collections::HashMap,
     sync::{
-        Arc, Mutex, MutexGuard,
+        Arc, Mutex, MutexGuard, Weak,
         atomic::{AtomicBool, Ordering},
     },
     time::{Duration, Instant},
@@ -66,7 +66,9 @@ use crate::{
         metadata::{ParquetMetadataCache, default_parquet_metadata_cache},
         sstable::{SsTable, SsTableBuilder, SsTableConfig, SsTableDescriptor, SsTableError},
     },
-    transaction::{Snapshot as TxSnapshot, SnapshotError, TransactionDurability, TransactionError},
+    transaction::{
+        Snapshot as TxSnapshot, SnapshotError, SnapshotPin, TransactionDurability, TransactionError,
+    },
     wal::{
         WalConfig as RuntimeWalConfig, WalHandle, frame::INITIAL_FRAME_SEQ, manifest_ext,
         replay::Replayer, state::WalStateHandle,
@@ -819,6 +821,7 @@ where
 
     /// Open a read-only snapshot pinned to the current manifest head.
     pub async fn begin_snapshot(&self) -> Result<TxSnapshot, SnapshotError> {
+        let pin = self.pin_snapshot();
         let manifest_snapshot = self
             .manifest
             .snapshot_latest_with_fallback(self.manifest_table, &self.table_meta)
@@ -829,9 +832,22 @@ where
         Ok(TxSnapshot::from_table_snapshot(
             read_view,
             manifest_snapshot,
+            pin,
         ))
     }
 
+    /// Register a pin keeping segments flushed from now on readable.
+    ///
+    /// Must happen before the snapshot reads the manifest, so that every segment is either in the
+    /// captured version, in memory, or retained by the pin.
+    fn pin_snapshot(&self) -> Arc<SnapshotPin> {
+        let pin = Arc::new(SnapshotPin::default());
+        let mut seal = self.seal_state_lock();
+        seal.pins.retain(|pin| pin.strong_count() > 0);
+        seal.pins.push(Arc::downgrade(&pin));
+        pin
+    }
+
     /// Open a read-only snapshot pinned to a specific historical timestamp.
     ///
     /// This enables "time travel" queries: you can read the database state as it
@@ -853,6 +869,7 @@ where
     /// }
     /// ```
     pub async fn snapshot_at(&self, timestamp: Timestamp) -> Result<TxSnapshot, SnapshotError> {
+        let pin = self.pin_snapshot();
         // Find the version that was active at the requested timestamp.
         // List versions to find one with commit_timestamp <= requested timestamp.
         let versions = self
@@ -879,6 +896,7 @@ where
         Ok(TxSnapshot::from_table_snapshot(
             read_view,
             manifest_snapshot,
+            pin,
         ))
     }
 
@@ -1183,6 +1201,10 @@ where
                 // New segments may have been appended concurrently; those must be preserved.
                 let mut seal = self.seal_state_lock();
                 let actual_len = seal.immutables.len();
+                // Snapshots opened before this flush keep reading the segments it removes.
+                for pin in seal.pins.iter().filter_map(Weak::upgrade) {
+                    pin.retain(&immutables_snapshot);
+                }
                 if actual_len >= flush_count {
                     seal.immutables.drain(0..flush_count);
                 } else {
diff --git a/src/db/scan.rs b/src/db/scan.rs
index b5b0987..ea9e29f 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -56,7 +56,7 @@ use crate::{
             package::PackageStream,
         },
     },
-    transaction::{Snapshot as TxSnapshot, TransactionScan},
+    transaction::{Snapshot as TxSnapshot, SnapshotPin, TransactionScan},
 };
 
 async fn parquet_metadata_cached<E>(
@@ -213,14 +213,14 @@ impl TxSnapshot {
         let key_schema = db.extractor().key_schema();
         let key_bounds = key_bounds_for_predicate(predicate, &key_schema);
         let key_range = key_range_for_predicate(predicate, &key_schema);
+        let segments = db.snapshot_segments(self.pin());
         let (immutable_indexes, immutable_row_sets) = {
-            let seal = db.seal_state_lock();
             let prune_input: Vec<&ImmutableSegment> =
-                seal.immutables.iter().map(|arc| arc.as_ref()).collect();
+                segments.iter().map(|arc| arc.as_ref()).collect();
             let indexes = immutable::prune_segments(&prune_input, key_bounds.as_ref(), read_ts);
             let row_sets = indexes
                 .iter()
-                .filter_map(|idx| seal.immutables.get(*idx))
+                .filter_map(|idx| segments.get(*idx))
                 .map(|segment| RowSet::all(segment.entry_count()))
                 .collect();
             (indexes, row_sets)
@@ -353,6 +353,8 @@ impl TxSnapshot {
         Ok(ScanPlan {
             pushdown_predicate,
             immutable_indexes,
+            segments,
+            pin: Arc::clone(self.pin()),
             mutable_row_set,
             immutable_row_sets,
             mutable_selection: key_range
@@ -686,13 +688,19 @@ where
             streams.push(ScanStream::from(mutable_scan));
         }
 
-        let immutables: Vec<Arc<ImmutableSegment>> = {
-            let seal = self.seal_state_lock();
-            plan.immutable_indexes
-                .iter()
-                .filter_map(|idx| seal.immutables.get(*idx).cloned())
-                .collect()
-        };
+        let mut immutables: Vec<Arc<ImmutableSegment>> = plan
+            .immutable_indexes
+            .iter()
+            .filter_map(|idx| plan.segments.get(*idx).cloned())
+            .collect();
+        if !plan.mutable_row_set.is_empty() {
+            // Rows that were mutable while planning may have been sealed (and flushed) since.
+            immutables.extend(
+                self.snapshot_segments(&plan.pin)
+                    .into_iter()
+                    .filter(|now| !plan.segments.iter().any(|then| Arc::ptr_eq(now, then))),
+            );
+        }
         for segment in immutables {
             let owned = match &plan.immutable_selection {
                 ScanSelection::AllRows | ScanSelection::Sst(_) => OwnedImmutableScan::from_arc(
@@ -808,6 +816,15 @@ where
         Ok(streams)
     }
 
+    /// In-memory segments a snapshot reads: those flushed since it was opened and those still
+    /// waiting for a flush.
+    pub(crate) fn snapshot_segments(&self, pin: &SnapshotPin) -> Vec<Arc<ImmutableSegment>> {
+        let seal = self.seal_state_lock();
+        let mut segments = pin.segments();
+        segments.extend(seal.immutables.iter().cloned());
+        segments
+    }
+
     pub(crate) fn scan_immutable_rows_at(
         &self,
         read_ts: Timestamp,
diff --git a/src/db/wal.rs b/src/db/wal.rs
index 1a7e49e..20b0992 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -1,6 +1,6 @@
 use std::{
     collections::HashMap,
-    sync::{Arc, Mutex},
+    sync::{Arc, Mutex, Weak},
 };
 
 use arrow_array::{Array, ArrayRef, RecordBatch, UInt32Array, UInt64Array};
@@ -19,6 +19,7 @@ use crate::{
     manifest::{ManifestFs, TableId, TonboManifest},
     mvcc::Timestamp,
     ondisk::sstable::SsTableError,
+    transaction::SnapshotPin,
     wal::{
         WalConfig as RuntimeWalConfig, WalError, WalHandle,
         frame::{DynAppendEvent, WalEvent},
@@ -89,6 +90,8 @@ pub(crate) struct SealState {
     pub(crate) immutables: Vec<Arc<ImmutableSegment>>,
     pub(crate) immutable_wal_ranges: Vec<Option<WalFrameRange>>,
     pub(crate) last_seal_at: Option<Instant>,
+    /// Open snapshots that keep flushed segments readable.
+    pub(crate) pins: Vec<Weak<SnapshotPin>>,
 }
 
 type PendingWalTxns = HashMap<u64, PendingWalTxn>;
diff --git a/src/query/scan.rs b/src/query/scan.rs
index 2401a59..ac24624 100644
--- a/src/query/scan.rs
+++ b/src/query/scan.rs
@@ -16,10 +16,12 @@ use thiserror::Error;
 
 use crate::{
     extractor::KeyExtractError,
+    inmem::immutable::ImmutableSegment,
     key::KeyOwned,
     manifest::{SstEntry, TableSnapshot},
     mvcc::Timestamp,
     query::{Expr, KeyPredicateValue, ScalarValue},
+    transaction::SnapshotPin,
 };
 
 /// Selection information for a single SSTable scan.
@@ -443,6 +445,9 @@ impl<'a> Iterator for RowSetIter<'a> {
 pub(crate) struct ScanPlan {
     pub(crate) pushdown_predicate: Option<Expr>,
     pub(crate) immutable_indexes: Vec<usize>,
+    /// Segments considered while planning; `immutable_indexes` selects from these.
+    pub(crate) segments: Vec<Arc<ImmutableSegment>>,
+    pub(crate) pin: Arc<SnapshotPin>,
     pub(crate) mutable_row_set: RowSet,
     pub(crate) immutable_row_sets: Vec<RowSet>,
     pub(crate) mutable_selection: ScanSelection,
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index 7188f62..762c135 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -5,7 +5,11 @@
 //! snapshot-bound scans with read-your-writes semantics. It integrates with the DB’s MVCC
 //! clock and manifest/WAL plumbing for durable commits.
 
-use std::{collections::BTreeMap, fmt, sync::Arc};
+use std::{
+    collections::BTreeMap,
+    fmt,
+    sync::{Arc, Mutex},
+};
 
 use arrow_array::RecordBatch;
 use arrow_schema::{Fields, SchemaRef};
@@ -22,6 +26,7 @@ use crate::manifest::{TableHead, VersionState};
 use crate::{
     db::{DBError, DbInner, DynDbHandle, ScanBuilder, TxnWalPublishContext, WalFrameRange},
     extractor::{KeyExtractError, KeyProjection, row_from_batch},
+    inmem::immutable::ImmutableSegment,
     key::{KeyOwned, KeyTsViewRaw},
     manifest::{ManifestError, TableSnapshot, VersionEdit},
     mutation::DynMutation,
@@ -64,16 +69,61 @@ pub enum SnapshotError {
 pub struct Snapshot {
     read_view: ReadView,
     manifest: TableSnapshot,
+    pin: Arc<SnapshotPin>,
+}
+
+/// Sealed segments flushed while a snapshot is open.
+///
+/// A snapshot keeps reading the SSTs of the manifest version it captured, so segments that leave
+/// memory for a newer version must stay readable through it.
+#[derive(Default)]
+pub(crate) struct SnapshotPin {
+    flushed: Mutex<Vec<Arc<ImmutableSegment>>>,
+}
+
+impl SnapshotPin {
+    pub(crate) fn retain(&self, segments: &[Arc<ImmutableSegment>]) {
+        self.flushed
+            .lock()
+            .expect("snapshot pin lock poisoned")
+            .extend(segments.iter().cloned());
+    }
+
+    /// Segments flushed since the snapshot was opened (oldest..newest).
+    pub(crate) fn segments(&self) -> Vec<Arc<ImmutableSegment>> {
+        self.flushed
+            .lock()
+            .expect("snapshot pin lock poisoned")
+            .clone()
+    }
+}
+
+impl fmt::Debug for SnapshotPin {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.debug_struct("SnapshotPin")
+            .field("flushed", &self.segments().len())
+            .finish()
+    }
 }
 
 impl Snapshot {
-    pub(crate) fn from_table_snapshot(read_view: ReadView, manifest: TableSnapshot) -> Self {
+    pub(crate) fn from_table_snapshot(
+        read_view: ReadView,
+        manifest: TableSnapshot,
+        pin: Arc<SnapshotPin>,
+    ) -> Self {
         Self {
             read_view,
             manifest,
+            pin,
         }
     }
 
+    /// Segments retained for this snapshot after being flushed.
+    pub(crate) fn pin(&self) -> &Arc<SnapshotPin> {
+        &self.pin
+    }
+
     /// MVCC visibility guard captured when the snapshot was created.
     pub(crate) fn read_view(&self) -> ReadView {
         self.read_view
@@ -590,6 +640,11 @@ where
         for (key, _) in staged.iter() {
             if db.mutable_has_conflict(key, snapshot_ts)
                 || db.immutable_has_conflict(key, snapshot_ts)
+                || _snapshot
+                    .pin()
+                    .segments()
+                    .iter()
+                    .any(|segment| segment.has_conflict(key, snapshot_ts))
             {
                 return Err(TransactionCommitError::WriteConflict(key.clone()));
             }
-- 
2.43.0


From f2c5aa1cbec639c56d3323452cad7e741a886e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:00 +0000
Subject: [PATCH 16/33] fix: Transaction::get must see sealed deletes and
 flushed rows

It looked only at the mutable and sealed segments, so rows already flushed read
as absent, and a delete in the mutable segment did not hide an older sealed row.
Point reads now take the newest version over memory and the snapshot's SSTs.
---
 src/db/scan.rs         | 287 +++++++++++++++++++++++------------------
 src/transaction/mod.rs |  28 +---
 2 files changed, 161 insertions(+), 154 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index ea9e29f..ebe6cdc 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -1,5 +1,6 @@
 use std::{
     collections::{BTreeMap, BTreeSet},
+    ops::Bound,
     pin::Pin,
     sync::Arc,
     time::Instant,
@@ -31,14 +32,14 @@ use crate::{
         immutable::{self, ImmutableSegment, memtable::ImmutableVisibleEntry},
         mutable::memtable::DynRowScanEntry,
     },
-    key::{KeyOwned, KeyRow},
+    key::KeyOwned,
     mode::fingerprint_schema,
     mutation::DynMutation,
     mvcc::{MVCC_COMMIT_COL, Timestamp},
     ondisk::{
         bloom::{BatchedAsyncReader, BloomFilterCache, SstBloomFilterProvider},
         metadata::ParquetMetadataCache,
-        scan::{DeleteStreamWithExtractor, SstableScan, UnpinExec},
+        scan::{DeleteStreamWithExtractor, SstableScan, SstableVisibleEntry, UnpinExec},
         sstable::{
             ParquetStreamOptions, SsTableError, open_parquet_stream_with_metadata,
             split_predicate_for_row_filter, validate_page_indexes,
@@ -52,8 +53,8 @@ use crate::{
             projection_with_predicate,
         },
         stream::{
-            Order, OwnedImmutableScan, OwnedMutableScan, ScanStream, merge::MergeStream,
-            package::PackageStream,
+            Order, OwnedImmutableScan, OwnedMutableScan, ScanStream, StreamError,
+            merge::MergeStream, package::PackageStream,
         },
     },
     transaction::{Snapshot as TxSnapshot, SnapshotPin, TransactionScan},
@@ -669,7 +670,6 @@ where
             streams.push(ScanStream::from(txn_scan));
         }
         let scan_schema = Arc::clone(&plan.scan_schema);
-        let key_schema = self.extractor().key_schema();
         if !plan.mutable_row_set.is_empty() {
             let mutable_scan = match &plan.mutable_selection {
                 ScanSelection::AllRows | ScanSelection::Sst(_) => OwnedMutableScan::from_guard(
@@ -721,99 +721,108 @@ where
 
         // Add SSTable scans for each SST entry in the plan
         for sst in plan.sst_selections() {
-            let selection = match &sst.selection {
-                ScanSelection::Sst(selection) => selection,
-                ScanSelection::AllRows => {
-                    return Err(crate::db::DBError::SsTable(
-                        SsTableError::InvalidScanSelection {
-                            selection: "AllRows",
-                        },
-                    ));
-                }
-                ScanSelection::KeyRange(_) => {
-                    return Err(crate::db::DBError::SsTable(
-                        SsTableError::InvalidScanSelection {
-                            selection: "KeyRange",
-                        },
-                    ));
-                }
-            };
-            let data_path = sst.entry.data_path().clone();
-            let executor: E = (**self.executor()).clone();
+            streams.push(ScanStream::from(self.open_sst_scan(plan, sst).await?));
+        }
+
+        Ok(streams)
+    }
 
-            let projected_schema = Arc::clone(&selection.projected_schema);
-            let projection_indices = schema_projection_indices(&projected_schema, &scan_schema)?;
-            let key_indices = schema_projection_indices(&projected_schema, &key_schema)?;
-            let data_extractor: Arc<dyn KeyProjection> =
-                projection_for_columns(projected_schema, key_indices)?.into();
+    /// Open the scan over one SST selected by the plan.
+    async fn open_sst_scan(
+        &self,
+        plan: &ScanPlan,
+        sst: &SstScanSelection,
+    ) -> Result<SstableScan<E>, crate::db::DBError> {
+        let selection = match &sst.selection {
+            ScanSelection::Sst(selection) => selection,
+            ScanSelection::AllRows => {
+                return Err(crate::db::DBError::SsTable(
+                    SsTableError::InvalidScanSelection {
+                        selection: "AllRows",
+                    },
+                ));
+            }
+            ScanSelection::KeyRange(_) => {
+                return Err(crate::db::DBError::SsTable(
+                    SsTableError::InvalidScanSelection {
+                        selection: "KeyRange",
+                    },
+                ));
+            }
+        };
+        let scan_schema = Arc::clone(&plan.scan_schema);
+        let key_schema = self.extractor().key_schema();
+        let data_path = sst.entry.data_path().clone();
+        let executor: E = (**self.executor()).clone();
+
+        let projected_schema = Arc::clone(&selection.projected_schema);
+        let projection_indices = schema_projection_indices(&projected_schema, &scan_schema)?;
+        let key_indices = schema_projection_indices(&projected_schema, &key_schema)?;
+        let data_extractor: Arc<dyn KeyProjection> =
+            projection_for_columns(projected_schema, key_indices)?.into();
+
+        let options = ParquetStreamOptions {
+            projection: Some(selection.projection.clone()),
+            row_groups: selection.row_groups.clone(),
+            row_selection: selection.row_set.to_row_selection(),
+            row_filter_predicate: plan.pushdown_predicate.as_ref(),
+        };
+        let data_stream = open_parquet_stream_with_metadata(
+            Arc::clone(&self.fs),
+            data_path,
+            Arc::clone(&selection.metadata),
+            options,
+            executor.clone(),
+        )
+        .await
+        .map_err(crate::db::DBError::SsTable)?;
 
+        // Open delete sidecar stream if present (streaming merge, no eager loading)
+        let delete_stream_with_extractor = if let Some(delete_path) = sst.entry.delete_path() {
+            let delete_selection = selection.delete_selection.as_ref().ok_or_else(|| {
+                crate::db::DBError::SsTable(SsTableError::InvalidScanSelection {
+                    selection: "missing delete sidecar selection",
+                })
+            })?;
+            let delete_path = delete_path.clone();
             let options = ParquetStreamOptions {
-                projection: Some(selection.projection.clone()),
-                row_groups: selection.row_groups.clone(),
-                row_selection: selection.row_set.to_row_selection(),
-                row_filter_predicate: plan.pushdown_predicate.as_ref(),
+                projection: Some(delete_selection.projection.clone()),
+                row_groups: None,
+                row_selection: None,
+                row_filter_predicate: None,
             };
-            let data_stream = open_parquet_stream_with_metadata(
+            let stream = open_parquet_stream_with_metadata(
                 Arc::clone(&self.fs),
-                data_path,
-                Arc::clone(&selection.metadata),
+                delete_path,
+                Arc::clone(&delete_selection.metadata),
                 options,
                 executor.clone(),
             )
             .await
             .map_err(crate::db::DBError::SsTable)?;
+            Some(DeleteStreamWithExtractor {
+                stream,
+                extractor: Arc::clone(self.delete_extractor()),
+            })
+        } else {
+            if selection.delete_selection.is_some() {
+                return Err(crate::db::DBError::SsTable(
+                    SsTableError::InvalidScanSelection {
+                        selection: "unexpected delete sidecar selection",
+                    },
+                ));
+            }
+            None
+        };
 
-            // Open delete sidecar stream if present (streaming merge, no eager loading)
-            let delete_stream_with_extractor = if let Some(delete_path) = sst.entry.delete_path() {
-                let delete_selection = selection.delete_selection.as_ref().ok_or_else(|| {
-                    crate::db::DBError::SsTable(SsTableError::InvalidScanSelection {
-                        selection: "missing delete sidecar selection",
-                    })
-                })?;
-                let delete_path = delete_path.clone();
-                let options = ParquetStreamOptions {
-                    projection: Some(delete_selection.projection.clone()),
-                    row_groups: None,
-                    row_selection: None,
-                    row_filter_predicate: None,
-                };
-                let stream = open_parquet_stream_with_metadata(
-                    Arc::clone(&self.fs),
-                    delete_path,
-                    Arc::clone(&delete_selection.metadata),
-                    options,
-                    executor.clone(),
-                )
-                .await
-                .map_err(crate::db::DBError::SsTable)?;
-                Some(DeleteStreamWithExtractor {
-                    stream,
-                    extractor: Arc::clone(self.delete_extractor()),
-                })
-            } else {
-                if selection.delete_selection.is_some() {
-                    return Err(crate::db::DBError::SsTable(
-                        SsTableError::InvalidScanSelection {
-                            selection: "unexpected delete sidecar selection",
-                        },
-                    ));
-                }
-                None
-            };
-
-            let sstable_scan = SstableScan::new(
-                data_stream,
-                delete_stream_with_extractor,
-                data_extractor,
-                projection_indices,
-                Some(Order::Asc),
-                plan.read_ts,
-            );
-
-            streams.push(ScanStream::from(sstable_scan));
-        }
-
-        Ok(streams)
+        Ok(SstableScan::new(
+            data_stream,
+            delete_stream_with_extractor,
+            data_extractor,
+            projection_indices,
+            Some(Order::Asc),
+            plan.read_ts,
+        ))
     }
 
     /// In-memory segments a snapshot reads: those flushed since it was opened and those still
@@ -825,56 +834,71 @@ where
         segments
     }
 
-    pub(crate) fn scan_immutable_rows_at(
+    /// Newest row for `key` visible to `snapshot`, across memory and SSTs.
+    pub(crate) async fn get_visible(
         &self,
-        read_ts: Timestamp,
-    ) -> Result<Vec<(KeyRow, DynRow)>, KeyExtractError> {
-        let mut rows = Vec::new();
-        let segments = self.seal_state_lock().immutables.clone();
-        for segment in segments {
-            let scan = segment.scan_visible(None, read_ts)?;
-            for result in scan {
-                match result {
-                    Ok(ImmutableVisibleEntry::Row(key_view, row_raw)) => {
-                        let row = row_raw.into_owned().map_err(|err| {
-                            KeyExtractError::Arrow(arrow_schema::ArrowError::ComputeError(
-                                err.to_string(),
-                            ))
-                        })?;
-                        let (key_row, _) = key_view.into_parts();
-                        rows.push((key_row, row));
+        snapshot: &TxSnapshot,
+        key: &KeyOwned,
+    ) -> Result<Option<DynRow>, crate::db::DBError> {
+        let plan = snapshot.plan_scan(self, &Expr::True, None, None).await?;
+        let mut newest = self.newest_in_memory(key, &plan)?;
+        for sst in plan.sst_selections() {
+            if let Some(stats) = sst.entry.stats()
+                && let (Some(min_key), Some(max_key)) =
+                    (stats.min_key.as_ref(), stats.max_key.as_ref())
+                && (key < min_key || key > max_key)
+            {
+                continue;
+            }
+            let mut scan = Box::pin(self.open_sst_scan(&plan, sst).await?);
+            while let Some(entry) = scan.next().await {
+                let version = match entry.map_err(StreamError::from)? {
+                    SstableVisibleEntry::Row(row) => {
+                        if row.key_ts().key().to_owned() != *key {
+                            continue;
+                        }
+                        (row.key_ts().timestamp(), Some(row.into_row_owned()?))
                     }
-                    Ok(ImmutableVisibleEntry::Tombstone(_)) => {}
-                    Err(err) => return Err(KeyExtractError::from(err)),
-                }
+                    SstableVisibleEntry::Tombstone(deleted) => {
+                        if deleted.key() != key {
+                            continue;
+                        }
+                        (deleted.timestamp(), None)
+                    }
+                };
+                keep_newest(&mut newest, version);
             }
         }
-        Ok(rows)
+        Ok(newest.and_then(|(_, row)| row))
     }
 
-    pub(crate) fn scan_mutable_rows_at(
+    fn newest_in_memory(
         &self,
-        read_ts: Timestamp,
-    ) -> Result<Vec<(KeyRow, DynRow)>, KeyExtractError> {
-        let mut rows = Vec::new();
+        key: &KeyOwned,
+        plan: &ScanPlan,
+    ) -> Result<Option<KeyVersion>, crate::db::DBError> {
+        let bound = || Bound::Included(key.clone());
+        let mut newest = None;
         let mem = self.mem.read();
-        let scan = mem.scan_visible(None, read_ts)?;
-        for entry in scan {
-            match entry {
-                Ok(DynRowScanEntry::Row(key_view, row_raw)) => {
-                    let row = row_raw.into_owned().map_err(|err| {
-                        KeyExtractError::Arrow(arrow_schema::ArrowError::ComputeError(
-                            err.to_string(),
-                        ))
-                    })?;
-                    let (key_row, _) = key_view.into_parts();
-                    rows.push((key_row, row));
-                }
-                Ok(DynRowScanEntry::Tombstone(_)) => {}
-                Err(err) => return Err(KeyExtractError::from(err)),
+        for entry in mem.scan_visible_in_range(None, plan.read_ts, bound(), bound())? {
+            let version = match entry? {
+                DynRowScanEntry::Row(view, row) => (view.timestamp(), Some(row.into_owned()?)),
+                DynRowScanEntry::Tombstone(view) => (view.timestamp(), None),
+            };
+            keep_newest(&mut newest, version);
+        }
+        for segment in self.snapshot_segments(&plan.pin) {
+            for entry in segment.scan_visible_in_range(None, plan.read_ts, bound(), bound())? {
+                let version = match entry? {
+                    ImmutableVisibleEntry::Row(view, row) => {
+                        (view.timestamp(), Some(row.into_owned()?))
+                    }
+                    ImmutableVisibleEntry::Tombstone(view) => (view.timestamp(), None),
+                };
+                keep_newest(&mut newest, version);
             }
         }
-        Ok(rows)
+        Ok(newest)
     }
 
     /// Begin building a scan query with fluent API.
@@ -884,6 +908,15 @@ where
     }
 }
 
+/// Commit timestamp of a key's version and its row (`None` for a tombstone).
+type KeyVersion = (Timestamp, Option<DynRow>);
+
+fn keep_newest(newest: &mut Option<KeyVersion>, version: KeyVersion) {
+    if newest.as_ref().is_none_or(|(ts, _)| version.0 > *ts) {
+        *newest = Some(version);
+    }
+}
+
 /// Snapshot source for scan operations.
 ///
 /// Controls whether a scan uses a pre-existing snapshot or creates one lazily.
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index 762c135..c408639 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -514,8 +514,7 @@ where
                 DynMutation::Delete(_) => None,
             });
         }
-        let rows = self.read_mutable_rows(&*self.handle)?;
-        Ok(rows.get(key).map(clone_dyn_row))
+        Ok(self.handle.get_visible(&self._snapshot, key).await?)
     }
 
     /// Begin building a scan query with fluent API.
@@ -579,31 +578,6 @@ where
         Ok(())
     }
 
-    fn read_mutable_rows<C>(
-        &self,
-        db: &DbInner<C, E>,
-    ) -> Result<BTreeMap<KeyOwned, DynRow>, TransactionError>
-    where
-        C: crate::manifest::ManifestFs<E>,
-        <C as fusio::fs::Fs>::File: fusio::durability::FileCommit,
-    {
-        let read_ts = self.read_ts();
-        let mut out = BTreeMap::new();
-        let rows = db
-            .scan_mutable_rows_at(read_ts)
-            .map_err(TransactionError::KeyExtract)?;
-        for (key_row, row) in rows {
-            out.insert(key_row.to_owned(), row);
-        }
-        for (key, row) in db
-            .scan_immutable_rows_at(read_ts)
-            .map_err(TransactionError::KeyExtract)?
-        {
-            out.entry(key.to_owned()).or_insert(row);
-        }
-        Ok(out)
-    }
-
     /// Commit the staged mutations into the supplied DB, ensuring WAL durability first.
     pub async fn commit(self) -> Result<(), TransactionCommitError>
     where
-- 
2.43.0


From 15a1e85e35a2a2a58c1a614ea15b3caee711f87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:09 +0000
Subject: [PATCH 17/33] fix: value filters must not drop newer versions inside
 SSTs before versions are merged

The row filter and the row group pruning ran on each SST before the versions of
a key were merged, so a filter that the newest version does not satisfy could
return an older version of the row.
---
 src/db/scan.rs | 52 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index ebe6cdc..8c70647 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -33,6 +33,7 @@ use crate::{
         mutable::memtable::DynRowScanEntry,
     },
     key::KeyOwned,
+    manifest::SstEntry,
     mode::fingerprint_schema,
     mutation::DynMutation,
     mvcc::{MVCC_COMMIT_COL, Timestamp},
@@ -207,11 +208,33 @@ impl TxSnapshot {
         let projection_schema = projected_schema.as_ref().unwrap_or(&db.schema);
         let predicate_scan_schema =
             projection_with_predicate(&db.schema, projection_schema, Some(predicate))?;
-        let split = split_predicate_for_row_filter(predicate, &predicate_scan_schema);
-        let mut pushdown_predicate = split.pushdown;
-        let mut residual_predicate = split.residual;
         let read_ts = self.read_view().read_ts();
         let key_schema = db.extractor().key_schema();
+        let ssts: Vec<&SstEntry> = self
+            .table_snapshot()
+            .latest_version
+            .as_ref()
+            .map(|v| v.ssts())
+            .unwrap_or(&[])
+            .iter()
+            .flatten()
+            .collect();
+        // SST rows are filtered before the versions of a key are merged. Dropping a newer version
+        // there would expose an older one, so unless the SSTs hold one version per key, only
+        // conditions on the key (which all its versions satisfy alike) may be pushed down.
+        let filter_schema = if single_version_per_key(&ssts) {
+            &predicate_scan_schema
+        } else {
+            &key_schema
+        };
+        let split = split_predicate_for_row_filter(predicate, filter_schema);
+        let sst_predicate = if split.residual.is_some() && !single_version_per_key(&ssts) {
+            split.pushdown.clone().unwrap_or(Expr::True)
+        } else {
+            predicate.clone()
+        };
+        let mut pushdown_predicate = split.pushdown;
+        let mut residual_predicate = split.residual;
         let key_bounds = key_bounds_for_predicate(predicate, &key_schema);
         let key_range = key_range_for_predicate(predicate, &key_schema);
         let segments = db.snapshot_segments(self.pin());
@@ -272,15 +295,7 @@ impl TxSnapshot {
         residual_predicate = combine_predicates_with_and(residual_predicate, non_sst_residual);
         let mut sst_selections = Vec::new();
         let mut sst_requires_full_residual = false;
-        for entry in self
-            .table_snapshot()
-            .latest_version
-            .as_ref()
-            .map(|v| v.ssts())
-            .unwrap_or(&[])
-            .iter()
-            .flatten()
-        {
+        for entry in ssts {
             if let Some(bounds) = key_bounds.as_ref() {
                 if bounds.is_empty() {
                     continue;
@@ -301,7 +316,7 @@ impl TxSnapshot {
             let (mut selection, requires_residual) = prune_sst_selection(
                 &prune_ctx,
                 entry.data_path(),
-                predicate,
+                &sst_predicate,
                 read_ts,
                 &predicate_scan_schema,
                 &key_schema,
@@ -376,6 +391,17 @@ impl TxSnapshot {
     }
 }
 
+/// Whether every key has at most one row in `ssts`.
+fn single_version_per_key(ssts: &[&SstEntry]) -> bool {
+    match ssts {
+        [] => true,
+        [entry] => entry
+            .stats()
+            .is_none_or(|stats| stats.min_commit_ts == stats.max_commit_ts),
+        _ => false,
+    }
+}
+
 async fn prune_sst_selection<E>(
     ctx: &PruneContext<E>,
     data_path: &fusio::path::Path,
-- 
2.43.0


From c41a606709ddc7b690afb154ba7de48a95112ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:29 +0000
Subject: [PATCH 18/33] hook: cfg(tonbo_verif)-guarded size of the write buffer

---
 src/inmem/mutable/memtable.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/inmem/mutable/memtable.rs b/src/inmem/mutable/memtable.rs
index 09ba778..25fd6d3 100644
--- a/src/inmem/mutable/memtable.rs
+++ b/src/inmem/mutable/memtable.rs
@@ -104,6 +104,13 @@ impl BatchRowLoc {
 /// Default capacity for batch slots when not specified.
 pub const DEFAULT_BATCH_CAPACITY: usize = 1024;
 
+#[cfg(tonbo_verif)]
+std::thread_local! {
+    /// Batch slots of the write buffers the verification harness creates on this thread.
+    pub(crate) static VERIF_BATCH_CAPACITY: std::cell::Cell<usize> =
+        const { std::cell::Cell::new(DEFAULT_BATCH_CAPACITY) };
+}
+
 /// Mutable state that lives behind the RwLock.
 pub(crate) struct DynMemInner {
     /// MVCC index keyed by `(key, commit_ts)` (timestamp descending per key).
@@ -616,7 +623,11 @@ impl DynMem {
         extractor: Arc<dyn KeyProjection>,
         delete_projection: Arc<dyn KeyProjection>,
     ) -> Self {
-        Self::with_capacity(schema, extractor, delete_projection, DEFAULT_BATCH_CAPACITY)
+        #[cfg(tonbo_verif)]
+        let capacity = VERIF_BATCH_CAPACITY.get();
+        #[cfg(not(tonbo_verif))]
+        let capacity = DEFAULT_BATCH_CAPACITY;
+        Self::with_capacity(schema, extractor, delete_projection, capacity)
     }
 
     /// Create an empty columnar mutable table with the specified batch slot capacity.
-- 
2.43.0


From 8f02a93fcc39906c950e11146c3dc252362bb73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:49 +0000
Subject: [PATCH 19/33] fix: log records of a batch that overflowed the write
 buffer must not be pruned before it is flushed

---
 src/db/mod.rs          |  6 +++++-
 src/db/wal.rs          | 12 ++++++++++++
 src/transaction/mod.rs |  3 +++
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index f9ce09e..29d9472 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -795,10 +795,14 @@ where
         // Record WAL spans BEFORE insert that may trigger auto-seal.
         // If we record after, a sealed segment would miss the current batch's frames,
         // causing WAL GC to prematurely delete frames needed for recovery.
-        for (first, last) in wal_spans {
+        for &(first, last) in &wal_spans {
             self.observe_mutable_wal_span(first, last);
         }
         self.insert_into_mutable(batch, commit_ts)?;
+        // A batch that overflowed the memtable lives in the fresh one, which must keep its frames.
+        for (first, last) in wal_spans {
+            self.observe_mutable_wal_span(first, last);
+        }
         self.maybe_seal_after_insert()?;
         self.maybe_run_minor_compaction().await.map_err(|err| {
             KeyExtractError::Arrow(ArrowError::ComputeError(format!(
diff --git a/src/db/wal.rs b/src/db/wal.rs
index 20b0992..5cf83d4 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -217,6 +217,7 @@ where
     ) -> Result<Option<Timestamp>, KeyExtractError> {
         let mut last_commit_ts: Option<Timestamp> = None;
         let mut pending: PendingWalTxns = HashMap::new();
+        let replayed_range = self.mutable_wal_range_snapshot();
         for event in events {
             match event {
                 WalEvent::TxnBegin { provisional_id } => {
@@ -306,6 +307,13 @@ where
             }
         }
 
+        // Seals during replay took the range along, but later rows came from the same frames.
+        if self.mem.row_count() > 0
+            && let Some(range) = replayed_range
+        {
+            self.record_mutable_wal_range(range);
+        }
+
         Ok(last_commit_ts)
     }
 }
@@ -507,6 +515,10 @@ where
             let wal_range_take = db.take_mutable_wal_range();
             db.add_immutable(sealed, wal_range_take);
         }
+        // A batch that overflowed the memtable lives in the fresh one, which must keep its frames.
+        if let Some(range) = wal_range {
+            db.record_mutable_wal_range(range);
+        }
         db.maybe_seal_after_insert()?;
         db.maybe_run_minor_compaction()
             .await
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index c408639..38c3315 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -666,6 +666,9 @@ where
                         delete_payload.take(),
                         commit_ts,
                     )?;
+                    // Rows that overflowed the memtable live in the fresh one, which must keep
+                    // their frames.
+                    publish_ctx.record_wal_range(&wal_range);
                     publish_ctx.finalize_manifest(wal_range).await?;
                 }
                 CommitAckMode::Fast => {
-- 
2.43.0


From 6702212b91434a243ee2c24623a0942f4bd2249d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:44 +0000
Subject: [PATCH 20/33] fix: snapshots must not admit commits that are still in
 flight, and commits must see conflicts with them

---
 src/db/mod.rs          | 19 +++++++++--
 src/db/wal.rs          |  4 ++-
 src/mvcc/mod.rs        | 75 +++++++++++++++++++++++++++++++++++++++++-
 src/transaction/mod.rs |  7 +++-
 4 files changed, 100 insertions(+), 5 deletions(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index 29d9472..1ae7047 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -60,7 +60,7 @@ use crate::{
         ManifestError, ManifestFs, SstEntry, TableId, TableMeta, TonboManifest, VersionEdit,
         WalSegmentRef,
     },
-    mvcc::{CommitClock, ReadView, Timestamp},
+    mvcc::{CommitClock, PendingCommit, ReadView, Timestamp},
     ondisk::{
         bloom::{BloomFilterCache, default_bloom_cache},
         metadata::{ParquetMetadataCache, default_parquet_metadata_cache},
@@ -775,7 +775,8 @@ where
 
         self.apply_l0_backpressure().await?;
 
-        let commit_ts = self.next_commit_ts();
+        let pending = self.begin_commit();
+        let commit_ts = pending.timestamp();
         let mut wal_spans: Vec<(u64, u64)> = Vec::new();
         if let Some(handle) = self.wal_handle().cloned() {
             let provisional_id = handle.next_provisional_id();
@@ -799,6 +800,7 @@ where
             self.observe_mutable_wal_span(first, last);
         }
         self.insert_into_mutable(batch, commit_ts)?;
+        drop(pending);
         // A batch that overflowed the memtable lives in the fresh one, which must keep its frames.
         for (first, last) in wal_spans {
             self.observe_mutable_wal_span(first, last);
@@ -831,6 +833,8 @@ where
             .snapshot_latest_with_fallback(self.manifest_table, &self.table_meta)
             .await?;
         let next_ts = self.commit_clock.peek();
+        // A commit below the read timestamp must not become visible later on.
+        self.commit_clock.settled_below(next_ts).await;
         let read_ts = next_ts.saturating_sub(1);
         let read_view = ReadView::new(read_ts);
         Ok(TxSnapshot::from_table_snapshot(
@@ -949,10 +953,21 @@ where
     }
 
     /// Allocate the next commit timestamp for WAL/autocommit flows.
+    #[cfg(test)]
     pub(crate) fn next_commit_ts(&self) -> Timestamp {
         self.commit_clock.alloc()
     }
 
+    /// Allocate a commit timestamp; snapshots wait until the commit is applied or given up.
+    pub(crate) fn begin_commit(&self) -> PendingCommit<'_> {
+        self.commit_clock.begin()
+    }
+
+    /// Wait until every commit older than `commit` is applied or given up.
+    pub(crate) async fn older_commits_settled(&self, commit: &PendingCommit<'_>) {
+        self.commit_clock.settled_below(commit.timestamp()).await
+    }
+
     /// Number of immutable segments attached to this DB (oldest..newest).
     pub(crate) fn num_immutable_segments(&self) -> usize {
         self.seal_state_lock().immutables.len()
diff --git a/src/db/wal.rs b/src/db/wal.rs
index 5cf83d4..e499a2f 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -451,7 +451,8 @@ where
         return Ok(());
     }
 
-    let commit_ts = db.next_commit_ts();
+    let pending = db.begin_commit();
+    let commit_ts = pending.timestamp();
 
     let (upsert_batch, delete_batch) =
         partition_batch_for_mutations(db, batch, &tombstones, commit_ts)?;
@@ -515,6 +516,7 @@ where
             let wal_range_take = db.take_mutable_wal_range();
             db.add_immutable(sealed, wal_range_take);
         }
+        drop(pending);
         // A batch that overflowed the memtable lives in the fresh one, which must keep its frames.
         if let Some(range) = wal_range {
             db.record_mutable_wal_range(range);
diff --git a/src/mvcc/mod.rs b/src/mvcc/mod.rs
index 39de3d2..005b1e5 100644
--- a/src/mvcc/mod.rs
+++ b/src/mvcc/mod.rs
@@ -72,12 +72,53 @@ impl fmt::Debug for Timestamp {
 }
 
 /// Tracks the next commit timestamp to allocate.
-use std::sync::atomic::{AtomicU64, Ordering};
+use std::{
+    collections::BTreeSet,
+    sync::{
+        Mutex, MutexGuard,
+        atomic::{AtomicU64, Ordering},
+    },
+};
+
+use futures::channel::oneshot;
 
 /// Monotonic allocator for MVCC commit timestamps backed by atomics.
 #[derive(Debug)]
 pub struct CommitClock {
     next: AtomicU64,
+    in_flight: Mutex<InFlightCommits>,
+}
+
+/// Commits that own a timestamp but whose rows are not readable yet.
+#[derive(Debug, Default)]
+struct InFlightCommits {
+    pending: BTreeSet<Timestamp>,
+    waiters: Vec<oneshot::Sender<()>>,
+}
+
+/// Timestamp of a commit in flight; dropping it declares the commit applied or given up.
+#[derive(Debug)]
+pub(crate) struct PendingCommit<'a> {
+    clock: &'a CommitClock,
+    ts: Timestamp,
+}
+
+impl PendingCommit<'_> {
+    /// Timestamp allocated for this commit.
+    #[inline]
+    pub(crate) fn timestamp(&self) -> Timestamp {
+        self.ts
+    }
+}
+
+impl Drop for PendingCommit<'_> {
+    fn drop(&mut self) {
+        let mut in_flight = self.clock.in_flight();
+        in_flight.pending.remove(&self.ts);
+        for waiter in in_flight.waiters.drain(..) {
+            let _ = waiter.send(());
+        }
+    }
 }
 
 impl CommitClock {
@@ -86,6 +127,38 @@ impl CommitClock {
     pub(crate) const fn new(start: Timestamp) -> Self {
         Self {
             next: AtomicU64::new(start.get()),
+            in_flight: Mutex::new(InFlightCommits {
+                pending: BTreeSet::new(),
+                waiters: Vec::new(),
+            }),
+        }
+    }
+
+    fn in_flight(&self) -> MutexGuard<'_, InFlightCommits> {
+        self.in_flight.lock().expect("in-flight commits lock poisoned")
+    }
+
+    /// Allocate the timestamp of a commit that is in flight until the result is dropped.
+    pub(crate) fn begin(&self) -> PendingCommit<'_> {
+        let mut in_flight = self.in_flight();
+        let ts = self.alloc();
+        in_flight.pending.insert(ts);
+        PendingCommit { clock: self, ts }
+    }
+
+    /// Wait until no commit with a timestamp below `bound` is in flight any more.
+    pub(crate) async fn settled_below(&self, bound: Timestamp) {
+        loop {
+            let changed = {
+                let mut in_flight = self.in_flight();
+                if in_flight.pending.first().is_none_or(|ts| *ts >= bound) {
+                    return;
+                }
+                let (tx, rx) = oneshot::channel();
+                in_flight.waiters.push(tx);
+                rx
+            };
+            let _ = changed.await;
         }
     }
 
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index 38c3315..4b09caf 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -611,6 +611,10 @@ where
             key_guards.push(guard);
         }
 
+        // Writers that do not lock keys may own an older timestamp without being visible yet.
+        let pending = db.begin_commit();
+        let commit_ts = pending.timestamp();
+        db.older_commits_settled(&pending).await;
         for (key, _) in staged.iter() {
             if db.mutable_has_conflict(key, snapshot_ts)
                 || db.immutable_has_conflict(key, snapshot_ts)
@@ -624,7 +628,6 @@ where
             }
         }
 
-        let commit_ts = db.next_commit_ts();
         let (rows, delete_keys) = staged.into_mutations();
         let mut upsert_payload = if rows.is_empty() {
             None
@@ -666,6 +669,7 @@ where
                         delete_payload.take(),
                         commit_ts,
                     )?;
+                    drop(pending);
                     // Rows that overflowed the memtable live in the fresh one, which must keep
                     // their frames.
                     publish_ctx.record_wal_range(&wal_range);
@@ -682,6 +686,7 @@ where
                         delete_payload.take(),
                         commit_ts,
                     )?;
+                    drop(pending);
                     let publish_ctx = db.txn_publish_context(prev_live_floor);
                     let executor = Arc::clone(db.executor());
                     spawn_publish_task(executor, publish_ctx, tickets);
-- 
2.43.0


From f8982c95063bc01ab5515d38fa3d7ee1552d86a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:21 +0000
Subject: [PATCH 21/33] fix: an open scan must not block writers that seal the
 write buffer

---
 src/inmem/mutable/memtable.rs | 76 +++++++++++++++++------------------
 src/inmem/mutable/metrics.rs  |  7 ----
 2 files changed, 36 insertions(+), 47 deletions(-)

diff --git a/src/inmem/mutable/memtable.rs b/src/inmem/mutable/memtable.rs
index 25fd6d3..f66a77a 100644
--- a/src/inmem/mutable/memtable.rs
+++ b/src/inmem/mutable/memtable.rs
@@ -14,7 +14,7 @@ use arrow_array::{Array, RecordBatch, UInt64Array};
 use arrow_schema::{ArrowError, SchemaRef};
 use arrow_select::concat::concat_batches;
 use crossbeam_skiplist::SkipMap;
-use parking_lot::{RwLock, RwLockReadGuard, RwLockUpgradableReadGuard};
+use parking_lot::{RwLock, RwLockUpgradableReadGuard};
 use typed_arrow_dyn::{DynProjection, DynRowRaw, DynSchema, DynViewError};
 
 use super::MutableMemTableMetrics;
@@ -112,6 +112,8 @@ std::thread_local! {
 }
 
 /// Mutable state that lives behind the RwLock.
+///
+/// Sealing swaps in a fresh state, so scans keep reading the one they started on.
 pub(crate) struct DynMemInner {
     /// MVCC index keyed by `(key, commit_ts)` (timestamp descending per key).
     index: SkipMap<KeyTsOwned, DynMutation<BatchRowLoc, DeleteRowLoc>>,
@@ -301,9 +303,9 @@ impl DynMemInner {
         Ok(Ok(()))
     }
 
-    /// Seal into immutable, resetting this inner state.
-    fn seal(
-        &mut self,
+    /// Build the immutable holding everything inserted into this state.
+    fn freeze(
+        &self,
         schema: &SchemaRef,
         extractor: &dyn KeyProjection,
     ) -> Result<Option<ImmutableMemTable>, KeyExtractError> {
@@ -319,11 +321,9 @@ impl DynMemInner {
             })
         };
 
-        // Take ownership of the index. SkipMap iteration is already sorted by
-        // KeyTsOwned's Ord impl: (key ascending, timestamp descending).
-        // No additional sorting is needed.
-        let index = std::mem::replace(&mut self.index, SkipMap::new());
-        let entry_count = index.len();
+        // SkipMap iteration is already sorted by KeyTsOwned's Ord impl:
+        // (key ascending, timestamp descending). No additional sorting is needed.
+        let entry_count = self.index.len();
 
         // Pre-allocate vectors with known capacity to avoid reallocations.
         let mut slices = Vec::with_capacity(entry_count);
@@ -342,9 +342,9 @@ impl DynMemInner {
 
         // Single pass: extract row slices and collect metadata.
         // SkipMap iterates in sorted order (key asc, ts desc) - no sort needed.
-        for (view, mutation) in index.into_iter() {
-            let ts = view.timestamp();
-            match mutation {
+        for entry in self.index.iter() {
+            let ts = entry.key().timestamp();
+            match entry.value() {
                 DynMutation::Upsert(loc) => {
                     let attachment = self.batch_slots[loc.batch_idx]
                         .get()
@@ -372,22 +372,6 @@ impl DynMemInner {
             }
         }
 
-        // Reset batch slots by replacing with fresh OnceLocks.
-        let capacity = self.batch_slots.len();
-        let fresh_batch_slots: Vec<OnceLock<BatchAttachment>> =
-            (0..capacity).map(|_| OnceLock::new()).collect();
-        self.batch_slots = fresh_batch_slots.into_boxed_slice();
-        self.batch_cursor.store(0, Ordering::SeqCst);
-
-        // Reset delete slots by replacing with fresh OnceLocks.
-        let delete_capacity = self.delete_slots.len();
-        let fresh_delete_slots: Vec<OnceLock<DeleteAttachment>> =
-            (0..delete_capacity).map(|_| OnceLock::new()).collect();
-        self.delete_slots = fresh_delete_slots.into_boxed_slice();
-        self.delete_cursor.store(0, Ordering::SeqCst);
-
-        self.metrics.reset_counters();
-
         let batch = if slices.is_empty() {
             RecordBatch::new_empty(schema.clone())
         } else if slices.len() == 1 {
@@ -609,7 +593,7 @@ impl DynMemInner {
 /// - Uses lock-free batch slot reservation for high-throughput concurrent inserts.
 /// - Automatically seals into immutable when capacity is exhausted.
 pub struct DynMem {
-    inner: RwLock<DynMemInner>,
+    inner: RwLock<Arc<DynMemInner>>,
     extractor: Arc<dyn KeyProjection>,
     delete_projection: Arc<dyn KeyProjection>,
     schema: SchemaRef,
@@ -638,7 +622,7 @@ impl DynMem {
         capacity: usize,
     ) -> Self {
         Self {
-            inner: RwLock::new(DynMemInner::new(capacity)),
+            inner: RwLock::new(Arc::new(DynMemInner::new(capacity))),
             extractor,
             delete_projection,
             schema,
@@ -648,12 +632,12 @@ impl DynMem {
 
     /// Acquire a read guard for scanning operations.
     ///
-    /// The returned guard keeps the memtable locked for reading, allowing
-    /// concurrent reads but blocking writes. Use this for scan operations
-    /// that need to hold a consistent view.
+    /// The returned guard keeps the current state alive without locking the memtable, so an open
+    /// scan never blocks inserts or seals. Use this for scan operations that need to hold a
+    /// consistent view.
     pub(crate) fn read(&self) -> DynMemReadGuard<'_> {
         DynMemReadGuard {
-            guard: self.inner.read(),
+            guard: Arc::clone(&self.inner.read()),
             schema: &self.schema,
         }
     }
@@ -712,7 +696,7 @@ impl DynMem {
         let mut write_guard = RwLockUpgradableReadGuard::upgrade(guard);
 
         // Seal the current state
-        let sealed = write_guard.seal(&self.schema, self.extractor.as_ref())?;
+        let sealed = self.swap_state(&mut write_guard)?;
 
         // Now retry the insert on the fresh state
         match write_guard.try_insert_batch(self.extractor.as_ref(), batch, commit_ts_column) {
@@ -748,7 +732,7 @@ impl DynMem {
         }
 
         let mut write_guard = RwLockUpgradableReadGuard::upgrade(guard);
-        let sealed = write_guard.seal(&self.schema, self.extractor.as_ref())?;
+        let sealed = self.swap_state(&mut write_guard)?;
 
         match write_guard.try_insert_delete_batch(self.delete_projection.as_ref(), batch) {
             Ok(Ok(())) => Ok(sealed),
@@ -764,7 +748,19 @@ impl DynMem {
     /// Returns `None` if the memtable was empty.
     pub(crate) fn seal_now(&self) -> Result<Option<ImmutableMemTable>, KeyExtractError> {
         let mut guard = self.inner.write();
-        guard.seal(&self.schema, self.extractor.as_ref())
+        self.swap_state(&mut guard)
+    }
+
+    /// Seal `state` into immutable and replace it with a fresh one.
+    fn swap_state(
+        &self,
+        state: &mut Arc<DynMemInner>,
+    ) -> Result<Option<ImmutableMemTable>, KeyExtractError> {
+        let sealed = state.freeze(&self.schema, self.extractor.as_ref())?;
+        if sealed.is_some() {
+            *state = Arc::new(DynMemInner::new(self.capacity));
+        }
+        Ok(sealed)
     }
 
     /// Return `true` if there is any committed version for `key` newer than `snapshot_ts`.
@@ -799,8 +795,8 @@ impl DynMem {
     /// the same time the batches are released.
     #[cfg(test)]
     pub(crate) fn into_attached_batches(self) -> Vec<RecordBatch> {
-        self.inner
-            .into_inner()
+        Arc::into_inner(self.inner.into_inner())
+            .expect("no scan keeps the memtable alive")
             .batch_slots
             .into_vec()
             .into_iter()
@@ -822,7 +818,7 @@ impl DynMem {
 
 /// Guard providing read access to the memtable's inner state.
 pub struct DynMemReadGuard<'a> {
-    guard: RwLockReadGuard<'a, DynMemInner>,
+    guard: Arc<DynMemInner>,
     schema: &'a SchemaRef,
 }
 
diff --git a/src/inmem/mutable/metrics.rs b/src/inmem/mutable/metrics.rs
index 6119332..adeaf36 100644
--- a/src/inmem/mutable/metrics.rs
+++ b/src/inmem/mutable/metrics.rs
@@ -49,13 +49,6 @@ impl MutableMemTableMetrics {
             entry_overhead: self.entry_overhead.load(Ordering::Relaxed),
         }
     }
-
-    pub(crate) fn reset_counters(&self) {
-        self.entries.store(0, Ordering::Relaxed);
-        self.inserts.store(0, Ordering::Relaxed);
-        self.replaces.store(0, Ordering::Relaxed);
-        self.approx_key_bytes.store(0, Ordering::Relaxed);
-    }
 }
 
 impl Default for MutableMemTableMetrics {
-- 
2.43.0


From 88b55542630ab83dc53c010357524913b4c721a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:09 +0000
Subject: [PATCH 22/33] fix: refuse null keys before the batch reaches the log

---
 src/db/mod.rs |  7 +------
 src/db/wal.rs | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index 1ae7047..5f23e93 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -766,12 +766,7 @@ where
 
     /// Unified ingestion entry point for dynamic batches.
     pub async fn ingest(&self, batch: RecordBatch) -> Result<(), KeyExtractError> {
-        if self.schema.as_ref() != batch.schema().as_ref() {
-            return Err(KeyExtractError::SchemaMismatch {
-                expected: self.schema.clone(),
-                actual: batch.schema(),
-            });
-        }
+        wal::validate_record_batch(self, &batch)?;
 
         self.apply_l0_backpressure().await?;
 
diff --git a/src/db/wal.rs b/src/db/wal.rs
index e499a2f..9b36f18 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -444,7 +444,7 @@ where
     E: Executor + Timer + Clone,
     <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
 {
-    validate_record_batch_schema(db, &batch)?;
+    validate_record_batch(db, &batch)?;
     validate_vec_tombstone_bitmap(&batch, &tombstones)?;
 
     if batch.num_rows() == 0 {
@@ -561,7 +561,7 @@ where
             "wal batch contained unexpected _tombstone column".into(),
         )));
     }
-    validate_record_batch_schema(db, &batch)?;
+    validate_record_batch(db, &batch)?;
     let commit_array = commit_ts_column
         .as_any()
         .downcast_ref::<UInt64Array>()
@@ -607,7 +607,8 @@ where
     Ok(())
 }
 
-fn validate_record_batch_schema<FS, E>(
+/// Refuse batches that could not be applied before anything of them reaches the log.
+pub(crate) fn validate_record_batch<FS, E>(
     db: &DbInner<FS, E>,
     batch: &RecordBatch,
 ) -> Result<(), KeyExtractError>
@@ -622,6 +623,14 @@ where
             actual: batch.schema(),
         });
     }
+    for &col in db.extractor().key_indices() {
+        if batch.column(col).null_count() > 0 {
+            return Err(KeyExtractError::Arrow(ArrowError::ComputeError(format!(
+                "key column '{}' contained null",
+                batch.schema().field(col).name()
+            ))));
+        }
+    }
     Ok(())
 }
 
-- 
2.43.0


From 7abca11df63bdcd682fdba3c5fac931fa504c1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:14 +0000
Subject: [PATCH 23/33] fix: a refused batch must not stay partly staged in its
 transaction

---
 src/transaction/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index 4b09caf..b0180a5 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -479,8 +479,13 @@ where
     where
         I: IntoIterator<Item = DynRow>,
     {
+        // Stage nothing unless every row is acceptable.
+        let mut accepted = Vec::new();
         for row in rows.into_iter() {
-            self.upsert(row)?;
+            accepted.push((self.project_key(&row)?, row));
+        }
+        for (key, row) in accepted {
+            self.staged.upsert(key, row);
         }
         Ok(())
     }
@@ -488,11 +493,10 @@ where
     /// Stage every row from `batch`, ensuring the schema matches this transaction.
     pub fn upsert_batch(&mut self, batch: &RecordBatch) -> Result<(), TransactionError> {
         self.ensure_batch_schema(&batch.schema())?;
-        for row_idx in 0..batch.num_rows() {
-            let row = row_from_batch(batch, row_idx).map_err(TransactionError::KeyExtract)?;
-            self.upsert(row)?;
-        }
-        Ok(())
+        let rows = (0..batch.num_rows())
+            .map(|row_idx| row_from_batch(batch, row_idx).map_err(TransactionError::KeyExtract))
+            .collect::<Result<Vec<_>, _>>()?;
+        self.upsert_rows(rows)
     }
 
     /// Stage a logical delete for `key`.
-- 
2.43.0


From d5fc3ac2371594ad3b6374cc99a65bb44218a7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:09 +0000
Subject: [PATCH 24/33] fix: concurrent metadata updates of one process must
 not fail each other

---
 src/manifest/driver.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/manifest/driver.rs b/src/manifest/driver.rs
index 3fb9dd6..79eb077 100644
--- a/src/manifest/driver.rs
+++ b/src/manifest/driver.rs
@@ -12,6 +12,7 @@ use fusio_manifest::{
     snapshot::{ScanRange, Snapshot},
     types::Error as FusioManifestError,
 };
+use futures::lock::Mutex as AsyncMutex;
 use thiserror::Error;
 use tracing::instrument;
 
@@ -104,6 +105,8 @@ where
     E: Executor + Timer + Clone + 'static,
 {
     inner: FusioManifest<C::Key, C::Value, HS, SS, CS, LS, E, DefaultRetention>,
+    /// Serializes write sessions of this process, so that they do not fail each other's CAS.
+    write_lock: Arc<AsyncMutex<()>>,
 }
 
 impl<C, HS, SS, CS, LS, E> Manifest<C, HS, SS, CS, LS, E>
@@ -129,6 +132,7 @@ where
                 stores.lease,
                 ctx,
             ),
+            write_lock: Arc::new(AsyncMutex::new(())),
         }
     }
 }
@@ -191,6 +195,7 @@ where
             cas = expected_head.is_some(),
         );
 
+        let _guard = self.write_lock.lock().await;
         let mut session = self.inner.session_write().await?;
 
         let head_key = VersionKey::TableHead { table_id: table };
@@ -495,6 +500,7 @@ where
         table_id: TableId,
         plan: GcPlanState,
     ) -> ManifestResult<()> {
+        let _guard = self.write_lock.lock().await;
         let mut session = self.inner.session_write().await?;
         let key = GcPlanKey::Table { table_id };
         session.put(key, GcPlanValue::Plan(plan));
@@ -652,6 +658,7 @@ where
     fn clone(&self) -> Self {
         Self {
             inner: self.inner.clone(),
+            write_lock: Arc::clone(&self.write_lock),
         }
     }
 }
-- 
2.43.0


From f0a45167354b17a366e2e7398d6656c24144b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:32 +0000
Subject: [PATCH 25/33] fix: a write must not fail because a concurrent one
 flushed the sealed buffers first

---
 src/compaction/minor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compaction/minor.rs b/src/compaction/minor.rs
index de6a331..651b620 100644
--- a/src/compaction/minor.rs
+++ b/src/compaction/minor.rs
@@ -106,6 +106,8 @@ impl MinorCompactor {
                 }
                 Ok(Some(table))
             }
+            // A concurrent writer flushed the segments first.
+            Err(SsTableError::NoImmutableSegments) => Ok(None),
             Err(err) => {
                 log_warn!(
                     component = "compaction",
-- 
2.43.0


From fce55ccee43d83c519af88c77f06509fdd755116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 26/33] fix: key filters compare literals in the key column's
 type

A literal whose scalar type differs from the key column's (every literal for
Int32, UInt32 and Float32 keys, NULL literals) produced key bounds of another
type, so buffered rows were wrongly skipped or kept.
---
 src/db/scan.rs    | 11 ++++++++---
 src/query/scan.rs | 42 ++++++++++++++++++++++++++++++++++++------
 2 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index 8c70647..2a316d0 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -50,7 +50,7 @@ use crate::{
         Expr, ScalarValue,
         scan::{
             DeleteSelection, RowSet, ScanPlan, ScanSelection, SstScanSelection, SstSelection,
-            key_bounds_for_predicate, key_range_for_predicate, next_prefix_string,
+            bounds_from_expr, key_bounds_for_predicate, key_range_for_predicate, next_prefix_string,
             projection_with_predicate,
         },
         stream::{
@@ -1351,7 +1351,10 @@ fn split_predicate_for_non_sst_inner(
             residual: None,
         },
         Expr::Cmp { column, op, .. } => {
-            if column != key_column || matches!(op, aisle::CmpOp::NotEq) {
+            if column != key_column
+                || matches!(op, aisle::CmpOp::NotEq)
+                || bounds_from_expr(predicate, key_column, key_type).is_none()
+            {
                 return NonSstPredicateSplit {
                     pushdown: None,
                     residual: Some(predicate.clone()),
@@ -1363,7 +1366,9 @@ fn split_predicate_for_non_sst_inner(
             }
         }
         Expr::Between { column, .. } => {
-            if column != key_column {
+            if column != key_column
+                || bounds_from_expr(predicate, key_column, key_type).is_none()
+            {
                 return NonSstPredicateSplit {
                     pushdown: None,
                     residual: Some(predicate.clone()),
diff --git a/src/query/scan.rs b/src/query/scan.rs
index ac24624..0f617eb 100644
--- a/src/query/scan.rs
+++ b/src/query/scan.rs
@@ -492,16 +492,46 @@ pub(crate) fn key_bounds_for_predicate(
     bounds_from_expr(predicate, key_column, field.data_type())
 }
 
-fn scalar_to_key(value: &ScalarValue) -> Option<KeyOwned> {
+/// Literal as a key of type `key_type`, if that type represents it exactly. Keys of different types
+/// order by type, so any other literal must not bound them.
+fn scalar_to_key(value: &ScalarValue, key_type: &DataType) -> Option<KeyOwned> {
+    let value_type = value.data_type();
+    let is_number = |data_type: &DataType| data_type.is_integer() || data_type.is_floating();
+    if is_number(key_type) {
+        if !is_number(&value_type) {
+            return None;
+        }
+        let key = value.cast_to(key_type).ok()?;
+        if key.cast_to(&value_type).ok()? != *value {
+            return None;
+        }
+        return match key {
+            ScalarValue::Int32(Some(v)) => Some(KeyOwned::from(v)),
+            ScalarValue::UInt32(Some(v)) => Some(KeyOwned::from(v)),
+            ScalarValue::Float32(Some(v)) => Some(KeyOwned::from(v)),
+            other => <KeyOwned as KeyPredicateValue>::from_scalar(&other),
+        };
+    }
+    if is_string_key(key_type) != is_string_key(&value_type)
+        || matches!(key_type, DataType::Boolean) != matches!(value_type, DataType::Boolean)
+        || is_number(&value_type)
+    {
+        return None;
+    }
     <KeyOwned as KeyPredicateValue>::from_scalar(value)
 }
 
-fn bounds_from_expr(expr: &Expr, key_column: &str, key_type: &DataType) -> Option<KeyBounds> {
+/// Key bounds implied by `expr`; `None` when it does not bound the key.
+pub(crate) fn bounds_from_expr(
+    expr: &Expr,
+    key_column: &str,
+    key_type: &DataType,
+) -> Option<KeyBounds> {
     match expr {
         Expr::True => None,
         Expr::False => Some(KeyBounds::empty()),
         Expr::Cmp { column, op, value } if column == key_column => {
-            let key = scalar_to_key(value)?;
+            let key = scalar_to_key(value, key_type)?;
             let bounds = match op {
                 aisle::CmpOp::Eq => KeyBounds::with_range((key.clone(), true), (key, true)),
                 aisle::CmpOp::NotEq => return None,
@@ -518,8 +548,8 @@ fn bounds_from_expr(expr: &Expr, key_column: &str, key_type: &DataType) -> Optio
             high,
             inclusive,
         } if column == key_column => {
-            let low_key = scalar_to_key(low)?;
-            let high_key = scalar_to_key(high)?;
+            let low_key = scalar_to_key(low, key_type)?;
+            let high_key = scalar_to_key(high, key_type)?;
             Some(KeyBounds::with_range(
                 (low_key, *inclusive),
                 (high_key, *inclusive),
@@ -543,7 +573,7 @@ fn bounds_from_expr(expr: &Expr, key_column: &str, key_type: &DataType) -> Optio
             }
             let mut keys = Vec::with_capacity(values.len());
             for value in values {
-                let key = scalar_to_key(value)?;
+                let key = scalar_to_key(value, key_type)?;
                 keys.push(key);
             }
             let min = keys.iter().min().cloned()?;
-- 
2.43.0


From 407f785d9044d92a29638633f81bff6465eb562d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 27/33] fix: scans return large, fixed-size and zoned timestamp
 columns

The row type check of DynBuilders has no entry for LargeUtf8, LargeBinary and
FixedSizeBinary and its builders drop a timestamp's zone, so tables with such
columns accepted writes but every scan failed.
---
 src/query/stream/package.rs | 82 ++++++++++++++++++++++++++++++-------
 1 file changed, 68 insertions(+), 14 deletions(-)

diff --git a/src/query/stream/package.rs b/src/query/stream/package.rs
index 4b1dd19..d3cfa76 100644
--- a/src/query/stream/package.rs
+++ b/src/query/stream/package.rs
@@ -8,14 +8,17 @@ use std::{
 };
 
 use aisle::{CmpOp, Expr};
-use arrow_array::RecordBatch;
-use arrow_schema::SchemaRef;
+use arrow_array::{RecordBatch, make_array};
+use arrow_schema::{ArrowError, DataType, SchemaRef};
 use datafusion_common::ScalarValue;
 use fusio::executor::Executor;
 use futures::Stream;
 use pin_project_lite::pin_project;
 use thiserror::Error;
-use typed_arrow_dyn::{DynBuilders, DynProjection, DynRow, DynSchema};
+use typed_arrow_dyn::{
+    DynColumnBuilder, DynError, DynProjection, DynRow, DynSchema,
+    try_new_dyn_builder_with_capacity, validate_nullability,
+};
 
 use crate::query::stream::{StreamError, merge::MergeStream};
 
@@ -145,9 +148,10 @@ where
                         }
                         let projected = if let Some(projection) = this.projection.as_ref() {
                             // Row is already owned, use it directly
-                            let mut builders = DynBuilders::new(Arc::clone(&*this.scan_schema), 1);
-                            builders.append_option_row(Some(row))?;
-                            let batch = builders.try_finish_into_batch()?;
+                            let mut builder =
+                                DynRecordBatchBuilder::new(Arc::clone(&*this.scan_schema), 1);
+                            builder.append_row(row)?;
+                            let batch = builder.finish_batch()?;
                             let raw =
                                 projection.project_row_raw(&*this.scan_dyn_schema, &batch, 0)?;
                             raw.into_owned().map_err(StreamError::from)?
@@ -193,30 +197,80 @@ where
 struct DynRecordBatchBuilder {
     schema: SchemaRef,
     batch_size: usize,
-    builders: DynBuilders,
+    columns: Vec<Box<dyn DynColumnBuilder>>,
 }
 
 impl DynRecordBatchBuilder {
     fn new(schema: SchemaRef, batch_size: usize) -> Self {
-        let builders = DynBuilders::new(schema.clone(), batch_size);
+        let columns = Self::columns(&schema, batch_size);
         Self {
             schema,
             batch_size,
-            builders,
+            columns,
         }
     }
 
+    fn columns(schema: &SchemaRef, batch_size: usize) -> Vec<Box<dyn DynColumnBuilder>> {
+        schema
+            .fields()
+            .iter()
+            .map(|field| {
+                try_new_dyn_builder_with_capacity(field.data_type(), batch_size)
+                    .expect("valid schema for builder construction")
+            })
+            .collect()
+    }
+
+    /// Append through the column builders: the row-level type check of `DynBuilders` has no entry
+    /// for the large and fixed-size string/binary types its own builders accept.
     fn append_row(&mut self, row: DynRow) -> Result<(), StreamError> {
-        self.builders.append_option_row(Some(row))?;
+        if row.0.len() != self.columns.len() {
+            return Err(DynError::ArityMismatch {
+                expected: self.columns.len(),
+                got: row.0.len(),
+            }
+            .into());
+        }
+        for (col, (builder, cell)) in self.columns.iter_mut().zip(row.0).enumerate() {
+            match cell {
+                Some(cell) => builder.append_dyn(cell).map_err(|err| err.at_col(col))?,
+                None => builder.append_null(),
+            }
+        }
         Ok(())
     }
 
     fn finish_batch(&mut self) -> Result<RecordBatch, StreamError> {
-        let builders = std::mem::replace(
-            &mut self.builders,
-            DynBuilders::new(self.schema.clone(), self.batch_size),
+        let columns = std::mem::replace(
+            &mut self.columns,
+            Self::columns(&self.schema, self.batch_size),
         );
-        Ok(builders.try_finish_into_batch()?)
+        let mut arrays = Vec::with_capacity(columns.len());
+        let mut union_null_rows: HashMap<usize, Vec<usize>> = HashMap::new();
+        for (mut column, field) in columns.into_iter().zip(self.schema.fields()) {
+            let finished = column.try_finish()?;
+            for (key, mut rows) in finished.union_metadata {
+                union_null_rows.entry(key).or_default().append(&mut rows);
+            }
+            let mut array = finished.array;
+            // The builders drop a timestamp's zone, which is not part of the stored values.
+            if matches!(field.data_type(), DataType::Timestamp(_, Some(_))) {
+                let data = array
+                    .to_data()
+                    .into_builder()
+                    .data_type(field.data_type().clone());
+                array = make_array(data.build().map_err(batch_error)?);
+            }
+            arrays.push(array);
+        }
+        validate_nullability(&self.schema, &arrays, &union_null_rows)?;
+        Ok(RecordBatch::try_new(self.schema.clone(), arrays).map_err(batch_error)?)
+    }
+}
+
+fn batch_error(err: ArrowError) -> DynError {
+    DynError::Builder {
+        message: err.to_string(),
     }
 }
 
-- 
2.43.0


From 2dbb1f8eaa1cd42a9c6fe70db14b6fce32a11bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 28/33] fix: value filters evaluate temporal, large and nested
 columns

The residual evaluator compared timestamps, dates, large and fixed-size values
as unknown, so such filters returned no buffered rows, and IS NULL on a nested
column failed the scan.
---
 src/db/scan.rs              |  8 ++--
 src/query/stream/package.rs | 93 ++++++++++++++++++++++++++++++-------
 2 files changed, 78 insertions(+), 23 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index 2a316d0..01e1b80 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -50,8 +50,8 @@ use crate::{
         Expr, ScalarValue,
         scan::{
             DeleteSelection, RowSet, ScanPlan, ScanSelection, SstScanSelection, SstSelection,
-            bounds_from_expr, key_bounds_for_predicate, key_range_for_predicate, next_prefix_string,
-            projection_with_predicate,
+            bounds_from_expr, key_bounds_for_predicate, key_range_for_predicate,
+            next_prefix_string, projection_with_predicate,
         },
         stream::{
             Order, OwnedImmutableScan, OwnedMutableScan, ScanStream, StreamError,
@@ -1366,9 +1366,7 @@ fn split_predicate_for_non_sst_inner(
             }
         }
         Expr::Between { column, .. } => {
-            if column != key_column
-                || bounds_from_expr(predicate, key_column, key_type).is_none()
-            {
+            if column != key_column || bounds_from_expr(predicate, key_column, key_type).is_none() {
                 return NonSstPredicateSplit {
                     pushdown: None,
                     residual: Some(predicate.clone()),
diff --git a/src/query/stream/package.rs b/src/query/stream/package.rs
index d3cfa76..456eed8 100644
--- a/src/query/stream/package.rs
+++ b/src/query/stream/package.rs
@@ -1,6 +1,7 @@
 //! Package merged rows into Arrow record batches.
 
 use std::{
+    borrow::Cow,
     collections::HashMap,
     pin::Pin,
     sync::Arc,
@@ -16,7 +17,7 @@ use futures::Stream;
 use pin_project_lite::pin_project;
 use thiserror::Error;
 use typed_arrow_dyn::{
-    DynColumnBuilder, DynError, DynProjection, DynRow, DynSchema,
+    DynCell, DynColumnBuilder, DynError, DynProjection, DynRow, DynSchema,
     try_new_dyn_builder_with_capacity, validate_nullability,
 };
 
@@ -333,6 +334,7 @@ impl TriState {
 }
 
 struct ResidualEvaluator {
+    schema: SchemaRef,
     column_map: HashMap<Arc<str>, usize>,
 }
 
@@ -344,7 +346,10 @@ impl ResidualEvaluator {
             .enumerate()
             .map(|(idx, field)| (Arc::<str>::from(field.name().as_str()), idx))
             .collect();
-        Self { column_map }
+        Self {
+            schema: schema.clone(),
+            column_map,
+        }
     }
 
     fn matches_owned(&self, predicate: &Expr, row: &DynRow) -> Result<bool, ResidualError> {
@@ -413,7 +418,7 @@ impl ResidualEvaluator {
         if lhs.is_null() || value.is_null() {
             return Ok(TriState::Unknown);
         }
-        let ordering = compare_scalar_values(&lhs, value);
+        let ordering = compare_scalar_values(&lhs, &self.literal(column, value));
         let result = match op {
             CmpOp::Eq => ordering.map(|ord| ord == std::cmp::Ordering::Equal),
             CmpOp::NotEq => ordering.map(|ord| ord != std::cmp::Ordering::Equal),
@@ -458,7 +463,7 @@ impl ResidualEvaluator {
                 saw_null = true;
                 continue;
             }
-            if let Some(ordering) = compare_scalar_values(&lhs, value) {
+            if let Some(ordering) = compare_scalar_values(&lhs, &self.literal(column, value)) {
                 if ordering == std::cmp::Ordering::Equal {
                     return Ok(TriState::True);
                 }
@@ -501,8 +506,7 @@ impl ResidualEvaluator {
         negated: bool,
         row: &DynRow,
     ) -> Result<TriState, ResidualError> {
-        let value = self.resolve_column(column, row)?;
-        let is_null = value.as_ref().is_none_or(ScalarValue::is_null);
+        let is_null = matches!(self.resolve_cell(column, row)?, None | Some(DynCell::Null));
         Ok(TriState::from_bool(if negated {
             !is_null
         } else {
@@ -515,29 +519,83 @@ impl ResidualEvaluator {
         column: &str,
         row: &DynRow,
     ) -> Result<Option<ScalarValue>, ResidualError> {
-        let idx = self
-            .column_map
-            .get(column)
-            .copied()
-            .ok_or_else(|| ResidualError::MissingColumn(Arc::<str>::from(column)))?;
-        let cell = row
-            .0
-            .get(idx)
-            .ok_or_else(|| ResidualError::MissingColumn(Arc::<str>::from(column)))?;
-        match cell {
+        match self.resolve_cell(column, row)? {
             None => Ok(None),
             Some(c) => convert_owned_cell(c).map(Some),
         }
     }
+
+    fn resolve_cell<'a>(
+        &self,
+        column: &str,
+        row: &'a DynRow,
+    ) -> Result<Option<&'a DynCell>, ResidualError> {
+        let missing = || ResidualError::MissingColumn(Arc::<str>::from(column));
+        let idx = self.column_map.get(column).copied().ok_or_else(missing)?;
+        Ok(row.0.get(idx).ok_or_else(missing)?.as_ref())
+    }
+
+    /// Rows carry temporal values as plain integers: bring a literal of the column's type to the
+    /// same form.
+    fn literal<'a>(&self, column: &str, value: &'a ScalarValue) -> Cow<'a, ScalarValue> {
+        let same_type = self
+            .column_map
+            .get(column)
+            .is_some_and(|idx| *self.schema.field(*idx).data_type() == value.data_type());
+        if !same_type {
+            return Cow::Borrowed(value);
+        }
+        match value {
+            ScalarValue::Date32(v)
+            | ScalarValue::Time32Second(v)
+            | ScalarValue::Time32Millisecond(v) => Cow::Owned(ScalarValue::Int32(*v)),
+            ScalarValue::Date64(v)
+            | ScalarValue::Time64Microsecond(v)
+            | ScalarValue::Time64Nanosecond(v)
+            | ScalarValue::TimestampSecond(v, _)
+            | ScalarValue::TimestampMillisecond(v, _)
+            | ScalarValue::TimestampMicrosecond(v, _)
+            | ScalarValue::TimestampNanosecond(v, _)
+            | ScalarValue::DurationSecond(v)
+            | ScalarValue::DurationMillisecond(v)
+            | ScalarValue::DurationMicrosecond(v)
+            | ScalarValue::DurationNanosecond(v) => Cow::Owned(ScalarValue::Int64(*v)),
+            _ => Cow::Borrowed(value),
+        }
+    }
 }
 
 fn compare_scalar_values(lhs: &ScalarValue, rhs: &ScalarValue) -> Option<std::cmp::Ordering> {
     if lhs.data_type() == rhs.data_type() {
         return lhs.partial_cmp(rhs);
     }
+    // Rows carry strings and bytes without their Arrow representation (large, view, fixed-size).
+    if let (Some(lhs), Some(rhs)) = (scalar_to_str(lhs), scalar_to_str(rhs)) {
+        return Some(lhs.cmp(rhs));
+    }
+    if let (Some(lhs), Some(rhs)) = (scalar_to_bytes(lhs), scalar_to_bytes(rhs)) {
+        return Some(lhs.cmp(rhs));
+    }
     numeric_compare(lhs, rhs)
 }
 
+fn scalar_to_str(value: &ScalarValue) -> Option<&str> {
+    match value {
+        ScalarValue::Utf8(v) | ScalarValue::LargeUtf8(v) | ScalarValue::Utf8View(v) => v.as_deref(),
+        _ => None,
+    }
+}
+
+fn scalar_to_bytes(value: &ScalarValue) -> Option<&[u8]> {
+    match value {
+        ScalarValue::Binary(v)
+        | ScalarValue::LargeBinary(v)
+        | ScalarValue::BinaryView(v)
+        | ScalarValue::FixedSizeBinary(_, v) => v.as_deref(),
+        _ => None,
+    }
+}
+
 fn numeric_compare(lhs: &ScalarValue, rhs: &ScalarValue) -> Option<std::cmp::Ordering> {
     let lhs_is_float = is_float_scalar(lhs);
     let rhs_is_float = is_float_scalar(rhs);
@@ -707,8 +765,7 @@ fn scalar_to_f64(value: &ScalarValue) -> Option<f64> {
     }
 }
 
-fn convert_owned_cell(cell: &typed_arrow_dyn::DynCell) -> Result<ScalarValue, ResidualError> {
-    use typed_arrow_dyn::DynCell;
+fn convert_owned_cell(cell: &DynCell) -> Result<ScalarValue, ResidualError> {
     match cell {
         DynCell::Str(s) => Ok(ScalarValue::Utf8(Some(s.to_string()))),
         DynCell::Bin(b) => Ok(ScalarValue::Binary(Some(b.clone()))),
-- 
2.43.0


From 4b4a7067cc38c013985eaf31499e45d498531c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:59 +0000
Subject: [PATCH 29/33] fix: flush the open log file before syncing it

Sync policies fsync the segment by path; on backends whose handles buffer
writes, bytes written since the last flush interval were acknowledged as
synced although they had not reached the file.
---
 src/wal/writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wal/writer.rs b/src/wal/writer.rs
index 800dac5..567bfa3 100644
--- a/src/wal/writer.rs
+++ b/src/wal/writer.rs
@@ -888,11 +888,15 @@ where
     }
 
     async fn sync_data(&mut self) -> WalResult<()> {
+        // Syncing by path does not cover bytes still buffered in the open handle.
+        self.flush_if_needed(true).await?;
         let path = self.segment.path().clone();
         perform_sync(self.fs_tag, &path, SyncVariant::Data).await
     }
 
     async fn sync_all(&mut self) -> WalResult<()> {
+        // Syncing by path does not cover bytes still buffered in the open handle.
+        self.flush_if_needed(true).await?;
         let path = self.segment.path().clone();
         perform_sync(self.fs_tag, &path, SyncVariant::All).await
     }
-- 
2.43.0


From 2d5dc6db24f91ca143a879dbf166313502cbdd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:40 +0000
Subject: [PATCH 30/33] fix: a delete wins over a write of the same commit in
 every read path

When one batch wrote and deleted a key and its deletes overflowed into the
next write buffer, a scan returned the deleted row once both buffers were
sealed, and compaction could keep the row (it compared row positions of data
and delete batches first).
---
 src/db/scan.rs            |  6 +++++-
 src/ondisk/merge.rs       | 12 +++++-------
 src/query/stream/merge.rs |  7 +++++++
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index 01e1b80..9291ed1 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -938,7 +938,11 @@ where
 type KeyVersion = (Timestamp, Option<DynRow>);
 
 fn keep_newest(newest: &mut Option<KeyVersion>, version: KeyVersion) {
-    if newest.as_ref().is_none_or(|(ts, _)| version.0 > *ts) {
+    // On a tie (one commit that wrote and deleted the key) the delete wins, as in scans.
+    if newest
+        .as_ref()
+        .is_none_or(|(ts, _)| version.0 > *ts || version.0 == *ts && version.1.is_none())
+    {
         *newest = Some(version);
     }
 }
diff --git a/src/ondisk/merge.rs b/src/ondisk/merge.rs
index 8a6cce2..cfc8416 100644
--- a/src/ondisk/merge.rs
+++ b/src/ondisk/merge.rs
@@ -116,13 +116,11 @@ impl Ord for HeapEntry {
             Ordering::Less => Ordering::Greater,
             Ordering::Greater => Ordering::Less,
             Ordering::Equal => match self.commit_ts.cmp(&other.commit_ts) {
-                Ordering::Equal => match self.seq.cmp(&other.seq) {
-                    Ordering::Equal => match (self.kind, other.kind) {
-                        (RowKind::Delete, RowKind::Data) => Ordering::Greater,
-                        (RowKind::Data, RowKind::Delete) => Ordering::Less,
-                        _ => Ordering::Equal,
-                    },
-                    other => other,
+                // One commit may write and delete a key; the delete wins, as in scans.
+                Ordering::Equal => match (self.kind, other.kind) {
+                    (RowKind::Delete, RowKind::Data) => Ordering::Greater,
+                    (RowKind::Data, RowKind::Delete) => Ordering::Less,
+                    _ => self.seq.cmp(&other.seq),
                 },
                 other => other,
             },
diff --git a/src/query/stream/merge.rs b/src/query/stream/merge.rs
index e266c9c..8503806 100644
--- a/src/query/stream/merge.rs
+++ b/src/query/stream/merge.rs
@@ -151,6 +151,8 @@ impl Ord for HeapEntry {
     fn cmp(&self, other: &Self) -> Ordering {
         // Entries are ordered by key, then commit timestamp (descending), followed by source
         // priority (txn > mutable > immutable > SST), and finally stream index for determinism.
+        // Committed entries with equal timestamps are one commit that wrote and deleted the key:
+        // as within a segment or an SST, the delete wins.
         // Uses zero-alloc key comparison for the common case.
         let ordering = self.order.unwrap_or(Order::Asc);
         let key_cmp = match ordering {
@@ -158,8 +160,13 @@ impl Ord for HeapEntry {
         };
         // Timestamps are always ordered descending (latest first) regardless of key order.
         let ts_cmp = other.entry.ts().cmp(&self.entry.ts());
+        let txn_cmp = (self.source_priority != SourcePriority::Txn)
+            .cmp(&(other.source_priority != SourcePriority::Txn));
+        let delete_cmp = other.entry.is_tombstone().cmp(&self.entry.is_tombstone());
         key_cmp
             .then(ts_cmp)
+            .then(txn_cmp)
+            .then(delete_cmp)
             .then(self.source_priority.cmp(&other.source_priority))
             .then(self.stream_idx.cmp(&other.stream_idx))
     }
-- 
2.43.0


From 4e428112958043f72d6df433b35b942307a5b404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:53 +0000
Subject: [PATCH 31/33] fix: enumerating the log must tolerate concurrent
 pruning and not repair the file being written

---
 src/wal/manifest_ext.rs | 82 ++++++++++++++++++++++++-----------------
 src/wal/storage.rs      | 58 ++++++++++++++++++++---------
 2 files changed, 89 insertions(+), 51 deletions(-)

diff --git a/src/wal/manifest_ext.rs b/src/wal/manifest_ext.rs
index 3950b90..589a9af 100644
--- a/src/wal/manifest_ext.rs
+++ b/src/wal/manifest_ext.rs
@@ -23,47 +23,61 @@ pub(crate) async fn collect_wal_segment_refs(
         .await?
         .and_then(|handle| handle.state().last_segment_seq);
 
-    let Some(tail) = storage.tail_metadata_with_hint(wal_state_hint).await? else {
-        return Ok(Vec::new());
-    };
-
-    let mut refs = Vec::with_capacity(2);
     let manifest_cutoff = manifest_floor.map(|f| f.seq());
-    for descriptor in tail
-        .completed
-        .iter()
-        .filter(|descriptor| descriptor.bytes > 0)
-    {
-        let bounds = storage
-            .segment_frame_bounds(&descriptor.path)
-            .await?
-            .ok_or({
-                WalError::Corrupt("wal segment contained no frames despite non-zero length")
-            })?;
-        if segment_required(descriptor.seq, &bounds, manifest_cutoff, live_frame_floor) {
-            refs.push(wal_segment_ref_from_descriptor(descriptor, bounds));
+    loop {
+        let segments = storage.list_segments_with_hint(wal_state_hint).await?;
+        let err = match required_refs(&storage, &segments, manifest_cutoff, live_frame_floor).await
+        {
+            // Note: We intentionally don't re-add the old floor when refs is empty.
+            // If no segments are required (all data persisted), the floor should be cleared.
+            // This ensures WAL replay doesn't replay already-persisted data.
+            Ok(refs) => return Ok(refs),
+            Err(err) => err,
+        };
+        // Segments pruned since they were listed can no longer be read; look again.
+        let remaining = storage.list_segments_with_hint(wal_state_hint).await?;
+        if remaining.first().map(|segment| segment.seq)
+            <= segments.first().map(|segment| segment.seq)
+        {
+            return Err(err);
         }
     }
+}
 
-    if tail.active.bytes > 0 {
-        let bounds = storage
-            .segment_frame_bounds(&tail.active.path)
-            .await?
-            .ok_or({
-                WalError::Corrupt("active wal segment contained no frames despite non-zero length")
-            })?;
-        if segment_required(tail.active.seq, &bounds, manifest_cutoff, live_frame_floor) {
-            refs.push(wal_segment_ref_from_descriptor(&tail.active, bounds));
+async fn required_refs(
+    storage: &WalStorage,
+    segments: &[SegmentDescriptor],
+    manifest_cutoff: Option<u64>,
+    live_frame_floor: Option<u64>,
+) -> Result<Vec<WalSegmentRef>, WalError> {
+    let mut refs = Vec::with_capacity(2);
+    let last_idx = segments.len().saturating_sub(1);
+    for (idx, descriptor) in segments.iter().enumerate() {
+        if descriptor.bytes == 0 {
+            continue;
+        }
+        // The writer may be appending to the last segment while its frames are enumerated.
+        let bounds = if idx == last_idx {
+            match storage
+                .active_segment_frame_bounds(&descriptor.path)
+                .await?
+            {
+                Some(bounds) => bounds,
+                None => continue,
+            }
+        } else {
+            storage
+                .segment_frame_bounds(&descriptor.path)
+                .await?
+                .ok_or({
+                    WalError::Corrupt("wal segment contained no frames despite non-zero length")
+                })?
+        };
+        if segment_required(descriptor.seq, &bounds, manifest_cutoff, live_frame_floor) {
+            refs.push(wal_segment_ref_from_descriptor(descriptor, bounds));
         }
     }
-
-    // Note: We intentionally don't re-add the old floor when refs is empty.
-    // If no segments are required (all data persisted), the floor should be cleared.
-    // This ensures WAL replay doesn't replay already-persisted data.
-
-    refs.sort_by_key(|segment| segment.seq());
     refs.dedup_by_key(|segment| segment.seq());
-
     Ok(refs)
 }
 
diff --git a/src/wal/storage.rs b/src/wal/storage.rs
index d6d4bff..5b6c29f 100644
--- a/src/wal/storage.rs
+++ b/src/wal/storage.rs
@@ -67,9 +67,13 @@ impl WalStorage {
 
     /// Remove an existing WAL segment by path.
     pub(crate) async fn remove_segment(&self, path: &Path) -> WalResult<()> {
-        self.fs.remove(path).await.map_err(|err| {
-            WalError::Storage(format!("failed to remove wal segment {}: {}", path, err))
-        })
+        match self.fs.remove(path).await {
+            // Another pruner removed it first.
+            Err(FusioError::Io(err)) if err.kind() == io::ErrorKind::NotFound => Ok(()),
+            res => res.map_err(|err| {
+                WalError::Storage(format!("failed to remove wal segment {}: {}", path, err))
+            }),
+        }
     }
 
     /// Expose convenience to create the WAL directory structure.
@@ -177,6 +181,19 @@ impl WalStorage {
         &self,
         path: &Path,
     ) -> WalResult<Option<SegmentFrameBounds>> {
+        decode_frame_bounds(&self.read_segment(path).await?, false)
+    }
+
+    /// Decode the frame bounds of the segment being written, ignoring a frame that is not
+    /// complete yet.
+    pub(crate) async fn active_segment_frame_bounds(
+        &self,
+        path: &Path,
+    ) -> WalResult<Option<SegmentFrameBounds>> {
+        decode_frame_bounds(&self.read_segment(path).await?, true)
+    }
+
+    async fn read_segment(&self, path: &Path) -> WalResult<Vec<u8>> {
         let mut file = self
             .fs
             .open_options(path, Self::read_options())
@@ -189,14 +206,12 @@ impl WalStorage {
             })?;
 
         let (read_res, data) = file.read_to_end_at(Vec::new(), 0).await;
-        let data = read_res.map(|_| data).map_err(|err| {
+        read_res.map(|_| data).map_err(|err| {
             WalError::Storage(format!(
                 "failed to read wal segment {} for frame bounds: {}",
                 path, err
             ))
-        })?;
-
-        decode_frame_bounds(&data)
+        })
     }
 
     fn should_attempt_fallback(
@@ -466,16 +481,17 @@ impl WalStorage {
         let Some(seq) = segment_sequence(path.filename()) else {
             return Ok(None);
         };
-        let file = self
-            .fs
-            .open_options(&path, Self::read_options())
-            .await
-            .map_err(|err| {
-                WalError::Storage(format!(
+        let file = match self.fs.open_options(&path, Self::read_options()).await {
+            Ok(file) => file,
+            // Pruned since the directory was listed.
+            Err(FusioError::Io(err)) if err.kind() == io::ErrorKind::NotFound => return Ok(None),
+            Err(err) => {
+                return Err(WalError::Storage(format!(
                     "failed to open wal segment {} for size: {}",
                     path, err
-                ))
-            })?;
+                )));
+            }
+        };
         let size = file
             .size()
             .await
@@ -561,7 +577,7 @@ pub(crate) struct TailMetadata {
     pub(super) last_provisional_id: Option<u64>,
 }
 
-fn decode_frame_bounds(data: &[u8]) -> WalResult<Option<SegmentFrameBounds>> {
+fn decode_frame_bounds(data: &[u8], growing: bool) -> WalResult<Option<SegmentFrameBounds>> {
     if data.is_empty() {
         return Ok(None);
     }
@@ -570,7 +586,15 @@ fn decode_frame_bounds(data: &[u8]) -> WalResult<Option<SegmentFrameBounds>> {
     let mut first = None;
     let mut last = None;
     while !remaining.is_empty() {
-        let (header, rest) = FrameHeader::decode_from(remaining)?;
+        let (header, rest) = match FrameHeader::decode_from(remaining) {
+            Ok(decoded) => decoded,
+            Err(WalError::Corrupt("frame header truncated" | "frame payload truncated"))
+                if growing =>
+            {
+                break;
+            }
+            Err(err) => return Err(err),
+        };
         if first.is_none() {
             first = Some(header.seq);
         }
-- 
2.43.0


From 7f6688cdb4131ccb57603ab53266628d24f87182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:53 +0000
Subject: [PATCH 32/33] fix: log records of commits in flight must not be
 pruned by a concurrent flush

---
 src/db/mod.rs          | 12 ++++++++---
 src/db/wal.rs          | 45 +++++++++++++++++++++++++++++++++++-------
 src/mvcc/mod.rs        | 29 +++++++++++++++++++--------
 src/transaction/mod.rs |  2 ++
 src/wal/mod.rs         |  2 ++
 5 files changed, 72 insertions(+), 18 deletions(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index 5f23e93..d587c07 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -8,7 +8,7 @@ use std::{
     collections::HashMap,
     sync::{
         Arc, Mutex, MutexGuard, Weak,
-        atomic::{AtomicBool, Ordering},
+        atomic::{AtomicBool, AtomicU64, Ordering},
     },
     time::{Duration, Instant},
 };
@@ -492,6 +492,8 @@ where
     metadata_cache: Arc<E::Mutex<ParquetMetadataCache>>,
     /// WAL frame bounds covering the current mutable memtable, if any.
     mutable_wal_range: Arc<Mutex<Option<WalFrameRange>>>,
+    /// Highest WAL frame acknowledged to a writer of this DB.
+    last_logged_frame: Arc<AtomicU64>,
     /// Per-key transactional locks (wired once transactional writes arrive).
     _key_locks: LockMap<KeyOwned>,
     /// Optional background compaction worker handle.
@@ -553,6 +555,8 @@ where
     metadata_cache: Arc<E::Mutex<ParquetMetadataCache>>,
     /// WAL frame bounds covering the current mutable memtable, if any.
     mutable_wal_range: Arc<Mutex<Option<WalFrameRange>>>,
+    /// Highest WAL frame acknowledged to a writer of this DB.
+    last_logged_frame: Arc<AtomicU64>,
     /// Per-key transactional locks (wired once transactional writes arrive).
     _key_locks: LockMap<KeyOwned>,
     /// Optional background compaction worker handle.
@@ -668,6 +672,7 @@ where
             pruner_cache: Arc::new(E::mutex(HashMap::new())),
             metadata_cache: default_parquet_metadata_cache::<E>(),
             mutable_wal_range: Arc::new(Mutex::new(None)),
+            last_logged_frame: Arc::new(AtomicU64::new(0)),
             _key_locks: Arc::new(LockableHashMap::new()),
             compaction_worker: None,
             compaction_metrics: None,
@@ -955,7 +960,8 @@ where
 
     /// Allocate a commit timestamp; snapshots wait until the commit is applied or given up.
     pub(crate) fn begin_commit(&self) -> PendingCommit<'_> {
-        self.commit_clock.begin()
+        let next_frame = self.last_logged_frame.load(Ordering::Acquire) + 1;
+        self.commit_clock.begin(next_frame)
     }
 
     /// Wait until every commit older than `commit` is applied or given up.
@@ -1144,7 +1150,7 @@ where
             builder.add_immutable(seg)?;
         }
         let existing_floor = self.manifest_wal_floor().await;
-        let live_floor = self.mutable_wal_range_snapshot().map(|range| range.first);
+        let live_floor = self.unflushed_wal_frame_floor(flush_count);
         let (wal_ids, wal_refs) = if let Some(cfg) = &self.wal_config {
             match manifest_ext::collect_wal_segment_refs(cfg, existing_floor.as_ref(), live_floor)
                 .await
diff --git a/src/db/wal.rs b/src/db/wal.rs
index 9b36f18..958f22f 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -1,6 +1,9 @@
 use std::{
     collections::HashMap,
-    sync::{Arc, Mutex, Weak},
+    sync::{
+        Arc, Mutex, Weak,
+        atomic::{AtomicU64, Ordering},
+    },
 };
 
 use arrow_array::{Array, ArrayRef, RecordBatch, UInt32Array, UInt64Array};
@@ -81,6 +84,7 @@ where
     pub(crate) manifest_table: TableId,
     pub(crate) wal_config: Option<RuntimeWalConfig>,
     pub(crate) mutable_wal_range: Arc<Mutex<Option<WalFrameRange>>>,
+    pub(crate) last_logged_frame: Arc<AtomicU64>,
     pub(crate) prev_live_floor: Option<u64>,
 }
 
@@ -353,20 +357,45 @@ where
     }
 
     pub(crate) fn wal_live_frame_floor(&self) -> Option<u64> {
+        self.live_frame_floor(0)
+    }
+
+    /// Lowest WAL frame that must survive once the oldest `flushed` immutables are in an SST.
+    pub(crate) fn unflushed_wal_frame_floor(&self, flushed: usize) -> Option<u64> {
+        // Frames logged from now on are not accounted for anywhere yet.
+        let next_frame = self
+            .wal
+            .as_ref()
+            .map(|_| self.last_logged_frame.load(Ordering::Acquire) + 1);
+        let live = self.live_frame_floor(flushed);
+        live.into_iter().chain(next_frame).min()
+    }
+
+    fn live_frame_floor(&self, skip_immutables: usize) -> Option<u64> {
+        // Commits in flight may own frames that no range includes yet. They move on to the mutable
+        // range and then to an immutable one, so look in this order.
+        let in_flight_floor = self
+            .wal
+            .as_ref()
+            .and_then(|_| self.commit_clock.in_flight_frame_floor());
         let mutable_floor = self.mutable_wal_range_snapshot().map(|range| range.first);
         let seal = self.seal_state_lock();
         let immutable_floor = seal
             .immutable_wal_ranges
             .iter()
+            .skip(skip_immutables)
             .filter_map(|range| range.as_ref().map(|r| r.first))
             .min();
 
-        match (mutable_floor, immutable_floor) {
-            (Some(lhs), Some(rhs)) => Some(lhs.min(rhs)),
-            (Some(lhs), None) => Some(lhs),
-            (None, Some(rhs)) => Some(rhs),
-            (None, None) => None,
-        }
+        [in_flight_floor, mutable_floor, immutable_floor]
+            .into_iter()
+            .flatten()
+            .min()
+    }
+
+    /// Note that every frame up to `seq` was assigned.
+    pub(crate) fn observe_logged_frame(&self, seq: u64) {
+        self.last_logged_frame.fetch_max(seq, Ordering::AcqRel);
     }
 
     pub(crate) fn txn_publish_context(
@@ -381,6 +410,7 @@ where
             manifest_table: self.manifest_table,
             wal_config: self.wal_config.clone(),
             mutable_wal_range: Arc::clone(&self.mutable_wal_range),
+            last_logged_frame: Arc::clone(&self.last_logged_frame),
             prev_live_floor,
         }
     }
@@ -402,6 +432,7 @@ where
     }
 
     fn record_mutable_wal_range(&self, range: WalFrameRange) {
+        self.observe_logged_frame(range.last);
         let mut guard = self
             .mutable_wal_range
             .lock()
diff --git a/src/mvcc/mod.rs b/src/mvcc/mod.rs
index 005b1e5..11522d9 100644
--- a/src/mvcc/mod.rs
+++ b/src/mvcc/mod.rs
@@ -73,7 +73,7 @@ impl fmt::Debug for Timestamp {
 
 /// Tracks the next commit timestamp to allocate.
 use std::{
-    collections::BTreeSet,
+    collections::BTreeMap,
     sync::{
         Mutex, MutexGuard,
         atomic::{AtomicU64, Ordering},
@@ -92,7 +92,8 @@ pub struct CommitClock {
 /// Commits that own a timestamp but whose rows are not readable yet.
 #[derive(Debug, Default)]
 struct InFlightCommits {
-    pending: BTreeSet<Timestamp>,
+    /// Commit timestamps with the first log frame each commit may own.
+    pending: BTreeMap<Timestamp, u64>,
     waiters: Vec<oneshot::Sender<()>>,
 }
 
@@ -128,30 +129,42 @@ impl CommitClock {
         Self {
             next: AtomicU64::new(start.get()),
             in_flight: Mutex::new(InFlightCommits {
-                pending: BTreeSet::new(),
+                pending: BTreeMap::new(),
                 waiters: Vec::new(),
             }),
         }
     }
 
     fn in_flight(&self) -> MutexGuard<'_, InFlightCommits> {
-        self.in_flight.lock().expect("in-flight commits lock poisoned")
+        self.in_flight
+            .lock()
+            .expect("in-flight commits lock poisoned")
     }
 
-    /// Allocate the timestamp of a commit that is in flight until the result is dropped.
-    pub(crate) fn begin(&self) -> PendingCommit<'_> {
+    /// Allocate the timestamp of a commit that is in flight until the result is dropped and that
+    /// owns no log frame below `first_frame`.
+    pub(crate) fn begin(&self, first_frame: u64) -> PendingCommit<'_> {
         let mut in_flight = self.in_flight();
         let ts = self.alloc();
-        in_flight.pending.insert(ts);
+        in_flight.pending.insert(ts, first_frame);
         PendingCommit { clock: self, ts }
     }
 
+    /// Lowest log frame a commit in flight may own.
+    pub(crate) fn in_flight_frame_floor(&self) -> Option<u64> {
+        self.in_flight().pending.values().copied().min()
+    }
+
     /// Wait until no commit with a timestamp below `bound` is in flight any more.
     pub(crate) async fn settled_below(&self, bound: Timestamp) {
         loop {
             let changed = {
                 let mut in_flight = self.in_flight();
-                if in_flight.pending.first().is_none_or(|ts| *ts >= bound) {
+                if in_flight
+                    .pending
+                    .first_key_value()
+                    .is_none_or(|(ts, _)| *ts >= bound)
+                {
                     return;
                 }
                 let (tx, rx) = oneshot::channel();
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index b0180a5..33e0161 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -1352,6 +1352,8 @@ where
     /// This must be called BEFORE any operation that may trigger auto-seal,
     /// otherwise the sealed segment's WAL range would be incomplete.
     fn record_wal_range(&self, wal_range: &WalFrameRange) {
+        self.last_logged_frame
+            .fetch_max(wal_range.last, std::sync::atomic::Ordering::AcqRel);
         let mut guard = self
             .mutable_wal_range
             .lock()
diff --git a/src/wal/mod.rs b/src/wal/mod.rs
index e306ed1..cf0c712 100644
--- a/src/wal/mod.rs
+++ b/src/wal/mod.rs
@@ -962,6 +962,8 @@ where
             .map(|seq| seq.saturating_add(1))
             .unwrap_or(frame::INITIAL_FRAME_SEQ);
 
+        self.observe_logged_frame(initial_frame_seq.saturating_sub(1));
+
         let metrics = Arc::new(E::rw_lock(WalMetrics::default()));
         let writer = writer::spawn_writer(
             Arc::clone(self.executor()),
-- 
2.43.0


From fa6f34fa4b15ccb23e36efd286148de4939932a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:53 +0000
Subject: [PATCH 33/33] fix: the commit clock must continue after the newest
 flushed commit when a database is opened

---
 src/db/builder.rs |  4 ++++
 src/db/mod.rs     | 24 +++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/db/builder.rs b/src/db/builder.rs
index 701f7ca..6871e8e 100644
--- a/src/db/builder.rs
+++ b/src/db/builder.rs
@@ -1148,6 +1148,10 @@ where
             inner.compaction_metrics = options.metrics();
         }
 
+        inner
+            .advance_clock_past_flushed()
+            .await
+            .map_err(DbBuildError::Manifest)?;
         if let Some(cfg) = wal_cfg.take() {
             inner.enable_wal(cfg).await?;
         }
diff --git a/src/db/mod.rs b/src/db/mod.rs
index d587c07..0d39bf7 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -761,14 +761,36 @@ where
         }
 
         let last_commit_ts = db.replay_wal_events(events)?;
-        let effective_commit = last_commit_ts.or(state_commit_hint);
+        // Later commits than those still in the log may already be in SSTs.
+        let effective_commit = last_commit_ts.max(state_commit_hint);
         if let Some(ts) = effective_commit {
             db.commit_clock.advance_to_at_least(ts.saturating_add(1));
         }
+        db.advance_clock_past_flushed()
+            .await
+            .map_err(manifest_error_as_key_extract)?;
 
         Ok(db)
     }
 
+    /// Make new commits and reads follow every commit recorded in the manifest's SSTs.
+    pub(crate) async fn advance_clock_past_flushed(&self) -> Result<(), ManifestError> {
+        let snapshot = self
+            .manifest
+            .snapshot_latest_with_fallback(self.manifest_table, &self.table_meta)
+            .await?;
+        let flushed = snapshot
+            .latest_version
+            .iter()
+            .flat_map(|version| version.ssts().iter().flatten())
+            .filter_map(|entry| entry.stats().and_then(|stats| stats.max_commit_ts))
+            .max();
+        if let Some(ts) = flushed {
+            self.commit_clock.advance_to_at_least(ts.saturating_add(1));
+        }
+        Ok(())
+    }
+
     /// Unified ingestion entry point for dynamic batches.
     pub async fn ingest(&self, batch: RecordBatch) -> Result<(), KeyExtractError> {
         wal::validate_record_batch(self, &batch)?;
-- 
2.43.0

