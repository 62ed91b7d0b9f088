From 829462bf44e0da21793a4c65c97dd2aac24a9c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:31 +0000
Subject: [PATCH 01/51] hook: I/O tap in DBFile and facade include under
 cfg(axmos_verif)

---
 crates/axmos-db/src/io/disk/mod.rs | 50 ++++++++++++++++++++++++++++++
 crates/axmos-db/src/lib.rs         |  7 +++++
 2 files changed, 57 insertions(+)

diff --git a/crates/axmos-db/src/io/disk/mod.rs b/crates/axmos-db/src/io/disk/mod.rs
index 014a576..35e8ebb 100644
--- a/crates/axmos-db/src/io/disk/mod.rs
+++ b/crates/axmos-db/src/io/disk/mod.rs
@@ -154,6 +154,14 @@ impl Write for DBFile {
     }
 
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        #[cfg(axmos_verif)]
+        {
+            let offset = self.f.stream_position()?;
+            if !tap::emit(&self.p, tap::Mutation::Write { offset, bytes: buf })? {
+                self.f.seek(io::SeekFrom::Current(buf.len() as i64))?;
+                return Ok(buf.len());
+            }
+        }
         self.f.write(buf)
     }
 }
@@ -171,6 +179,9 @@ impl FileOperations for DBFile {
             fs::create_dir_all(parent)?
         }
 
+        #[cfg(axmos_verif)]
+        tap::emit(path.as_ref(), tap::Mutation::Create)?;
+
         // We create the file with the following flags:
         let f = FileSystem::options()
             .create(true)
@@ -208,11 +219,50 @@ impl FileOperations for DBFile {
 
     // truncate the file to 0 len
     fn truncate(&mut self) -> io::Result<()> {
+        #[cfg(axmos_verif)]
+        if !tap::emit(&self.p, tap::Mutation::SetLen(0))? {
+            return Ok(());
+        }
         self.f.set_len(0)
     }
 
     // sync the file to disk
     fn sync_all(&self) -> io::Result<()> {
+        #[cfg(axmos_verif)]
+        if !tap::emit(&self.p, tap::Mutation::Sync)? {
+            return Ok(());
+        }
         File::sync_all(&self.f)
     }
 }
+
+/// Verification tap (only under `--cfg axmos_verif`): reports every mutation of a [DBFile] to a
+/// sink installed by the checker, which may let it through, swallow it or fail it.
+#[cfg(axmos_verif)]
+pub mod tap {
+    use std::{io, path::Path, sync::RwLock};
+
+    #[derive(Debug)]
+    pub enum Mutation<'a> {
+        Create,
+        Write { offset: u64, bytes: &'a [u8] },
+        SetLen(u64),
+        Sync,
+    }
+
+    /// Returns `Ok(true)` to perform the mutation, `Ok(false)` to pretend it happened.
+    pub type Sink = Box<dyn Fn(&Path, &Mutation<'_>) -> io::Result<bool> + Send + Sync>;
+
+    static SINK: RwLock<Option<Sink>> = RwLock::new(None);
+
+    pub fn install(sink: Option<Sink>) {
+        *SINK.write().unwrap_or_else(|e| e.into_inner()) = sink;
+    }
+
+    pub(super) fn emit(path: &Path, mutation: Mutation<'_>) -> io::Result<bool> {
+        match &*SINK.read().unwrap_or_else(|e| e.into_inner()) {
+            Some(sink) => sink(path, &mutation),
+            None => Ok(true),
+        }
+    }
+}
diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index e17afb4..4b34896 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -539,6 +539,13 @@ impl Drop for Database {
     }
 }
 
+/// Verification facade. Compiled only under `--cfg axmos_verif`; the wrappers over crate-private
+/// entry points are supplied by the checker through the `AXMOS_VERIF_FACADE` build-time variable.
+#[cfg(axmos_verif)]
+pub mod verif {
+    include!(env!("AXMOS_VERIF_FACADE"));
+}
+
 #[cfg(test)]
 #[cfg(not(miri))]
 mod tests;
-- 
2.43.0


From ddb0dc96a7164ef1c9ac1ceba29e67fb9acaa33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:33 +0000
Subject: [PATCH 02/51] fix: WAL blocks count their header twice when computing
 the space left

---
 crates/axmos-db/src/storage/wal.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/storage/wal.rs b/crates/axmos-db/src/storage/wal.rs
index 24f9bfe..13b7899 100644
--- a/crates/axmos-db/src/storage/wal.rs
+++ b/crates/axmos-db/src/storage/wal.rs
@@ -408,14 +408,15 @@ pub(crate) type WalBlock = MemBlock<BlockHeader>;
 
 impl AvailableSpace for BlockZero {
     fn available_space(&self) -> usize {
-        Self::usable_space(self.capacity())
+        self.capacity()
             .saturating_sub(self.metadata().block_header.used_bytes as usize)
     }
 }
 
 impl AvailableSpace for WalBlock {
     fn available_space(&self) -> usize {
-        Self::usable_space(self.capacity()).saturating_sub(self.metadata().used_bytes as usize)
+        self.capacity()
+            .saturating_sub(self.metadata().used_bytes as usize)
     }
 }
 
-- 
2.43.0


From 04a960c4b0d3396d9a25b4d3e7e4c840fe21c111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:33 +0000
Subject: [PATCH 03/51] fix: WAL forces overwrite earlier blocks and appends
 after reopen/force lose order

---
 crates/axmos-db/src/io/wal.rs | 86 ++++++++++++++++++++++-------------
 1 file changed, 55 insertions(+), 31 deletions(-)

diff --git a/crates/axmos-db/src/io/wal.rs b/crates/axmos-db/src/io/wal.rs
index ecb5422..a9329cc 100644
--- a/crates/axmos-db/src/io/wal.rs
+++ b/crates/axmos-db/src/io/wal.rs
@@ -48,10 +48,16 @@ impl FileOperations for WriteAheadLog {
         let fs_block_size = FileSystem::block_size(&path)?;
         let default_block_size = WAL_BLOCK_SIZE.next_multiple_of(fs_block_size);
 
-        // Read block 0 (global header)
-        let mut header_buf: BlockZero = BlockZero::new(default_block_size);
-        file.seek(SeekFrom::Start(0))?;
-        file.read_exact(header_buf.as_mut())?;
+        // Read block 0 (global header).
+        // A log that was never forced (or whose truncation was not followed by a force) has no header on disk.
+        let mut header_buf: BlockZero = BlockZero::alloc(0, default_block_size);
+        if file.seek(SeekFrom::End(0))? >= default_block_size as u64 {
+            file.seek(SeekFrom::Start(0))?;
+            file.read_exact(header_buf.as_mut())?;
+        }
+        if header_buf.metadata().wal_header.total_blocks == 0 {
+            header_buf = BlockZero::alloc(0, default_block_size);
+        }
 
         // Usar el block_size del archivo, o el default si es 0
         let block_size = header_buf.metadata().wal_header.block_size as usize;
@@ -61,9 +67,26 @@ impl FileOperations for WriteAheadLog {
             block_size
         };
 
+        // Appends must continue after the last record on disk, so the last numbered block is loaded back.
+        let total_blocks = header_buf.metadata().wal_header.total_blocks;
+        let current_block = if total_blocks > 1 {
+            let mut block = WalBlock::new(block_size);
+            file.seek(SeekFrom::Start((total_blocks - 1) * block_size as u64))?;
+            file.read_exact(block.as_mut())?;
+
+            // The block may have reached the disk without the header that accounts for it.
+            let last_lsn = block.metadata().block_last_lsn;
+            if last_lsn > header_buf.metadata().wal_header.global_last_lsn {
+                header_buf.metadata_mut().wal_header.global_last_lsn = last_lsn;
+            }
+            Some(block)
+        } else {
+            None
+        };
+
         Ok(Self {
             header: header_buf,
-            current_block: None, // If needed, will be allocated on push.
+            current_block,
             flush_queue: VecDeque::new(),
             file,
             block_size,
@@ -308,7 +331,8 @@ impl WriteAheadLog {
                 return Ok(());
             }
             // Block zero is full, create first current_block
-            self.current_block = Some(WalBlock::new(self.block_size));
+            let next_id = self.get_next_block();
+            self.current_block = Some(WalBlock::alloc(next_id, self.block_size));
         }
 
         // Write to current_block
@@ -355,37 +379,29 @@ impl WriteAheadLog {
     }
 
     pub fn perform_flush(&mut self) -> io::Result<()> {
-        // Block 0 always exists, additional blocks start at index 1
-        let mut block_number: u64 = 1;
-        let mut write_offset = self.block_size as u64;
-
-        // Flush queued blocks
-        while let Some(block) = self.flush_queue.pop_front() {
-            self.file.seek(SeekFrom::Start(write_offset))?;
+        // Every numbered block is written at the offset given by its own id, so that
+        // the blocks written by previous flushes are kept.
+        while let Some(block) = self.flush_queue.front() {
+            let offset = block.metadata().block_number * self.block_size as u64;
+            self.file.seek(SeekFrom::Start(offset))?;
             self.file.write_all(block.as_ref())?;
-            block_number += 1;
-            write_offset += self.block_size as u64;
+            self.flush_queue.pop_front();
         }
 
-        // Flush current block if it has data
+        // Flush current block if it has data. It stays in memory, as there may still be space left on it.
         if let Some(ref block) = self.current_block {
             if block.metadata().used_bytes > 0 {
-                self.file.seek(SeekFrom::Start(write_offset))?;
+                let offset = block.metadata().block_number * self.block_size as u64;
+                self.file.seek(SeekFrom::Start(offset))?;
                 self.file.write_all(block.as_ref())?;
-                block_number += 1;
             }
         }
 
         // Update header metadata
-        self.header.metadata_mut().wal_header.total_blocks = block_number;
-
-        if let Some(block) = self.current_block.take() {
-            self.header.metadata_mut().wal_header.last_block_used =
-                block.metadata().used_bytes as u32;
-        } else {
-            self.header.metadata_mut().wal_header.last_block_used =
-                self.header.metadata().block_header.used_bytes as u32;
-        }
+        self.header.metadata_mut().wal_header.last_block_used = match self.current_block {
+            Some(ref block) => block.metadata().used_bytes as u32,
+            None => self.header.metadata().block_header.used_bytes as u32,
+        };
 
         // Write block zero (siempre al principio)
         self.file.seek(SeekFrom::Start(0))?;
@@ -451,10 +467,18 @@ impl<'a> WalReader<'a> {
         block_size: usize,
         total_blocks: u64,
     ) -> io::Result<Self> {
-        // Read block zero (header)
-        let mut header = BlockZero::new(block_size);
-        file.seek(SeekFrom::Start(0))?;
-        file.read_exact(header.as_mut())?;
+        // Read block zero (header). If it was never written, there is nothing to be read.
+        let header = if file.seek(SeekFrom::End(0))? < block_size as u64 {
+            BlockZero::alloc(0, block_size)
+        } else {
+            let mut header = BlockZero::new(block_size);
+            file.seek(SeekFrom::Start(0))?;
+            file.read_exact(header.as_mut())?;
+            header
+        };
+
+        // Blocks that have not been flushed yet cannot be read from the file.
+        let total_blocks = total_blocks.min(header.metadata().wal_header.total_blocks);
 
         let read_ahead_size = read_ahead_size.next_multiple_of(block_size);
         let num_blocks_to_read =
-- 
2.43.0


From bdfc663f8eaa7d15008107a28fe334c30519dba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:33 +0000
Subject: [PATCH 04/51] fix: WAL sequence numbers repeat once records leave
 block zero

---
 crates/axmos-db/src/io/wal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/io/wal.rs b/crates/axmos-db/src/io/wal.rs
index a9329cc..6c00d20 100644
--- a/crates/axmos-db/src/io/wal.rs
+++ b/crates/axmos-db/src/io/wal.rs
@@ -170,7 +170,7 @@ impl WriteAheadLog {
     }
 
     pub(crate) fn last_lsn(&self) -> Option<Lsn> {
-        self.header.last_lsn()
+        self.header.metadata().wal_header.global_last_lsn
     }
 
     /// Runs the analysis phase of the ARIES recovery protocol.
-- 
2.43.0


From 2851a2cf714eb83d60b0276955adad0225981d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:29 +0000
Subject: [PATCH 05/51] fix: row versions carry their own writer and keep their
 history decodable

A new version was stamped with the xmin of the first one, so no snapshot could
ever be served an older version; existing deltas were copied to an unaligned
offset and decoded as garbage; a transaction still saw an older version of a row
it had deleted; a deletion was lost when an earlier, rolled back one had left its
mark; version numbers overflowed after 255 updates; trimming dropped the version
that snapshots at the horizon need; num_versions_with ignored null flags.
Callers that rely on updating rows in place (table and catalog rows) now say so by
passing the existing xmin.
---
 crates/axmos-db/src/runtime/dml.rs    |  5 +--
 crates/axmos-db/src/schema/catalog.rs |  5 +--
 crates/axmos-db/src/storage/tuple.rs  | 52 ++++++++++++++++++---------
 3 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index 28a9ef9..4fd14fe 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -309,7 +309,7 @@ impl DmlExecutor {
 
         // Apply the update
         let mut updated_tuple = tuple.clone();
-        updated_tuple.add_version_with(&assignments, tid, &schema)?;
+        updated_tuple.add_version_with(&assignments, tuple.xmin(), &schema)?;
 
         // Get the new row for index maintenance
         let new_row = updated_tuple
@@ -585,9 +585,10 @@ impl DmlExecutor {
                         })?;
 
                         if let Some(mut tuple) = updated {
+                            let xmin = tuple.xmin();
                             tuple.add_version_with(
                                 &index_assignments,
-                                snapshot.xid(),
+                                xmin,
                                 index_schema,
                             )?;
                             index_btree.update(index_root, tuple, index_schema)?;
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 92aa7a1..f6bc50f 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -427,7 +427,7 @@ impl Catalog {
                             tuples_to_remove.push(tuple);
                             freed
                         } else {
-                            let freed = tuple.vaccum_with(oldest_active_xid, schema)?;
+                            let freed = tuple.vaccum_with(oldest_active_xid, snapshot, schema)?;
                             if freed > 0 {
                                 tuples_to_vaccum.push(tuple);
                             };
@@ -509,7 +509,8 @@ impl Catalog {
             return Ok(());
         };
 
-        tuple.add_version_with(&changes, snapshot.xid(), &schema)?;
+        let xmin = tuple.xmin();
+        tuple.add_version_with(&changes, xmin, &schema)?;
         let result = meta_table.update(self.meta_table, tuple, &schema)?;
 
         Ok(())
diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index 555b247..0fc1864 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -594,7 +594,7 @@ impl<'a> TupleReader<'a> {
 
         // Check if tuple was deleted before our snapshot
         if let Some(xmax) = layout.version_xmax {
-            if snapshot.is_committed_before_snapshot(xmax) {
+            if xmax == snapshot.xid() || snapshot.is_committed_before_snapshot(xmax) {
                 return Ok(None);
             }
         }
@@ -646,7 +646,9 @@ impl<'a> TupleReader<'a> {
                 // If null, the offset doesn't matter - null check happens first
             }
 
-            if snapshot.is_committed_before_snapshot(layout.version_xmin) {
+            if layout.version_xmin == snapshot.xid()
+                || snapshot.is_committed_before_snapshot(layout.version_xmin)
+            {
                 return Ok(Some(layout));
             }
         }
@@ -926,7 +928,7 @@ impl Tuple {
         schema: &Schema,
         snapshot: &Snapshot,
     ) -> TupleResult<usize> {
-        self.vaccum_with(snapshot.xmin(), schema)
+        self.vaccum_with(snapshot.xmin(), snapshot, schema)
     }
 
     pub(crate) fn xmin(&self) -> TransactionId {
@@ -1016,8 +1018,7 @@ impl Tuple {
         let mut cursor = 0;
 
         // Write header
-        let original_xmin = self.xmin();
-        let header = TupleHeader::new(old_version + 1, original_xmin, None);
+        let header = TupleHeader::new(old_version.wrapping_add(1), new_xmin, None);
         cursor = header.write_to(buffer, cursor);
 
         // Write null bitmap for new values
@@ -1043,6 +1044,7 @@ impl Tuple {
         // Copy existing deltas
         if existing_deltas_size > 0 {
             let existing_deltas = &self.data.effective_data()[existing_deltas_start..];
+            cursor = DeltaHeader::aligned_offset(cursor);
             buffer[cursor..cursor + existing_deltas_size].copy_from_slice(existing_deltas);
         }
 
@@ -1159,8 +1161,11 @@ impl Tuple {
             }
         }
 
-        // Existing deltas
-        size += existing_deltas_size;
+        // Existing deltas (the first one starts at an aligned offset)
+        if existing_deltas_size > 0 {
+            size = DeltaHeader::aligned_offset(size);
+            size += existing_deltas_size;
+        }
 
         size
     }
@@ -1262,11 +1267,11 @@ impl Tuple {
         Ok(cursor)
     }
 
+    /// Marks the tuple as deleted by the given transaction.
+    ///
+    /// A previous deletion mark is replaced: callers only delete tuples that are visible to
+    /// them, so that mark can only have been left by a transaction that was rolled back.
     pub(crate) fn delete(&mut self, xid: TransactionId) -> TupleResult<()> {
-        if self.is_deleted() {
-            return Ok(());
-        }
-
         let buffer = self.data.effective_data_mut();
         let (mut header, _) = TupleHeader::read_from(buffer, 0);
         header.xmax = xid as i64;
@@ -1278,13 +1283,16 @@ impl Tuple {
     /// Vacuums the tuple by removing all delta versions that are no longer needed
     /// by any active transaction.
     ///
-    /// A delta is no longer needed if its xmin is less than the oldest active
-    /// transaction ID, meaning no transaction can ever need to see that version.
+    /// A delta is no longer needed if the version that superseded it was committed by a
+    /// transaction older than the oldest active one: every snapshot sees that newer version
+    /// (or an even newer one), so no transaction can ever need to see the delta.
+    /// The given snapshot tells which of those transactions were rolled back.
     ///
     /// Returns the number of bytes freed.
     pub(crate) fn vaccum_with(
         &mut self,
         oldest_active_xid: TransactionId,
+        snapshot: &Snapshot,
         schema: &Schema,
     ) -> TupleResult<usize> {
         let reader = TupleReader::from_schema(schema);
@@ -1299,13 +1307,17 @@ impl Tuple {
         let bitmap_size = null_bitmap_size(num_values);
         let mut cursor = layout.delta_start();
         let mut last_needed_end = layout.delta_start();
+        let mut superseded_by = layout.version_xmin();
 
         while cursor < self.data.len() {
             let (delta_header, header_end) =
                 DeltaHeader::read_from(self.data.effective_data(), cursor);
 
-            // If this delta's xmin >= oldest_active_xid, some transaction might still need it
-            if delta_header.xmin() >= oldest_active_xid {
+            // If the version after this delta was created by a transaction that is not older
+            // than oldest_active_xid, or was rolled back, some transaction might still need
+            // the delta
+            if superseded_by >= oldest_active_xid || snapshot.is_transaction_aborted(superseded_by)
+            {
                 let num_changes = self.data.effective_data()[header_end] as usize;
 
                 // Skip: num_changes byte + full bitmap
@@ -1335,6 +1347,7 @@ impl Tuple {
                     // If null, no data was written, so don't advance cursor
                 }
 
+                superseded_by = delta_header.xmin();
                 last_needed_end = skip_cursor;
                 cursor = skip_cursor;
             } else {
@@ -1382,12 +1395,19 @@ impl Tuple {
         while cursor < self.data.len() {
             let (_, header_end) = DeltaHeader::read_from(self.data.effective_data(), cursor);
             let num_changes = self.data.effective_data()[header_end] as usize;
-            cursor = header_end + 1 + bitmap_size;
+            let bitmap_start = header_end + 1;
+            cursor = bitmap_start + bitmap_size;
+            let delta_bitmap = &self.data.effective_data()[bitmap_start..cursor];
 
             for _ in 0..num_changes {
                 let field_idx = self.data.effective_data()[cursor] as usize;
                 cursor += 1;
 
+                // Null values are not stored in the delta
+                if TupleReader::check_null(delta_bitmap, field_idx) {
+                    continue;
+                }
+
                 let dtype = schema
                     .value(field_idx)
                     .ok_or(TupleError::ValueError(field_idx))?
-- 
2.43.0


From 3b0137057ce8492d3b723b7f25bd966b69968465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:12 +0000
Subject: [PATCH 06/51] fix: writing a BOOLEAN value panics unless it is the
 last byte of the row

---
 crates/axmos-db/src/types/bool.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/types/bool.rs b/crates/axmos-db/src/types/bool.rs
index 23d3533..fbc118e 100644
--- a/crates/axmos-db/src/types/bool.rs
+++ b/crates/axmos-db/src/types/bool.rs
@@ -286,7 +286,7 @@ impl Hashable for Bool {
 
 impl SerializableType for Bool {
     fn write_to(&self, writer: &mut [u8], cursor: usize) -> SerializationResult<usize> {
-        writer[cursor..].copy_from_slice(&[self.0 as u8]);
+        writer[cursor] = self.0 as u8;
         Ok(cursor + 1)
     }
 }
-- 
2.43.0


From b38f8611d516f6d1d875a28d641a06510bde3737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:17 +0000
Subject: [PATCH 07/51] fix: snapshots taken before a commit other than txid 0
 treat later commits as visible

---
 crates/axmos-db/src/multithreading/coordinator.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index 017347a..05c666a 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -375,11 +375,9 @@ impl TransactionCoordinator {
         // xmin is the smallest active transaction ID (or our ID if none active)
         let xmin = active.iter().min().copied().unwrap_or(txid);
 
-        // xmax is the last committed transaction from PageZero
-        let xmax = {
-            let last = self.get_last_committed();
-            if last == 0 { None } else { Some(last) }
-        };
+        // xmax is the last committed transaction from PageZero. Ids start at zero, so zero is a
+        // bound like any other: whatever is above it had not been committed at this point.
+        let xmax = Some(self.get_last_committed());
 
         Ok(Snapshot::new(txid, xmin, xmax, active, aborted))
     }
-- 
2.43.0


From 138c22b05aed36009440390c09aff5c74adf681c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 08/51] fix: compare and hash numbers by their exact value

Numbers were compared and hashed through f64: integers above 2^53 collapsed,
-0.0 = 0.0 but hashed apart, NaN was not equal to itself and had no order.
The casts from floats to 64-bit integers saturated at 2^63 / 2^64.
---
 crates/axmos-db/src/types/bool.rs            |  2 +-
 crates/axmos-db/src/types/macros/datatype.rs | 68 ++++++++++--------
 crates/axmos-db/src/types/numeric.rs         | 73 +++++++++++++++++++-
 3 files changed, 111 insertions(+), 32 deletions(-)

diff --git a/crates/axmos-db/src/types/bool.rs b/crates/axmos-db/src/types/bool.rs
index fbc118e..985f521 100644
--- a/crates/axmos-db/src/types/bool.rs
+++ b/crates/axmos-db/src/types/bool.rs
@@ -121,7 +121,7 @@ impl<'a> TypeRef<'a> for BoolRef<'a> {
     }
 
     fn as_bytes(&self) -> &[u8] {
-        &[]
+        self.as_ref()
     }
 }
 
diff --git a/crates/axmos-db/src/types/macros/datatype.rs b/crates/axmos-db/src/types/macros/datatype.rs
index 5241034..e2dccdd 100644
--- a/crates/axmos-db/src/types/macros/datatype.rs
+++ b/crates/axmos-db/src/types/macros/datatype.rs
@@ -13,10 +13,10 @@ macro_rules! impl_datatype_partial_eq {
                     (Self::Bool(a), Self::Bool(b)) => a == b,
                     (Self::Blob(a), Self::Blob(b)) => a == b,
 
-                    // Numeric types are promoted to f64 to compare
+                    // Numeric types are compared by their mathematical value
                     (a, b) if a.is_numeric() && b.is_numeric() => {
-                        match (a.to_f64(), b.to_f64()) {
-                            (Some(x), Some(y)) => x == y,
+                        match (a.numeric_value(), b.numeric_value()) {
+                            (Some(x), Some(y)) => x.compare(&y) == Ordering::Equal,
                             _ => false,
                         }
                     }
@@ -44,10 +44,10 @@ macro_rules! impl_datatype_partial_ord {
                     // Blob uses lexicographic ordering
                     (Self::Blob(a), Self::Blob(b)) => a.partial_cmp(b),
 
-                    // Numeric types are promoted to f64 and compared
+                    // Numeric types are compared by their mathematical value
                     (a, b) if a.is_numeric() && b.is_numeric() => {
-                        match (a.to_f64(), b.to_f64()) {
-                            (Some(x), Some(y)) => x.partial_cmp(&y),
+                        match (a.numeric_value(), b.numeric_value()) {
+                            (Some(x), Some(y)) => Some(x.compare(&y)),
                             _ => None,
                         }
                     }
@@ -60,9 +60,31 @@ macro_rules! impl_datatype_partial_ord {
     };
 }
 
+/// Macro to view the numeric types through their exact mathematical value
+#[macro_export]
+macro_rules! impl_datatype_numeric_value {
+    ($($type_name:tt)+) => {
+        impl $($type_name)+ {
+            fn numeric_value(&self) -> Option<$crate::types::numeric::NumericValue> {
+                use $crate::types::numeric::NumericValue;
+                match self {
+                    Self::Int(v) => Some(NumericValue::Integer(v.0 as i128)),
+                    Self::BigInt(v) => Some(NumericValue::Integer(v.0 as i128)),
+                    Self::UInt(v) => Some(NumericValue::Integer(v.0 as i128)),
+                    Self::BigUInt(v) => Some(NumericValue::Integer(v.0 as i128)),
+                    Self::Float(v) => Some(NumericValue::from(v.0 as f64)),
+                    Self::Double(v) => Some(NumericValue::from(v.0)),
+                    _ => None,
+                }
+            }
+        }
+    };
+}
+
 #[macro_export]
 macro_rules! impl_datatype_ord_traits {
     ($($type_name:tt)+) => {
+        $crate::impl_datatype_numeric_value!($($type_name)+);
         $crate::impl_datatype_partial_eq!($($type_name)+);
         $crate::impl_datatype_partial_ord!($($type_name)+);
 
@@ -82,30 +104,18 @@ macro_rules! impl_datatype_hash {
                         1u8.hash(state);
                         (b.value() as u8).hash(state);
                     }
-                    // Numerics are converted to bits using the same discriminant
-                    Self::Int(v) => {
+                    // All the numerics share a discriminant: numbers that compare equal hash equal
+                    // whatever their types are.
+                    Self::Int(_)
+                    | Self::BigInt(_)
+                    | Self::UInt(_)
+                    | Self::BigUInt(_)
+                    | Self::Float(_)
+                    | Self::Double(_) => {
                         2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::BigInt(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::UInt(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::BigUInt(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::Float(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::Double(v) => {
-                        2u8.hash(state);
-                        v.0.to_bits().hash(state);
+                        if let Some(value) = self.numeric_value() {
+                            value.hash(state);
+                        }
                     }
                     Self::Blob(b) => {
                         3u8.hash(state);
diff --git a/crates/axmos-db/src/types/numeric.rs b/crates/axmos-db/src/types/numeric.rs
index 4cf3281..e9d52a2 100644
--- a/crates/axmos-db/src/types/numeric.rs
+++ b/crates/axmos-db/src/types/numeric.rs
@@ -1,3 +1,8 @@
+use std::{
+    cmp::Ordering,
+    hash::{Hash, Hasher},
+};
+
 use crate::{
     numeric, promote_symmetric,
     types::core::{FloatOps, SignedIntOps, TypeCast, UnsignedIntOps},
@@ -77,13 +82,77 @@ promote_symmetric!(UInt64, Float64 => f64);
 // Float combinations
 promote_symmetric!(Float64, Float32 => f64);
 
+/// Exact value of a number of any numeric type.
+///
+/// Whole numbers in the range of the integer types are always [NumericValue::Integer], so two numbers are the same if and only if they have the same representation here.
+#[derive(Debug, Clone, Copy)]
+pub(crate) enum NumericValue {
+    Integer(i128),
+    /// Fractional, infinite, NaN, or bigger (in magnitude) than any integer type.
+    Real(f64),
+}
+
+impl From<f64> for NumericValue {
+    fn from(value: f64) -> Self {
+        if value.trunc() == value && value >= -TWO_POW_64 && value <= TWO_POW_64 {
+            Self::Integer(value as i128)
+        } else {
+            Self::Real(value)
+        }
+    }
+}
+
+impl NumericValue {
+    /// Total order: NaN is equal to itself and greater than any other number.
+    pub(crate) fn compare(&self, other: &Self) -> Ordering {
+        match (self, other) {
+            (Self::Integer(a), Self::Integer(b)) => a.cmp(b),
+            (Self::Real(a), Self::Real(b)) => match (a.is_nan(), b.is_nan()) {
+                (false, false) => a.partial_cmp(b).unwrap_or(Ordering::Equal),
+                (a_nan, b_nan) => a_nan.cmp(&b_nan),
+            },
+            (Self::Integer(a), Self::Real(b)) => Self::compare_int_real(*a, *b),
+            (Self::Real(a), Self::Integer(b)) => Self::compare_int_real(*b, *a).reverse(),
+        }
+    }
+
+    fn compare_int_real(int: i128, real: f64) -> Ordering {
+        if real.is_nan() || real > TWO_POW_64 {
+            return Ordering::Less;
+        }
+        if real < -TWO_POW_64 {
+            return Ordering::Greater;
+        }
+        // [real] has a fractional part, so it cannot be equal to the integer.
+        if int <= real.floor() as i128 {
+            Ordering::Less
+        } else {
+            Ordering::Greater
+        }
+    }
+}
+
+impl Hash for NumericValue {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        match self {
+            Self::Integer(v) => v.hash(state),
+            Self::Real(v) if v.is_nan() => f64::NAN.to_bits().hash(state),
+            Self::Real(v) => v.to_bits().hash(state),
+        }
+    }
+}
+
+/// 2^63 and 2^64: the first values out of range of i64 and u64. (`i64::MAX as f64` rounds up to 2^63).
+const TWO_POW_63: f64 = 9_223_372_036_854_775_808.0;
+const TWO_POW_64: f64 = 18_446_744_073_709_551_616.0;
+
 #[inline]
 fn f64_to_signed<T>(value: f64, min: f64, max: f64, convert: fn(i64) -> T) -> Option<T> {
     if value.is_nan() || value.is_infinite() {
         return None;
     }
     let t = value.trunc();
-    if t < min || t > max {
+    if t < min || t > max || t >= TWO_POW_63 {
         return None;
     }
     Some(convert(t as i64))
@@ -95,7 +164,7 @@ fn f64_to_unsigned<T>(value: f64, max: f64, convert: fn(u64) -> T) -> Option<T>
         return None;
     }
     let t = value.trunc();
-    if t > max {
+    if t > max || t >= TWO_POW_64 {
         return None;
     }
     Some(convert(t as u64))
-- 
2.43.0


From bca46ab8e33b31ca7d32330167d193d12ac49893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 09/51] fix: integer arithmetic reports overflow and division
 by zero as errors

It panicked (or wrapped around), killing the worker that ran the statement,
and mixed BIGINT/BIGUINT operands were reinterpreted as signed.
---
 crates/axmos-db/src/types/macros/numeric.rs | 75 ++++++---------------
 crates/axmos-db/src/types/mod.rs            | 28 ++++++--
 2 files changed, 43 insertions(+), 60 deletions(-)

diff --git a/crates/axmos-db/src/types/macros/numeric.rs b/crates/axmos-db/src/types/macros/numeric.rs
index c64b163..6024bf5 100644
--- a/crates/axmos-db/src/types/macros/numeric.rs
+++ b/crates/axmos-db/src/types/macros/numeric.rs
@@ -133,10 +133,29 @@ macro_rules! promote_symmetric {
 
 #[macro_export]
 macro_rules! arithmetic_op {
-    ($method:ident, $trait_method:ident) => {
+    ($method:ident, $trait_method:ident, $checked_method:ident) => {
         pub fn $method(&self, other: &DataType) -> TypeSystemResult<DataType> {
             use crate::types::core::*;
 
+            // Integers promote to BigUInt if both are unsigned, and to BigInt otherwise.
+            // The operation can overflow the promoted type, or not be defined at all.
+            if let (Some(a), Some(b)) = (self.as_wide_integer(), other.as_wide_integer()) {
+                let result = a
+                    .$checked_method(b)
+                    .ok_or(TypeSystemError::ArithmeticError("division by zero"))?;
+                let overflow = TypeSystemError::ArithmeticError("integer out of range");
+
+                return if self.is_unsigned_integer() && other.is_unsigned_integer() {
+                    u64::try_from(result)
+                        .map(|v| DataType::BigUInt(UInt64(v)))
+                        .map_err(|_| overflow)
+                } else {
+                    i64::try_from(result)
+                        .map(|v| DataType::BigInt(Int64(v)))
+                        .map_err(|_| overflow)
+                };
+            }
+
             match (self, other) {
                 // Double combinations
                 (DataType::Double(a), DataType::Double(b)) => {
@@ -202,60 +221,6 @@ macro_rules! arithmetic_op {
                     Ok(DataType::Double(Float64(a.$trait_method(*b))))
                 }
 
-                // Signed int combinations
-                (DataType::BigInt(a), DataType::BigInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::BigInt(a), DataType::Int(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::Int(a), DataType::BigInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::Int(a), DataType::Int(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-
-                // Signed + Unsigned
-                (DataType::BigInt(a), DataType::UInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::UInt(a), DataType::BigInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::BigInt(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::BigUInt(a), DataType::BigInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::Int(a), DataType::UInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::UInt(a), DataType::Int(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::Int(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::BigUInt(a), DataType::Int(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-
-                // Unsigned combinations
-                (DataType::BigUInt(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b))))
-                }
-                (DataType::BigUInt(a), DataType::UInt(b)) => {
-                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b))))
-                }
-                (DataType::UInt(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b))))
-                }
-                (DataType::UInt(a), DataType::UInt(b)) => {
-                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b))))
-                }
-
                 // Non-numeric
                 (a, b) => Err(TypeSystemError::UnexpectedDataType(if !a.is_numeric() {
                     a.kind()
diff --git a/crates/axmos-db/src/types/mod.rs b/crates/axmos-db/src/types/mod.rs
index d41262f..105a6b7 100644
--- a/crates/axmos-db/src/types/mod.rs
+++ b/crates/axmos-db/src/types/mod.rs
@@ -78,6 +78,8 @@ pub enum TypeSystemError {
     Utf8Error(Utf8Error),
     UnexpectedDataType(DataTypeKind),
     SerializationError(SerializationError),
+    /// The result of an operation does not fit in its type, or is not defined (division by zero)
+    ArithmeticError(&'static str),
 }
 
 impl Error for TypeSystemError {}
@@ -88,6 +90,7 @@ impl Display for TypeSystemError {
             Self::Utf8Error(e) => write!(f, "utf8 error: {e}"),
             Self::SerializationError(e) => write!(f, "deserialization error: {e}"),
             Self::UnexpectedDataType(dt) => write!(f, "unexpected data type: {dt}"),
+            Self::ArithmeticError(msg) => write!(f, "arithmetic error: {msg}"),
         }
     }
 }
@@ -289,11 +292,26 @@ crate::impl_datatype_hash!(DataType);
 crate::impl_datatype_hash!(DataTypeRef<'_>);
 
 impl DataType {
-    arithmetic_op!(add, promoted_add);
-    arithmetic_op!(sub, promoted_sub);
-    arithmetic_op!(mul, promoted_mul);
-    arithmetic_op!(div, promoted_div);
-    arithmetic_op!(rem, promoted_rem);
+    arithmetic_op!(add, promoted_add, checked_add);
+    arithmetic_op!(sub, promoted_sub, checked_sub);
+    arithmetic_op!(mul, promoted_mul, checked_mul);
+    arithmetic_op!(div, promoted_div, checked_div);
+    arithmetic_op!(rem, promoted_rem, checked_rem);
+
+    /// Value of the integer types, wide enough for all of them.
+    fn as_wide_integer(&self) -> Option<i128> {
+        match self {
+            Self::Int(v) => Some(v.0 as i128),
+            Self::BigInt(v) => Some(v.0 as i128),
+            Self::UInt(v) => Some(v.0 as i128),
+            Self::BigUInt(v) => Some(v.0 as i128),
+            _ => None,
+        }
+    }
+
+    fn is_unsigned_integer(&self) -> bool {
+        matches!(self, Self::UInt(_) | Self::BigUInt(_))
+    }
 
     /// Try to cast this DataType to a different DataTypeKind
     pub fn try_cast(&self, target: DataTypeKind) -> TypeSystemResult<DataType> {
-- 
2.43.0


From 485cfcf3d05a4802618c9df47b07818c3c519d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 10/51] fix: LIKE matches escapes after a wildcard and whole
 characters; three-valued IS NOT NULL, BETWEEN, IN and NOT LIKE

The negated forms of the predicates were evaluated as 'result OR negated'
(always true) or 'NOT negated AND result' (always false), and NULL operands
of BETWEEN and IN were treated as ordinary values.
---
 crates/axmos-db/src/runtime/eval.rs |  66 ++++++++++----
 crates/axmos-db/src/types/blob.rs   | 134 ++++++++++++----------------
 2 files changed, 105 insertions(+), 95 deletions(-)

diff --git a/crates/axmos-db/src/runtime/eval.rs b/crates/axmos-db/src/runtime/eval.rs
index 7455be8..ddf64d3 100644
--- a/crates/axmos-db/src/runtime/eval.rs
+++ b/crates/axmos-db/src/runtime/eval.rs
@@ -14,7 +14,6 @@ use crate::{
     types::{Blob, DataType, DataTypeKind, bool::Bool},
 };
 use std::{
-    collections::HashSet,
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult},
 };
@@ -119,7 +118,7 @@ impl<'a> ExpressionEvaluator<'a> {
                     ));
                 };
                 Ok(vec![DataType::Bool(Bool(
-                    matches!(evaluated[0], DataType::Null) || *negated,
+                    matches!(evaluated[0], DataType::Null) != *negated,
                 ))])
             }
             BoundExpression::Between {
@@ -131,15 +130,18 @@ impl<'a> ExpressionEvaluator<'a> {
                 let inner = self.evaluate(expr)?;
                 let low = self.evaluate(low)?;
                 let high = self.evaluate(high)?;
-                if inner.len() > 1 || low.len() > 1 || high.len() > 1 {
+                if inner.len() != 1 || low.len() != 1 || high.len() != 1 {
                     return Err(EvaluationError::InvalidExpression(
                         "cannot apply unary operators to lists of values!".to_string(),
                     ));
                 };
 
-                Ok(vec![DataType::Bool(Bool(
-                    (inner[0] >= low[0] && inner[0] <= high[0]) || *negated,
-                ))])
+                // x BETWEEN a AND b is the same as x >= a AND x <= b
+                let above =
+                    self.eval_binary_op(inner.clone(), low, BinaryOperator::Ge, None)?;
+                let below = self.eval_binary_op(inner, high, BinaryOperator::Le, None)?;
+                let between = self.eval_binary_op(above, below, BinaryOperator::And, None)?;
+                Ok(Self::negate_if(between, *negated))
             }
             BoundExpression::Exists { query, negated } => {
                 todo!("Subquery evaluation is not yet implemented")
@@ -149,23 +151,19 @@ impl<'a> ExpressionEvaluator<'a> {
                 list,
                 negated,
             } => {
-                let mut set: HashSet<DataType> = HashSet::new();
+                let mut items: Vec<DataType> = Vec::new();
                 for exp in list {
-                    let eval = self.evaluate(exp)?;
-                    for item in eval {
-                        set.insert(item);
-                    }
+                    items.extend(self.evaluate(exp)?);
                 }
 
                 let evaluated = self.evaluate(expr)?;
-                if evaluated.len() > 1 {
+                if evaluated.len() != 1 {
                     return Err(EvaluationError::InvalidExpression(
                         "cannot apply unary operators to lists of values!".to_string(),
                     ));
                 };
-                Ok(vec![DataType::Bool(Bool(
-                    set.contains(&evaluated[0]) || *negated,
-                ))])
+                let contained = vec![Self::is_in_list(&evaluated[0], &items)];
+                Ok(Self::negate_if(contained, *negated))
             }
             BoundExpression::Subquery { query, result_type } => {
                 todo!("Subquery evaluation is not yet implemented")
@@ -300,6 +298,37 @@ impl<'a> ExpressionEvaluator<'a> {
         Ok(self.row[idx].clone())
     }
 
+    /// x IN (a, b, ...) is the same as x = a OR x = b OR ..., so it is unknown if there is no match but some of the comparisons are unknown.
+    fn is_in_list(value: &DataType, list: &[DataType]) -> DataType {
+        if list.is_empty() {
+            return DataType::Bool(Bool(false));
+        }
+        if value.is_null() {
+            return DataType::Null;
+        }
+        if list.contains(value) {
+            return DataType::Bool(Bool(true));
+        }
+        if list.iter().any(|item| item.is_null()) {
+            return DataType::Null;
+        }
+        DataType::Bool(Bool(false))
+    }
+
+    /// Applies three-valued NOT to a boolean result.
+    fn negate_if(result: Vec<DataType>, negated: bool) -> Vec<DataType> {
+        if !negated {
+            return result;
+        }
+        result
+            .into_iter()
+            .map(|value| match value {
+                DataType::Bool(Bool(b)) => DataType::Bool(Bool(!b)),
+                other => other,
+            })
+            .collect()
+    }
+
     fn logical_and(left: &DataType, right: &DataType) -> TypeSystemResult<DataType> {
         // Handle NULL semantics first (ANSI SQL logic)
         if matches!(left, DataType::Null) || matches!(right, DataType::Null) {
@@ -356,7 +385,7 @@ impl<'a> ExpressionEvaluator<'a> {
 
         // Convert back to Blob and wrap as Text
         Ok(DataType::Bool(Bool(
-            !negated && lhs_blob.like(pattern_blob.as_str()?)?,
+            lhs_blob.like(pattern_blob.as_str()?)? != negated,
         )))
     }
 
@@ -477,10 +506,11 @@ impl<'a> ExpressionEvaluator<'a> {
         } else if right.len() > 1 {
             match bin_op {
                 BinaryOperator::In => {
-                    return Ok(vec![DataType::Bool(Bool(right.contains(&left[0])))]);
+                    return Ok(vec![Self::is_in_list(&left[0], &right)]);
                 }
                 BinaryOperator::NotIn => {
-                    return Ok(vec![DataType::Bool(Bool(!right.contains(&left[0])))]);
+                    let contained = vec![Self::is_in_list(&left[0], &right)];
+                    return Ok(Self::negate_if(contained, true));
                 }
                 _ => Err(EvaluationError::InvalidExpression(
                     "only in and not in operators can be applied to lists".to_string(),
diff --git a/crates/axmos-db/src/types/blob.rs b/crates/axmos-db/src/types/blob.rs
index a0f33a0..2487643 100644
--- a/crates/axmos-db/src/types/blob.rs
+++ b/crates/axmos-db/src/types/blob.rs
@@ -397,93 +397,70 @@ impl<'a> BlobRef<'a> {
 
     /// Internal pattern matching implementation.
     fn match_pattern(data: &[u8], pattern: &[u8]) -> bool {
+        enum Token {
+            /// `%`
+            AnySequence,
+            /// `_`
+            AnyChar,
+            Literal(u8),
+        }
+
+        let mut tokens = Vec::with_capacity(pattern.len());
+        let mut bytes = pattern.iter().copied();
+        while let Some(byte) = bytes.next() {
+            tokens.push(match byte {
+                b'%' => Token::AnySequence,
+                b'_' => Token::AnyChar,
+                // The escaped character is always a literal.
+                b'\\' => Token::Literal(bytes.next().unwrap_or(b'\\')),
+                other => Token::Literal(other),
+            });
+        }
+
         let mut data_idx = 0;
-        let mut pattern_idx = 0;
-        let mut backtrack_data_idx = 0;
-        let mut backtrack_pattern_idx = 0;
-        let mut in_escape = false;
-
-        while data_idx < data.len() {
-            if pattern_idx < pattern.len() {
-                let pattern_char = pattern[pattern_idx];
-
-                if in_escape {
-                    // Escaped character, match literally
-                    if data[data_idx] != pattern_char {
-                        // No match, try backtracking if we have a % to expand
-                        if backtrack_pattern_idx > 0 {
-                            backtrack_data_idx += 1;
-                            data_idx = backtrack_data_idx;
-                            pattern_idx = backtrack_pattern_idx;
-                            continue;
-                        }
-                        return false;
-                    }
-                    data_idx += 1;
-                    pattern_idx += 1;
-                    in_escape = false;
+        let mut token_idx = 0;
+        // Position after the last `%`, and the amount of data it has not absorbed.
+        let mut backtrack: Option<(usize, usize)> = None;
+
+        loop {
+            let matched = match tokens.get(token_idx) {
+                Some(Token::AnySequence) => {
+                    token_idx += 1;
+                    backtrack = Some((token_idx, data_idx));
                     continue;
                 }
-
-                match pattern_char {
-                    b'\\' => {
-                        // Next character is escaped
-                        in_escape = true;
-                        pattern_idx += 1;
-                        continue;
-                    }
-                    b'%' => {
-                        // % matches any sequence
-                        // Store backtrack positions
-                        backtrack_data_idx = data_idx;
-                        backtrack_pattern_idx = pattern_idx + 1;
-                        pattern_idx += 1;
-                        continue;
-                    }
-                    b'_' => {
-                        // _ matches any single character
-                        data_idx += 1;
-                        pattern_idx += 1;
-                        continue;
-                    }
-                    _ => {
-                        // Literal character
-                        if data[data_idx] != pattern_char {
-                            // No match, try backtracking if we have a % to expand
-                            if backtrack_pattern_idx > 0 {
-                                backtrack_data_idx += 1;
-                                data_idx = backtrack_data_idx;
-                                pattern_idx = backtrack_pattern_idx;
-                                continue;
-                            }
-                            return false;
-                        }
+                Some(Token::AnyChar) if data_idx < data.len() => {
+                    data_idx += 1;
+                    // Skip the continuation bytes of multibyte characters
+                    while data_idx < data.len() && data[data_idx] & 0xC0 == 0x80 {
                         data_idx += 1;
-                        pattern_idx += 1;
                     }
+                    true
                 }
-            } else if backtrack_pattern_idx > 0 {
-                // Pattern exhausted but we have a % to expand
-                backtrack_data_idx += 1;
-                data_idx = backtrack_data_idx;
-                pattern_idx = backtrack_pattern_idx;
-            } else {
-                // Pattern exhausted but data remains (only OK if trailing %)
-                // Check if pattern ends with %
-                if pattern.last() == Some(&b'%') {
-                    return true;
+                Some(Token::Literal(byte)) if data.get(data_idx) == Some(byte) => {
+                    data_idx += 1;
+                    true
                 }
-                return false;
+                Some(_) => false,
+                None if data_idx == data.len() => return true,
+                None => false,
+            };
+
+            if matched {
+                token_idx += 1;
+                continue;
             }
-        }
 
-        // Skip any trailing % in pattern
-        while pattern_idx < pattern.len() && pattern[pattern_idx] == b'%' {
-            pattern_idx += 1;
+            // Let the last `%` absorb one more byte and retry.
+            match backtrack {
+                Some((token, absorbed)) if absorbed < data.len() => {
+                    backtrack = Some((token, absorbed + 1));
+                    token_idx = token;
+                    data_idx = absorbed + 1;
+                }
+                _ => return false,
+            }
         }
-
-        // Check if we consumed all pattern
-        pattern_idx == pattern.len()
     }
 
     /// Case-insensitive LIKE comparison (for text blobs).
@@ -497,6 +474,9 @@ impl<'a> BlobRef<'a> {
     /// Checks if blob contains a substring.
     pub fn contains(&self, substring: &[u8]) -> TypeSystemResult<bool> {
         let data = self.data()?;
+        if substring.is_empty() {
+            return Ok(true);
+        }
         Ok(data
             .windows(substring.len())
             .any(|window| window == substring))
-- 
2.43.0


From 5a038d541d57eacc953a5f0fcac95664033a52a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 11/51] fix: scalar functions and unary minus return NULL or an
 error instead of panicking

Functions rejected NULL arguments, NULLIF indexed out of bounds, COALESCE took
exactly two arguments and the type of the first one, SQRT truncated integers,
ABS and unary minus overflowed, and subqueries in expressions hit a todo!().
---
 crates/axmos-db/src/runtime/eval.rs      | 142 +++++++++++++----------
 crates/axmos-db/src/sql/binder/binder.rs |   7 +-
 2 files changed, 85 insertions(+), 64 deletions(-)

diff --git a/crates/axmos-db/src/runtime/eval.rs b/crates/axmos-db/src/runtime/eval.rs
index ddf64d3..8ef76a6 100644
--- a/crates/axmos-db/src/runtime/eval.rs
+++ b/crates/axmos-db/src/runtime/eval.rs
@@ -143,9 +143,6 @@ impl<'a> ExpressionEvaluator<'a> {
                 let between = self.eval_binary_op(above, below, BinaryOperator::And, None)?;
                 Ok(Self::negate_if(between, *negated))
             }
-            BoundExpression::Exists { query, negated } => {
-                todo!("Subquery evaluation is not yet implemented")
-            }
             BoundExpression::InList {
                 expr,
                 list,
@@ -165,16 +162,11 @@ impl<'a> ExpressionEvaluator<'a> {
                 let contained = vec![Self::is_in_list(&evaluated[0], &items)];
                 Ok(Self::negate_if(contained, *negated))
             }
-            BoundExpression::Subquery { query, result_type } => {
-                todo!("Subquery evaluation is not yet implemented")
-            }
-            BoundExpression::InSubquery {
-                expr,
-                query,
-                negated,
-            } => {
-                todo!("Subquery evaluation is not yet implemented")
-            }
+            BoundExpression::Exists { .. }
+            | BoundExpression::Subquery { .. }
+            | BoundExpression::InSubquery { .. } => Err(EvaluationError::InvalidExpression(
+                "subqueries are not supported in expressions".to_string(),
+            )),
             BoundExpression::Function {
                 func,
                 args,
@@ -267,7 +259,9 @@ impl<'a> ExpressionEvaluator<'a> {
                     }
                 }
             }
-            _ => unreachable!("Should not reach here when calling the evaluator"),
+            other => Err(EvaluationError::InvalidExpression(format!(
+                "expression not supported in this context: {other:?}"
+            ))),
         }
     }
 
@@ -541,8 +535,11 @@ impl<'a> ExpressionEvaluator<'a> {
                 )),
             },
             UnaryOperator::Minus => match operand {
-                DataType::BigInt(i) => Ok(DataType::BigInt((-i.0).into())),
-                DataType::Int(i) => Ok(DataType::Int((-i.0).into())),
+                DataType::BigInt(_) => Ok(DataType::BigInt(0.into()).sub(&operand)?),
+                DataType::Int(i) => match i.0.checked_neg() {
+                    Some(negated) => Ok(DataType::Int(negated.into())),
+                    None => Ok(DataType::Int(0.into()).sub(&operand)?),
+                },
                 DataType::Double(f) => Ok(DataType::Double((-f.0).into())),
                 DataType::Float(f) => Ok(DataType::Float((-f.0).into())),
                 _ => Err(EvaluationError::TypeError(
@@ -558,16 +555,26 @@ pub(crate) trait Callable {
     fn call(args: Vec<DataType>) -> EvaluationResult<DataType>;
 }
 
+/// Extracts the only argument of a numeric function as a double (all of them return doubles). Returns [None] if it is NULL.
+fn numeric_argument(
+    args: &[DataType],
+    func: ScalarFunction,
+) -> EvaluationResult<Option<DataType>> {
+    match args {
+        [DataType::Null] => Ok(None),
+        [number] if number.is_numeric() => Ok(Some(number.try_cast(DataTypeKind::Double)?)),
+        _ => Err(EvaluationError::InvalidArguments(func)),
+    }
+}
+
 struct Abs;
 
 impl Callable for Abs {
     fn call(args: Vec<DataType>) -> EvaluationResult<DataType> {
-        if args.len() != 1 || !args[0].is_numeric() {
-            return Err(EvaluationError::InvalidArguments(ScalarFunction::Abs));
-        };
-
-        let first = &args[0];
-        Ok(first.abs())
+        match numeric_argument(&args, ScalarFunction::Abs)? {
+            Some(number) => Ok(number.abs()),
+            None => Ok(DataType::Null),
+        }
     }
 }
 
@@ -575,12 +582,10 @@ struct Ceil;
 
 impl Callable for Ceil {
     fn call(args: Vec<DataType>) -> EvaluationResult<DataType> {
-        if args.len() != 1 || !args[0].is_numeric() {
-            return Err(EvaluationError::InvalidArguments(ScalarFunction::Ceil));
-        };
-
-        let first = &args[0];
-        Ok(first.ceil())
+        match numeric_argument(&args, ScalarFunction::Ceil)? {
+            Some(number) => Ok(number.ceil()),
+            None => Ok(DataType::Null),
+        }
     }
 }
 
@@ -588,12 +593,10 @@ struct Floor;
 
 impl Callable for Floor {
     fn call(args: Vec<DataType>) -> EvaluationResult<DataType> {
-        if args.len() != 1 || !args[0].is_numeric() {
-            return Err(EvaluationError::InvalidArguments(ScalarFunction::Ceil));
-        };
-
-        let first = &args[0];
-        Ok(first.floor())
+        match numeric_argument(&args, ScalarFunction::Floor)? {
+            Some(number) => Ok(number.floor()),
+            None => Ok(DataType::Null),
+        }
     }
 }
 
@@ -601,12 +604,10 @@ struct Round;
 
 impl Callable for Round {
     fn call(args: Vec<DataType>) -> EvaluationResult<DataType> {
-        if args.len() != 1 || !args[0].is_numeric() {
-            return Err(EvaluationError::InvalidArguments(ScalarFunction::Ceil));
-        };
-
-        let first = &args[0];
-        Ok(first.round())
+        match numeric_argument(&args, ScalarFunction::Round)? {
+            Some(number) => Ok(number.round()),
+            None => Ok(DataType::Null),
+        }
     }
 }
 
@@ -614,12 +615,10 @@ struct Sqrt;
 
 impl Callable for Sqrt {
     fn call(args: Vec<DataType>) -> EvaluationResult<DataType> {
-        if args.len() != 1 || !args[0].is_numeric() {
-            return Err(EvaluationError::InvalidArguments(ScalarFunction::Ceil));
-        };
-
-        let first = &args[0];
-        Ok(first.sqrt())
+        match numeric_argument(&args, ScalarFunction::Sqrt)? {
+            Some(number) => Ok(number.sqrt()),
+            None => Ok(DataType::Null),
+        }
     }
 }
 
@@ -627,14 +626,14 @@ struct Coalesce;
 
 impl Callable for Coalesce {
     fn call(args: Vec<DataType>) -> EvaluationResult<DataType> {
-        if args.len() != 2 {
-            return Err(EvaluationError::InvalidArguments(ScalarFunction::Ceil));
+        if args.is_empty() {
+            return Err(EvaluationError::InvalidArguments(ScalarFunction::Coalesce));
         };
 
-        if args[0].is_null() {
-            return Ok(args[1].clone());
-        }
-        Ok(args[0].clone())
+        Ok(args
+            .into_iter()
+            .find(|arg| !arg.is_null())
+            .unwrap_or(DataType::Null))
     }
 }
 
@@ -646,8 +645,12 @@ impl Callable for Concat {
             return Ok(DataType::Blob(Blob::from("")));
         }
 
+        if args.iter().any(|p| p.is_null()) {
+            return Ok(DataType::Null);
+        }
+
         if !args.iter().all(|p| p.is_blob()) {
-            return Err(EvaluationError::InvalidArguments(ScalarFunction::Ceil));
+            return Err(EvaluationError::InvalidArguments(ScalarFunction::Concat));
         };
 
         let mut result = String::new();
@@ -674,21 +677,14 @@ struct NullIf;
 
 impl Callable for NullIf {
     fn call(args: Vec<DataType>) -> EvaluationResult<DataType> {
-        if args.len() != 1 || !matches!(args[1], DataType::Bool(_)) {
+        let [value, other] = args.as_slice() else {
             return Err(EvaluationError::InvalidArguments(ScalarFunction::NullIf));
         };
 
-        let condition = args[1]
-            .as_bool()
-            .ok_or(EvaluationError::TypeError(
-                TypeSystemError::UnexpectedDataType(args[1].kind()),
-            ))?
-            .value();
-
-        if condition {
+        if value == other {
             return Ok(DataType::Null);
         }
-        Ok(args[0].clone())
+        Ok(value.clone())
     }
 }
 
@@ -704,6 +700,10 @@ impl Callable for LTrim {
             return Err(EvaluationError::InvalidArguments(ScalarFunction::LTrim));
         }
 
+        if args[0].is_null() {
+            return Ok(DataType::Null);
+        }
+
         let blob = args[0].as_blob().ok_or(EvaluationError::TypeError(
             TypeSystemError::UnexpectedDataType(args[0].kind()),
         ))?;
@@ -720,6 +720,10 @@ impl Callable for RTrim {
             return Err(EvaluationError::InvalidArguments(ScalarFunction::RTrim));
         }
 
+        if args[0].is_null() {
+            return Ok(DataType::Null);
+        }
+
         let blob = args[0].as_blob().ok_or(EvaluationError::TypeError(
             TypeSystemError::UnexpectedDataType(args[0].kind()),
         ))?;
@@ -735,6 +739,10 @@ impl Callable for Lower {
             return Err(EvaluationError::InvalidArguments(ScalarFunction::Lower));
         }
 
+        if args[0].is_null() {
+            return Ok(DataType::Null);
+        }
+
         let blob = args[0].as_blob().ok_or(EvaluationError::TypeError(
             TypeSystemError::UnexpectedDataType(args[0].kind()),
         ))?;
@@ -749,6 +757,10 @@ impl Callable for Upper {
         if args.len() != 1 {
             return Err(EvaluationError::InvalidArguments(ScalarFunction::Upper));
         }
+        if args[0].is_null() {
+            return Ok(DataType::Null);
+        }
+
         let blob = args[0].as_blob().ok_or(EvaluationError::TypeError(
             TypeSystemError::UnexpectedDataType(args[0].kind()),
         ))?;
@@ -764,6 +776,10 @@ impl Callable for Length {
             return Err(EvaluationError::InvalidArguments(ScalarFunction::Length));
         }
 
+        if args[0].is_null() {
+            return Ok(DataType::Null);
+        }
+
         let blob = args[0].as_blob().ok_or(EvaluationError::TypeError(
             TypeSystemError::UnexpectedDataType(args[0].kind()),
         ))?;
diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 71a13a8..96b1105 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -1120,7 +1120,12 @@ impl<'a> Binder<'a> {
             | ScalarFunction::Ceil
             | ScalarFunction::Floor
             | ScalarFunction::Sqrt => DataTypeKind::Double,
-            ScalarFunction::Coalesce | ScalarFunction::NullIf | ScalarFunction::Cast => args
+            ScalarFunction::Coalesce => args
+                .iter()
+                .map(|a| a.data_type())
+                .find(|kind| *kind != DataTypeKind::Null)
+                .unwrap_or(DataTypeKind::Null),
+            ScalarFunction::NullIf | ScalarFunction::Cast => args
                 .first()
                 .map(|a| a.data_type())
                 .unwrap_or(DataTypeKind::Null),
-- 
2.43.0


From 9b24a1eed53f93d20777e3dead465ea1e3dedb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 12/51] fix: a panicking job no longer kills its worker thread

Each panic permanently removed one pool worker, so after pool-size such
statements every later call blocked forever.
---
 crates/axmos-db/src/multithreading/threadpool.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/multithreading/threadpool.rs b/crates/axmos-db/src/multithreading/threadpool.rs
index 5b21b80..7f5582d 100644
--- a/crates/axmos-db/src/multithreading/threadpool.rs
+++ b/crates/axmos-db/src/multithreading/threadpool.rs
@@ -2,6 +2,7 @@ use std::{
     collections::VecDeque,
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult},
+    panic::{self, AssertUnwindSafe},
     sync::{
         Arc,
         atomic::{AtomicBool, Ordering},
@@ -126,7 +127,9 @@ impl Worker {
             {
                 match job {
                     Job::Task(task) => {
-                        let _ = task();
+                        // A panicking job must not take its worker down with it.
+                        // Whoever waits for the job finds its channel closed.
+                        let _ = panic::catch_unwind(AssertUnwindSafe(task));
                     }
                     Job::Shutdown => break,
                 }
-- 
2.43.0


From 063c729caf52b35f51fb6332c30d4550ddb13388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 13/51] fix: the wire decoders reject garbage instead of
 guessing or allocating what it claims

Row and column counts taken from the wire were used to reserve memory (up to
100 GB), trailing bytes were ignored, invalid UTF-8 was silently replaced, and
the server closed the connection on a malformed request (or on a response over
the size limit) without answering it.
---
 crates/axmos-db/src/bin/axmos_server.rs |  14 ++-
 crates/axmos-db/src/tcp/mod.rs          | 140 ++++++++++++------------
 2 files changed, 83 insertions(+), 71 deletions(-)

diff --git a/crates/axmos-db/src/bin/axmos_server.rs b/crates/axmos-db/src/bin/axmos_server.rs
index db28659..a4fe236 100644
--- a/crates/axmos-db/src/bin/axmos_server.rs
+++ b/crates/axmos-db/src/bin/axmos_server.rs
@@ -303,8 +303,14 @@ fn run_client_loop(stream: TcpStream, state: &Arc<SharedState>) -> Result<(), Tc
             Ok(req) => req,
             Err(TcpError::ConnectionClosed) => break,
             Err(TcpError::Io(ref e)) if e.kind() == std::io::ErrorKind::UnexpectedEof => break,
+            Err(TcpError::Io(e)) => {
+                eprintln!("Request error: {}", e);
+                break;
+            }
             Err(e) => {
+                // Not a valid request: tell the client before closing the connection.
                 eprintln!("Request error: {}", e);
+                send_response(&mut writer, &Response::Error(format!("Protocol error: {}", e)))?;
                 break;
             }
         };
@@ -316,7 +322,13 @@ fn run_client_loop(stream: TcpStream, state: &Arc<SharedState>) -> Result<(), Tc
             break;
         }
 
-        send_response(&mut writer, &response)?;
+        match send_response(&mut writer, &response) {
+            // Nothing has been written, so the client can still be told.
+            Err(e @ TcpError::MessageTooLarge(_)) => {
+                send_response(&mut writer, &Response::Error(e.to_string()))?
+            }
+            other => other?,
+        }
     }
 
     if let Some(mut session) = ctx.session.take() {
diff --git a/crates/axmos-db/src/tcp/mod.rs b/crates/axmos-db/src/tcp/mod.rs
index c092253..3e1fd9c 100644
--- a/crates/axmos-db/src/tcp/mod.rs
+++ b/crates/axmos-db/src/tcp/mod.rs
@@ -105,32 +105,28 @@ impl Request {
         }
 
         let cmd = data[1];
-        let payload = &data[2..];
+        let mut payload = &data[2..];
 
-        match cmd {
+        let request: Result<Self, TcpError> = match cmd {
             0x01 => {
-                let path = read_string(payload)?;
+                let path = read_string(&mut payload)?;
                 Ok(Self::Create(path))
             }
             0x02 => {
-                let path = read_string(payload)?;
+                let path = read_string(&mut payload)?;
                 Ok(Self::Open(path))
             }
             0x03 => {
-                let sql = read_string(payload)?;
+                let sql = read_string(&mut payload)?;
                 Ok(Self::Sql(sql))
             }
             0x04 => {
-                let sql = read_string(payload)?;
+                let sql = read_string(&mut payload)?;
                 Ok(Self::Explain(sql))
             }
             0x05 => {
-                if payload.len() < 16 {
-                    return Err(TcpError::InvalidMessage("Analyze payload too short".into()));
-                }
-                let sample_rate = f64::from_le_bytes(payload[0..8].try_into().unwrap());
-                let max_sample_rows =
-                    u64::from_le_bytes(payload[8..16].try_into().unwrap()) as usize;
+                let sample_rate = f64::from_bits(read_u64(&mut payload)?);
+                let max_sample_rows = read_u64(&mut payload)? as usize;
                 Ok(Self::Analyze {
                     sample_rate,
                     max_sample_rows,
@@ -144,7 +140,11 @@ impl Request {
             0x0C => Ok(Self::Rollback),
             0xFF => Ok(Self::Shutdown),
             _ => Err(TcpError::UnknownCommand(cmd)),
-        }
+        };
+
+        let request = request?;
+        expect_end(payload)?;
+        Ok(request)
     }
 }
 
@@ -293,48 +293,36 @@ impl Response {
         }
 
         let status = StatusCode::try_from(data[1])?;
-        let payload = &data[2..];
+        let mut payload = &data[2..];
 
-        match status {
+        let response: Result<Self, TcpError> = match status {
             StatusCode::Ok => {
-                let msg = read_string(payload)?;
+                let msg = read_string(&mut payload)?;
                 Ok(Self::Ok(msg))
             }
             StatusCode::Error => {
-                let msg = read_string(payload)?;
+                let msg = read_string(&mut payload)?;
                 Ok(Self::Error(msg))
             }
             StatusCode::Rows => {
-                let mut offset = 0;
-
-                if payload.len() < 4 {
-                    return Err(TcpError::InvalidMessage("Missing column count".into()));
-                }
-                let col_count = u32::from_le_bytes(payload[0..4].try_into().unwrap()) as usize;
-                offset += 4;
-
-                let mut columns = Vec::with_capacity(col_count);
-
+                // The counts come from the wire: do not reserve memory for them in advance,
+                // as the message could be much shorter than what they claim.
+                let col_count = read_u32(&mut payload)? as usize;
+                let mut columns = Vec::new();
                 for _ in 0..col_count {
-                    let (col, len) = read_string_with_len(&payload[offset..])?;
-                    columns.push(col);
-                    offset += len;
+                    columns.push(read_string(&mut payload)?);
                 }
 
-                if payload.len() < offset + 4 {
-                    return Err(TcpError::InvalidMessage("Missing row count".into()));
+                let row_count = read_u32(&mut payload)? as usize;
+                if col_count == 0 && row_count > 0 {
+                    return Err(TcpError::InvalidMessage("Rows without columns".into()));
                 }
-                let row_count =
-                    u32::from_le_bytes(payload[offset..offset + 4].try_into().unwrap()) as usize;
-                offset += 4;
 
-                let mut data = Vec::with_capacity(row_count);
+                let mut data = Vec::new();
                 for _ in 0..row_count {
-                    let mut row = Vec::with_capacity(col_count);
+                    let mut row = Vec::new();
                     for _ in 0..col_count {
-                        let (value, len) = read_string_with_len(&payload[offset..])?;
-                        row.push(value);
-                        offset += len;
+                        row.push(read_string(&mut payload)?);
                     }
                     data.push(row);
                 }
@@ -342,29 +330,21 @@ impl Response {
                 Ok(Self::Rows { columns, data })
             }
             StatusCode::RowsAffected => {
-                if payload.len() < 8 {
-                    return Err(TcpError::InvalidMessage("Missing count".into()));
-                }
-                let count = u64::from_le_bytes(payload[0..8].try_into().unwrap());
+                let count = read_u64(&mut payload)?;
                 Ok(Self::RowsAffected(count))
             }
             StatusCode::Ddl => {
-                let msg = read_string(payload)?;
+                let msg = read_string(&mut payload)?;
                 Ok(Self::Ddl(msg))
             }
             StatusCode::Explain => {
-                let plan = read_string(payload)?;
+                let plan = read_string(&mut payload)?;
                 Ok(Self::Explain(plan))
             }
             StatusCode::VacuumComplete => {
-                if payload.len() < 24 {
-                    return Err(TcpError::InvalidMessage("Vacuum payload too short".into()));
-                }
-                let tables_vacuumed =
-                    u64::from_le_bytes(payload[0..8].try_into().unwrap()) as usize;
-                let bytes_freed = u64::from_le_bytes(payload[8..16].try_into().unwrap()) as usize;
-                let transactions_cleaned =
-                    u64::from_le_bytes(payload[16..24].try_into().unwrap()) as usize;
+                let tables_vacuumed = read_u64(&mut payload)? as usize;
+                let bytes_freed = read_u64(&mut payload)? as usize;
+                let transactions_cleaned = read_u64(&mut payload)? as usize;
                 Ok(Self::VacuumComplete {
                     tables_vacuumed,
                     bytes_freed,
@@ -376,7 +356,11 @@ impl Response {
             StatusCode::ShuttingDown => Ok(Self::ShuttingDown),
             StatusCode::Begin => Ok(Self::SessionStarted),
             StatusCode::End => Ok(Self::SessionEnd),
-        }
+        };
+
+        let response = response?;
+        expect_end(payload)?;
+        Ok(response)
     }
 
     pub fn is_error(&self) -> bool {
@@ -435,28 +419,44 @@ fn write_string(buf: &mut Vec<u8>, s: &str) {
     buf.extend_from_slice(bytes);
 }
 
-fn read_string(data: &[u8]) -> Result<String, TcpError> {
-    let (s, _) = read_string_with_len(data)?;
-    Ok(s)
+/// Takes the next [len] bytes of the payload.
+fn read_bytes<'a>(data: &mut &'a [u8], len: usize) -> Result<&'a [u8], TcpError> {
+    if data.len() < len {
+        return Err(TcpError::InvalidMessage(format!(
+            "Message truncated: expected {} bytes, got {}",
+            len,
+            data.len()
+        )));
+    }
+
+    let (bytes, rest) = data.split_at(len);
+    *data = rest;
+    Ok(bytes)
+}
+
+fn read_u32(data: &mut &[u8]) -> Result<u32, TcpError> {
+    Ok(u32::from_le_bytes(read_bytes(data, 4)?.try_into().unwrap()))
 }
 
-fn read_string_with_len(data: &[u8]) -> Result<(String, usize), TcpError> {
-    if data.len() < 4 {
-        return Err(TcpError::InvalidMessage("String length missing".into()));
-    }
+fn read_u64(data: &mut &[u8]) -> Result<u64, TcpError> {
+    Ok(u64::from_le_bytes(read_bytes(data, 8)?.try_into().unwrap()))
+}
 
-    let len = u32::from_le_bytes(data[0..4].try_into().unwrap()) as usize;
+fn read_string(data: &mut &[u8]) -> Result<String, TcpError> {
+    let len = read_u32(data)? as usize;
+    let bytes = read_bytes(data, len)?;
+    String::from_utf8(bytes.to_vec())
+        .map_err(|_| TcpError::InvalidMessage("String is not valid UTF-8".into()))
+}
 
-    if data.len() < 4 + len {
+fn expect_end(data: &[u8]) -> Result<(), TcpError> {
+    if !data.is_empty() {
         return Err(TcpError::InvalidMessage(format!(
-            "String data truncated: expected {} bytes, got {}",
-            len,
-            data.len() - 4
+            "{} unexpected bytes after the message",
+            data.len()
         )));
     }
-
-    let s = String::from_utf8_lossy(&data[4..4 + len]).into_owned();
-    Ok((s, 4 + len))
+    Ok(())
 }
 
 pub fn read_message<R: Read>(reader: &mut R) -> Result<Vec<u8>, TcpError> {
-- 
2.43.0


From c901c4cca57ce86ba412c32e209d872f975fcd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:32 +0000
Subject: [PATCH 14/51] fix: table statistics are read back from an aligned
 copy

---
 crates/axmos-db/src/runtime/ddl.rs  | 12 ++++++------
 crates/axmos-db/src/schema/base.rs  | 16 ++++++++--------
 crates/axmos-db/src/schema/stats.rs |  4 ++--
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index 16db50a..bfc5c11 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -59,7 +59,7 @@ impl DdlInstruction {
                 "Cannot deserialize empty bytes".to_string(),
             ));
         }
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(bytes);
         let instruction = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(instruction)
@@ -100,7 +100,7 @@ impl CreateTableInstr {
                 "Cannot deserialize empty bytes".to_string(),
             ));
         }
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(bytes);
         let instr = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(instr)
@@ -160,7 +160,7 @@ impl DropTableInstr {
                 "Cannot deserialize empty bytes".to_string(),
             ));
         }
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(bytes);
         let instr = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(instr)
@@ -212,7 +212,7 @@ impl CreateIndexInstr {
                 "Cannot deserialize empty bytes".to_string(),
             ));
         }
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(bytes);
         let instr = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(instr)
@@ -265,7 +265,7 @@ impl DropIndexInstr {
                 "Cannot deserialize empty bytes".to_string(),
             ));
         }
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(bytes);
         let instr = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(instr)
@@ -299,7 +299,7 @@ impl AlterTableInstr {
                 "Cannot deserialize empty bytes".to_string(),
             ));
         }
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(bytes);
         let instr = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(instr)
diff --git a/crates/axmos-db/src/schema/base.rs b/crates/axmos-db/src/schema/base.rs
index a8c994e..bad4131 100644
--- a/crates/axmos-db/src/schema/base.rs
+++ b/crates/axmos-db/src/schema/base.rs
@@ -396,7 +396,7 @@ impl Schema {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Schema, RkyvError>(&aligned)?;
         Ok(schema)
@@ -409,7 +409,7 @@ impl Schema {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Schema, RkyvError>(&aligned)?;
         Ok(schema)
@@ -485,7 +485,7 @@ impl TableConstraint {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(schema)
@@ -498,7 +498,7 @@ impl TableConstraint {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(schema)
@@ -540,7 +540,7 @@ impl ForeignKeyInfo {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(schema)
@@ -553,7 +553,7 @@ impl ForeignKeyInfo {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(schema)
@@ -649,7 +649,7 @@ impl Column {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(schema)
@@ -662,7 +662,7 @@ impl Column {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(schema)
diff --git a/crates/axmos-db/src/schema/stats.rs b/crates/axmos-db/src/schema/stats.rs
index 0b082eb..bf1334b 100644
--- a/crates/axmos-db/src/schema/stats.rs
+++ b/crates/axmos-db/src/schema/stats.rs
@@ -350,9 +350,9 @@ impl Stats {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
-        let stats = from_bytes::<Stats, RkyvError>(data)?;
+        let stats = from_bytes::<Stats, RkyvError>(&aligned)?;
         Ok(stats)
     }
 }
-- 
2.43.0


From 15fb3f8c6f2e77eda1fdbb5862c82420db3e13c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 15/51] fix: replacing a cell with a smaller one no longer
 exposes the lowest cell of the page to overwriting

---
 crates/axmos-db/src/storage/core/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/storage/core/buffer.rs b/crates/axmos-db/src/storage/core/buffer.rs
index 9bdff50..fdad54c 100644
--- a/crates/axmos-db/src/storage/core/buffer.rs
+++ b/crates/axmos-db/src/storage/core/buffer.rs
@@ -826,7 +826,7 @@ where
                 .copy_from_slice(&new_cell.full_data());
             *old_cell.metadata_mut() = *new_cell.metadata();
 
-            self.free_space_pointer_down(free_bytes);
+            // The gained bytes are not at the frontier of the free space, so the pointer stays where it is. They are recovered by defragmentation.
             self.add_free_space(free_bytes);
 
             return Ok(owned_cell);
-- 
2.43.0


From e75b04b7d2342999750034eadb5ceb22323dd596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 16/51] fix: tree separators own their data and rebalancing
 keeps them valid on every level

---
 crates/axmos-db/src/tree/bplustree.rs | 208 ++++++++++++++++----------
 1 file changed, 125 insertions(+), 83 deletions(-)

diff --git a/crates/axmos-db/src/tree/bplustree.rs b/crates/axmos-db/src/tree/bplustree.rs
index 3b8ea81..6f65d9a 100644
--- a/crates/axmos-db/src/tree/bplustree.rs
+++ b/crates/axmos-db/src/tree/bplustree.rs
@@ -20,7 +20,7 @@ use super::{
 };
 
 use std::{
-    cmp::{Ordering, Reverse},
+    cmp::{Ordering, Reverse, min},
     collections::{BTreeMap, BinaryHeap, HashSet, VecDeque},
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult, Write},
@@ -772,7 +772,7 @@ where
         };
 
         // Check the current page status and call balance if required.
-        self.balance(page_id)?;
+        self.balance(page_id, schema)?;
         Ok(())
     }
 
@@ -801,7 +801,7 @@ where
         // Deallocate the cell
         deallocator.deallocate_cell(old_cell)?;
 
-        self.balance(page_id)?;
+        self.balance(page_id, schema)?;
 
         Ok(())
     }
@@ -888,7 +888,7 @@ where
                 let deallocator = CellDeallocator::new(self.pager.clone());
                 deallocator.deallocate_cell(cell)?;
 
-                self.balance(page_id)?;
+                self.balance(page_id, schema)?;
 
                 Ok(())
             }
@@ -921,7 +921,7 @@ where
                 let deallocator = CellDeallocator::new(self.pager.clone());
                 deallocator.deallocate_cell(cell)?;
 
-                self.balance(page_id)?;
+                self.balance(page_id, schema)?;
 
                 Ok(())
             }
@@ -980,7 +980,7 @@ where
 
     /// Splits a mutable slice of cells into two parts, assuming they are sorted by key.
     /// Useful for cell redistribution.
-    fn split_cells(mut cells: Vec<OwnedCell>) -> (Vec<OwnedCell>, Vec<OwnedCell>) {
+    fn split_cells(mut cells: Vec<OwnedCell>, min_left: usize) -> (Vec<OwnedCell>, Vec<OwnedCell>) {
         // Assumes cells are sorted
         let sizes: Vec<usize> = cells.iter().map(|cell| cell.total_size()).collect();
         let total_size: usize = sizes.iter().sum();
@@ -996,6 +996,9 @@ where
             })
             .unwrap_or(cells.len().div_ceil(2));
 
+        // Both sides need cells, and the left one may have to give its last cell to the parent.
+        let split_index = split_index.clamp(min(min_left, cells.len() - 1), cells.len() - 1);
+
         // Divide the vector
         let right = cells.split_off(split_index);
         let left = cells;
@@ -1007,7 +1010,7 @@ where
     /// Balance deeper is the opposite of balance shallower in the sense that it will allocate two new nodes when the root becomes full, increasing the depth of the tree by one.
     /// The cell in the middle gets propagated upwards.
     /// We also need to fix the pointers in the frontiers between the two new nodes to maintain the leaf node's linked list.
-    fn balance_deeper(&mut self) -> BtreeResult<()> {
+    fn balance_deeper(&mut self, schema: &Schema) -> BtreeResult<()> {
         let page_size = self.pager.write().page_size();
         // Allocate new left and right childs
         let new_left = self.pager.write().allocate_page::<BtreePage>()?;
@@ -1025,14 +1028,20 @@ where
             .collect::<Vec<OwnedCell>>();
 
         // Split the cell's array.
-        let (mut left_cells, right_cells) = Self::split_cells(cells);
+        let (mut left_cells, right_cells) = Self::split_cells(cells, if was_leaf { 1 } else { 2 });
 
         // Choose the appropiate cell to propagate based on the type of page.
         // We need to copy  because we also need to insert it on the new leaves (this is a Bplustree, so the data must reside on the leaf pages.)
-        let mut propagated_cell = if was_leaf {
-            right_cells.first().unwrap().clone()
+        let (mut propagated_cell, right_child) = if was_leaf {
+            (
+                self.build_separator(right_cells.first().unwrap(), schema)?,
+                None,
+            )
         } else {
-            left_cells.last().unwrap().clone()
+            // The last cell moves upwards and its child becomes the right child of the left page.
+            let last = left_cells.pop().unwrap();
+            let right_child = last.left_child();
+            (last, right_child)
         };
         propagated_cell.set_left_child(Some(new_left));
 
@@ -1043,21 +1052,11 @@ where
             current_root_page.push(propagated_cell)?;
         }
 
-        // In case we were splitting an interior node we need to account that the last cell must be used as the right child of the new allocated pages.
-
-        let (cells_for_left, right_child) = if was_leaf {
-            (left_cells, None)
-        } else if let Some(last) = left_cells.pop() {
-            (left_cells, last.left_child())
-        } else {
-            (left_cells, None)
-        };
-
         {
             let left_page = self.get_page_mut(new_left)?;
 
             // Push the owned cells to the left page.
-            for cell in cells_for_left {
+            for cell in left_cells {
                 left_page.push(cell)?;
             }
 
@@ -1096,6 +1095,45 @@ where
         Ok(())
     }
 
+    /// Maximum storage size of a separator on an interior page.
+    /// Rebalancing can replace or add a few separators on the parent before the parent itself gets rebalanced, so all of them must fit in the space that is left over the overflow threshold.
+    fn max_separator_size(&self, page_size: usize) -> usize {
+        let slack = BtreePage::usable_space(page_size) - BtreePage::overflow_threshold(page_size);
+        slack / (2 * self.num_siblings_per_side + 4)
+    }
+
+    /// Builds the separator that routes towards the page starting at the given leaf cell.
+    /// It only contains the key, and never shares overflow pages with the cell it was built from.
+    fn build_separator(&self, cell: &OwnedCell, schema: &Schema) -> BtreeResult<OwnedCell> {
+        let mut reassembler = Reassembler::new(self.pager.clone());
+        reassembler.reassemble(cell.as_cell_ref())?;
+        let data = reassembler.into_boxed_slice();
+
+        let mut end = Tuple::keys_offset(schema.num_values());
+        for key in schema.iter_keys() {
+            let (_, next) = key
+                .datatype()
+                .deserialize(&data, end)
+                .map_err(|e| IoError::new(ErrorKind::InvalidData, e.to_string()))?;
+            end = next;
+        }
+
+        let page_size = self.pager.write().page_size();
+        let builder = CellBuilder::new(
+            self.max_separator_size(page_size),
+            self.min_keys,
+            self.pager.clone(),
+        );
+        let key_only = Tuple::from_slice_unchecked(&data[..end])?;
+        Ok(builder.build_cell(key_only, schema)?)
+    }
+
+    /// Builds the separator for the first cell of the given leaf page.
+    fn separator_for(&mut self, page_id: PageId, schema: &Schema) -> BtreeResult<OwnedCell> {
+        let first = self.get_page_mut(page_id)?.owned_cell(0);
+        self.build_separator(&first, schema)
+    }
+
     // Computes the best cell distribution given a list of cells.
     //
     // The cell distribution computation is part of the rebalance algorithm.
@@ -1105,6 +1143,7 @@ where
     fn compute_best_cell_distribution(
         cells: &VecDeque<OwnedCell>,
         page_size: usize,
+        min_cells_per_page: usize,
     ) -> (Vec<usize>, Vec<usize>) {
         // Obtain the maximum data that we can fit on this page.
         let usable_space = BtreePage::overflow_threshold(page_size);
@@ -1129,31 +1168,25 @@ where
             };
         }
 
-        // Account for underflow towards the right.
-        // At least two pages are needed in order to be able to account for that underflow.
-        if number_of_cells_per_page.len() >= 2 {
-            // The divider cell will be the first cell of the last page.
-            let mut divider_cell = cells.len() - number_of_cells_per_page.last().unwrap() - 1;
-
-            // Iterate backwards, moving cells towards the right.
-            for i in (1..=(total_size_in_each_page.len() - 1)).rev() {
-                while total_size_in_each_page[i] < BtreePage::underflow_threshold(page_size) {
-                    number_of_cells_per_page[i] += 1;
-                    total_size_in_each_page[i] += &cells[divider_cell].storage_size();
-
-                    number_of_cells_per_page[i - 1] -= 1;
-                    total_size_in_each_page[i - 1] -= &cells[divider_cell - 1].storage_size();
-                    divider_cell -= 1;
+        // Account for underflow towards the right: a page takes cells from the one at its left while that brings their sizes closer together.
+        let bucket_starts = |counts: &[usize], i: usize| counts[..i].iter().sum::<usize>();
+        for i in (1..number_of_cells_per_page.len()).rev() {
+            while number_of_cells_per_page[i - 1] > min_cells_per_page {
+                let moved =
+                    cells[bucket_starts(&number_of_cells_per_page, i) - 1].storage_size();
+                let is_short = number_of_cells_per_page[i] < min_cells_per_page
+                    || total_size_in_each_page[i] < BtreePage::underflow_threshold(page_size);
+                let fits = total_size_in_each_page[i] + moved <= usable_space
+                    && total_size_in_each_page[i] < total_size_in_each_page[i - 1];
+                if !is_short || !fits {
+                    break;
                 }
+                number_of_cells_per_page[i] += 1;
+                total_size_in_each_page[i] += moved;
+                number_of_cells_per_page[i - 1] -= 1;
+                total_size_in_each_page[i - 1] -= moved;
             }
-
-            // Second page has more data than the first one, make a little
-            // adjustment to keep it left biased.
-            if total_size_in_each_page[0] < BtreePage::underflow_threshold(page_size) {
-                number_of_cells_per_page[0] += 1;
-                number_of_cells_per_page[1] -= 1;
-            };
-        };
+        }
 
         (total_size_in_each_page, number_of_cells_per_page)
     }
@@ -1162,7 +1195,7 @@ where
     /// The description of this algorithm can be found on original SQLite docs: https://sqlite.org/btreemodule.html
     /// The main idea is that you have to take as many pages as specified, recompute a balanced distribution, and redistribute the cells accordingly.
     /// Afterwards, propagate the pointers as required.
-    fn balance(&mut self, page_id: PageId) -> BtreeResult<()> {
+    fn balance(&mut self, page_id: PageId, schema: &Schema) -> BtreeResult<()> {
         let is_root = self.is_root(page_id);
         // Read the page size from the pager.
         let page_size = self.pager.write().page_size();
@@ -1180,7 +1213,7 @@ where
 
         // Root overflow.
         if is_root && matches!(status, NodeStatus::Overflow) {
-            return self.balance_deeper();
+            return self.balance_deeper(schema);
         };
 
         // Pop the last visited position from the stack.
@@ -1191,10 +1224,18 @@ where
             .ok_or(BtreeError::TraversalEmpty)?;
 
         // Internal/Leaf node Overflow/Underflow.
-        self.balance_siblings(page_id, &parent_position)?;
+        self.balance_siblings(page_id, &parent_position, schema)?;
 
         // No need to fuck anything else up.
         if matches!(self.check_node_status(page_id)?, NodeStatus::Balanced) {
+            // The separator that replaced the old one may be bigger, so the parent could be the one that needs help now.
+            let parent_page_id = parent_position.entry();
+            if matches!(
+                self.check_node_status(parent_page_id)?,
+                NodeStatus::Overflow
+            ) {
+                self.balance(parent_page_id, schema)?;
+            }
             return Ok(());
         };
 
@@ -1290,30 +1331,26 @@ where
                 .map(|s| s.entry())
                 .or(right_frontier_in_parent.map(|f| f.entry()));
 
-            // If the right child is different from None and the next sibling too,
-            // extract the first cell of the first child on our next sibling and allocate a new cell.
-            // This always happens on interior nodes rebalancing, as right_child is not set on leaf nodes.
-            if let Some(right_most_child_id) = right_child
-                && let Some(next_id) = next_sibling
-            {
-                let next_page = self.get_page_mut(next_id)?;
-
-                // Obtain the first child
-                if let Some(first_child_id) = next_page.child(0) {
-                    let child_page = self.get_page_mut(first_child_id)?;
-                    let mut cell = child_page.owned_cell(0);
-
-                    // Make the copied cell point to our right child and push it to the chain.
-                    cell.set_left_child(Some(right_most_child_id));
-                    cells.push_back(cell);
-                };
+            // Remove our entry from the parent node.
+            let parent_page = self.get_page_mut(parent_page_id)?;
+            let separator = if slot_to_remove < parent_page.num_slots() {
+                Some(parent_page.remove(slot_to_remove)?)
+            } else {
+                None
             };
 
-            let parent_page = self.get_page_mut(parent_page_id)?;
-            // Remove our entry from the parent node.
-            if slot_to_remove < parent_page.num_slots() {
-                parent_page.remove(slot_to_remove)?;
+            let Some(mut separator) = separator else {
+                continue;
             };
+
+            // On interior nodes the separator comes down and takes care of our right child.
+            // On leaf nodes it is no longer needed, as the dividers are rebuilt from the data.
+            if right_child.is_some() && next_sibling.is_some() {
+                separator.set_left_child(right_child);
+                cells.push_back(separator);
+            } else {
+                CellDeallocator::new(self.pager.clone()).deallocate_cell(separator)?;
+            }
         }
 
         // Take the last right child of the siblings chain.
@@ -1325,7 +1362,7 @@ where
         });
 
         let (total_size_in_each_page, number_of_cells_per_page) =
-            Self::compute_best_cell_distribution(&cells, page_size);
+            Self::compute_best_cell_distribution(&cells, page_size, if is_leaf { 1 } else { 2 });
 
         // Allocate missing pages
         while siblings.len() < number_of_cells_per_page.len() {
@@ -1408,9 +1445,9 @@ where
             //
             // Note that the last node's  next is the right frontier, which gets propagated afterwards.
             if i < siblings.len() - 1 && is_leaf {
-                // Simply create a copy of the next node's front cell, make it point towards ourselves and propagate.
-                let mut divider = cells.front().unwrap().clone();
-                current_iter_page.set_right_child(divider.left_child());
+                // Simply build a separator from the next node's front cell, make it point towards ourselves and propagate.
+                current_iter_page.set_right_child(None);
+                let mut divider = self.build_separator(cells.front().unwrap(), schema)?;
                 divider.set_left_child(Some(current_iter_id));
                 let parent_page = self.get_page_mut(parent_page_id)?;
                 parent_page.insert(current_iter_slot, divider)?;
@@ -1438,12 +1475,11 @@ where
         // For interior nodes this is not necessary as we use the last child of the previous sibling instead.
         if is_leaf && let Some(frontier) = right_frontier_in_parent {
             let frontier_id = frontier.entry();
-            let page = self.get_page_mut(frontier_id)?;
             let last_sibling = siblings[siblings.len() - 1];
             let last_sibling_id = last_sibling.entry();
             let last_sibling_slot = last_sibling.slot();
 
-            let mut divider_cell = page.owned_cell(0);
+            let mut divider_cell = self.separator_for(frontier_id, schema)?;
             divider_cell.set_left_child(Some(last_sibling_id));
             let parent_page = self.get_page_mut(parent_page_id)?;
             parent_page.insert(last_sibling_slot, divider_cell)?;
@@ -1471,7 +1507,7 @@ where
         };
 
         // Done, propagate upwards.
-        self.balance(parent_page_id)?;
+        self.balance(parent_page_id, schema)?;
 
         Ok(())
     }
@@ -1573,6 +1609,7 @@ where
         target_slot: usize,
         separator_slot: usize,
         direction: BorrowDirection,
+        schema: &Schema,
     ) -> BtreeResult<()> {
         // Size occupied by the cell that would go to the target node.
         let cell_size = self
@@ -1604,12 +1641,12 @@ where
         // In order to unfuck the parent, we replace the entry that pointed to left with the right node's first key
         let divider = match direction {
             BorrowDirection::RightToLeft => {
-                let mut separator = self.get_page_mut(source_page_id)?.owned_cell(0);
+                let mut separator = self.separator_for(source_page_id, schema)?;
                 separator.set_left_child(Some(target_page_id));
                 separator
             }
             BorrowDirection::LeftToRight => {
-                let mut separator = self.get_page_mut(target_page_id)?.owned_cell(0);
+                let mut separator = self.separator_for(target_page_id, schema)?;
                 separator.set_left_child(Some(source_page_id));
                 separator
             }
@@ -1619,7 +1656,8 @@ where
         if parent_page.num_slots() == separator_slot {
             parent_page.set_right_child(divider.left_child());
         } else {
-            parent_page.replace(separator_slot, divider)?;
+            let old_separator = parent_page.replace(separator_slot, divider)?;
+            CellDeallocator::new(self.pager.clone()).deallocate_cell(old_separator)?;
         };
 
         Ok(())
@@ -1631,6 +1669,7 @@ where
         &mut self,
         page_id: PageId,
         parent_pos: &BtreePagePosition,
+        schema: &Schema,
     ) -> BtreeResult<()> {
         let is_leaf = self.get_page_mut(page_id)?.is_leaf();
 
@@ -1668,6 +1707,7 @@ where
                         target_slot,
                         separator_slot,
                         BorrowDirection::RightToLeft,
+                        schema,
                     )?;
                 };
 
@@ -1690,6 +1730,7 @@ where
                         0,
                         separator_slot,
                         BorrowDirection::LeftToRight,
+                        schema,
                     )?;
                 };
                 Ok(())
@@ -1714,6 +1755,7 @@ where
                         target_slot,
                         separator_slot,
                         BorrowDirection::RightToLeft,
+                        schema,
                     )?;
                 };
 
@@ -1736,6 +1778,7 @@ where
                         0,
                         separator_slot,
                         BorrowDirection::LeftToRight,
+                        schema,
                     )?;
                 };
 
@@ -1755,9 +1798,6 @@ where
         let mut queue: VecDeque<PageId> = VecDeque::new();
         let mut visited: HashSet<PageId> = HashSet::new();
         let mut overflow_chains: HashSet<PageId> = HashSet::new(); // Use HashSet to deduplicate.
-        // During the balancing algorithm, some cells get copied to interior nodes.
-        // When this cells have overflow pages linked to them, we do not copy the entire overflow chain, but just the first cell and create a pointer alias on the copied cell. The problem is that this caused duplicate overflow pages to appear in the list of pages to deallocate, generating an infinite deallocation loop.
-        // I fixed it out using a [Set] instead of a [Vec] here.
 
         queue.push_back(self.get_root());
 
@@ -1891,7 +1931,9 @@ impl<'a> BtreePrinter<'a> {
         let reader = TupleReader::from_schema(self.schema);
         let mut first_entry = true;
 
-        for i in 0..page.num_slots() {
+        // Interior pages only contain separators.
+        let num_entries = if page.is_leaf() { page.num_slots() } else { 0 };
+        for i in 0..num_entries {
             let cell = page.cell(i);
             if let Some(layout) = reader.parse_for_snapshot(cell.effective_data(), self.snapshot)? {
                 if !first_entry {
-- 
2.43.0


From eb224d154907c67b4017ce5c1e0091dc0da77652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 17/51] fix: the page cache keeps its capacity after a flush,
 its frames while they are in use and can evict more than once around

---
 crates/axmos-db/src/io/cache.rs | 40 ++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/crates/axmos-db/src/io/cache.rs b/crates/axmos-db/src/io/cache.rs
index a71fb24..f695902 100644
--- a/crates/axmos-db/src/io/cache.rs
+++ b/crates/axmos-db/src/io/cache.rs
@@ -18,17 +18,17 @@ pub(crate) struct MemoryStats {
 impl MemoryStats {
     fn cache_hit(&self) {
         let current = self.cache_hits.get();
-        self.cache_hits.set(current + 1);
+        self.cache_hits.set(current.wrapping_add(1));
     }
 
     fn cache_miss(&self) {
         let current = self.cache_misses.get();
-        self.cache_misses.set(current + 1);
+        self.cache_misses.set(current.wrapping_add(1));
     }
 
     fn eviction(&self) {
         let current = self.frames_evicted.get();
-        self.frames_evicted.set(current + 1);
+        self.frames_evicted.set(current.wrapping_add(1));
     }
 }
 impl Display for MemoryStats {
@@ -115,7 +115,10 @@ impl PageCache {
 
     /// Removes a frame from the cache for deallocation.
     pub(crate) fn remove(&mut self, id: PageId) -> Option<MemFrame> {
-        self.frames.swap_remove(&id).filter(|frame| frame.is_free())
+        if !self.frames.get(&id)?.is_free() {
+            return None;
+        }
+        self.frames.swap_remove(&id)
     }
 
     pub fn evict(&mut self) -> io::Result<Option<MemFrame>> {
@@ -123,28 +126,26 @@ impl PageCache {
             return Ok(None);
         };
 
-        let mut found_victim = None;
-        // Attempt to iterate over all the frames.
-        while self.cursor <= self.frames.len() && found_victim.is_none() {
-            if let Some((pid, frame)) = self.frames.get_index(self.cursor) {
-                if frame.is_free() {
-                    self.stats.eviction();
-
-                    let (_, victim) = self.frames.swap_remove_index(self.cursor).unwrap();
+        // Visit every frame once, starting where the last search stopped.
+        for _ in 0..self.frames.len() {
+            if self.cursor >= self.frames.len() {
+                self.cursor = 0;
+            }
 
-                    found_victim = Some(victim);
-                    break;
-                }
+            if let Some((_, frame)) = self.frames.get_index(self.cursor)
+                && frame.is_free()
+            {
+                self.stats.eviction();
+                return Ok(self
+                    .frames
+                    .swap_remove_index(self.cursor)
+                    .map(|(_, victim)| victim));
             };
 
             // Not evictable.
             self.cursor += 1;
         }
 
-        if found_victim.is_some() {
-            return Ok(found_victim);
-        };
-
         Err(IoError::new(
             ErrorKind::OutOfMemory,
             "Buffer pool got out of memory for new frames.",
@@ -180,7 +181,6 @@ impl PageCache {
         }
 
         self.cursor = 0;
-        self.capacity = 0;
         remaining_frames
     }
 }
-- 
2.43.0


From f055be3aae185396841de67d80601e1e2e57a4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 18/51] fix: a page enters the free list only once it could be
 deallocated

---
 crates/axmos-db/src/io/pager.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index d797bad..ca84334 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -488,10 +488,24 @@ impl Pager {
             ));
         };
 
-        let first_free_page = self.first_free_page();
+        // We need to ensure that the frame is free before touching the free list.
+        self.ensure_cached::<P>(id)?;
+        let mem_page = self.cache.remove(id).ok_or(IoError::new(
+            ErrorKind::ResourceBusy,
+            format!("Cannot deallocate page {id}: it is still in use"),
+        ))?;
+
+        let page_size = self.page_size();
+
+        // [MemPage::dealloc] consumes itself and creates a new MemPage with an overflow header.
+        let deallocated_page = mem_page.dealloc();
+
+        // Here the write needs to write as an overflow page , regardless of the value of [P]
+        deallocated_page.with_bytes(|bytes| self.write_block(id, bytes, page_size))?;
+        self.cache_frame(deallocated_page)?;
 
         // Set the first free page in the header
-        if first_free_page.is_none() {
+        if self.first_free_page().is_none() {
             self.set_first_free_page(Some(id));
         };
 
@@ -505,20 +519,6 @@ impl Pager {
         // The new last free page must be the one we have deallocated.
         self.set_last_free_page(Some(id));
 
-        self.ensure_cached::<P>(id)?;
-
-        // We need to ensure that the frame is free
-        if let Some(mem_page) = self.cache.remove(id) {
-            let page_size = self.page_size();
-
-            // [MemPage::dealloc] consumes itself and creates a new MemPage with an overflow header.
-            let deallocated_page = mem_page.dealloc();
-
-            // Here the write needs to write as an overflow page , regardless of the value of [P]
-            deallocated_page.with_bytes(|bytes| self.write_block(id, bytes, page_size))?;
-            self.cache_frame(deallocated_page)?;
-        };
-
         Ok(())
     }
 
-- 
2.43.0


From a8caa1e6676c3485e165c85c7751b705c238fa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 19/51] fix: defragmenting a page moves cells that overlap
 their destination intact

---
 crates/axmos-db/src/storage/core/buffer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/axmos-db/src/storage/core/buffer.rs b/crates/axmos-db/src/storage/core/buffer.rs
index fdad54c..22a8d42 100644
--- a/crates/axmos-db/src/storage/core/buffer.rs
+++ b/crates/axmos-db/src/storage/core/buffer.rs
@@ -891,10 +891,12 @@ where
             // dereferencing the cell pointer should be safe as well.
             unsafe {
                 let cell = self.item_at_offset(offset as u64);
-                let cell_ref = CellRef::from_raw(cell);
-                let size = cell_ref.total_size();
+                let size = CellRef::from_raw(cell).total_size();
                 destination_offset -= size as usize;
-                self.write_item_to_offset(destination_offset as u64, cell_ref);
+                // The cell can overlap its own destination, so it has to be moved as a whole.
+                let source = self.data.byte_add(offset as usize).cast::<u8>().as_ptr();
+                let dest = self.data.byte_add(destination_offset).cast::<u8>().as_ptr();
+                std::ptr::copy(source, dest, size as usize);
             }
             self.slot_array_mut()[i] = destination_offset as u16;
         }
-- 
2.43.0


From 1d75c0937d7aaca71e84871f190f1259a415ead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:23 +0000
Subject: [PATCH 20/51] fix: NOT and BETWEEN bind as documented; invalid tokens
 and excessive nesting are errors instead of being skipped or overflowing the
 stack

---
 .../axmos-db/src/multithreading/threadpool.rs | 12 +++-
 crates/axmos-db/src/sql/parser/lexer.rs       | 56 ++++++++++---------
 crates/axmos-db/src/sql/parser/mod.rs         | 47 ++++++++++++++--
 3 files changed, 82 insertions(+), 33 deletions(-)

diff --git a/crates/axmos-db/src/multithreading/threadpool.rs b/crates/axmos-db/src/multithreading/threadpool.rs
index 7f5582d..7397dc3 100644
--- a/crates/axmos-db/src/multithreading/threadpool.rs
+++ b/crates/axmos-db/src/multithreading/threadpool.rs
@@ -115,6 +115,9 @@ pub(crate) enum Job {
     Shutdown,
 }
 
+/// Planning and evaluating a statement recurses over its expressions.
+const WORKER_STACK_SIZE: usize = 16 * 1024 * 1024;
+
 struct Worker {
     id: ThreadId,
     thread: Option<JoinHandle<()>>,
@@ -122,7 +125,7 @@ struct Worker {
 
 impl Worker {
     fn new(job_queue: Arc<JobQueue<Job>>, running: Arc<AtomicBool>) -> Worker {
-        let thread = thread::spawn(move || {
+        let body = move || {
             while let Some(job) = job_queue.pop_interruptible(Duration::from_millis(100), &running)
             {
                 match job {
@@ -134,7 +137,12 @@ impl Worker {
                     Job::Shutdown => break,
                 }
             }
-        });
+        };
+
+        let thread = thread::Builder::new()
+            .stack_size(WORKER_STACK_SIZE)
+            .spawn(body)
+            .expect("failed to spawn worker thread");
 
         Worker {
             id: thread::current_id(),
diff --git a/crates/axmos-db/src/sql/parser/lexer.rs b/crates/axmos-db/src/sql/parser/lexer.rs
index e4bfb20..969dd51 100644
--- a/crates/axmos-db/src/sql/parser/lexer.rs
+++ b/crates/axmos-db/src/sql/parser/lexer.rs
@@ -143,6 +143,9 @@ pub enum Token {
     Percent,   // %
     Concat,    // ||
 
+    // Anything that is not a token of the language
+    Invalid(String),
+
     // End of file
     Eof,
 }
@@ -170,6 +173,7 @@ impl fmt::Display for Token {
             Token::Slash => write!(f, "/"),
             Token::Percent => write!(f, "%"),
             Token::Concat => write!(f, "||"),
+            Token::Invalid(s) => write!(f, "{s}"),
             Token::Eof => write!(f, "EOF"),
             _ => write!(f, "{:?}", self),
         }
@@ -242,11 +246,16 @@ impl Lexer {
         }
     }
 
-    /// Advances the cursor until the next non-whitespace position.
+    /// Advances the cursor until the next position that is neither whitespace nor inside a comment.
     fn skip_whitespace(&mut self) {
         while let Some(ch) = self.current_char {
             if ch.is_whitespace() {
                 self.advance();
+            } else if ch == MINUS && self.peek(1) == Some(MINUS) {
+                // Skip until end of line
+                while self.current_char.is_some_and(|c| c != '\n') {
+                    self.advance();
+                }
             } else {
                 break;
             }
@@ -256,7 +265,8 @@ impl Lexer {
     /// Consume a string from the input buffer.
     /// In SQL, strings are formatted between quotes.
     /// Therefore we need to skip them to get to consume the actual information.
-    fn read_string(&mut self) -> String {
+    /// Returns [None] if the closing quote is missing.
+    fn read_string(&mut self) -> Option<String> {
         let mut result = String::new();
         self.advance(); // Skip opening quote
 
@@ -269,7 +279,7 @@ impl Lexer {
                     self.advance();
                 } else {
                     self.advance(); // Skip closing quote
-                    break;
+                    return Some(result);
                 }
             } else {
                 result.push(ch);
@@ -277,12 +287,12 @@ impl Lexer {
             }
         }
 
-        result
+        None
     }
 
     // Read a number from the input buffer.
     // On my implementation, decimals are represented with dots.
-    fn read_number(&mut self) -> f64 {
+    fn read_number(&mut self) -> Token {
         let mut num_str = String::new();
 
         while let Some(ch) = self.current_char {
@@ -294,7 +304,10 @@ impl Lexer {
             }
         }
 
-        num_str.parse().unwrap_or(0.0)
+        match num_str.parse::<f64>() {
+            Ok(num) if num.is_finite() => Token::NumberLiteral(num),
+            _ => Token::Invalid(num_str),
+        }
     }
 
     /// Read an identifier from the input buffer.
@@ -325,21 +338,24 @@ impl Lexer {
 
         match self.current_char {
             None => Token::Eof,
-            Some(ESCAPE_QUOTE) => Token::StringLiteral(self.read_string()),
+            Some(ESCAPE_QUOTE) => match self.read_string() {
+                Some(string) => Token::StringLiteral(string),
+                None => Token::Invalid("unterminated string".to_string()),
+            },
             Some(DOUBLE_QUOTE) => {
                 self.advance();
                 let mut ident = String::new();
                 while let Some(ch) = self.current_char {
                     if ch == DOUBLE_QUOTE {
                         self.advance();
-                        break;
+                        return Token::Identifier(ident);
                     }
                     ident.push(ch);
                     self.advance();
                 }
-                Token::Identifier(ident)
+                Token::Invalid("unterminated identifier".to_string())
             }
-            Some(ch) if ch.is_ascii_digit() => Token::NumberLiteral(self.read_number()),
+            Some(ch) if ch.is_ascii_digit() => self.read_number(),
             Some(ch) if ch.is_alphabetic() || ch == '_' => {
                 let ident = self.read_identifier();
                 keyword_to_token(&ident)
@@ -410,19 +426,7 @@ impl Lexer {
             }
             Some(MINUS) => {
                 self.advance();
-                // Check for comments
-                if self.current_char == Some('-') {
-                    // Skip until end of line
-                    while let Some(ch) = self.current_char {
-                        if ch == '\n' {
-                            break;
-                        }
-                        self.advance();
-                    }
-                    self.next_token()
-                } else {
-                    Token::Minus
-                }
+                Token::Minus
             }
             Some(DIVISOR) => {
                 self.advance();
@@ -439,12 +443,12 @@ impl Lexer {
                     Token::Concat
                 } else {
                     // Single | is not a valid SQL operator, treat as unknown
-                    self.next_token()
+                    Token::Invalid(PIPE.to_string())
                 }
             }
-            _ => {
+            Some(ch) => {
                 self.advance();
-                self.next_token()
+                Token::Invalid(ch.to_string())
             }
         }
     }
diff --git a/crates/axmos-db/src/sql/parser/mod.rs b/crates/axmos-db/src/sql/parser/mod.rs
index a404639..4204a55 100644
--- a/crates/axmos-db/src/sql/parser/mod.rs
+++ b/crates/axmos-db/src/sql/parser/mod.rs
@@ -39,8 +39,14 @@ pub type ParseResult<T> = Result<T, ParserError>;
 pub struct Parser {
     lexer: Lexer,
     current_token: Token,
+    /// Current nesting of expressions and subqueries.
+    depth: usize,
 }
 
+/// Deepest expression tree the parser accepts. The binder, the planner and the evaluator recurse
+/// over expressions, so an unbounded depth would overflow the stack of the worker.
+const MAX_EXPRESSION_DEPTH: usize = 256;
+
 impl Parser {
     pub fn new(sql: &str) -> Self {
         let mut lexer = Lexer::new(sql);
@@ -48,6 +54,7 @@ impl Parser {
         Parser {
             lexer,
             current_token,
+            depth: 0,
         }
     }
 
@@ -88,6 +95,15 @@ impl Parser {
     /// Obtains the expression binding power using a Pratt Parsing approach.
     /// I recommend this read on Pratt Parsing: https://matklad.github.io/2020/04/13/simple-but-powerful-pratt-parsing.html
     fn parse_expr_bp(&mut self, min_bp: u8) -> ParseResult<Expr> {
+        let outer = self.depth;
+        self.depth += 1;
+        let result = self.parse_expr_at_depth(min_bp);
+        self.depth = outer;
+        result
+    }
+
+    fn parse_expr_at_depth(&mut self, min_bp: u8) -> ParseResult<Expr> {
+        self.check_depth()?;
         let mut lhs = self.parse_prefix()?;
 
         while let Some((l_bp, r_bp)) = self.infix_binding_power() {
@@ -95,12 +111,24 @@ impl Parser {
                 break;
             }
 
+            // Every operator of a chain nests the expression one level deeper.
+            self.depth += 1;
+            self.check_depth()?;
             lhs = self.parse_infix(lhs, r_bp)?;
         }
 
         Ok(lhs)
     }
 
+    fn check_depth(&self) -> ParseResult<()> {
+        if self.depth > MAX_EXPRESSION_DEPTH {
+            return Err(ParserError::InvalidExpression(
+                "expression is nested too deeply".to_string(),
+            ));
+        }
+        Ok(())
+    }
+
     /// Given the current token, obtains the parsed prefix of the expression.
     fn parse_prefix(&mut self) -> ParseResult<Expr> {
         match &self.current_token {
@@ -254,7 +282,7 @@ impl Parser {
             // This way, the expression: [NOT a AND b OR c], will be parsed as: (OR (AND (NOT a) b) c)
             Token::Not => {
                 self.next_token();
-                let expr = self.parse_expr_bp(3)?; // NOT precedence
+                let expr = self.parse_expr_bp(4)?; // NOT precedence: looser than comparisons, tighter than AND
                 Ok(Expr::UnaryOp {
                     op: UnaryOperator::Not,
                     expr: Box::new(expr),
@@ -368,9 +396,9 @@ impl Parser {
                     }
                     Token::Between => {
                         self.next_token();
-                        let low = self.parse_expr_bp(4)?;
+                        let low = self.parse_expr_bp(6)?;
                         self.expect(Token::And)?;
-                        let high = self.parse_expr_bp(4)?;
+                        let high = self.parse_expr_bp(6)?;
                         return Ok(Expr::Between {
                             expr: Box::new(left),
                             negated: true,
@@ -423,9 +451,9 @@ impl Parser {
             }
             Token::Between => {
                 self.next_token();
-                let low = self.parse_expr_bp(4)?;
+                let low = self.parse_expr_bp(6)?;
                 self.expect(Token::And)?;
-                let high = self.parse_expr_bp(4)?;
+                let high = self.parse_expr_bp(6)?;
                 return Ok(Expr::Between {
                     expr: Box::new(left),
                     negated: false,
@@ -1172,6 +1200,15 @@ impl Parser {
     /// LIMIT n;
     /// ```
     fn parse_select_statement(&mut self) -> ParseResult<SelectStatement> {
+        let outer = self.depth;
+        self.depth += 1;
+        let result = self.parse_select_at_depth();
+        self.depth = outer;
+        result
+    }
+
+    fn parse_select_at_depth(&mut self) -> ParseResult<SelectStatement> {
+        self.check_depth()?;
         self.expect(Token::Select)?;
 
         let distinct = self.consume_if(&Token::Distinct);
-- 
2.43.0


From 4e5ea8c4933edb779081a93b0ce06f8904909642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:12 +0000
Subject: [PATCH 21/51] fix: predicate errors, COUNT over NULL, DISTINCT
 aggregates, narrow sums and INSERT from the target table itself

---
 crates/axmos-db/src/runtime/ops/aggregate.rs  | 46 +++++++++++++------
 crates/axmos-db/src/runtime/ops/index_scan.rs | 31 ++++++-------
 crates/axmos-db/src/runtime/ops/insert.rs     |  8 +++-
 crates/axmos-db/src/runtime/ops/seq_scan.rs   | 13 ++----
 4 files changed, 56 insertions(+), 42 deletions(-)

diff --git a/crates/axmos-db/src/runtime/ops/aggregate.rs b/crates/axmos-db/src/runtime/ops/aggregate.rs
index be4da18..240aaf1 100644
--- a/crates/axmos-db/src/runtime/ops/aggregate.rs
+++ b/crates/axmos-db/src/runtime/ops/aggregate.rs
@@ -1,5 +1,8 @@
 // src/runtime/ops/aggregate.rs
-use std::{collections::HashMap, vec::IntoIter};
+use std::{
+    collections::{HashMap, HashSet},
+    vec::IntoIter,
+};
 
 use crate::{
     runtime::{ExecutionStats, Executor, RuntimeError, RuntimeResult, eval::ExpressionEvaluator},
@@ -9,7 +12,7 @@ use crate::{
         planner::{logical::AggregateExpr, physical::HashAggregateOp},
     },
     storage::tuple::Row,
-    types::{DataType, TypeSystemError},
+    types::{DataType, DataTypeKind, TypeSystemError},
 };
 
 /// Accumulator state for a single aggregate function.
@@ -39,8 +42,8 @@ impl Accumulator {
 
     /// Accumulate a new value into the aggregate state.
     fn accumulate(&mut self, value: &DataType) -> RuntimeResult<()> {
-        // Skip NULL values for most aggregates except COUNT
-        if matches!(value, DataType::Null) && !matches!(self, Accumulator::Count { .. }) {
+        // Aggregates skip NULL values. COUNT(*) is accumulated as a non-null value.
+        if matches!(value, DataType::Null) {
             return Ok(());
         }
 
@@ -49,16 +52,18 @@ impl Accumulator {
                 *count += 1;
             }
             Accumulator::Sum { sum } => {
+                let value = widened(value)?;
                 *sum = Some(match sum.take() {
-                    None => value.clone(),
+                    None => value,
                     Some(current) => current
                         .add(&value)
                         .map_err(|e| RuntimeError::Other(format!("Sum error: {}", e)))?,
                 });
             }
             Accumulator::Avg { sum, count } => {
+                let value = widened(value)?;
                 *sum = Some(match sum.take() {
-                    None => value.clone(),
+                    None => value,
                     Some(current) => current
                         .add(&value)
                         .map_err(|e| RuntimeError::Other(format!("Sum error: {}", e)))?,
@@ -123,12 +128,24 @@ impl Accumulator {
     }
 }
 
+/// The widest type of the family of a value, so that sums of narrow values do not overflow.
+fn widened(value: &DataType) -> RuntimeResult<DataType> {
+    Ok(match value {
+        DataType::Int(_) => value.try_cast(DataTypeKind::BigInt)?,
+        DataType::UInt(_) => value.try_cast(DataTypeKind::BigUInt)?,
+        DataType::Float(_) => value.try_cast(DataTypeKind::Double)?,
+        other => other.clone(),
+    })
+}
+
 /// A group bucket containing accumulators for all aggregate functions.
 struct GroupBucket {
     /// Key values for this group (for output).
     key: Vec<DataType>,
     /// One accumulator per aggregate expression.
     accumulators: Vec<Accumulator>,
+    /// Values already seen by each DISTINCT aggregate.
+    seen: Vec<HashSet<DataType>>,
 }
 
 impl GroupBucket {
@@ -139,6 +156,7 @@ impl GroupBucket {
                 .iter()
                 .map(|agg| Accumulator::new(&agg.func))
                 .collect(),
+            seen: vec![HashSet::new(); aggregates.len()],
         }
     }
 }
@@ -207,16 +225,14 @@ impl<Child: Executor> HashAggregate<Child> {
         // Accumulate the row
         let evaluator = ExpressionEvaluator::new(&row, &self.input_schema);
         for (i, agg_expr) in self.aggregates.iter().enumerate() {
-            let value = if agg_expr.arg.is_none() {
-                DataType::Null
-            } else if let Some(ref arg) = agg_expr.arg {
-                match arg {
-                    BoundExpression::Star => DataType::Null,
-                    other => evaluator.evaluate_as_single_value(other)?,
-                }
-            } else {
-                DataType::Null
+            let value = match &agg_expr.arg {
+                // COUNT(*) counts every row
+                None | Some(BoundExpression::Star) => DataType::Bool(true.into()),
+                Some(arg) => evaluator.evaluate_as_single_value(arg)?,
             };
+            if agg_expr.distinct && !bucket.seen[i].insert(value.clone()) {
+                continue;
+            }
             bucket.accumulators[i].accumulate(&value)?;
         }
 
diff --git a/crates/axmos-db/src/runtime/ops/index_scan.rs b/crates/axmos-db/src/runtime/ops/index_scan.rs
index db3974c..8dae93b 100644
--- a/crates/axmos-db/src/runtime/ops/index_scan.rs
+++ b/crates/axmos-db/src/runtime/ops/index_scan.rs
@@ -163,18 +163,14 @@ impl Executor for IndexScan {
                 .as_ref()
                 .ok_or(RuntimeError::CursorUninitialized)?
                 .get_tree();
-            let maybe_row = tree
-                .get_row_at(next_pos, &self.index_schema, &snapshot)?
-                .filter(|r| {
-                    self.evaluate_index_predicate(r)
-                        .expect("Predicate evaluation failed")
-                });
-
-            if maybe_row.is_none() {
+            let Some(found_row) = tree.get_row_at(next_pos, &self.index_schema, &snapshot)? else {
+                continue;
+            };
+
+            if !self.evaluate_index_predicate(&found_row)? {
                 continue;
             }
 
-            let found_row = maybe_row.unwrap();
             let row_key_bytes = self.get_row_id_checked(&found_row)?.serialize()?;
 
             // Build the table tree
@@ -183,19 +179,18 @@ impl Executor for IndexScan {
                 table_tree.search(row_key_bytes.as_ref(), &self.table_schema)?;
 
             if let SearchResult::Found(found_pos) = actual_row_result {
-                let actual_row = tree
-                    .get_row_at(found_pos, &self.table_schema, &snapshot)?
-                    .filter(|r| {
-                        self.evaluate_residual_predicate(r)
-                            .expect("Predicate evaluation failed")
-                    });
-
-                if actual_row.is_none() {
+                let Some(actual_row) =
+                    tree.get_row_at(found_pos, &self.table_schema, &snapshot)?
+                else {
+                    continue;
+                };
+
+                if !self.evaluate_residual_predicate(&actual_row)? {
                     continue;
                 }
 
                 self.stats.rows_produced += 1;
-                return Ok(Some(actual_row.unwrap()));
+                return Ok(Some(actual_row));
             } else {
                 continue;
             }
diff --git a/crates/axmos-db/src/runtime/ops/insert.rs b/crates/axmos-db/src/runtime/ops/insert.rs
index 157dd6c..40348e8 100644
--- a/crates/axmos-db/src/runtime/ops/insert.rs
+++ b/crates/axmos-db/src/runtime/ops/insert.rs
@@ -64,10 +64,16 @@ where
             return Ok(None);
         }
 
-        // Process all rows from child
+        // Read all rows before inserting the first one: the source can be the target table itself,
+        // and an open scan keeps its current page latched.
+        let mut rows = Vec::new();
         while let Some(row) = self.child.next()? {
             self.stats.rows_scanned += 1;
+            rows.push(row);
+        }
+        self.child.close()?;
 
+        for row in rows {
             let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
             dml.insert(self.table_id, &self.columns, &row)?;
 
diff --git a/crates/axmos-db/src/runtime/ops/seq_scan.rs b/crates/axmos-db/src/runtime/ops/seq_scan.rs
index 6d9f9f5..a32450a 100644
--- a/crates/axmos-db/src/runtime/ops/seq_scan.rs
+++ b/crates/axmos-db/src/runtime/ops/seq_scan.rs
@@ -98,19 +98,16 @@ impl Executor for SeqScan {
                 .ok_or(RuntimeError::CursorUninitialized)?
                 .get_tree();
 
-            let maybe_row = tree
-                .get_row_at(next_pos, &self.output_schema, &snapshot)?
-                .filter(|r| {
-                    self.evaluate_predicate(r)
-                        .expect("Predicate evaluation failed")
-                });
+            let Some(row) = tree.get_row_at(next_pos, &self.output_schema, &snapshot)? else {
+                continue;
+            };
 
-            if maybe_row.is_none() {
+            if !self.evaluate_predicate(&row)? {
                 continue;
             }
 
             self.stats.rows_produced += 1;
-            return Ok(Some(maybe_row.unwrap()));
+            return Ok(Some(row));
         }
     }
 
-- 
2.43.0


From aee8a301d94277ce5baf91a964f8196449b9911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:08 +0000
Subject: [PATCH 22/51] fix: joins keep their column order, keys and unmatched
 rows whatever plan is chosen

Commuted joins permuted the output columns, associativity dropped or misplaced
conditions, memo deduplication merged expressions that differ only in their
predicates, equality keys were taken as (left, right) in any order, NULL keys
matched in hash joins and stopped merge joins, and merge joins lost the
unmatched right rows of RIGHT and FULL joins.
---
 crates/axmos-db/src/runtime/builder.rs     |   5 +-
 crates/axmos-db/src/runtime/ops/join.rs    |  28 +-
 crates/axmos-db/src/sql/binder/bounds.rs   | 135 ++++++
 crates/axmos-db/src/sql/planner/logical.rs |  90 ++--
 crates/axmos-db/src/sql/planner/memo.rs    |  30 +-
 crates/axmos-db/src/sql/planner/mod.rs     |   5 +
 crates/axmos-db/src/sql/planner/rules.rs   | 452 +++++++--------------
 7 files changed, 381 insertions(+), 364 deletions(-)

diff --git a/crates/axmos-db/src/runtime/builder.rs b/crates/axmos-db/src/runtime/builder.rs
index e897da7..624a108 100644
--- a/crates/axmos-db/src/runtime/builder.rs
+++ b/crates/axmos-db/src/runtime/builder.rs
@@ -84,9 +84,12 @@ impl ExecutorBuilder {
 
             PhysicalOperator::NestedLoopJoin(join_op) => {
                 require_children(children, 2, "NestedLoopJoin")?;
+                let left_cols = children[0].output_schema().num_columns();
                 let left = build_child(&children[0])?;
                 let right = build_child(&children[1])?;
-                Ok(Box::new(NestedLoopJoin::new(join_op, left, right)))
+                Ok(Box::new(
+                    NestedLoopJoin::new(join_op, left, right).with_left_columns(left_cols),
+                ))
             }
             PhysicalOperator::HashJoin(join_op) => {
                 require_children(children, 2, "HashJoin")?;
diff --git a/crates/axmos-db/src/runtime/ops/join.rs b/crates/axmos-db/src/runtime/ops/join.rs
index 752ddcf..5dd540a 100644
--- a/crates/axmos-db/src/runtime/ops/join.rs
+++ b/crates/axmos-db/src/runtime/ops/join.rs
@@ -108,6 +108,11 @@ pub(crate) fn keys_match(left: &[DataType], right: &[DataType]) -> bool {
     true
 }
 
+/// Whether any of the key values is NULL, in which case the key matches no other.
+fn has_null(keys: &[DataType]) -> bool {
+    keys.iter().any(|k| matches!(k, DataType::Null))
+}
+
 fn combine_rows(left: &Row, right: &Row) -> Row {
     let mut values: Vec<DataType> = Vec::with_capacity(left.len() + right.len());
     for i in 0..left.len() {
@@ -197,6 +202,12 @@ impl<Left: Executor, Right: Executor> NestedLoopJoin<Left, Right> {
         }
     }
 
+    /// Sets the number of columns of the left input, which is needed when it has no rows.
+    pub(crate) fn with_left_columns(mut self, left_cols: usize) -> Self {
+        self.left_cols = left_cols;
+        self
+    }
+
     pub fn stats(&self) -> &ExecutionStats {
         &self.stats
     }
@@ -467,7 +478,12 @@ impl<Left: Executor, Right: Executor> Executor for HashJoin<Left, Right> {
             let left_row = self.current_left_row.as_ref().unwrap();
             let left_key = self.current_left_key.as_ref().unwrap();
 
-            if let Some(bucket) = self.hash_table.get_mut(left_key) {
+            let bucket = if has_null(left_key) {
+                None
+            } else {
+                self.hash_table.get_mut(left_key)
+            };
+            if let Some(bucket) = bucket {
                 while self.current_bucket_idx < bucket.len() {
                     let right_row = &bucket.rows[self.current_bucket_idx];
                     self.current_bucket_idx += 1;
@@ -574,10 +590,14 @@ impl<Left: Executor, Right: Executor> MergeJoin<Left, Right> {
     }
 
     fn compare_keys(&self, left_keys: &[DataType], right_keys: &[DataType]) -> Ordering {
+        // Keys with NULLs match nothing, so the side that has one moves on
+        if has_null(left_keys) {
+            return Ordering::Less;
+        }
+        if has_null(right_keys) {
+            return Ordering::Greater;
+        }
         for (l, r) in left_keys.iter().zip(right_keys.iter()) {
-            if matches!(l, DataType::Null) || matches!(r, DataType::Null) {
-                return Ordering::Greater;
-            }
             match l.partial_cmp(r) {
                 Some(Ordering::Equal) => continue,
                 Some(ord) => return ord,
diff --git a/crates/axmos-db/src/sql/binder/bounds.rs b/crates/axmos-db/src/sql/binder/bounds.rs
index d2a9040..49472ae 100644
--- a/crates/axmos-db/src/sql/binder/bounds.rs
+++ b/crates/axmos-db/src/sql/binder/bounds.rs
@@ -163,6 +163,141 @@ impl BoundExpression {
     }
 }
 
+impl BoundExpression {
+    /// Rebuilds the expression with `f` applied to each direct operand.
+    /// Returns `None` as soon as `f` does, and for expressions that contain a subquery.
+    pub(crate) fn map_children<F>(&self, f: &mut F) -> Option<BoundExpression>
+    where
+        F: FnMut(&BoundExpression) -> Option<BoundExpression>,
+    {
+        Some(match self {
+            Self::ColumnBinding(_) | Self::Literal { .. } | Self::Star => self.clone(),
+            Self::BinaryOp {
+                left,
+                op,
+                right,
+                result_type,
+            } => Self::BinaryOp {
+                left: Box::new(f(left)?),
+                op: *op,
+                right: Box::new(f(right)?),
+                result_type: *result_type,
+            },
+            Self::UnaryOp {
+                op,
+                expr,
+                result_type,
+            } => Self::UnaryOp {
+                op: *op,
+                expr: Box::new(f(expr)?),
+                result_type: *result_type,
+            },
+            Self::Function {
+                func,
+                args,
+                distinct,
+                return_type,
+            } => Self::Function {
+                func: func.clone(),
+                args: args.iter().map(|a| f(a)).collect::<Option<_>>()?,
+                distinct: *distinct,
+                return_type: *return_type,
+            },
+            Self::Aggregate {
+                func,
+                arg,
+                distinct,
+                return_type,
+            } => Self::Aggregate {
+                func: *func,
+                arg: match arg {
+                    Some(a) => Some(Box::new(f(a)?)),
+                    None => None,
+                },
+                distinct: *distinct,
+                return_type: *return_type,
+            },
+            Self::Case {
+                operand,
+                when_then,
+                else_expr,
+                result_type,
+            } => Self::Case {
+                operand: match operand {
+                    Some(e) => Some(Box::new(f(e)?)),
+                    None => None,
+                },
+                when_then: when_then
+                    .iter()
+                    .map(|(c, r)| Some((f(c)?, f(r)?)))
+                    .collect::<Option<_>>()?,
+                else_expr: match else_expr {
+                    Some(e) => Some(Box::new(f(e)?)),
+                    None => None,
+                },
+                result_type: *result_type,
+            },
+            Self::InList {
+                expr,
+                list,
+                negated,
+            } => Self::InList {
+                expr: Box::new(f(expr)?),
+                list: list.iter().map(|e| f(e)).collect::<Option<_>>()?,
+                negated: *negated,
+            },
+            Self::Between {
+                expr,
+                low,
+                high,
+                negated,
+            } => Self::Between {
+                expr: Box::new(f(expr)?),
+                low: Box::new(f(low)?),
+                high: Box::new(f(high)?),
+                negated: *negated,
+            },
+            Self::IsNull { expr, negated } => Self::IsNull {
+                expr: Box::new(f(expr)?),
+                negated: *negated,
+            },
+            Self::Subquery { .. } | Self::Exists { .. } | Self::InSubquery { .. } => return None,
+        })
+    }
+
+    /// Rebuilds the expression with every column index replaced by `f` of it.
+    /// Returns `None` if `f` does for any column, or if the columns are not known (subqueries).
+    pub(crate) fn map_columns<F>(&self, f: &mut F) -> Option<BoundExpression>
+    where
+        F: FnMut(usize) -> Option<usize>,
+    {
+        match self {
+            Self::ColumnBinding(c) => Some(Self::ColumnBinding(Binding {
+                column_idx: f(c.column_idx)?,
+                ..c.clone()
+            })),
+            other => other.map_children(&mut |e: &BoundExpression| e.map_columns_dyn(f)),
+        }
+    }
+
+    fn map_columns_dyn(
+        &self,
+        f: &mut dyn FnMut(usize) -> Option<usize>,
+    ) -> Option<BoundExpression> {
+        self.map_columns(&mut |idx| f(idx))
+    }
+
+    /// Indexes of all the columns the expression uses, or `None` if they are not known.
+    pub(crate) fn used_columns(&self) -> Option<Vec<usize>> {
+        let mut columns = Vec::new();
+        self.map_columns(&mut |idx| {
+            columns.push(idx);
+            Some(idx)
+        })?;
+        Some(columns)
+    }
+}
+
 #[derive(Debug, Clone, PartialEq)]
 pub struct BoundSelectItem {
     pub expr: BoundExpression,
diff --git a/crates/axmos-db/src/sql/planner/logical.rs b/crates/axmos-db/src/sql/planner/logical.rs
index b1c9739..9b7dcfb 100644
--- a/crates/axmos-db/src/sql/planner/logical.rs
+++ b/crates/axmos-db/src/sql/planner/logical.rs
@@ -293,59 +293,51 @@ impl JoinOp {
         Schema::new_table_with_num_keys(cols, 0)
     }
 
-    /// Checks if this is an equi-join.
-    pub fn is_equi_join(&self) -> bool {
-        self.condition
-            .as_ref()
-            .map_or(false, |c| Self::is_equi_condition(c))
-    }
-
-    fn is_equi_condition(expr: &BoundExpression) -> bool {
-        match expr {
-            BoundExpression::BinaryOp {
-                op, left, right, ..
-            } => match op {
-                BinaryOperator::Eq => {
-                    matches!(left.as_ref(), BoundExpression::ColumnBinding(_))
-                        && matches!(right.as_ref(), BoundExpression::ColumnBinding(_))
-                }
-                BinaryOperator::And => {
-                    Self::is_equi_condition(left) && Self::is_equi_condition(right)
-                }
-                _ => false,
-            },
-            _ => false,
-        }
-    }
-
-    /// Extracts equi-join keys as (left_col, right_col) pairs.
-    pub fn extract_equi_keys(&self) -> Vec<(usize, usize)> {
+    /// The (left column, right column) pairs this join equates, if its condition consists of
+    /// nothing else. Positions are relative to the left and to the right schema.
+    pub fn equi_keys(&self) -> Option<Vec<(usize, usize)>> {
         let mut keys = Vec::new();
-        if let Some(cond) = &self.condition {
-            Self::collect_equi_keys(cond, &mut keys);
-        }
-        keys
+        Self::collect_equi_keys(
+            self.condition.as_ref()?,
+            self.left_schema.num_columns(),
+            &mut keys,
+        )?;
+        Some(keys)
     }
 
-    fn collect_equi_keys(expr: &BoundExpression, keys: &mut Vec<(usize, usize)>) {
-        match expr {
-            BoundExpression::BinaryOp {
-                op, left, right, ..
-            } => match op {
-                BinaryOperator::Eq => {
-                    if let (BoundExpression::ColumnBinding(l), BoundExpression::ColumnBinding(r)) =
-                        (left.as_ref(), right.as_ref())
-                    {
-                        keys.push((l.column_idx, r.column_idx));
-                    }
-                }
-                BinaryOperator::And => {
-                    Self::collect_equi_keys(left, keys);
-                    Self::collect_equi_keys(right, keys);
+    fn collect_equi_keys(
+        expr: &BoundExpression,
+        left_cols: usize,
+        keys: &mut Vec<(usize, usize)>,
+    ) -> Option<()> {
+        let BoundExpression::BinaryOp {
+            op, left, right, ..
+        } = expr
+        else {
+            return None;
+        };
+        match (op, left.as_ref(), right.as_ref()) {
+            (BinaryOperator::And, left, right) => {
+                Self::collect_equi_keys(left, left_cols, keys)?;
+                Self::collect_equi_keys(right, left_cols, keys)
+            }
+            (
+                BinaryOperator::Eq,
+                BoundExpression::ColumnBinding(a),
+                BoundExpression::ColumnBinding(b),
+            ) => {
+                let (l, r) = (
+                    a.column_idx.min(b.column_idx),
+                    a.column_idx.max(b.column_idx),
+                );
+                // Both columns on the same side is a filter, not a join key
+                if l >= left_cols || r < left_cols {
+                    return None;
                 }
-                _ => {}
-            },
-            _ => {}
+                keys.push((l, r - left_cols));
+                Some(())
+            }
+            _ => None,
         }
     }
 }
diff --git a/crates/axmos-db/src/sql/planner/memo.rs b/crates/axmos-db/src/sql/planner/memo.rs
index 4617d12..89f3459 100644
--- a/crates/axmos-db/src/sql/planner/memo.rs
+++ b/crates/axmos-db/src/sql/planner/memo.rs
@@ -220,26 +220,30 @@ impl Memo {
                 scan.table_id.hash(hasher);
                 scan.table_name.hash(hasher);
                 scan.columns.hash(hasher);
-                // Note: predicate not hashed (structural comparison would be complex)
+                hash_debug(&scan.predicate, hasher);
             }
             LogicalOperator::IndexScan(scan) => {
                 scan.table_id.hash(hasher);
                 scan.index_id.hash(hasher);
                 scan.index_columns.hash(hasher);
+                hash_debug(
+                    &(&scan.range_start, &scan.range_end, &scan.residual_predicate),
+                    hasher,
+                );
             }
             LogicalOperator::Project(proj) => {
-                proj.expressions.len().hash(hasher);
+                hash_debug(&proj.expressions, hasher);
                 proj.output_schema.num_columns().hash(hasher);
             }
             LogicalOperator::Join(join) => {
                 std::mem::discriminant(&join.join_type).hash(hasher);
+                hash_debug(&join.condition, hasher);
             }
             LogicalOperator::Aggregate(agg) => {
-                agg.group_by.len().hash(hasher);
-                agg.aggregates.len().hash(hasher);
+                hash_debug(&(&agg.group_by, &agg.aggregates), hasher);
             }
             LogicalOperator::Sort(sort) => {
-                sort.order_by.len().hash(hasher);
+                hash_debug(&sort.order_by, hasher);
             }
             LogicalOperator::Limit(limit) => {
                 limit.limit.hash(hasher);
@@ -251,20 +255,19 @@ impl Memo {
             }
             LogicalOperator::Update(upd) => {
                 upd.table_id.hash(hasher);
-                upd.assignments.len().hash(hasher);
+                hash_debug(&upd.assignments, hasher);
             }
             LogicalOperator::Delete(del) => {
                 del.table_id.hash(hasher);
             }
             LogicalOperator::Values(vals) => {
-                vals.rows.len().hash(hasher);
-                if let Some(first) = vals.rows.first() {
-                    first.len().hash(hasher);
-                }
+                hash_debug(&vals.rows, hasher);
+            }
+            LogicalOperator::Filter(filter) => {
+                hash_debug(&filter.predicate, hasher);
             }
             LogicalOperator::Empty(_)
             | LogicalOperator::Distinct(_)
-            | LogicalOperator::Filter(_)
             | LogicalOperator::Materialize(_) => {
                 // These are determined by their children
             }
@@ -272,6 +275,11 @@ impl Memo {
     }
 }
 
+/// Hashes the structure of a value that has no [Hash] implementation.
+fn hash_debug<T: std::fmt::Debug>(value: &T, hasher: &mut DefaultHasher) {
+    format!("{value:?}").hash(hasher);
+}
+
 impl Default for Memo {
     fn default() -> Self {
         Self::new()
diff --git a/crates/axmos-db/src/sql/planner/mod.rs b/crates/axmos-db/src/sql/planner/mod.rs
index 7e3977e..d12a0bc 100644
--- a/crates/axmos-db/src/sql/planner/mod.rs
+++ b/crates/axmos-db/src/sql/planner/mod.rs
@@ -237,6 +237,11 @@ impl<'a> CascadesOptimizer<'a> {
             return Ok(None);
         }
 
+        // Until it has a winner, the group offers no plan to expressions that lead back to it
+        if let Some(group) = memo.get_group_mut(group_id) {
+            group.set_winner(required.clone(), None);
+        }
+
         // Explore logical equivalences
         self.explore_group(memo, group_id)?;
 
diff --git a/crates/axmos-db/src/sql/planner/rules.rs b/crates/axmos-db/src/sql/planner/rules.rs
index 84cddf6..5763019 100644
--- a/crates/axmos-db/src/sql/planner/rules.rs
+++ b/crates/axmos-db/src/sql/planner/rules.rs
@@ -14,7 +14,11 @@ use crate::{
 };
 
 use super::{
-    PlannerError, PlannerResult, logical::*, memo::Memo, physical::*, prop::RequiredProperties,
+    PlannerError, PlannerResult,
+    logical::*,
+    memo::{GroupId, Memo},
+    physical::*,
+    prop::{LogicalProperties, RequiredProperties},
 };
 
 /// Base trait for all rules.
@@ -77,100 +81,24 @@ pub fn implementation_rules() -> Vec<Box<dyn ImplementationRule>> {
 
 // Helper functions
 
-/// Swaps left/right in a join condition.
-fn swap_join_condition(cond: &BoundExpression) -> BoundExpression {
-    match cond {
-        BoundExpression::BinaryOp {
-            left,
-            op,
-            right,
-            result_type,
-        } => {
-            let swapped_op = match op {
-                BinaryOperator::Eq => BinaryOperator::Eq,
-                BinaryOperator::Lt => BinaryOperator::Gt,
-                BinaryOperator::Gt => BinaryOperator::Lt,
-                BinaryOperator::Le => BinaryOperator::Ge,
-                BinaryOperator::Ge => BinaryOperator::Le,
-                BinaryOperator::And => {
-                    return BoundExpression::BinaryOp {
-                        left: Box::new(swap_join_condition(left)),
-                        op: BinaryOperator::And,
-                        right: Box::new(swap_join_condition(right)),
-                        result_type: *result_type,
-                    };
-                }
-                BinaryOperator::Or => {
-                    return BoundExpression::BinaryOp {
-                        left: Box::new(swap_join_condition(left)),
-                        op: BinaryOperator::Or,
-                        right: Box::new(swap_join_condition(right)),
-                        result_type: *result_type,
-                    };
-                }
-                _ => *op,
-            };
-            BoundExpression::BinaryOp {
-                left: right.clone(),
-                op: swapped_op,
-                right: left.clone(),
-                result_type: *result_type,
-            }
-        }
-        _ => cond.clone(),
-    }
-}
-
 /// Shifts column indices by offset.
 fn shift_columns(expr: &BoundExpression, offset: i32) -> Option<BoundExpression> {
+    expr.map_columns(&mut |idx| usize::try_from(idx as i32 + offset).ok())
+}
+
+/// Splits a condition into its AND-ed parts.
+fn split_conjuncts(expr: &BoundExpression, out: &mut Vec<BoundExpression>) {
     match expr {
-        BoundExpression::ColumnBinding(c) => {
-            let new_idx = c.column_idx as i32 + offset;
-            if new_idx < 0 {
-                None
-            } else {
-                Some(BoundExpression::ColumnBinding(Binding {
-                    column_idx: new_idx as usize,
-                    ..*c
-                }))
-            }
-        }
         BoundExpression::BinaryOp {
+            op: BinaryOperator::And,
             left,
-            op,
             right,
-            result_type,
-        } => Some(BoundExpression::BinaryOp {
-            left: Box::new(shift_columns(left, offset)?),
-            op: *op,
-            right: Box::new(shift_columns(right, offset)?),
-            result_type: *result_type,
-        }),
-        BoundExpression::Literal { .. } => Some(expr.clone()),
-        _ => Some(expr.clone()),
-    }
-}
-
-/// Checks if all columns in expr have index >= min.
-fn all_columns_ge(expr: &BoundExpression, min: usize) -> bool {
-    match expr {
-        BoundExpression::ColumnBinding(c) => c.column_idx >= min,
-        BoundExpression::BinaryOp { left, right, .. } => {
-            all_columns_ge(left, min) && all_columns_ge(right, min)
-        }
-        BoundExpression::Literal { .. } => true,
-        _ => true,
-    }
-}
-
-/// Checks if any column in expr is in range [start, end).
-fn any_column_in_range(expr: &BoundExpression, start: usize, end: usize) -> bool {
-    match expr {
-        BoundExpression::ColumnBinding(c) => c.column_idx >= start && c.column_idx < end,
-        BoundExpression::BinaryOp { left, right, .. } => {
-            any_column_in_range(left, start, end) || any_column_in_range(right, start, end)
+            ..
+        } => {
+            split_conjuncts(left, out);
+            split_conjuncts(right, out);
         }
-        _ => false,
+        _ => out.push(expr.clone()),
     }
 }
 
@@ -184,92 +112,6 @@ fn combine_predicates(preds: Vec<BoundExpression>) -> Option<BoundExpression> {
     })
 }
 
-/// Collects predicates for columns >= offset.
-fn collect_predicates_for_range(
-    expr: &BoundExpression,
-    offset: usize,
-    out: &mut Vec<BoundExpression>,
-) {
-    match expr {
-        BoundExpression::BinaryOp {
-            op: BinaryOperator::And,
-            left,
-            right,
-            ..
-        } => {
-            collect_predicates_for_range(left, offset, out);
-            collect_predicates_for_range(right, offset, out);
-        }
-        _ => {
-            if all_columns_ge(expr, offset) {
-                if let Some(s) = shift_columns(expr, -(offset as i32)) {
-                    out.push(s);
-                }
-            }
-        }
-    }
-}
-
-/// Collects predicates involving columns in range [start, end).
-fn collect_predicates_involving_range(
-    expr: &BoundExpression,
-    start: usize,
-    end: usize,
-    out: &mut Vec<BoundExpression>,
-) {
-    match expr {
-        BoundExpression::BinaryOp {
-            op: BinaryOperator::And,
-            left,
-            right,
-            ..
-        } => {
-            collect_predicates_involving_range(left, start, end, out);
-            collect_predicates_involving_range(right, start, end, out);
-        }
-        _ => {
-            if any_column_in_range(expr, start, end) {
-                out.push(expr.clone());
-            }
-        }
-    }
-}
-
-/// Extracts the B⋈C condition for associativity transform.
-fn extract_bc_condition(
-    outer: &Option<BoundExpression>,
-    inner: &Option<BoundExpression>,
-    a_cols: usize,
-    b_cols: usize,
-) -> Option<BoundExpression> {
-    let mut preds = Vec::new();
-    if let Some(c) = outer {
-        collect_predicates_for_range(c, a_cols, &mut preds);
-    }
-    if let Some(c) = inner {
-        if let Some(s) = shift_columns(c, -(a_cols as i32)) {
-            preds.push(s);
-        }
-    }
-    combine_predicates(preds)
-}
-
-/// Extracts the A condition for associativity transform.
-fn extract_a_condition(
-    outer: &Option<BoundExpression>,
-    inner: &Option<BoundExpression>,
-    a_cols: usize,
-) -> Option<BoundExpression> {
-    let mut preds = Vec::new();
-    if let Some(c) = inner {
-        collect_predicates_involving_range(c, 0, a_cols, &mut preds);
-    }
-    if let Some(c) = outer {
-        collect_predicates_involving_range(c, 0, a_cols, &mut preds);
-    }
-    combine_predicates(preds)
-}
-
 /// Classifies a predicate into left-only, right-only, or join predicates.
 fn classify_predicates(
     expr: &BoundExpression,
@@ -302,77 +144,20 @@ fn classify_predicates(
 }
 
 /// Checks if expression uses left/right columns.
+/// Expressions whose columns are not known count as using both.
 fn check_column_usage(expr: &BoundExpression, left_cols: usize) -> (bool, bool) {
-    match expr {
-        BoundExpression::ColumnBinding(c) => {
-            if c.column_idx < left_cols {
-                (true, false)
-            } else {
-                (false, true)
-            }
-        }
-        BoundExpression::BinaryOp { left, right, .. } => {
-            let (l1, r1) = check_column_usage(left, left_cols);
-            let (l2, r2) = check_column_usage(right, left_cols);
-            (l1 || l2, r1 || r2)
-        }
-        BoundExpression::UnaryOp { expr, .. } | BoundExpression::IsNull { expr, .. } => {
-            check_column_usage(expr, left_cols)
-        }
-        BoundExpression::InList { expr, list, .. } => {
-            let (mut l, mut r) = check_column_usage(expr, left_cols);
-            for i in list {
-                let (l2, r2) = check_column_usage(i, left_cols);
-                l = l || l2;
-                r = r || r2;
-            }
-            (l, r)
-        }
-        BoundExpression::Between {
-            expr, low, high, ..
-        } => {
-            let (l1, r1) = check_column_usage(expr, left_cols);
-            let (l2, r2) = check_column_usage(low, left_cols);
-            let (l3, r3) = check_column_usage(high, left_cols);
-            (l1 || l2 || l3, r1 || r2 || r3)
-        }
-        _ => (false, false),
+    match expr.used_columns() {
+        Some(columns) => (
+            columns.iter().any(|&c| c < left_cols),
+            columns.iter().any(|&c| c >= left_cols),
+        ),
+        None => (true, true),
     }
 }
 
 /// Rewrites column references using a mapping.
-fn rewrite_with_mapping(expr: &BoundExpression, mapping: &[usize]) -> BoundExpression {
-    match expr {
-        BoundExpression::ColumnBinding(c) => BoundExpression::ColumnBinding(Binding {
-            column_idx: mapping.get(c.column_idx).copied().unwrap_or(c.column_idx),
-            ..*c
-        }),
-        BoundExpression::BinaryOp {
-            left,
-            op,
-            right,
-            result_type,
-        } => BoundExpression::BinaryOp {
-            left: Box::new(rewrite_with_mapping(left, mapping)),
-            op: *op,
-            right: Box::new(rewrite_with_mapping(right, mapping)),
-            result_type: *result_type,
-        },
-        BoundExpression::UnaryOp {
-            op,
-            expr,
-            result_type,
-        } => BoundExpression::UnaryOp {
-            op: *op,
-            expr: Box::new(rewrite_with_mapping(expr, mapping)),
-            result_type: *result_type,
-        },
-        BoundExpression::IsNull { expr, negated } => BoundExpression::IsNull {
-            expr: Box::new(rewrite_with_mapping(expr, mapping)),
-            negated: *negated,
-        },
-        _ => expr.clone(),
-    }
+fn rewrite_with_mapping(expr: &BoundExpression, mapping: &[usize]) -> Option<BoundExpression> {
+    expr.map_columns(&mut |idx| mapping.get(idx).copied())
 }
 
 /// Creates a column reference expression.
@@ -390,6 +175,13 @@ fn create_column_ref(column_idx: usize, schema: &Schema) -> BoundExpression {
     })
 }
 
+/// Logical properties of a group.
+fn group_properties(memo: &Memo, group_id: GroupId) -> PlannerResult<LogicalProperties> {
+    memo.get_group(group_id)
+        .map(|g| g.logical_props.clone())
+        .ok_or(PlannerError::InvalidState)
+}
+
 // Transformation Rules
 
 /// Swaps join inputs for inner/cross joins.
@@ -413,7 +205,7 @@ impl TransformationRule for JoinCommutativityRule {
         )
     }
 
-    fn apply(&self, expr: &LogicalExpr, _memo: &mut Memo) -> PlannerResult<Vec<LogicalExpr>> {
+    fn apply(&self, expr: &LogicalExpr, memo: &mut Memo) -> PlannerResult<Vec<LogicalExpr>> {
         let LogicalOperator::Join(join) = &expr.op else {
             return Ok(vec![]);
         };
@@ -421,20 +213,63 @@ impl TransformationRule for JoinCommutativityRule {
             return Ok(vec![]);
         }
 
-        let swapped_cond = join.condition.as_ref().map(swap_join_condition);
+        let left_cols = join.left_schema.num_columns();
+        let right_cols = join.right_schema.num_columns();
+
+        // The swapped join sees the columns of the right input first
+        let swapped_cond = match &join.condition {
+            Some(cond) => {
+                let swapped = cond.map_columns(&mut |idx| {
+                    Some(if idx < left_cols {
+                        idx + right_cols
+                    } else {
+                        idx - left_cols
+                    })
+                });
+                match swapped {
+                    Some(swapped) => Some(swapped),
+                    None => return Ok(vec![]),
+                }
+            }
+            None => None,
+        };
         let new_join = JoinOp::new(
             join.join_type,
             swapped_cond,
             join.right_schema.clone(),
             join.left_schema.clone(),
         );
+        let swapped_schema = new_join.output_schema.clone();
 
-        Ok(vec![
+        let mut properties = expr.properties.clone();
+        properties.schema = swapped_schema.clone();
+        let swapped_group = memo.insert_logical_expr(
             LogicalExpr::new(
                 LogicalOperator::Join(new_join),
                 vec![expr.children[1], expr.children[0]],
             )
-            .with_properties(expr.properties.clone()),
+            .with_properties(properties),
+        );
+
+        // The parents expect the columns in the original order
+        let expressions = (0..left_cols + right_cols)
+            .map(|idx| ProjectExpr {
+                expr: create_column_ref(
+                    if idx < left_cols {
+                        idx + right_cols
+                    } else {
+                        idx - left_cols
+                    },
+                    &swapped_schema,
+                ),
+                alias: None,
+            })
+            .collect();
+        let project = ProjectOp::new(expressions, swapped_schema, join.output_schema.clone());
+
+        Ok(vec![
+            LogicalExpr::new(LogicalOperator::Project(project), vec![swapped_group])
+                .with_properties(expr.properties.clone()),
         ])
     }
 }
@@ -510,30 +345,42 @@ impl TransformationRule for JoinAssociativityRule {
             .unwrap_or_default();
 
         let a_cols = a_props.schema.num_columns();
-        let b_cols = b_props.schema.num_columns();
+
+        // Parts of both conditions that only use B and C move to the new join of those two, all
+        // the others stay at the top, where every column keeps its position.
+        let mut conjuncts = Vec::new();
+        for condition in [&inner.condition, &outer.condition].into_iter().flatten() {
+            split_conjuncts(condition, &mut conjuncts);
+        }
+        let (mut bc_preds, mut a_preds) = (Vec::new(), Vec::new());
+        for pred in conjuncts {
+            match check_column_usage(&pred, a_cols) {
+                (false, true) => match shift_columns(&pred, -(a_cols as i32)) {
+                    Some(shifted) => bc_preds.push(shifted),
+                    None => a_preds.push(pred),
+                },
+                _ => a_preds.push(pred),
+            }
+        }
+        let a_cond = combine_predicates(a_preds);
 
         // Build B⋈C
-        let bc_expr = {
-            let bc_cond = extract_bc_condition(&outer.condition, &inner.condition, a_cols, b_cols);
-            let bc_join = JoinOp::new(
-                JoinType::Inner,
-                bc_cond,
-                b_props.schema.clone(),
-                c_props.schema.clone(),
-            );
+        let bc_join = JoinOp::new(
+            JoinType::Inner,
+            combine_predicates(bc_preds),
+            b_props.schema.clone(),
+            c_props.schema.clone(),
+        );
+        let bc_schema = bc_join.output_schema.clone();
+        let bc_props = LogicalProperties::new(bc_schema.clone())
+            .with_cardinality(b_props.cardinality * c_props.cardinality)
+            .with_avg_row_size(b_props.avg_row_size + c_props.avg_row_size);
+        let bc_group = memo.insert_logical_expr(
             LogicalExpr::new(LogicalOperator::Join(bc_join), vec![b_group, c_group])
-        };
-
-        let a_cond = extract_a_condition(&outer.condition, &inner.condition, a_cols);
-
-        let bc_group = memo.insert_logical_expr(bc_expr);
+                .with_properties(bc_props),
+        );
 
         // Build A⋈(B⋈C)
-        let bc_schema = memo
-            .get_group(bc_group)
-            .map(|g| g.logical_props.schema.clone())
-            .ok_or(PlannerError::InvalidState)?;
-
         let a_bc_join = JoinOp::new(JoinType::Inner, a_cond, a_props.schema.clone(), bc_schema);
 
         Ok(vec![
@@ -587,9 +434,9 @@ impl TransformationRule for FilterMergeRule {
         };
 
         let merged = BoundExpression::BinaryOp {
-            left: Box::new(outer.predicate.clone()),
+            left: Box::new(inner.predicate.clone()),
             op: BinaryOperator::And,
-            right: Box::new(inner.predicate.clone()),
+            right: Box::new(outer.predicate.clone()),
             result_type: DataTypeKind::Bool,
         };
 
@@ -684,26 +531,31 @@ impl TransformationRule for FilterPushdownJoinRule {
         let new_left = if !left_preds.is_empty() {
             let pred = combine_predicates(left_preds).unwrap();
             let f = FilterOp::new(pred, left_schema.clone());
-            memo.insert_logical_expr(LogicalExpr::new(
-                LogicalOperator::Filter(f),
-                vec![left_group],
-            ))
+            let props = group_properties(memo, left_group)?;
+            memo.insert_logical_expr(
+                LogicalExpr::new(LogicalOperator::Filter(f), vec![left_group])
+                    .with_properties(props),
+            )
         } else {
             left_group
         };
 
         // Push right predicates (shift indices)
         let new_right = if !right_preds.is_empty() {
-            let shifted: Vec<_> = right_preds
+            let shifted: Option<Vec<_>> = right_preds
                 .into_iter()
-                .filter_map(|p| shift_columns(&p, -(left_cols as i32)))
+                .map(|p| shift_columns(&p, -(left_cols as i32)))
                 .collect();
+            let Some(shifted) = shifted else {
+                return Ok(vec![]);
+            };
             if let Some(pred) = combine_predicates(shifted) {
                 let f = FilterOp::new(pred, right_schema.clone());
-                memo.insert_logical_expr(LogicalExpr::new(
-                    LogicalOperator::Filter(f),
-                    vec![right_group],
-                ))
+                let props = group_properties(memo, right_group)?;
+                memo.insert_logical_expr(
+                    LogicalExpr::new(LogicalOperator::Filter(f), vec![right_group])
+                        .with_properties(props),
+                )
             } else {
                 right_group
             }
@@ -711,6 +563,12 @@ impl TransformationRule for FilterPushdownJoinRule {
             right_group
         };
 
+        // A cross join with a condition is an inner join
+        let join_type = if new_cond.is_some() {
+            JoinType::Inner
+        } else {
+            join_type
+        };
         let new_join = JoinOp::new(join_type, new_cond, left_schema, right_schema);
 
         Ok(vec![
@@ -785,13 +643,17 @@ impl TransformationRule for FilterPushdownProjectRule {
             }
         }
 
-        let new_pred = rewrite_with_mapping(&filter.predicate, &mapping);
+        let Some(new_pred) = rewrite_with_mapping(&filter.predicate, &mapping) else {
+            return Ok(vec![]);
+        };
         let new_filter = FilterOp::new(new_pred, project_input_schema.clone());
 
-        let filter_group = memo.insert_logical_expr(LogicalExpr::new(
-            LogicalOperator::Filter(new_filter),
-            child_expr.children.clone(),
-        ));
+        let children = child_expr.children.clone();
+        let input_group = *children.first().ok_or(PlannerError::InvalidState)?;
+        let props = group_properties(memo, input_group)?;
+        let filter_group = memo.insert_logical_expr(
+            LogicalExpr::new(LogicalOperator::Filter(new_filter), children).with_properties(props),
+        );
 
         // Build the new project operator with the pushed down filter
         let new_project =
@@ -968,23 +830,15 @@ impl ImplementationRule for JoinRule {
         ));
 
         // Hash join and Merge join are available for equi-joins
-        if join.is_equi_join() {
-            let keys = join.extract_equi_keys();
+        if let Some(keys) = join.equi_keys() {
             if !keys.is_empty() {
-                let left_cols = join.left_schema.num_columns();
-
-                // Create key expressions for left and right sides
-                // Note: extract_equi_keys returns indices in the combined output schema
-                // Left keys are already correct (0..left_cols)
-                // Right keys need to be adjusted by subtracting left_cols
+                // Left keys are positions in the left schema, right keys in the right schema
                 let (left_keys, right_keys): (Vec<_>, Vec<_>) = keys
                     .iter()
                     .map(|(l, r)| {
-                        // r is the index in the combined schema, convert to right-side index
-                        let right_idx = r.saturating_sub(left_cols);
                         (
                             create_column_ref(*l, &join.left_schema),
-                            create_column_ref(right_idx, &join.right_schema),
+                            create_column_ref(*r, &join.right_schema),
                         )
                     })
                     .unzip();
@@ -1001,19 +855,19 @@ impl ImplementationRule for JoinRule {
                     expr.children.clone(),
                 ));
 
+                // A merge join drops the right rows it advances past, so it cannot produce the
+                // unmatched right rows of RIGHT and FULL joins.
+                if matches!(join.join_type, JoinType::Right | JoinType::Full) {
+                    return Ok(impls);
+                }
+
                 // Merge join
                 // left_ordering uses indices relative to left schema (child 0)
                 // right_ordering uses indices relative to right schema (child 1)
                 let left_ordering: Vec<_> =
                     keys.iter().map(|(l, _)| OrderingSpec::asc(*l)).collect();
-                let right_ordering: Vec<_> = keys
-                    .iter()
-                    .map(|(_, r)| {
-                        // r is in combined schema, convert to right-side index
-                        let right_idx = r.saturating_sub(left_cols);
-                        OrderingSpec::asc(right_idx)
-                    })
-                    .collect();
+                let right_ordering: Vec<_> =
+                    keys.iter().map(|(_, r)| OrderingSpec::asc(*r)).collect();
                 let output_ordering: Vec<_> = left_keys.iter().map(|e| (e.clone(), true)).collect();
 
                 let mut merge_expr = PhysicalExpr::new(
-- 
2.43.0


From b4800f63f18070cd8dd31a8182d7c55fb611ba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:09 +0000
Subject: [PATCH 23/51] fix: aggregation output is projected to the select
 list, SELECT * keeps all subquery columns, SELECT works without FROM

---
 crates/axmos-db/src/sql/binder/binder.rs |   4 +-
 crates/axmos-db/src/sql/planner/plan.rs  | 217 ++++++++++++++---------
 2 files changed, 132 insertions(+), 89 deletions(-)

diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 96b1105..b3ca392 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -297,8 +297,8 @@ impl<'a> Binder<'a> {
                             let offset = self.calculate_column_offset(entry.scope_index);
 
                             for (col_idx, col) in entry.schema.iter_columns().enumerate() {
-                                // Skip internal row_id column (always column 0)
-                                if col_idx == 0 {
+                                // Skip internal row_id column (always column 0 of a table)
+                                if col_idx == 0 && entry.table_id.is_some() {
                                     continue;
                                 }
 
diff --git a/crates/axmos-db/src/sql/planner/plan.rs b/crates/axmos-db/src/sql/planner/plan.rs
index d91c573..84976ba 100644
--- a/crates/axmos-db/src/sql/planner/plan.rs
+++ b/crates/axmos-db/src/sql/planner/plan.rs
@@ -4,7 +4,7 @@
 //! logical operators that can be optimized by the Cascades optimizer.
 
 use crate::{
-    schema::{Schema, catalog::StatisticsProvider},
+    schema::{Column, Schema, catalog::StatisticsProvider},
     sql::{
         binder::bounds::*,
         parser::ast::JoinType,
@@ -51,10 +51,10 @@ impl<'a> Planner<'a> {
     }
 
     fn build_select(&mut self, select: &BoundSelect) -> PlannerResult<GroupId> {
-        // FROM clause
+        // FROM clause. Without one, the select list is evaluated once.
         let from_group = match &select.from {
             Some(table_ref) => self.build_table_ref(table_ref)?,
-            None => self.build_empty(&select.schema)?,
+            None => self.build_values(&[vec![]], &Schema::new_table_with_num_keys(vec![], 0))?,
         };
 
         // WHERE clause
@@ -63,33 +63,56 @@ impl<'a> Planner<'a> {
             None => from_group,
         };
 
-        // GROUP BY / aggregates
-        let aggregated = if !select.group_by.is_empty() || self.has_aggregates(&select.columns) {
-            self.build_aggregate(filtered, &select.group_by, &select.columns, &select.schema)?
+        // GROUP BY / aggregates. What comes after refers to the output of the aggregation.
+        let mut having = select.having.clone();
+        let mut order_by = select.order_by.clone();
+        let mut columns = select.columns.clone();
+
+        let is_aggregate = !select.group_by.is_empty()
+            || having.is_some()
+            || self.has_aggregates(&columns)
+            || order_by.iter().any(|o| self.contains_aggregate(&o.expr));
+
+        let aggregated = if is_aggregate {
+            let mut aggregates = Vec::new();
+            for item in &columns {
+                self.collect_aggregates(&item.expr, &mut aggregates);
+            }
+            for expr in having.iter().chain(order_by.iter().map(|o| &o.expr)) {
+                self.collect_aggregates(expr, &mut aggregates);
+            }
+
+            for item in columns.iter_mut() {
+                item.expr = after_aggregation(&item.expr, &select.group_by, &aggregates)?;
+            }
+            for expr in having
+                .iter_mut()
+                .chain(order_by.iter_mut().map(|o| &mut o.expr))
+            {
+                *expr = after_aggregation(expr, &select.group_by, &aggregates)?;
+            }
+
+            self.build_aggregate(filtered, &select.group_by, &aggregates)?
         } else {
             filtered
         };
 
         // HAVING clause
-        let having_applied = match &select.having {
-            Some(pred) => self.build_filter(aggregated, pred.clone())?,
+        let having_applied = match having {
+            Some(pred) => self.build_filter(aggregated, pred)?,
             None => aggregated,
         };
 
         // ORDER BY (must go before the projection since it needs the full input schema)
-        let sorted = if !select.order_by.is_empty() {
+        let sorted = if !order_by.is_empty() {
             let input_props = self.get_group_properties(having_applied)?;
-            self.build_sort(having_applied, &select.order_by, &input_props.schema)?
+            self.build_sort(having_applied, &order_by, &input_props.schema)?
         } else {
             having_applied
         };
 
         // SELECT projection (after sort)
-        let projected = if !self.has_aggregates(&select.columns) {
-            self.build_project(sorted, &select.columns, &select.schema)?
-        } else {
-            sorted
-        };
+        let projected = self.build_project(sorted, &columns, &select.schema)?;
 
         // DISTINCT
         let distinct_applied = if select.distinct {
@@ -204,21 +227,54 @@ impl<'a> Planner<'a> {
         &mut self,
         input: GroupId,
         group_by: &[BoundExpression],
-        columns: &[BoundSelectItem],
-        output_schema: &Schema,
+        aggregates: &[BoundExpression],
     ) -> PlannerResult<GroupId> {
         let input_props = self.get_group_properties(input)?;
 
-        let mut aggregates = Vec::new();
-        for (idx, item) in columns.iter().enumerate() {
-            self.collect_aggregates(&item.expr, idx, &mut aggregates);
-        }
+        // The output has the group keys first, then the aggregates
+        let columns: Vec<Column> = group_by
+            .iter()
+            .chain(aggregates)
+            .enumerate()
+            .map(|(idx, expr)| {
+                let name = match expr {
+                    BoundExpression::ColumnBinding(c) => input_props
+                        .schema
+                        .column(c.column_idx)
+                        .map(|col| col.name().to_string()),
+                    BoundExpression::Aggregate { func, .. } => Some(func.name().to_lowercase()),
+                    _ => None,
+                };
+                let name = name.unwrap_or_else(|| format!("?column{idx}?"));
+                Column::new_with_defaults(expr.data_type(), &name)
+            })
+            .collect();
+        let output_schema = Schema::new_table_with_num_keys(columns, 0);
+
+        let aggregates = aggregates
+            .iter()
+            .enumerate()
+            .filter_map(|(idx, expr)| match expr {
+                BoundExpression::Aggregate {
+                    func,
+                    arg,
+                    distinct,
+                    ..
+                } => Some(AggregateExpr {
+                    func: *func,
+                    arg: arg.as_ref().map(|a| *a.clone()),
+                    distinct: *distinct,
+                    output_idx: group_by.len() + idx,
+                }),
+                _ => None,
+            })
+            .collect();
 
         let op = LogicalOperator::Aggregate(AggregateOp::new(
             group_by.to_vec(),
             aggregates,
             input_props.schema.clone(),
-            output_schema.clone(),
+            output_schema,
         ));
         self.insert_with_properties(op, vec![input])
     }
@@ -444,73 +500,18 @@ impl<'a> Planner<'a> {
         }
     }
 
-    fn collect_aggregates(
-        &self,
-        expr: &BoundExpression,
-        output_idx: usize,
-        aggregates: &mut Vec<AggregateExpr>,
-    ) {
-        match expr {
-            BoundExpression::Aggregate {
-                func,
-                arg,
-                distinct,
-                ..
-            } => {
-                aggregates.push(AggregateExpr {
-                    func: *func,
-                    arg: arg.as_ref().map(|a| *a.clone()),
-                    distinct: *distinct,
-                    output_idx,
-                });
-            }
-            BoundExpression::BinaryOp { left, right, .. } => {
-                self.collect_aggregates(left, output_idx, aggregates);
-                self.collect_aggregates(right, output_idx, aggregates);
-            }
-            BoundExpression::UnaryOp { expr, .. } => {
-                self.collect_aggregates(expr, output_idx, aggregates);
-            }
-            BoundExpression::Case {
-                operand,
-                when_then,
-                else_expr,
-                ..
-            } => {
-                if let Some(op) = operand {
-                    self.collect_aggregates(op, output_idx, aggregates);
-                }
-                for (cond, result) in when_then {
-                    self.collect_aggregates(cond, output_idx, aggregates);
-                    self.collect_aggregates(result, output_idx, aggregates);
-                }
-                if let Some(e) = else_expr {
-                    self.collect_aggregates(e, output_idx, aggregates);
-                }
-            }
-            BoundExpression::Function { args, .. } => {
-                for arg in args {
-                    self.collect_aggregates(arg, output_idx, aggregates);
-                }
-            }
-            BoundExpression::InList { expr, list, .. } => {
-                self.collect_aggregates(expr, output_idx, aggregates);
-                for item in list {
-                    self.collect_aggregates(item, output_idx, aggregates);
-                }
+    /// Collects the distinct aggregates an expression computes.
+    fn collect_aggregates(&self, expr: &BoundExpression, aggregates: &mut Vec<BoundExpression>) {
+        if matches!(expr, BoundExpression::Aggregate { .. }) {
+            if !aggregates.contains(expr) {
+                aggregates.push(expr.clone());
             }
-            BoundExpression::Between {
-                expr, low, high, ..
-            } => {
-                self.collect_aggregates(expr, output_idx, aggregates);
-                self.collect_aggregates(low, output_idx, aggregates);
-                self.collect_aggregates(high, output_idx, aggregates);
-            }
-            BoundExpression::IsNull { expr, .. } => {
-                self.collect_aggregates(expr, output_idx, aggregates);
-            }
-            _ => {}
+            return;
         }
+        let _ = expr.map_children(&mut |child| {
+            self.collect_aggregates(child, aggregates);
+            Some(child.clone())
+        });
     }
 
     /// Converts a memo group to a LogicalPlan tree (for debugging/explain).
@@ -554,3 +555,45 @@ impl<'a> Planner<'a> {
         })
     }
 }
+
+/// Rewrites an expression over the input of an aggregation into one over its output, which has
+/// the group keys first, then the aggregates.
+fn after_aggregation(
+    expr: &BoundExpression,
+    group_by: &[BoundExpression],
+    aggregates: &[BoundExpression],
+) -> PlannerResult<BoundExpression> {
+    let position = group_by
+        .iter()
+        .chain(aggregates)
+        .position(|output| output == expr);
+    if let Some(column_idx) = position {
+        return Ok(BoundExpression::ColumnBinding(Binding {
+            table_id: None,
+            scope_index: 0,
+            column_idx,
+            data_type: expr.data_type(),
+        }));
+    }
+    if matches!(expr, BoundExpression::ColumnBinding(_)) {
+        return Err(PlannerError::Other(
+            "column must appear in GROUP BY or inside an aggregate".to_string(),
+        ));
+    }
+
+    let mut error = None;
+    let rewritten = expr.map_children(&mut |child| {
+        match after_aggregation(child, group_by, aggregates) {
+            Ok(child) => Some(child),
+            Err(e) => {
+                error = Some(e);
+                None
+            }
+        }
+    });
+    match (rewritten, error) {
+        (Some(expr), _) => Ok(expr),
+        (None, Some(e)) => Err(e),
+        (None, None) => Ok(expr.clone()),
+    }
+}
-- 
2.43.0


From 4c2ae2b156fcfed1d047b92ef6910ad0b366d895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:09 +0000
Subject: [PATCH 24/51] fix: an integer literal of 2^63 no longer silently
 becomes 2^63-1

---
 crates/axmos-db/src/sql/binder/binder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index b3ca392..5be76eb 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -1015,7 +1015,8 @@ impl<'a> Binder<'a> {
 
         let value = if is_int && n >= i32::MIN as f64 && n <= i32::MAX as f64 {
             DataType::Int((n as i32).into())
-        } else if is_int && n >= i64::MIN as f64 && n <= i64::MAX as f64 {
+        } else if is_int && n >= i64::MIN as f64 && n < i64::MAX as f64 {
+            // `i64::MAX as f64` is 2^63, which is itself out of range
             DataType::BigInt((n as i64).into())
         } else {
             DataType::Double(n.into())
-- 
2.43.0


From 2757563f1f5189ecd7ad287f793cae1944ed8b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:25 +0000
Subject: [PATCH 25/51] fix: names inside an ORDER BY expression refer to the
 columns of the FROM clause

---
 crates/axmos-db/src/sql/binder/binder.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 5be76eb..360f506 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -152,16 +152,10 @@ impl<'a> Binder<'a> {
             .transpose()?;
 
         // Bind SELECT columns and collect output info
-        let (columns, output_names) = self.bind_select_items(&stmt.columns)?;
+        let (columns, _) = self.bind_select_items(&stmt.columns)?;
 
-        // Register output aliases for ORDER BY resolution
-        for (i, item) in columns.iter().enumerate() {
-            if let Some(scope) = self.scopes.current_mut() {
-                scope.add_output_alias(output_names[i].clone(), item.expr.data_type());
-            }
-        }
-
-        // Bind ORDER BY (can reference output aliases)
+        // Bind ORDER BY. An output alias can be referenced on its own; inside of an expression
+        // names are columns of the FROM clause.
         let order_by: Vec<BoundOrderBy> = stmt
             .order_by
             .iter()
-- 
2.43.0


From 3d56333c5cc0ae6e0230ebac67515ffb222e16f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:49 +0000
Subject: [PATCH 26/51] hook: let a checker enumerate the plans the optimizer
 could choose (cfg axmos_verif)

---
 crates/axmos-db/src/sql/planner/mod.rs | 75 ++++++++++++++++++++++++++
 1 file changed, 75 insertions(+)

diff --git a/crates/axmos-db/src/sql/planner/mod.rs b/crates/axmos-db/src/sql/planner/mod.rs
index d12a0bc..8d8a18d 100644
--- a/crates/axmos-db/src/sql/planner/mod.rs
+++ b/crates/axmos-db/src/sql/planner/mod.rs
@@ -245,6 +245,11 @@ impl<'a> CascadesOptimizer<'a> {
         // Explore logical equivalences
         self.explore_group(memo, group_id)?;
 
+        #[cfg(axmos_verif)]
+        if plan_choice::active() {
+            return self.implement_group_chosen(memo, group_id, required);
+        }
+
         // Implement physical operators
         self.implement_group(memo, group_id, required, upper_bound)
     }
@@ -367,6 +372,51 @@ impl<'a> CascadesOptimizer<'a> {
         Ok(best_cost)
     }
 
+    /// Every alternative that could win under some cost model is offered to the plan chooser.
+    #[cfg(axmos_verif)]
+    fn implement_group_chosen(
+        &self,
+        memo: &mut Memo,
+        group_id: GroupId,
+        required: &RequiredProperties,
+    ) -> PlannerResult<Option<f64>> {
+        let exprs = memo
+            .get_group(group_id)
+            .map(|g| g.logical_exprs.clone())
+            .unwrap_or_default();
+
+        let mut candidates = Vec::new();
+        for logical_expr in exprs {
+            for rule in self.implementation_rules.iter() {
+                for phys_expr in rule.implement(&logical_expr, required, &memo)? {
+                    if let Some(cost) =
+                        self.compute_expr_cost(memo, group_id, &phys_expr, required, f64::MAX)?
+                    {
+                        candidates.push((cost, phys_expr));
+                    }
+                }
+            }
+        }
+
+        let winner = if candidates.is_empty() {
+            None
+        } else {
+            let cheapest = (0..candidates.len())
+                .min_by(|a, b| candidates[*a].0.total_cmp(&candidates[*b].0))
+                .unwrap();
+            let i = plan_choice::choose(candidates.len(), cheapest);
+            let (cost, phys_expr) = candidates.swap_remove(i);
+            let expr_id = memo.add_physical_expr_to_group(group_id, phys_expr);
+            Some(memo::Winner { expr_id, cost })
+        };
+        let cost = winner.as_ref().map(|w| w.cost);
+
+        if let Some(group) = memo.get_group_mut(group_id) {
+            group.set_winner(required.clone(), winner);
+        }
+        Ok(cost)
+    }
+
     /// Computes the cost of a physical expression.
     fn compute_expr_cost(
         &self,
@@ -519,3 +569,28 @@ impl<'a> CascadesOptimizer<'a> {
         }
     }
 }
+
+/// Lets a checker enumerate the plans the optimizer could choose.
+#[cfg(axmos_verif)]
+pub mod plan_choice {
+    use std::sync::Mutex;
+
+    /// Receives the number of alternatives and the cheapest one, returns the one to take.
+    pub type Chooser = Box<dyn FnMut(usize, usize) -> usize + Send>;
+    static CHOOSER: Mutex<Option<Chooser>> = Mutex::new(None);
+
+    pub fn set(chooser: Option<Chooser>) {
+        *CHOOSER.lock().unwrap_or_else(|e| e.into_inner()) = chooser;
+    }
+
+    pub(crate) fn active() -> bool {
+        CHOOSER.lock().unwrap_or_else(|e| e.into_inner()).is_some()
+    }
+
+    pub(crate) fn choose(alternatives: usize, cheapest: usize) -> usize {
+        match CHOOSER.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
+            Some(f) => f(alternatives, cheapest).min(alternatives - 1),
+            None => cheapest,
+        }
+    }
+}
-- 
2.43.0


From da87cb868c65dfceccfa0f1cf6e66708bdd13c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:17 +0000
Subject: [PATCH 27/51] fix: transactions begin and commit atomically, and the
 second writer of a row fails

---
 .../src/multithreading/coordinator.rs         | 168 +++++++++++++-----
 crates/axmos-db/src/runtime/context.rs        |  63 ++++++-
 crates/axmos-db/src/tcp/session.rs            |   9 +
 3 files changed, 186 insertions(+), 54 deletions(-)

diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index 05c666a..00de483 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -290,6 +290,7 @@ impl Clone for TransactionCoordinator {
             pager: self.pager.clone(),
             commit_counter: Arc::clone(&self.commit_counter),
             tuple_commits: Arc::clone(&self.tuple_commits),
+            tuple_writers: Arc::clone(&self.tuple_writers),
         }
     }
 }
@@ -307,6 +308,8 @@ pub struct TransactionCoordinator {
     commit_counter: Arc<AtomicU64>,
     /// Last commit timestamp per tuple - tracks when each tuple was last modified
     tuple_commits: TupleCommitLog,
+    /// Last transaction that wrote each tuple (first writer wins)
+    tuple_writers: Arc<RwLock<HashMap<LogicalId, TransactionId>>>,
 }
 
 enum ValidationResult {
@@ -321,6 +324,7 @@ impl TransactionCoordinator {
             pager,
             commit_counter: Arc::new(AtomicU64::new(1)),
             tuple_commits: Arc::new(RwLock::new(HashMap::new())),
+            tuple_writers: Arc::new(RwLock::new(HashMap::new())),
         };
 
         // Load aborted transactions from PageZero into memory
@@ -366,11 +370,25 @@ impl TransactionCoordinator {
 
     /// Create a snapshot of the database state for a given transaction id.
     pub fn snapshot(&self, txid: TransactionId) -> TransactionResult<Snapshot> {
-        // Collect active transaction ids
-        let active: HashSet<TransactionId> = self.transaction_set(TransactionState::Active);
+        Ok(self.snapshot_with(&self.transactions.read(), txid))
+    }
 
-        // Collect tracked aborted transaction ids
-        let aborted: HashSet<TransactionId> = self.transaction_set(TransactionState::Aborted);
+    /// Creates a snapshot from the given state of the transaction table.
+    fn snapshot_with(
+        &self,
+        txs: &HashMap<TransactionId, TransactionMetadata>,
+        txid: TransactionId,
+    ) -> Snapshot {
+        // Transactions that are still committing can fail to, so they count as active.
+        let mut active: HashSet<TransactionId> = HashSet::new();
+        let mut aborted: HashSet<TransactionId> = HashSet::new();
+        for (id, entry) in txs.iter() {
+            match entry.state() {
+                TransactionState::Active | TransactionState::Committing => active.insert(*id),
+                TransactionState::Aborted => aborted.insert(*id),
+                TransactionState::Committed => false,
+            };
+        }
 
         // xmin is the smallest active transaction ID (or our ID if none active)
         let xmin = active.iter().min().copied().unwrap_or(txid);
@@ -379,13 +397,17 @@ impl TransactionCoordinator {
         // bound like any other: whatever is above it had not been committed at this point.
         let xmax = Some(self.get_last_committed());
 
-        Ok(Snapshot::new(txid, xmin, xmax, active, aborted))
+        Snapshot::new(txid, xmin, xmax, active, aborted)
     }
 
     /// Begin a new transaction.
     /// Returns a [TransactionHandle] to the thread that requested the begin operation.
     pub fn begin(&self) -> TransactionResult<TransactionHandle> {
-        // Atomically get and increment the transaction ID in PageZero
+        // The id, the snapshot and the registration must be one step: a transaction that has an id
+        // but is not registered yet would look committed to the snapshots taken in between.
+        let mut txs = self.transactions.write();
+
+        // Get and increment the transaction ID in PageZero
         let txid = {
             let mut pager = self.pager.write();
             let current = pager.get_last_created_transaction();
@@ -394,16 +416,14 @@ impl TransactionCoordinator {
         };
 
         // Create snapshot
-        let snapshot = self.snapshot(txid)?;
+        let snapshot = self.snapshot_with(&txs, txid);
 
         let start_ts = self.commit_counter.load(Ordering::SeqCst);
 
         // Insert new transaction entry
-        {
-            let mut txs = self.transactions.write();
-            let entry = TransactionMetadata::new(txid, snapshot.clone(), start_ts);
-            txs.insert(txid, entry);
-        }
+        let entry = TransactionMetadata::new(txid, snapshot.clone(), start_ts);
+        txs.insert(txid, entry);
+        drop(txs);
 
         Ok(TransactionHandle {
             id: txid,
@@ -418,25 +438,37 @@ impl TransactionCoordinator {
     /// Checks that no tuple in write set was modified by another committed transaction
     /// If validation passes, marks the transaction as committed
     pub fn commit(&self, txid: TransactionId) -> TransactionResult<()> {
+        // One step: no transaction may begin between the validation and the moment the commit is
+        // visible to it.
+        let mut txs = self.transactions.write();
+        let entry = txs.get_mut(&txid).ok_or(TransactionError::NotFound(txid))?;
+        if !entry.is_active() {
+            return Err(TransactionError::Other(format!(
+                "Invalid state transition for {}: {:?} → {:?}",
+                txid,
+                entry.state(),
+                TransactionState::Committed
+            )));
+        }
+
         // Perform validation
-        match self.validate_write_set(txid)? {
+        match self.validate_write_set(entry) {
             ValidationResult::Allowed => {
-                self.set_transaction_state(txid, TransactionState::Committed)?;
+                entry.state = TransactionState::Committed;
 
                 // Update last_committed in PageZero if this is the highest committed txid
-                {
-                    let mut pager = self.pager.write();
-                    let current_last = pager.get_last_committed_transaction();
-                    if txid > current_last {
-                        pager.set_last_committed_transaction(txid);
-                    }
+                let mut pager = self.pager.write();
+                let current_last = pager.get_last_committed_transaction();
+                if txid > current_last {
+                    pager.set_last_committed_transaction(txid);
                 }
 
                 Ok(())
             }
 
             ValidationResult::Conflict(id) => {
-                self.set_transaction_state(txid, TransactionState::Aborted)?;
+                entry.state = TransactionState::Aborted;
+                self.pager.write().mark_transaction_aborted(txid);
                 Err(TransactionError::WriteWriteConflict(txid, id))
             }
         }
@@ -496,40 +528,61 @@ impl TransactionCoordinator {
         Ok(())
     }
 
-    fn set_transaction_state(
-        &self,
-        txid: TransactionId,
-        state: TransactionState,
-    ) -> TransactionResult<()> {
+    /// Claims a tuple for writing. The first writer wins: it is an error to write a tuple that a
+    /// concurrent transaction has written, whether that one is still running or has committed.
+    pub fn claim_write(&self, txid: TransactionId, logical_id: LogicalId) -> TransactionResult<()> {
         let mut txs = self.transactions.write();
-        let entry = txs.get_mut(&txid).ok_or(TransactionError::NotFound(txid))?;
+        let mut writers = self.tuple_writers.write();
 
-        let valid_transition = matches!(
-            (entry.state, state),
-            (TransactionState::Active, _)
-                | (TransactionState::Committing, TransactionState::Committed)
-                | (TransactionState::Committing, TransactionState::Aborted)
-        );
+        let start_ts = match txs.get(&txid) {
+            Some(entry) if entry.is_active() => entry.start_ts(),
+            Some(entry) => return Err(TransactionError::InvalidTransactionState(entry.state())),
+            None => return Err(TransactionError::NotFound(txid)),
+        };
 
-        if !valid_transition {
-            return Err(TransactionError::Other(format!(
-                "Invalid state transition for {}: {:?} → {:?}",
-                txid, entry.state, state
-            )));
+        if let Some(writer) = writers.get(&logical_id)
+            && *writer != txid
+            && let Some(entry) = txs.get(writer)
+            && matches!(
+                entry.state(),
+                TransactionState::Active | TransactionState::Committing
+            )
+        {
+            return Err(TransactionError::WriteWriteConflict(txid, logical_id));
+        }
+
+        if let Some(commit_ts) = self.tuple_commits.read().get(&logical_id)
+            && *commit_ts >= start_ts
+        {
+            return Err(TransactionError::WriteWriteConflict(txid, logical_id));
         }
 
-        entry.state = state;
+        writers.insert(logical_id, txid);
+        if let Some(entry) = txs.get_mut(&txid) {
+            entry.add_to_write_set(logical_id, 0);
+        }
         Ok(())
     }
 
-    /// Validate write set for conflicts
-    /// Returns [CommitResult::Allowed] if no conflicts detected
-    fn validate_write_set(&self, txid: TransactionId) -> TransactionResult<ValidationResult> {
-        self.set_transaction_state(txid, TransactionState::Committing)?;
+    /// Whether the transaction can still execute statements and be committed.
+    pub fn is_active(&self, txid: TransactionId) -> bool {
+        self.transactions
+            .read()
+            .get(&txid)
+            .is_some_and(|entry| entry.is_active())
+    }
 
-        let txs = self.transactions.read();
-        let entry = txs.get(&txid).ok_or(TransactionError::NotFound(txid))?;
+    /// Whether the transaction is known to have been rolled back by now.
+    pub fn is_aborted(&self, txid: TransactionId) -> bool {
+        self.transactions
+            .read()
+            .get(&txid)
+            .is_some_and(|entry| entry.state() == TransactionState::Aborted)
+    }
 
+    /// Validate write set for conflicts
+    /// Returns [CommitResult::Allowed] if no conflicts detected
+    fn validate_write_set(&self, entry: &TransactionMetadata) -> ValidationResult {
         let start_ts = entry.start_ts();
         let write_set: Vec<LogicalId> = entry.write_set().keys().copied().collect();
 
@@ -540,7 +593,7 @@ impl TransactionCoordinator {
                 if let Some(&last_commit_ts) = tuple_commits.get(logical_id)
                     && last_commit_ts >= start_ts
                 {
-                    return Ok(ValidationResult::Conflict(*logical_id));
+                    return ValidationResult::Conflict(*logical_id);
                 }
             }
         }
@@ -555,13 +608,24 @@ impl TransactionCoordinator {
             }
         }
 
-        Ok(ValidationResult::Allowed)
+        ValidationResult::Allowed
     }
 
     /// Cleanup old entries from tuple_commits (call periodically)
     pub fn cleanup_tuple_commits(&self, min_active_start_ts: u64) {
         let mut tuple_commits = self.tuple_commits.write();
         tuple_commits.retain(|_, &mut commit_ts| commit_ts >= min_active_start_ts);
+        drop(tuple_commits);
+
+        let txs = self.transactions.read();
+        self.tuple_writers.write().retain(|_, writer| {
+            txs.get(writer).is_some_and(|entry| {
+                matches!(
+                    entry.state(),
+                    TransactionState::Active | TransactionState::Committing
+                )
+            })
+        });
     }
 
     /// Clean up old committed/aborted transactions
@@ -570,7 +634,10 @@ impl TransactionCoordinator {
         let current_count = self.transactions.read().len();
         self.transactions.write().retain(|id, entry| {
             // Keep active transactions
-            if entry.state == TransactionState::Active {
+            if matches!(
+                entry.state,
+                TransactionState::Active | TransactionState::Committing
+            ) {
                 return true;
             }
             // Keep transactions that might still be needed for visibility
@@ -689,6 +756,11 @@ impl TransactionHandle {
         &self.snapshot
     }
 
+    /// The coordinator of this transaction, unless it was already committed or aborted.
+    pub(crate) fn coordinator(&self) -> Option<TransactionCoordinator> {
+        self.commit_handle.as_ref().map(|h| h.coordinator.clone())
+    }
+
     pub fn can_commit(&self) -> bool {
         self.commit_handle.is_some()
     }
diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index c557820..0f21f76 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -1,19 +1,19 @@
 use parking_lot::RwLock;
 
 // src/sql/executor/context.rs
-use super::RuntimeResult;
+use super::{RuntimeError, RuntimeResult};
 use crate::{
     io::{
-        logger::{Alter, Begin, Commit, Create, Delete, DropOp, End, Insert, Operation, Update},
+        logger::{Abort, Alter, Begin, Commit, Create, Delete, DropOp, End, Insert, Operation, Update},
         pager::{BtreeBuilder, SharedPager},
     },
-    multithreading::coordinator::{Snapshot, TransactionHandle},
+    multithreading::coordinator::{Snapshot, TransactionCoordinator, TransactionHandle},
     schema::catalog::SharedCatalog,
     tree::{
         accessor::{BtreeReadAccessor, BtreeWriteAccessor},
         bplustree::Btree,
     },
-    types::{ObjectId, PageId, RowId, TransactionId},
+    types::{LogicalId, ObjectId, PageId, RowId, TransactionId},
 };
 use std::sync::Arc;
 
@@ -24,6 +24,7 @@ pub(crate) struct ThreadContext {
     catalog: SharedCatalog,
     tid: TransactionId,
     snapshot: Snapshot,
+    coordinator: Option<TransactionCoordinator>,
 }
 
 impl ThreadContext {
@@ -38,9 +39,47 @@ impl ThreadContext {
             snapshot,
             pager,
             catalog,
+            coordinator: None,
         }
     }
 
+    pub(crate) fn with_coordinator(mut self, coordinator: Option<TransactionCoordinator>) -> Self {
+        self.coordinator = coordinator;
+        self
+    }
+
+    /// Claims a row for writing, which fails if a concurrent transaction has written it.
+    pub(crate) fn claim_write(&self, object_id: ObjectId, row_id: RowId) -> RuntimeResult<()> {
+        if let Some(coordinator) = &self.coordinator {
+            coordinator
+                .claim_write(self.tid, LogicalId::new(object_id, row_id))
+                .map_err(|e| RuntimeError::Other(e.to_string()))?;
+        }
+        Ok(())
+    }
+
+    /// Fails if a concurrent transaction has altered or dropped the relation.
+    pub(crate) fn check_current(&self, object_id: ObjectId) -> RuntimeResult<()> {
+        let is_current = self.catalog.is_current(
+            object_id,
+            &self.tree_builder(),
+            &self.snapshot,
+            |xid| self.is_aborted(xid),
+        )?;
+        if !is_current {
+            return Err(RuntimeError::Other(format!(
+                "relation {object_id} was changed by a concurrent transaction"
+            )));
+        }
+        Ok(())
+    }
+
+    /// Whether the transaction has been rolled back by now, be it before or after our snapshot.
+    pub(crate) fn is_aborted(&self, xid: TransactionId) -> bool {
+        self.snapshot.is_transaction_aborted(xid)
+            || self.coordinator.as_ref().is_some_and(|c| c.is_aborted(xid))
+    }
+
     pub(crate) fn pager(&self) -> &SharedPager {
         &self.pager
     }
@@ -125,7 +164,7 @@ impl TransactionLogger {
     }
 
     pub(crate) fn log_abort(&self) -> RuntimeResult<()> {
-        self.log_operation(Commit)?;
+        self.log_operation(Abort)?;
         Ok(())
     }
 
@@ -239,7 +278,19 @@ impl TransactionContext {
             self.snapshot(),
             self.pager().clone(),
             self.catalog().clone(),
-        ))
+        )
+        .with_coordinator(self.handle.read().coordinator()))
+    }
+
+    /// Fails if the transaction was already committed or aborted, by its owner or by VACUUM.
+    pub(crate) fn ensure_active(&self) -> RuntimeResult<()> {
+        match self.handle.read().coordinator() {
+            Some(coordinator) if coordinator.is_active(self.tid()) => Ok(()),
+            _ => Err(RuntimeError::Other(format!(
+                "transaction {} is not active",
+                self.tid()
+            ))),
+        }
     }
 
     pub(crate) fn tid(&self) -> TransactionId {
diff --git a/crates/axmos-db/src/tcp/session.rs b/crates/axmos-db/src/tcp/session.rs
index eab65b6..3008171 100644
--- a/crates/axmos-db/src/tcp/session.rs
+++ b/crates/axmos-db/src/tcp/session.rs
@@ -28,6 +28,9 @@ impl Session {
     }
 
     pub fn commit_transaction(&mut self) -> QueryRunnerResult<()> {
+        // VACUUM may have aborted the transaction: then there is nothing to commit, and the log
+        // must not say so.
+        self.ctx.ensure_active()?;
         self.logger.log_commit()?;
         self.ctx.commit_transaction()?;
         self.logger.log_end()?;
@@ -35,6 +38,10 @@ impl Session {
     }
 
     pub fn abort_transaction(&mut self) -> QueryRunnerResult<()> {
+        // Nothing to do if the transaction is already over.
+        if self.ctx.ensure_active().is_err() {
+            return Ok(());
+        }
         self.logger.log_abort()?;
         self.ctx.abort_transaction()?;
         self.logger.log_end()?;
@@ -48,6 +55,8 @@ impl Session {
 
     fn execute_async(&self, sql: String) -> QueryRunnerResult<QueryResult> {
         let logger = self.logger.clone();
+        // Statements of a transaction that is over would never be rolled back.
+        self.ctx.ensure_active()?;
         // Build a temporary context for this thread
         // Cloning the handle creates an invalidated copy of itself that can fo everything but committing  or aborting.
         let child_ctx = self.ctx.create_child()?;
-- 
2.43.0


From 295bba11a342d9a63685d83721afab57c930063b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:17 +0000
Subject: [PATCH 28/51] fix: a failed statement leaves no partial changes, and
 every row has its own index entry

---
 crates/axmos-db/src/runtime/ddl.rs            | 199 +++++----
 crates/axmos-db/src/runtime/dml.rs            | 415 +++++++++---------
 crates/axmos-db/src/runtime/ops/delete.rs     |  22 +-
 crates/axmos-db/src/runtime/ops/index_scan.rs |  12 +-
 crates/axmos-db/src/runtime/ops/insert.rs     |  13 +-
 crates/axmos-db/src/runtime/ops/update.rs     |  22 +-
 crates/axmos-db/src/runtime/validator.rs      | 138 +++---
 crates/axmos-db/src/schema/catalog.rs         | 139 +++++-
 crates/axmos-db/src/sql/planner/rules.rs      |  13 +
 crates/axmos-db/src/tree/bplustree.rs         |  30 ++
 10 files changed, 595 insertions(+), 408 deletions(-)

diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index bfc5c11..8ad8cd5 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -12,6 +12,7 @@ use crate::{
     runtime::{
         RuntimeError, RuntimeResult,
         context::{ThreadContext, TransactionLogger},
+        dml::DmlExecutor,
         eval::eval_literal_expr,
     },
     schema::{
@@ -24,10 +25,11 @@ use crate::{
     sql::binder::bounds::*,
     storage::{
         page::BtreePage,
-        tuple::{Row, TupleBuilder},
+        tuple::{Row, TupleBuilder, TupleError, TupleReader, TupleRef},
     },
     types::{
-        Blob, DataType, DataTypeKind, ObjectId, SerializationError, SerializationResult, UInt64,
+        Blob, DataType, DataTypeKind, ObjectId, SerializationError, SerializationResult,
+        TransactionId,
     },
 };
 
@@ -36,6 +38,7 @@ use rkyv::{
     util::AlignedVec,
 };
 
+use std::collections::HashSet;
 use std::fmt::{Display, Formatter, Result as FmtResult};
 
 #[derive(Archive, Serialize, Deserialize, Clone, Debug, PartialEq)]
@@ -496,6 +499,9 @@ impl DdlExecutor {
     }
 
     pub fn execute(&mut self, stmt: &BoundStatement) -> RuntimeResult<DdlResult> {
+        let catalog = self.ctx.catalog().clone();
+        let _guard = catalog.lock_writes();
+
         match stmt {
             BoundStatement::CreateTable(create) => {
                 let instr = CreateTableInstr::from(create);
@@ -630,7 +636,11 @@ impl DdlExecutor {
         let object_id = self.ctx.catalog().get_next_object_id();
         let root_page = self.ctx.pager().write().allocate_page::<BtreePage>()?;
 
-        let relation = Relation::table(object_id, &instr.table_name, root_page, columns);
+        let mut relation = Relation::table(object_id, &instr.table_name, root_page, columns);
+
+        for constraint in &instr.constraints {
+            self.add_constraint(&mut relation, constraint)?;
+        }
 
         let snapshot = self.ctx.snapshot();
         let tree_builder = self.ctx.tree_builder();
@@ -639,15 +649,6 @@ impl DdlExecutor {
             .catalog()
             .store_relation(relation, &tree_builder, snapshot.xid())?;
 
-        let mut relation = self
-            .ctx
-            .catalog()
-            .get_relation(object_id, &tree_builder, &snapshot)?;
-
-        for constraint in &instr.constraints {
-            self.add_constraint(&mut relation, constraint)?;
-        }
-
         let redo_bytes = instr.to_bytes()?;
         let undo_instr = instr.inverse(object_id);
         let undo_bytes = undo_instr.to_bytes()?;
@@ -679,6 +680,7 @@ impl DdlExecutor {
                     )));
                 }
             };
+        self.ctx.check_current(instr.table_id)?;
 
         let table_name = relation.name().to_string();
         let undo_instr = relation.to_create_table_instr()?;
@@ -713,10 +715,25 @@ impl DdlExecutor {
             ));
         }
 
-        let index_id =
-            self.create_unique_index(instr.table_id, &instr.index_name, &instr.columns)?;
+        let snapshot = self.ctx.snapshot().clone();
+        let tree_builder = self.ctx.tree_builder();
+
+        self.ctx.check_current(instr.table_id)?;
+        let mut table =
+            self.ctx
+                .catalog()
+                .get_relation(instr.table_id, &tree_builder, &snapshot)?;
+
+        let index_id = self.create_unique_index(&mut table, &instr.index_name, &instr.columns)?;
 
-        println!("INdice creado con id {index_id}");
+        self.ctx.catalog().update_relation(
+            instr.table_id,
+            None,
+            Some(table.into_schema()),
+            None,
+            &tree_builder,
+            &snapshot,
+        )?;
 
         let redo_bytes = instr.to_bytes()?;
         let undo_instr = instr.inverse(index_id);
@@ -774,6 +791,7 @@ impl DdlExecutor {
                 instr.table_id,
             )));
         }
+        self.ctx.check_current(instr.table_id)?;
 
         let undo_instr = instr.try_inverse_with(relation.schema())?;
         let action_desc = self.apply_alter_action(&mut relation, &instr.action)?;
@@ -900,7 +918,7 @@ impl DdlExecutor {
                     .collect();
 
                 let idx_name = index_name(&col_names, relation.name());
-                self.create_unique_index(relation.object_id(), &idx_name, col_indices)?;
+                self.create_unique_index(relation, &idx_name, col_indices)?;
 
                 Ok(format!(
                     "ADDED PRIMARY KEY CONSTRAINT ON COLUMNS: {}",
@@ -918,7 +936,7 @@ impl DdlExecutor {
                     .collect();
 
                 let idx_name = index_name(&col_names, relation.name());
-                self.create_unique_index(relation.object_id(), &idx_name, col_indices)?;
+                self.create_unique_index(relation, &idx_name, col_indices)?;
 
                 Ok(format!(
                     "ADDED UNIQUE CONSTRAINT ON COLUMNS: {}",
@@ -949,34 +967,22 @@ impl DdlExecutor {
         }
     }
 
+    /// Creates an index and adds it to the schema of its table, which the caller has to store.
     fn create_unique_index(
         &mut self,
-        table_id: ObjectId,
+        table: &mut Relation,
         index_name: &str,
         indexed_column_ids: &[usize],
     ) -> RuntimeResult<ObjectId> {
-        let num_keys = indexed_column_ids.len();
-        let snapshot = self.ctx.snapshot();
-        let tree_builder = self.ctx.tree_builder();
-
-        let mut table_relation =
-            self.ctx
-                .catalog()
-                .get_relation(table_id, &tree_builder, &snapshot)?;
+        // The row id is part of the key, so that each version of a value has its own entry.
+        let num_keys = indexed_column_ids.len() + 1;
 
-        let table_root = table_relation.root();
-
-        let mut index_columns: Vec<Column> = Vec::with_capacity(indexed_column_ids.len() + 1);
-
-        {
-            let table_schema = table_relation.schema();
-            for idx in indexed_column_ids {
-                if let Some(column) = table_schema.column(*idx) {
-                    index_columns.push(Column::new_with_defaults(column.datatype(), column.name()));
-                }
+        let mut index_columns: Vec<Column> = Vec::with_capacity(num_keys);
+        for idx in indexed_column_ids {
+            if let Some(column) = table.schema().column(*idx) {
+                index_columns.push(Column::new_with_defaults(column.datatype(), column.name()));
             }
         }
-
         index_columns.push(Column::new_with_defaults(DataTypeKind::BigUInt, "row_id"));
 
         let object_id = self.ctx.catalog().get_next_object_id();
@@ -985,49 +991,34 @@ impl DdlExecutor {
         let index_relation =
             Relation::index(object_id, index_name, root_page, index_columns, num_keys);
 
-        let index_root = index_relation.root();
-        let index_schema = index_relation.schema().clone();
+        self.populate_index(
+            table.root(),
+            table.schema(),
+            root_page,
+            index_relation.schema(),
+            indexed_column_ids,
+        )?;
 
         let snapshot = self.ctx.snapshot();
         let tree_builder = self.ctx.tree_builder();
-
         self.ctx
             .catalog()
             .store_relation(index_relation, &tree_builder, snapshot.xid())?;
 
-        {
-            let table_schema = table_relation.schema_mut();
-
-            if let Some(constraints) = table_schema.table_constraints.as_mut() {
-                let already_exists = constraints.iter().any(
-                    |c| matches!(c, TableConstraint::Unique(cols) if cols == indexed_column_ids),
-                );
-                if !already_exists {
-                    constraints.push(TableConstraint::Unique(indexed_column_ids.to_vec()));
-                }
-            }
+        let table_schema = table.schema_mut();
 
-            if let Some(indexes) = table_schema.table_indexes.as_mut() {
-                indexes.insert(object_id, indexed_column_ids.to_vec());
+        if let Some(constraints) = table_schema.table_constraints.as_mut() {
+            let already_exists = constraints
+                .iter()
+                .any(|c| matches!(c, TableConstraint::Unique(cols) if cols == indexed_column_ids));
+            if !already_exists {
+                constraints.push(TableConstraint::Unique(indexed_column_ids.to_vec()));
             }
         }
 
-        self.ctx.catalog().update_relation(
-            table_id,
-            None,
-            Some(table_relation.schema().clone()),
-            None,
-            &tree_builder,
-            &snapshot,
-        )?;
-
-        self.populate_index(
-            table_root,
-            table_relation.schema(),
-            index_root,
-            &index_schema,
-            indexed_column_ids,
-        )?;
+        if let Some(indexes) = table_schema.table_indexes.as_mut() {
+            indexes.insert(object_id, indexed_column_ids.to_vec());
+        }
 
         Ok(object_id)
     }
@@ -1040,10 +1031,9 @@ impl DdlExecutor {
         index_schema: &Schema,
         indexed_column_ids: &[usize],
     ) -> RuntimeResult<()> {
-        let snapshot = self.ctx.snapshot();
-        let tid = snapshot.xid();
-
-        let mut index_entries: Vec<Row> = Vec::new();
+        // Every row gets its entry, visible to us or not: once the index exists it is used by
+        // transactions with other snapshots too. An entry is as visible as its row.
+        let mut index_entries: Vec<(Row, TransactionId, Option<TransactionId>)> = Vec::new();
 
         {
             let mut table_btree = self.ctx.build_tree(table_root);
@@ -1052,40 +1042,59 @@ impl DdlExecutor {
                 return Ok(());
             }
 
-            let positions: Vec<crate::tree::accessor::BtreePagePosition> = table_btree
-                .iter_forward()?
-                .filter(|p| p.is_ok())
-                .map(|f| f.unwrap())
-                .collect();
-
-            for pos in positions {
-                let row = table_btree.get_row_at(pos, table_schema, &snapshot)?;
+            let reader = TupleReader::from_schema(table_schema);
+            let mut cells = self.ctx.build_tree(table_root);
+            for pos in table_btree.iter_forward()? {
+                let (row, xmin, xmax) = cells.with_cell_at(pos?, |bytes| {
+                    let tuple = TupleRef::new(bytes, reader.parse_last_version(bytes)?);
+                    let row = tuple.to_row_with(table_schema)?;
+                    Ok::<_, TupleError>((row, tuple.version_xmin(), tuple.version_xmax()))
+                })??;
 
-                let Some(row) = row else { continue };
-
-                let row_id = row.first();
-                let Some(DataType::BigUInt(UInt64(value))) = row_id else {
+                let Some(DataType::BigUInt(row_id)) = row.first() else {
                     return Err(RuntimeError::Other(
                         "Tables should have row id type for the first column!".to_string(),
                     ));
                 };
 
-                let mut entry_values: Vec<DataType> =
-                    Vec::with_capacity(indexed_column_ids.len() + 1);
-                for &col_idx in indexed_column_ids {
-                    if col_idx < row.len() {
-                        entry_values.push(row[col_idx].clone());
-                    }
+                if self.ctx.is_aborted(xmin) {
+                    continue;
                 }
-                entry_values.push(DataType::BigUInt(UInt64(*value)));
+                let xmax = xmax.filter(|xmax| !self.ctx.is_aborted(*xmax));
+                if let Some(entry) =
+                    DmlExecutor::build_index_entry(row.as_slice(), indexed_column_ids, row_id.value())?
+                {
+                    index_entries.push((entry, xmin, xmax));
+                }
+            }
+        }
 
-                index_entries.push(Row::new(entry_values.into_boxed_slice()));
+        // Two rows that stay must not agree on the indexed columns.
+        let snapshot = self.ctx.snapshot();
+        let mut seen: HashSet<Vec<DataType>> = HashSet::new();
+        for (entry, _, xmax) in &index_entries {
+            let deleted = xmax.is_some_and(|xmax| {
+                xmax == snapshot.xid() || snapshot.is_committed_before_snapshot(xmax)
+            });
+            let key = entry.as_slice()[..indexed_column_ids.len()].to_vec();
+            if !deleted && !seen.insert(key) {
+                let columns: Vec<&str> = indexed_column_ids
+                    .iter()
+                    .filter_map(|idx| table_schema.column(*idx).map(|c| c.name()))
+                    .collect();
+                return Err(RuntimeError::Other(format!(
+                    "UNIQUE constraint violated by existing rows on {}",
+                    columns.join(", ")
+                )));
             }
         }
 
         let mut index_btree = self.ctx.build_tree_mut(index_root);
-        for entry in index_entries {
-            let tuple = TupleBuilder::from_schema(index_schema).build(&entry, tid)?;
+        for (entry, xmin, xmax) in index_entries {
+            let mut tuple = TupleBuilder::from_schema(index_schema).build(&entry, xmin)?;
+            if let Some(xmax) = xmax {
+                tuple.delete(xmax)?;
+            }
             index_btree.insert(index_root, tuple, index_schema)?;
         }
 
diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index 4fd14fe..78e9276 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -19,8 +19,8 @@ use crate::{
     },
     sql::binder::bounds::BoundExpression,
     storage::tuple::{Row, Tuple, TupleBuilder, TupleReader},
-    tree::bplustree::SearchResult,
-    types::{DataType, ObjectId, RowId, UInt64},
+    tree::{accessor::Accessor, bplustree::SearchResult},
+    types::{DataType, ObjectId, PageId, RowId, TransactionId, UInt64},
 };
 
 /// Result of an insert operation.
@@ -48,12 +48,105 @@ pub struct DeleteResult {
 pub(crate) struct DmlExecutor {
     ctx: ThreadContext,
     logger: TransactionLogger,
+    undo: Vec<UndoEntry>,
+    log: Vec<LogEntry>,
+}
+
+/// What an entry of a tree was before the current statement wrote it.
+struct UndoEntry {
+    root: PageId,
+    schema: Schema,
+    written: Tuple,
+    before: Option<Tuple>,
+}
+
+/// A log record of the current statement.
+enum LogEntry {
+    Insert(ObjectId, RowId, Box<[u8]>),
+    Update(ObjectId, RowId, Box<[u8]>, Box<[u8]>),
+    Delete(ObjectId, RowId, Box<[u8]>),
 }
 
 impl DmlExecutor {
     /// Creates a new DML executor with the given transaction context.
     pub(crate) fn new(ctx: ThreadContext, logger: TransactionLogger) -> Self {
-        Self { ctx, logger }
+        Self {
+            ctx,
+            logger,
+            undo: Vec::new(),
+            log: Vec::new(),
+        }
+    }
+
+    /// Runs all the row operations of a statement. If one of them fails, those done before it are
+    /// taken back, so that a statement is applied as a whole or not at all.
+    pub(crate) fn run_statement<R>(
+        &mut self,
+        f: impl FnOnce(&mut Self) -> RuntimeResult<R>,
+    ) -> RuntimeResult<R> {
+        let result = f(self).and_then(|value| {
+            for entry in std::mem::take(&mut self.log) {
+                match entry {
+                    LogEntry::Insert(table, row, data) => self.logger.log_insert(table, row, data),
+                    LogEntry::Update(table, row, old, new) => {
+                        self.logger.log_update(table, row, old, new)
+                    }
+                    LogEntry::Delete(table, row, old) => self.logger.log_delete(table, row, old),
+                }?;
+            }
+            Ok(value)
+        });
+
+        let undo = std::mem::take(&mut self.undo);
+        self.log.clear();
+        if result.is_err() {
+            let catalog = self.ctx.catalog().clone();
+            let _guard = catalog.lock_writes();
+            for entry in undo.into_iter().rev() {
+                let mut tree = self.ctx.build_tree_mut(entry.root);
+                match entry.before {
+                    Some(before) => tree.upsert(entry.root, before, &entry.schema)?,
+                    None => tree.remove_tuple(entry.root, &entry.written, &entry.schema)?,
+                }
+            }
+        }
+        result
+    }
+
+    /// Inserts or replaces an entry of a tree, remembering what was there.
+    fn write_entry(&mut self, root: PageId, tuple: Tuple, schema: &Schema) -> RuntimeResult<()> {
+        let mut tree = self.ctx.build_tree_mut(root);
+        let before = match tree.search_tuple(&tuple, schema)? {
+            SearchResult::Found(pos) => Some(tree.get_tuple_at_unchecked(pos, schema)?),
+            SearchResult::NotFound(_) => None,
+        };
+        tree.accessor_mut()?.clear();
+        tree.upsert(root, tuple.clone(), schema)?;
+        self.undo.push(UndoEntry {
+            root,
+            schema: schema.clone(),
+            written: tuple,
+            before,
+        });
+        Ok(())
+    }
+
+    /// Removes an entry of a tree if it exists, remembering it.
+    fn remove_entry(&mut self, root: PageId, tuple: Tuple, schema: &Schema) -> RuntimeResult<()> {
+        let mut tree = self.ctx.build_tree_mut(root);
+        let SearchResult::Found(pos) = tree.search_tuple(&tuple, schema)? else {
+            return Ok(());
+        };
+        let before = tree.get_tuple_at_unchecked(pos, schema)?;
+        tree.accessor_mut()?.clear();
+        tree.remove_tuple(root, &tuple, schema)?;
+        self.undo.push(UndoEntry {
+            root,
+            schema: schema.clone(),
+            written: tuple,
+            before: Some(before),
+        });
+        Ok(())
     }
 
     /// UTILITY TO BUILD THE ASSIGNMENTS HASHMAP
@@ -98,8 +191,7 @@ impl DmlExecutor {
             }
         }
 
-        let table_name = relation.name().to_string();
-        let validator = ConstraintValidator::new(schema, table_name, self.ctx.clone());
+        let validator = ConstraintValidator::new(relation, self.ctx.clone());
 
         // Validate NOT NULL
         validator.validate_not_null_constraints(&new_values)?;
@@ -122,8 +214,7 @@ impl DmlExecutor {
     ) -> RuntimeResult<()> {
         let schema = relation.schema();
         let id = relation.object_id();
-        let table_name = relation.name().to_string();
-        let validator = ConstraintValidator::new(schema, table_name, self.ctx.clone());
+        let validator = ConstraintValidator::new(relation, self.ctx.clone());
 
         // Validate NOT NULL
         validator.validate_not_null_constraints(&new_values)?;
@@ -152,18 +243,25 @@ impl DmlExecutor {
         columns: &[usize],
         values: &Row,
     ) -> RuntimeResult<InsertResult> {
+        let catalog = self.ctx.catalog().clone();
+        let _guard = catalog.lock_writes();
+
         let tree_builder = self.ctx.tree_builder();
         let snapshot = self.ctx.snapshot().clone();
         let tid = self.ctx.tid();
 
         // Get the relation and allocate a new row ID
-        let mut relation = self
+        let relation = self
             .ctx
             .catalog()
             .get_relation(table_id, &tree_builder, &snapshot)?;
+        self.ctx.check_current(table_id)?;
 
-        let row_id = relation.next_row_id();
-        relation.increment_row_id();
+        let row_id = UInt64(
+            self.ctx
+                .catalog()
+                .allocate_row_id(&relation, &tree_builder)?,
+        );
 
         let schema = relation.schema().clone();
         let root = relation.root();
@@ -179,43 +277,26 @@ impl DmlExecutor {
         let tuple = TupleBuilder::from_schema(&schema).build(&full_row, tid)?;
 
         // Log the insert operation
-        self.logger
-            .log_insert(table_id, row_id.value(), Box::from(&tuple))?;
-
-        // Table access scope
-        {
-            // Insert into main table
-            let mut btree = self.ctx.build_tree_mut(root);
-            let search_result = btree.search_tuple(&tuple, &schema)?;
-
-            if let SearchResult::Found(position) = search_result {
-                let existing = btree.get_tuple_at_unchecked(position, &schema)?;
-
-                // If it is deleted we need to un-delete it
-                if existing.is_deleted() {
-                    btree.update(root, tuple, &schema)?;
-                };
+        self.log
+            .push(LogEntry::Insert(table_id, row_id.value(), Box::from(&tuple)));
 
-                // Otherwise there is nothing to do. Just keep the tuple there.
-            } else {
-                btree.insert(root, tuple, &schema)?;
-            }
-        }
+        // Insert into main table
+        self.write_entry(root, tuple, &schema)?;
 
         // Maintain secondary indexes
         self.maintain_secondary_indexes(
-            &relation.get_indexes(),
+            &indexes,
             None,
-            Some(full_row),
+            Some(&full_row),
             None,
-            &schema,
+            tid,
             row_id.value(),
         )?;
 
         // Update relation metadata
         self.ctx.catalog().update_relation(
             relation.object_id(),
-            Some(relation.next_row_id().value()),
+            Some(row_id.value() + 1),
             None,
             None,
             &tree_builder,
@@ -262,9 +343,11 @@ impl DmlExecutor {
         row_id: &UInt64,
         assignments: HashMap<usize, DataType>,
     ) -> RuntimeResult<UpdateResult> {
+        let catalog = self.ctx.catalog().clone();
+        let _guard = catalog.lock_writes();
+
         let row_id_bytes = row_id.serialize()?;
-        let tid = self.ctx.tid();
-        let snapshot = self.ctx.snapshot();
+        let snapshot = self.ctx.snapshot().clone();
         let tree_builder = self.ctx.tree_builder();
 
         // Get relation and schema
@@ -272,6 +355,7 @@ impl DmlExecutor {
             .ctx
             .catalog()
             .get_relation(table_id, &tree_builder, &snapshot)?;
+        self.ctx.check_current(table_id)?;
 
         let schema = relation.schema().clone();
         let root = relation.root();
@@ -299,6 +383,10 @@ impl DmlExecutor {
             .get_row_at(position, &schema, &snapshot)?
             .expect("Tuple should exist");
 
+        // The search keeps the page of the row latched.
+        drop(btree);
+        self.ctx.claim_write(table_id, row_id.value())?;
+
         // Constraint validation goes here.
         self.validate_update_constraints(
             &relation,
@@ -318,23 +406,23 @@ impl DmlExecutor {
             .to_row_with(&schema)?;
 
         // Log the update
-        self.logger.log_update(
+        self.log.push(LogEntry::Update(
             table_id,
             row_id.value(),
             Box::from(&tuple),
             Box::from(&updated_tuple),
-        )?;
+        ));
 
         // Update the main table
-        btree.update(root, updated_tuple, &schema)?;
+        self.write_entry(root, updated_tuple, &schema)?;
 
         // Maintain secondary indexes
         self.maintain_secondary_indexes(
             &relation.get_indexes(),
-            Some(old_row),
-            Some(new_row),
-            Some(assignments),
-            &schema,
+            Some(&old_row),
+            Some(&new_row),
+            Some(&assignments),
+            tuple.xmin(),
             row_id.value(),
         )?;
 
@@ -350,8 +438,11 @@ impl DmlExecutor {
     /// # Returns
     /// Whether the delete was successful.
     pub fn delete(&mut self, table_id: ObjectId, row_id: &UInt64) -> RuntimeResult<DeleteResult> {
+        let catalog = self.ctx.catalog().clone();
+        let _guard = catalog.lock_writes();
+
         let row_id_bytes = row_id.serialize()?;
-        let snapshot = self.ctx.snapshot();
+        let snapshot = self.ctx.snapshot().clone();
         let tree_builder = self.ctx.tree_builder();
 
         // Get relation and schema
@@ -359,6 +450,7 @@ impl DmlExecutor {
             .ctx
             .catalog()
             .get_relation(table_id, &tree_builder, &snapshot)?;
+        self.ctx.check_current(table_id)?;
         let schema = relation.schema().clone();
         let root = relation.root();
 
@@ -385,24 +477,28 @@ impl DmlExecutor {
             .get_row_at(position, &schema, &snapshot)?
             .expect("Tuple should exist");
 
+        // The search keeps the page of the row latched.
+        drop(btree);
+        self.ctx.claim_write(table_id, row_id.value())?;
+
         // Mark as deleted
         let mut deleted_tuple = tuple.clone();
         deleted_tuple.delete(snapshot.xid())?;
 
         // Log the delete
-        self.logger
-            .log_delete(table_id, row_id.value(), Box::from(&tuple))?;
+        self.log
+            .push(LogEntry::Delete(table_id, row_id.value(), Box::from(&tuple)));
 
         // Update the main table
-        btree.update(root, deleted_tuple, &schema)?;
+        self.write_entry(root, deleted_tuple, &schema)?;
 
         // Maintain secondary indexes
         self.maintain_secondary_indexes(
             &relation.get_indexes(),
-            Some(old_row),
+            Some(&old_row),
             None,
             None,
-            &schema,
+            snapshot.xid(),
             row_id.value(),
         )?;
 
@@ -438,203 +534,102 @@ impl DmlExecutor {
         Ok(Row::new(full_values.into_boxed_slice()))
     }
 
-    /// Builds an index entry row from table values.
-    fn build_index_entry(
+    /// Builds the index entry of a row, unless it has none because an indexed column is NULL.
+    pub(crate) fn build_index_entry(
         values: &[DataType],
-        index: &IndexHandle,
-        index_schema: &Schema,
+        index_columns: &[usize],
         row_id: RowId,
-    ) -> RuntimeResult<Row> {
-        let mut entry: Vec<DataType> = Vec::with_capacity(index_schema.num_keys() + 1);
+    ) -> RuntimeResult<Option<Row>> {
+        let mut entry: Vec<DataType> = Vec::with_capacity(index_columns.len() + 1);
 
-        for col_idx in index.indexed_column_ids() {
+        for col_idx in index_columns {
             let value = values
                 .get(*col_idx)
                 .ok_or(RuntimeError::ColumnNotFound(*col_idx))?;
+            if value.is_null() {
+                return Ok(None);
+            }
             entry.push(value.clone());
         }
 
         // Append row ID as the last column
         entry.push(DataType::BigUInt(UInt64(row_id)));
 
-        Ok(Row::new(entry.into_boxed_slice()))
+        Ok(Some(Row::new(entry.into_boxed_slice())))
     }
 
     /// Maintains secondary indexes.
+    ///
+    /// Every row has its own entry in each index. An entry is as visible as its row, so `xid` is the
+    /// creator of the row, or its deleter when there are no new values.
     fn maintain_secondary_indexes(
         &mut self,
         indexes: &[IndexHandle],
-        old_values: Option<Row>,
-        new_values: Option<Row>,
-        table_assignments: Option<HashMap<usize, DataType>>,
-        table_schema: &Schema,
+        old_values: Option<&Row>,
+        new_values: Option<&Row>,
+        assignments: Option<&HashMap<usize, DataType>>,
+        xid: TransactionId,
         row_id: RowId,
     ) -> RuntimeResult<()> {
-        let old_values = old_values.map(|r| r.into_inner());
-        let new_values = new_values.map(|r| r.into_inner());
-
         let tree_builder = self.ctx.tree_builder();
-        let snapshot = self.ctx.snapshot();
-        let tid = self.ctx.tid();
-
-        // Determine which columns were modified
-        let modified_columns: Option<HashSet<usize>> = table_assignments
-            .clone()
-            .map(|c| c.keys().copied().collect());
+        let snapshot = self.ctx.snapshot().clone();
 
         for index in indexes {
+            // Skip indexes not affected by this update
+            if let Some(modified) = assignments
+                && !index
+                    .indexed_column_ids()
+                    .iter()
+                    .any(|col| modified.contains_key(col))
+            {
+                continue;
+            }
+
             let index_relation =
                 self.ctx
                     .catalog()
                     .get_relation(index.id(), &tree_builder, &snapshot)?;
-            let index_schema = index_relation.schema();
-            let index_root = index_relation.root();
+            let schema = index_relation.schema();
+            let root = index_relation.root();
 
-            if let Some(modified) = modified_columns.as_ref() {
-                // Skip indexes not affected by this update
-                let index_affected = index
-                    .indexed_column_ids()
-                    .iter()
-                    .any(|col| modified.contains(col));
-
-                if !index_affected {
-                    continue;
-                }
-            }
-
-            let mut index_btree = self.ctx.build_tree_mut(index_root);
-
-            match (
-                old_values.as_ref(),
-                new_values.as_ref(),
-                table_assignments.as_ref(),
-            ) {
-                // Insert operation
-                (None, Some(values), None) => {
-                    let index_row = Self::build_index_entry(&values, index, index_schema, row_id)?;
-                    let index_tuple =
-                        TupleBuilder::from_schema(index_schema).build(&index_row, tid)?;
-
-                    let search_result = index_btree.search_tuple(&index_tuple, &index_schema)?;
-
-                    if let SearchResult::Found(position) = search_result {
-                        let existing =
-                            index_btree.get_tuple_at_unchecked(position, &index_schema)?;
-
-                        // If it is deleted we need to un-delete it
-                        if existing.is_deleted() {
-                            index_btree.update(index_root, index_tuple, index_schema)?;
-                        };
-
-                        // Otherwise there is nothing to do. Just keep the tuple there.
-                    } else {
-                        index_btree.insert(index_root, index_tuple, index_schema)?;
+            let entry = |values: Option<&Row>| -> RuntimeResult<Option<Tuple>> {
+                let Some(values) = values else {
+                    return Ok(None);
+                };
+                let columns = index.indexed_column_ids();
+                Self::build_index_entry(values.as_slice(), columns, row_id)?
+                    .map(|row| TupleBuilder::from_schema(schema).build(&row, xid))
+                    .transpose()
+                    .map_err(RuntimeError::from)
+            };
+            let old_entry = entry(old_values)?;
+            let new_entry = entry(new_values)?;
+
+            match (old_entry, new_entry) {
+                // Delete operation: mark the entry as well
+                (Some(mut old), None) if new_values.is_none() => {
+                    let mut tree = self.ctx.build_tree_mut(root);
+                    if let SearchResult::Found(pos) = tree.search_tuple(&old, schema)? {
+                        old = tree.get_tuple_at_unchecked(pos, schema)?;
+                        drop(tree);
+                        old.delete(xid)?;
+                        self.write_entry(root, old, schema)?;
                     }
                 }
-                // New values was set to [None] which means we are on a delete operation. Then we need to perform the maintenance in a different way.
-                // Delete operation
-                (Some(values), None, None) => {
-                    let index_row = Self::build_index_entry(&values, index, index_schema, row_id)?;
-                    let index_tuple =
-                        TupleBuilder::from_schema(index_schema).build(&index_row, tid)?;
-                    let search_result = index_btree.search_tuple(&index_tuple, &index_schema)?;
-
-                    if let SearchResult::Found(position) = search_result {
-                        let tuple_reader = TupleReader::from_schema(index_schema);
-
-                        // Update the index entry by adding a new version to it.
-                        let updated = index_btree.with_cell_at(position, |bytes| {
-                            tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
-                            let tuple = Tuple::from_slice_unchecked(bytes).ok()?;
-                            Some(tuple)
-                        })?;
-
-                        if let Some(mut tuple) = updated {
-                            tuple.delete(self.ctx.tid())?;
-                            index_btree.update(index_root, tuple, index_schema)?;
-                        }
-                    };
-                } // Update operation
-                (Some(old_values), Some(new_values), Some(assignments)) => {
-                    // Build the old index key for searching
-                    let old_index_row =
-                        Self::build_index_entry(&old_values, index, index_schema, row_id)?;
-                    let old_index_tuple =
-                        TupleBuilder::from_schema(index_schema).build(&old_index_row, tid)?;
-
-                    // Build new assignments for the index
-                    let index_assignments = self.build_index_assignments(
-                        &old_values,
-                        &assignments,
-                        index,
-                        index_schema,
-                    )?;
-
-                    // Search and update the index entry
-                    let mut index_btree = self.ctx.build_tree_mut(index_root);
-                    let search_result = index_btree.search_tuple(&old_index_tuple, index_schema)?;
-
-                    if let SearchResult::Found(pos) = search_result {
-                        let tuple_reader = TupleReader::from_schema(index_schema);
-
-                        // Update the index entry by adding a new version to it.
-                        let updated = index_btree.with_cell_at(pos, |bytes| {
-                            tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
-                            let tuple = Tuple::from_slice_unchecked(bytes).ok()?;
-                            Some(tuple)
-                        })?;
-
-                        if let Some(mut tuple) = updated {
-                            let xmin = tuple.xmin();
-                            tuple.add_version_with(
-                                &index_assignments,
-                                xmin,
-                                index_schema,
-                            )?;
-                            index_btree.update(index_root, tuple, index_schema)?;
-                        }
+                (Some(old), Some(new)) if old.effective_data() == new.effective_data() => {}
+                (old, new) => {
+                    if let Some(old) = old {
+                        self.remove_entry(root, old, schema)?;
+                    }
+                    if let Some(new) = new {
+                        self.write_entry(root, new, schema)?;
                     }
                 }
-                _ => return Err(RuntimeError::InvalidStatement),
             }
         }
 
         Ok(())
     }
-
-    /// Builds assignment map for an index based on table assignments.
-    fn build_index_assignments(
-        &self,
-        old_values: &[DataType],
-        table_assignments: &HashMap<usize, DataType>,
-        index: &IndexHandle,
-        index_schema: &Schema,
-    ) -> RuntimeResult<HashMap<usize, DataType>> {
-        let mut index_assignments: HashMap<usize, DataType> = HashMap::new();
-
-        for (index_col_idx, table_col_idx) in index.indexed_column_ids().iter().enumerate() {
-            // Check if this table column was modified
-            let Some(new_value) = table_assignments.get(table_col_idx) else {
-                continue;
-            };
-
-            // Validate type compatibility
-            let index_col_type = index_schema
-                .column(index_col_idx)
-                .ok_or(RuntimeError::ColumnNotFound(index_col_idx))?
-                .datatype();
-
-            if index_col_type != new_value.kind() {
-                return Err(RuntimeError::TypeError(
-                    TypeSystemError::UnexpectedDataType(new_value.kind()),
-                ));
-            }
-
-            index_assignments.insert(index_col_idx, new_value.clone());
-        }
-
-        Ok(index_assignments)
-    }
 }
 
 /// Extracts the row ID from a row, assuming it's in the first column.
diff --git a/crates/axmos-db/src/runtime/ops/delete.rs b/crates/axmos-db/src/runtime/ops/delete.rs
index 1741f53..817aefc 100644
--- a/crates/axmos-db/src/runtime/ops/delete.rs
+++ b/crates/axmos-db/src/runtime/ops/delete.rs
@@ -63,18 +63,24 @@ where
             return Ok(None);
         }
 
-        // Process all rows from child
+        // Read all rows before deleting the first one: an open scan keeps its current page latched.
+        let mut rows = Vec::new();
         while let Some(row) = self.child.next()? {
             self.stats.rows_scanned += 1;
+            rows.push(row);
+        }
+        self.child.close()?;
 
-            let row_id = extract_row_id(&row)?;
-            let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
-            let result = dml.delete(self.table_id, row_id)?;
-
-            if result.deleted {
-                self.stats.rows_produced += 1;
+        let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
+        self.stats.rows_produced += dml.run_statement(|dml| {
+            let mut deleted = 0;
+            for row in &rows {
+                if dml.delete(self.table_id, extract_row_id(row)?)?.deleted {
+                    deleted += 1;
+                }
             }
-        }
+            Ok(deleted)
+        })?;
 
         self.returned_result = true;
 
diff --git a/crates/axmos-db/src/runtime/ops/index_scan.rs b/crates/axmos-db/src/runtime/ops/index_scan.rs
index 8dae93b..a2bfea7 100644
--- a/crates/axmos-db/src/runtime/ops/index_scan.rs
+++ b/crates/axmos-db/src/runtime/ops/index_scan.rs
@@ -12,7 +12,7 @@ use crate::{
         binder::bounds::BoundExpression,
         planner::{logical::IndexRangeBound, physical::PhysIndexScanOp},
     },
-    storage::tuple::Row,
+    storage::tuple::{Row, TupleReader, TupleRef},
     tree::bplustree::{BtreePositionalIterator, SearchResult},
     types::PageId,
 };
@@ -163,9 +163,13 @@ impl Executor for IndexScan {
                 .as_ref()
                 .ok_or(RuntimeError::CursorUninitialized)?
                 .get_tree();
-            let Some(found_row) = tree.get_row_at(next_pos, &self.index_schema, &snapshot)? else {
-                continue;
-            };
+
+            // Whether the row is visible is only known to the table.
+            let reader = TupleReader::from_schema(&self.index_schema);
+            let found_row = tree.with_cell_at(next_pos, |bytes| {
+                TupleRef::new(bytes, reader.parse_last_version(bytes)?)
+                    .to_row_with(&self.index_schema)
+            })??;
 
             if !self.evaluate_index_predicate(&found_row)? {
                 continue;
diff --git a/crates/axmos-db/src/runtime/ops/insert.rs b/crates/axmos-db/src/runtime/ops/insert.rs
index 40348e8..57cd0fd 100644
--- a/crates/axmos-db/src/runtime/ops/insert.rs
+++ b/crates/axmos-db/src/runtime/ops/insert.rs
@@ -73,12 +73,13 @@ where
         }
         self.child.close()?;
 
-        for row in rows {
-            let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
-            dml.insert(self.table_id, &self.columns, &row)?;
-
-            self.stats.rows_produced += 1;
-        }
+        let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
+        self.stats.rows_produced += dml.run_statement(|dml| {
+            for row in &rows {
+                dml.insert(self.table_id, &self.columns, row)?;
+            }
+            Ok(rows.len() as u64)
+        })?;
 
         self.returned_result = true;
 
diff --git a/crates/axmos-db/src/runtime/ops/update.rs b/crates/axmos-db/src/runtime/ops/update.rs
index 283ac98..3d61582 100644
--- a/crates/axmos-db/src/runtime/ops/update.rs
+++ b/crates/axmos-db/src/runtime/ops/update.rs
@@ -53,7 +53,7 @@ where
     }
 
     /// Evaluates assignments and performs the update for a single row.
-    fn update_row(&mut self, row: &Row) -> RuntimeResult<bool> {
+    fn update_row(&self, dml: &mut DmlExecutor, row: &Row) -> RuntimeResult<bool> {
         // Get the schema to evaluate assignments
         let tree_builder = self.ctx.tree_builder();
         let snapshot = self.ctx.snapshot();
@@ -68,7 +68,6 @@ where
         let assignments = evaluate_assignments(self.assignments.iter(), row, &schema)?;
 
         // Delegate to DML executor
-        let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
         let result = dml.update(self.table_id, row_id, assignments)?;
 
         Ok(result.updated)
@@ -89,14 +88,25 @@ where
             return Ok(None);
         }
 
-        // Process all rows from child
+        // Read all rows before updating the first one: the scan must not meet rows that the update
+        // moved ahead of it, and it keeps its current page latched while it is open.
+        let mut rows = Vec::new();
         while let Some(row) = self.child.next()? {
             self.stats.rows_scanned += 1;
+            rows.push(row);
+        }
+        self.child.close()?;
 
-            if self.update_row(&row)? {
-                self.stats.rows_produced += 1;
+        let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
+        self.stats.rows_produced += dml.run_statement(|dml| {
+            let mut updated = 0;
+            for row in &rows {
+                if self.update_row(dml, row)? {
+                    updated += 1;
+                }
             }
-        }
+            Ok(updated)
+        })?;
 
         self.returned_result = true;
 
diff --git a/crates/axmos-db/src/runtime/validator.rs b/crates/axmos-db/src/runtime/validator.rs
index 0e1a0c3..5fcb263 100644
--- a/crates/axmos-db/src/runtime/validator.rs
+++ b/crates/axmos-db/src/runtime/validator.rs
@@ -8,10 +8,11 @@ use std::collections::HashSet;
 use crate::{
     ObjectId, SerializationError, UInt64,
     runtime::context::ThreadContext,
-    schema::{DatabaseItem, Schema, base::IndexHandle, catalog::CatalogError},
-    storage::tuple::{TupleError, TupleReader, TupleRef},
+    schema::{DatabaseItem, Schema, base::{IndexHandle, Relation}, catalog::CatalogError},
+    storage::tuple::{Row, TupleBuilder, TupleError, TupleReader, TupleRef},
+    core::SerializableType,
     tree::bplustree::{BtreeError, SearchResult},
-    types::{DataType, RowId},
+    types::{DataType, PageId, RowId},
 };
 
 use std::fmt;
@@ -85,15 +86,17 @@ pub type ValidationResult<T> = Result<T, ValidationError>;
 
 pub(crate) struct ConstraintValidator<'a> {
     table_name: String,
+    table_root: PageId,
     schema: &'a Schema,
     ctx: ThreadContext,
 }
 
 impl<'a> ConstraintValidator<'a> {
-    pub(crate) fn new(schema: &'a Schema, table_name: String, ctx: ThreadContext) -> Self {
+    pub(crate) fn new(relation: &'a Relation, ctx: ThreadContext) -> Self {
         Self {
-            table_name,
-            schema,
+            table_name: relation.name().to_string(),
+            table_root: relation.root(),
+            schema: relation.schema(),
             ctx,
         }
     }
@@ -206,7 +209,8 @@ impl<'a> ConstraintValidator<'a> {
         Ok(false)
     }
 
-    /// Searches for an entry on an index. Returns true if the entry is found.
+    /// Searches an index for the given values. Returns true if a row has them, or will have them if
+    /// a concurrent transaction commits.
     pub(crate) fn search_index(
         &self,
         index: &IndexHandle,
@@ -224,69 +228,85 @@ impl<'a> ConstraintValidator<'a> {
         let index_schema = index_relation.schema();
         let index_root = index_relation.root();
 
-        // Build the key from the indexed columns
-        let mut key_bytes: Vec<u8> = Vec::new();
-        let mut has_null = false;
-
+        // In SQL, NULL values don't violate UNIQUE constraints
+        // (NULL != NULL, so multiple NULLs are allowed). Rows with them have no index entry.
+        let mut key: Vec<DataType> = Vec::with_capacity(index.indexed_column_ids().len() + 1);
         for &col_idx in index.indexed_column_ids() {
-            if col_idx < values.len() {
-                // In SQL, NULL values don't violate UNIQUE constraints
-                // (NULL != NULL, so multiple NULLs are allowed)
-                if values[col_idx].is_null() && skip_nulls {
-                    has_null = true;
-                    break;
+            if let Some(value) = values.get(col_idx) {
+                if value.is_null() {
+                    return Ok(false);
                 }
-                let serialized = values[col_idx].serialize()?;
-                key_bytes.extend_from_slice(&serialized);
+                key.push(value.clone());
             }
         }
 
-        // Skip uniqueness check if any indexed column is NULL
-        if has_null && skip_nulls {
+        // The entries of all rows with these values follow the lowest possible one.
+        key.push(DataType::BigUInt(UInt64(0)));
+        let lowest = TupleBuilder::from_schema(index_schema)
+            .build(&Row::from(key.as_slice()), snapshot.xid())?;
+        key.pop();
+
+        let mut index_btree = self.ctx.build_tree(index_root);
+        if index_btree.is_empty()? {
             return Ok(false);
         }
 
-        // Search in the index
-        let mut index_btree = self.ctx.build_tree(index_root);
+        let index_reader = TupleReader::from_schema(index_schema);
+        let table_reader = TupleReader::from_schema(self.schema);
+        let mut cells = self.ctx.build_tree(index_root);
+        for pos in index_btree.iter_from(&lowest, index_schema)? {
+            let entry = cells.with_cell_at(pos?, |bytes| {
+                TupleRef::new(bytes, index_reader.parse_last_version(bytes)?)
+                    .to_row_with(index_schema)
+            })??;
 
-        if let SearchResult::Found(pos) = index_btree.search(&key_bytes, index_schema)? {
-            // Found a matching key - need to check if it's VISIBLE to our snapshot
-            // If the tuple was deleted and the delete is visible, it's not a conflict
-            let tuple_reader = TupleReader::from_schema(index_schema);
-
-            let is_found = index_btree.with_cell_at(pos, |bytes| {
-                // Parse the tuple for our snapshot - this respects MVCC visibility
-                match tuple_reader.parse_for_snapshot(bytes, &snapshot)? {
-                    Some(layout) => {
-                        // Tuple is visible! Check if it's the row we're excluding (for updates)
-                        let tuple_ref = TupleRef::new(bytes, layout);
-
-                        // row_id is the first value in the index
-                        // Index layout: [key1, key2, ...] [row_id]
-                        //               ^-- keys --^      ^-- values --^
-                        if let Ok(row_id_ref) = tuple_ref.value_with(0, index_schema) {
-                            if let Some(found_row_id) = row_id_ref.to_owned() {
-                                if let Some(uid) = found_row_id.as_big_u_int() {
-                                    if excluded_set.contains(&uid.value()) {
-                                        // This is the same row we're updating, not a conflict
-                                        return Ok::<bool, TupleError>(false);
-                                    }
-                                }
-                            }
-                        }
+            if entry.as_slice()[..key.len()] != key[..] {
+                break;
+            }
 
-                        // Different row or no exclusion (conflict found)
-                        Ok::<bool, TupleError>(true)
-                    }
-                    None => {
-                        // Tuple is NOT visible (deleted or not yet committed)
-                        // No conflict
-                        Ok::<bool, TupleError>(false)
-                    }
-                }
-            })??;
+            let Some(row_id) = entry.last().and_then(|v| v.as_big_u_int()) else {
+                continue;
+            };
+            if excluded_set.contains(&row_id.value()) {
+                continue; // The same row we're updating
+            }
 
-            return Ok(is_found);
+            // What counts is the row of the entry.
+            let mut table_btree = self.ctx.build_tree(self.table_root);
+            let SearchResult::Found(pos) = table_btree.search(&row_id.serialize()?, self.schema)?
+            else {
+                continue;
+            };
+            let (row, xmin, xmax) = table_btree.with_cell_at(pos, |bytes| {
+                let tuple = TupleRef::new(bytes, table_reader.parse_last_version(bytes)?);
+                let row = tuple.to_row_with(self.schema)?;
+                Ok::<_, TupleError>((row, tuple.version_xmin(), tuple.version_xmax()))
+            })??;
+            drop(table_btree);
+
+            let agrees = index
+                .indexed_column_ids()
+                .iter()
+                .zip(&key)
+                .all(|(&col_idx, value)| row.as_slice().get(col_idx) == Some(value));
+            if !agrees {
+                continue; // Changed away
+            }
+            if self.ctx.is_aborted(xmin) {
+                continue; // Never existed
+            }
+            match xmax {
+                // Deleted by ourselves or before we started
+                Some(xmax) if xmax == snapshot.xid() => continue,
+                Some(xmax)
+                    if !self.ctx.is_aborted(xmax)
+                        && snapshot.is_committed_before_snapshot(xmax) =>
+                {
+                    continue;
+                }
+                // Still there, or its deletion can still be rolled back
+                _ => return Ok(true),
+            }
         }
 
         Ok(false)
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index f6bc50f..c30e55f 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -21,7 +21,8 @@ use super::{
     stats::{ColumnStats, StatsCollector},
 };
 
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
+use parking_lot::{Mutex, MutexGuard};
 use std::fmt::{Display, Formatter, Result as FmtResult};
 use std::time::{SystemTime, UNIX_EPOCH};
 
@@ -116,6 +117,11 @@ pub struct Catalog {
     meta_table: PageId,
     meta_index: PageId,
     pager: SharedPager,
+    /// Held while the rows, index entries and catalog entries of a change are written.
+    writes: Mutex<()>,
+    /// The next row id of the tables written so far. It only grows, also when the transaction that
+    /// took a row id rolls back, because its row stays in the table until VACUUM.
+    next_row_ids: Mutex<HashMap<ObjectId, u64>>,
 }
 
 impl Catalog {
@@ -124,9 +130,81 @@ impl Catalog {
             meta_table,
             meta_index,
             pager,
+            writes: Mutex::new(()),
+            next_row_ids: Mutex::new(HashMap::new()),
         }
     }
 
+    /// Serializes the read-modify-write steps of a change to tables and to the catalog.
+    pub(crate) fn lock_writes(&self) -> MutexGuard<'_, ()> {
+        self.writes.lock()
+    }
+
+    /// Takes a row id no other row of the table has, visible or not.
+    pub(crate) fn allocate_row_id(
+        &self,
+        relation: &Relation,
+        builder: &BtreeBuilder,
+    ) -> CatalogResult<u64> {
+        let id = relation.object_id();
+        let mut next_row_ids = self.next_row_ids.lock();
+        let next = match next_row_ids.get(&id) {
+            Some(next) => *next,
+            None => Self::last_row_id(relation, builder)?.map_or(0, |last| last + 1),
+        };
+        let row_id = next.max(relation.next_row_id().value());
+        next_row_ids.insert(id, row_id + 1);
+        Ok(row_id)
+    }
+
+    /// The greatest row id in the table, including rows no transaction can see.
+    fn last_row_id(relation: &Relation, builder: &BtreeBuilder) -> CatalogResult<Option<u64>> {
+        let schema = relation.schema();
+        let mut table = builder.build_tree(relation.root());
+        if table.is_empty()? {
+            return Ok(None);
+        }
+
+        let Some(last) = table.iter_forward()?.last() else {
+            return Ok(None);
+        };
+        let reader = TupleReader::from_schema(schema);
+        let mut cells = builder.build_tree(relation.root());
+        let row_id = cells.with_cell_at(last?, |bytes| {
+            let tuple = TupleRef::new(bytes, reader.parse_last_version(bytes)?);
+            match tuple.key_with(0, schema)? {
+                DataTypeRef::BigUInt(value) => Ok::<_, TupleError>(Some(value.value())),
+                _ => Ok(None),
+            }
+        })??;
+        Ok(row_id)
+    }
+
+    /// Whether the relation is as the snapshot sees it, that is, no concurrent transaction has
+    /// altered or dropped it.
+    pub(crate) fn is_current(
+        &self,
+        id: ObjectId,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+        is_aborted: impl Fn(TransactionId) -> bool,
+    ) -> CatalogResult<bool> {
+        let schema = meta_table_schema();
+        let mut meta_table = builder.build_tree(self.meta_table);
+        let SearchResult::Found(pos) = meta_table.search(&UInt64(id).serialize()?, &schema)? else {
+            return Ok(false);
+        };
+        let reader = TupleReader::from_schema(&schema);
+        let (xmin, xmax) = meta_table.with_cell_at(pos, |bytes| {
+            let tuple = TupleRef::new(bytes, reader.parse_last_version(bytes)?);
+            Ok::<_, TupleError>((tuple.version_xmin(), tuple.version_xmax()))
+        })??;
+
+        let seen = |xid| xid == snapshot.xid() || snapshot.is_committed_before_snapshot(xid);
+        Ok((seen(xmin) || is_aborted(xmin))
+            && xmax.is_none_or(|xmax| seen(xmax) || is_aborted(xmax)))
+    }
+
     /// Converts a relation into a meta table tuple for storage.
     pub(crate) fn relation_as_meta_table_tuple(
         relation: &Relation,
@@ -476,7 +554,45 @@ impl Catalog {
         let schema = meta_table_schema();
         let mut meta_table = builder.build_tree_mut(self.meta_table);
         let relation_id_bytes = UInt64(relation_id).serialize()?;
-        let mut changes = std::collections::HashMap::new();
+        let mut changes = HashMap::new();
+        let is_schema_change = new_schema.is_some();
+
+        let position = match meta_table.search(&relation_id_bytes, &schema)? {
+            SearchResult::Found(pos) => pos,
+            SearchResult::NotFound(_) => return Ok(()),
+        };
+
+        // Read the existing tuple
+        let tuple_reader = TupleReader::from_schema(&schema);
+        let existing_tuple = meta_table.with_cell_at(position, |bytes| {
+            let Some(layout) = tuple_reader.parse_for_snapshot(bytes, &snapshot)? else {
+                return Ok(None);
+            };
+            let visible = TupleRef::new(bytes, layout);
+            let is_last = visible.current_version() == visible.global_last_version();
+            Ok::<_, TupleError>(Some((
+                Tuple::from_slice_unchecked(bytes)?,
+                visible.to_row_with(&schema)?,
+                is_last,
+            )))
+        })??;
+
+        let Some((mut tuple, visible, is_last)) = existing_tuple else {
+            return Ok(());
+        };
+
+        // A schema change is a version of its own, which others see once it is committed. The other
+        // values are not versioned.
+        let xmin = if is_schema_change {
+            for (idx, value) in visible.iter().enumerate().skip(schema.num_keys()) {
+                changes.insert(idx - schema.num_keys(), value.clone());
+            }
+            snapshot.xid()
+        } else if is_last {
+            tuple.xmin()
+        } else {
+            return Ok(());
+        };
 
         if let Some(id) = new_row_id {
             let col_id = schema.bind_value("next_row_id")?;
@@ -493,25 +609,8 @@ impl Catalog {
             changes.insert(col_id, DataType::Blob(table_stats.to_blob()?));
         }
 
-        let position = match meta_table.search(&relation_id_bytes, &schema)? {
-            SearchResult::Found(pos) => pos,
-            SearchResult::NotFound(_) => return Ok(()),
-        };
-
-        // Read the existing tuple
-        let tuple_reader = TupleReader::from_schema(&schema);
-        let existing_tuple = meta_table.with_cell_at(position, |bytes| {
-            tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
-            Tuple::from_slice_unchecked(bytes).ok()
-        })?;
-
-        let Some(mut tuple) = existing_tuple else {
-            return Ok(());
-        };
-
-        let xmin = tuple.xmin();
         tuple.add_version_with(&changes, xmin, &schema)?;
-        let result = meta_table.update(self.meta_table, tuple, &schema)?;
+        meta_table.update(self.meta_table, tuple, &schema)?;
 
         Ok(())
     }
diff --git a/crates/axmos-db/src/sql/planner/rules.rs b/crates/axmos-db/src/sql/planner/rules.rs
index 5763019..8faf057 100644
--- a/crates/axmos-db/src/sql/planner/rules.rs
+++ b/crates/axmos-db/src/sql/planner/rules.rs
@@ -1290,6 +1290,19 @@ impl FilterToIndexScanRule {
             return None;
         }
 
+        // A row with a NULL in an indexed column has no index entry, so the bounds have to exclude
+        // it, unless there is none.
+        let is_bound = |position: usize| {
+            let bounds = range_start.iter().chain(range_end.iter()).flatten();
+            bounds.into_iter().any(|bound| bound.col_idx == position)
+        };
+        let covers_all_rows = indexed_columns.iter().enumerate().all(|(position, column)| {
+            is_bound(position) || scan.schema.column(*column).is_some_and(|c| c.is_non_null)
+        });
+        if !covers_all_rows {
+            return None;
+        }
+
         let mut index_scan = IndexScanOp::new(
             scan.table_id,
             index_handle.id(),
diff --git a/crates/axmos-db/src/tree/bplustree.rs b/crates/axmos-db/src/tree/bplustree.rs
index 6f65d9a..9729092 100644
--- a/crates/axmos-db/src/tree/bplustree.rs
+++ b/crates/axmos-db/src/tree/bplustree.rs
@@ -626,6 +626,36 @@ where
         )
     }
 
+    /// Iterates from the first entry whose keys are not lower than those of the given tuple.
+    pub(crate) fn iter_from(
+        &mut self,
+        entry: &Tuple,
+        schema: &Schema,
+    ) -> BtreeResult<BtreePositionalIterator>
+    where
+        Acc: Default,
+    {
+        if self.is_empty()? {
+            return Err(BtreeError::BtreeEmpty);
+        };
+
+        let target_cursor = Tuple::keys_offset(schema.num_values());
+        let page = match self.search_tuple(entry, schema)? {
+            SearchResult::Found(pos) | SearchResult::NotFound(pos) => pos.entry(),
+        };
+        let slot = match self.find_slot(page, entry.effective_data(), target_cursor, schema)? {
+            SearchResult::Found(pos) | SearchResult::NotFound(pos) => pos.slot(),
+        };
+        self.accessor_mut()?.clear();
+
+        BtreePositionalIterator::from_position(
+            self.cloned_shared(),
+            page,
+            slot as isize,
+            IterDirection::Forward,
+        )
+    }
+
     pub(crate) fn into_iter_backward(&mut self) -> BtreeResult<BtreePositionalIterator>
     where
         Acc: Default,
-- 
2.43.0


From 6434467b5de02a7224cbd2e83c56fd4fa1ec483a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:32 +0000
Subject: [PATCH 29/51] fix: a row its own creator deleted does not block its
 key

---
 crates/axmos-db/src/runtime/validator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/axmos-db/src/runtime/validator.rs b/crates/axmos-db/src/runtime/validator.rs
index 5fcb263..fc9410c 100644
--- a/crates/axmos-db/src/runtime/validator.rs
+++ b/crates/axmos-db/src/runtime/validator.rs
@@ -296,6 +296,8 @@ impl<'a> ConstraintValidator<'a> {
                 continue; // Never existed
             }
             match xmax {
+                // Gone whether its creator commits or not
+                Some(xmax) if xmax == xmin => continue,
                 // Deleted by ourselves or before we started
                 Some(xmax) if xmax == snapshot.xid() => continue,
                 Some(xmax)
-- 
2.43.0


From 1cbd054199b5d33f0f49fcdd0a8965e0d2ef631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 30/51] fix: freeing a page does not write to the file before
 the next flush

---
 crates/axmos-db/src/io/pager.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index ca84334..524e157 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -495,13 +495,9 @@ impl Pager {
             format!("Cannot deallocate page {id}: it is still in use"),
         ))?;
 
-        let page_size = self.page_size();
-
         // [MemPage::dealloc] consumes itself and creates a new MemPage with an overflow header.
         let deallocated_page = mem_page.dealloc();
-
-        // Here the write needs to write as an overflow page , regardless of the value of [P]
-        deallocated_page.with_bytes(|bytes| self.write_block(id, bytes, page_size))?;
+        deallocated_page.mark_dirty();
         self.cache_frame(deallocated_page)?;
 
         // Set the first free page in the header
-- 
2.43.0


From 35d061ccf7bc63520125ef199f1623d204470e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 31/51] fix: DROP TABLE can be rolled back, takes its indexes
 with it, and VACUUM keeps what a rollback restored

---
 crates/axmos-db/src/lib.rs            |   3 +
 crates/axmos-db/src/runtime/ddl.rs    |  29 +++
 crates/axmos-db/src/schema/base.rs    |  17 +-
 crates/axmos-db/src/schema/catalog.rs | 326 ++++++++++++++------------
 crates/axmos-db/src/schema/mod.rs     |   3 +-
 crates/axmos-db/src/storage/tuple.rs  |  10 +
 6 files changed, 225 insertions(+), 163 deletions(-)

diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index 4b34896..c194cd0 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -492,6 +492,9 @@ impl Database {
         let coordinator = self.coordinator.clone();
 
         let stats = self.task_runner.run_with_result(move |_ctx| {
+            // Nothing is written from here on, also by transactions that begin meanwhile.
+            let _guard = catalog.lock_writes();
+
             // Abort all active transactions
             let aborted_txs = coordinator.abort_all();
             let oldest_active_xid = coordinator.get_last_committed();
diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index 8ad8cd5..d642f10 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -628,6 +628,7 @@ impl DdlExecutor {
                 instr.table_name.clone(),
             )));
         }
+        self.check_name_free(&instr.table_name)?;
 
         let mut columns: Vec<Column> = Vec::with_capacity(instr.columns.len() + 1);
         columns.push(Column::new_with_defaults(DataTypeKind::BigUInt, "row_id"));
@@ -680,6 +681,11 @@ impl DdlExecutor {
                     )));
                 }
             };
+        if !relation.is_table() {
+            return Err(RuntimeError::Catalog(CatalogError::TableNotFound(
+                instr.table_id,
+            )));
+        }
         self.ctx.check_current(instr.table_id)?;
 
         let table_name = relation.name().to_string();
@@ -985,6 +991,13 @@ impl DdlExecutor {
         }
         index_columns.push(Column::new_with_defaults(DataTypeKind::BigUInt, "row_id"));
 
+        if self.relation_exists(index_name) {
+            return Err(RuntimeError::AlreadyExists(DatabaseItem::Index(
+                index_name.to_string(),
+            )));
+        }
+        self.check_name_free(index_name)?;
+
         let object_id = self.ctx.catalog().get_next_object_id();
         let root_page = self.ctx.pager().write().allocate_page::<BtreePage>()?;
 
@@ -1101,6 +1114,22 @@ impl DdlExecutor {
         Ok(())
     }
 
+    /// Refuses a name that a concurrent transaction has given to a relation.
+    fn check_name_free(&self, name: &str) -> RuntimeResult<()> {
+        let is_taken = self.ctx.catalog().is_name_taken(
+            name,
+            &self.ctx.tree_builder(),
+            self.ctx.snapshot(),
+            |xid| self.ctx.is_aborted(xid),
+        )?;
+        if is_taken {
+            return Err(RuntimeError::Other(format!(
+                "relation {name} was created by a concurrent transaction"
+            )));
+        }
+        Ok(())
+    }
+
     fn relation_exists(&self, name: &str) -> bool {
         let snapshot = self.ctx.snapshot();
         let tree_builder = self.ctx.tree_builder();
diff --git a/crates/axmos-db/src/schema/base.rs b/crates/axmos-db/src/schema/base.rs
index bad4131..da41a2b 100644
--- a/crates/axmos-db/src/schema/base.rs
+++ b/crates/axmos-db/src/schema/base.rs
@@ -419,19 +419,10 @@ impl Schema {
     ///
     /// Useful for DELETE ... CASCADE operations.
     pub(crate) fn get_dependants(&self) -> Vec<ObjectId> {
-        let mut deps = Vec::new();
-        if self.is_index() {
-            return deps;
-        };
-
-        for ct in self.table_constraints.as_ref().unwrap() {
-            if let TableConstraint::ForeignKey { info, .. } = ct {
-                deps.push(info.ref_table);
-            };
-        }
-
-        deps.extend(self.table_indexes.as_ref().unwrap().keys());
-        deps
+        self.table_indexes
+            .as_ref()
+            .map(|indexes| indexes.keys().copied().collect())
+            .unwrap_or_default()
     }
 
     /// COllects all the foreign key info for this object
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index c30e55f..77ef1e7 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -409,39 +409,46 @@ impl Catalog {
     ) -> CatalogResult<VacuumStats> {
         let mut stats = VacuumStats::default();
 
-        // Collect all user relations
+        // Collect all user relations. The pages of those no transaction can see any more are freed.
         let schema = meta_table_schema();
-        let relations_to_vacuum: Vec<(ObjectId, PageId, Schema)> = {
+        let mut relations_to_vacuum: Vec<(ObjectId, PageId, Schema)> = Vec::new();
+        let mut dropped: Vec<PageId> = Vec::new();
+        {
             let mut meta_table = builder.build_tree(self.meta_table);
 
             if meta_table.is_empty()? {
                 return Ok(stats);
             }
 
-            let mut relations = Vec::new();
-
-            for iter_result in meta_table.iter_forward()? {
-                if let Ok(pos) = iter_result {
-                    meta_table.with_cell_at(pos, |bytes| {
-                        let reader = TupleReader::from_schema(&schema);
-                        if let Some(layout) = reader.parse_for_snapshot(bytes, snapshot)? {
-                            let tuple = TupleRef::new(bytes, layout);
-                            let row = tuple.to_row_with(&schema)?;
-                            let relation = Relation::from_meta_table_row(row);
-
-                            relations.push((
-                                relation.object_id(),
-                                relation.root(),
-                                relation.schema().clone(),
-                            ));
-                        }
-                        Ok::<(), TupleError>(())
-                    })??;
-                }
+            let reader = TupleReader::from_schema(&schema);
+            for pos in meta_table.iter_forward()? {
+                meta_table.with_cell_at(pos?, |bytes| {
+                    let visible = reader.parse_for_snapshot(bytes, snapshot)?;
+                    let is_visible = visible.is_some();
+                    let layout = match visible {
+                        Some(layout) => layout,
+                        None => reader.parse_last_version(bytes)?,
+                    };
+                    let row = TupleRef::new(bytes, layout).to_row_with(&schema)?;
+                    let relation = Relation::from_meta_table_row(row);
+
+                    if is_visible {
+                        relations_to_vacuum.push((
+                            relation.object_id(),
+                            relation.root(),
+                            relation.into_schema(),
+                        ));
+                    } else {
+                        dropped.push(relation.root());
+                    }
+                    Ok::<(), TupleError>(())
+                })??;
             }
+        }
 
-            relations
-        };
+        for root in dropped {
+            builder.build_tree_mut(root).dealloc()?;
+        }
 
         // Vacuum each user relation
         for (object_id, root, relation_schema) in relations_to_vacuum {
@@ -493,29 +500,47 @@ impl Catalog {
                 return Ok(0);
             }
 
+            let reader = TupleReader::from_schema(schema);
+
             // Vacuum each tuple
             for position in tree.iter_forward()? {
-                if let Ok(pos) = position {
-                    tree.with_cell_at(pos, |bytes| {
-                        let mut tuple = Tuple::from_slice_unchecked(bytes)?;
-                        let xmin = tuple.xmin();
-
-                        let freed = if snapshot.is_transaction_aborted(xmin) || tuple.is_deleted() {
-                            let freed = tuple.full_data().len();
-                            tuples_to_remove.push(tuple);
-                            freed
-                        } else {
-                            let freed = tuple.vaccum_with(oldest_active_xid, snapshot, schema)?;
-                            if freed > 0 {
-                                tuples_to_vaccum.push(tuple);
-                            };
-                            freed
-                        };
-
+                tree.with_cell_at(position?, |bytes| {
+                    let mut tuple = Tuple::from_slice_unchecked(bytes)?;
+
+                    // No transaction is active, so what we do not see nobody will: its creator was
+                    // rolled back or its deletion was committed.
+                    let Some(layout) = reader.parse_for_snapshot(bytes, snapshot)? else {
+                        total_freed += tuple.full_data().len();
+                        tuples_to_remove.push(tuple);
+                        return Ok(());
+                    };
+
+                    // What is left of transactions that were rolled back has to go, as they are
+                    // forgotten afterwards: newer versions and a deletion mark.
+                    let visible = TupleRef::new(bytes, layout);
+                    let is_last = visible.current_version() == visible.global_last_version();
+                    let mut changed = tuple.clear_deletion();
+                    if !is_last {
+                        let row = visible.to_row_with(schema)?;
+                        let rebuilt = TupleBuilder::from_schema(schema)
+                            .build(&row, visible.version_xmin())?;
+                        total_freed += tuple
+                            .full_data()
+                            .len()
+                            .saturating_sub(rebuilt.full_data().len());
+                        tuple = rebuilt;
+                        changed = true;
+                    } else {
+                        let freed = tuple.vaccum_with(oldest_active_xid, snapshot, schema)?;
                         total_freed += freed;
-                        Ok::<(), TupleError>(())
-                    })??;
-                }
+                        changed |= freed > 0;
+                    }
+
+                    if changed {
+                        tuples_to_vaccum.push(tuple);
+                    }
+                    Ok::<(), TupleError>(())
+                })??;
             }
         }
 
@@ -615,8 +640,10 @@ impl Catalog {
         Ok(())
     }
 
-    /// Removes a given relation using the provided
-    /// Cascades the removal if required.
+    /// Removes a given relation and the indexes of a table with it.
+    ///
+    /// Its pages stay until VACUUM: the removal may be rolled back, and transactions that started
+    /// before it still read them.
     pub(crate) fn remove_relation(
         &self,
         rel: Relation,
@@ -624,101 +651,50 @@ impl Catalog {
         snapshot: &Snapshot,
         cascade: bool,
     ) -> CatalogResult<()> {
-        if cascade {
-            let schema = rel.schema();
-            let dependants = schema.get_dependants();
-
-            // Recursively remove object dependants
-            for dep in dependants {
-                let relation = self.get_relation(dep, builder, snapshot)?;
-                self.remove_relation(relation, builder, snapshot, cascade)?;
-            }
-        };
-
-        // First, deallocate the relation.
-        // Deallocate the relation.
-      {
-            let mut tree = builder.build_tree_mut(rel.root());
-            tree.dealloc()?;
+        for dep in rel.schema().get_dependants() {
+            let relation = self.get_relation(dep, builder, snapshot)?;
+            self.remove_relation(relation, builder, snapshot, cascade)?;
         }
 
-        // Obtain the relation metadata
-        let relation_id = rel.object_id();
-        let relation_id_bytes = UInt64(relation_id).serialize()?;
-        let relation_name_bytes = Blob::from(rel.name()).serialize()?;
-
-        // First remove the relation from the meta table
+        let id_bytes = UInt64(rel.object_id()).serialize()?;
         let schema = meta_table_schema();
-        let Some((mut existing_tuple, old_row)) = ({
-            // First remove the relation from the meta table
-
-            let mut meta_table = builder.build_tree(self.meta_table);
-
-            let position = match meta_table.search(&relation_id_bytes, &schema)? {
-                SearchResult::Found(pos) => pos,
-                SearchResult::NotFound(_) => return Ok(()),
-            };
-
-            // Read the existing tuple
-            let tuple_reader = TupleReader::from_schema(&schema);
-            meta_table.with_cell_at(position, |bytes| {
-                if let Some(layout) = tuple_reader.parse_for_snapshot(bytes, &snapshot)? {
-                    let tuple_ref = TupleRef::new(bytes, layout);
-                    let row = tuple_ref.to_row_with(&schema)?;
-                    Ok::<Option<(Tuple, Row)>, TupleError>(Some((Tuple::from_slice_unchecked(bytes)?, row)))
-                } else {
-                    Ok(None)
-                }
-            })??
-        })
-        else {
-            return Ok(())
-        };
-
-
-        existing_tuple.delete(snapshot.xid())?;
-
-        {
-            let mut meta_table = builder.build_tree_mut(self.meta_table);
-            meta_table.update(self.meta_table, existing_tuple, &schema)?;
-        }
+        let position = builder
+            .build_tree(self.meta_table)
+            .search(&id_bytes, &schema)?;
+        self.mark_removed(self.meta_table, position, &schema, builder, snapshot)?;
 
-        // Now do the same with the meta index.
         let schema = meta_index_schema();
-        let Some((mut existing_tuple, old_row)) = ({
-            // First remove the relation from the meta table
-
-            let mut meta_index = builder.build_tree(self.meta_index);
-
-            let position = match meta_index.search(&relation_name_bytes, &schema)? {
-                SearchResult::Found(pos) => pos,
-                SearchResult::NotFound(_) => return Ok(()),
-            };
+        let entry = Self::relation_as_meta_index_tuple(&rel, snapshot.xid())?;
+        let position = builder
+            .build_tree(self.meta_index)
+            .search_tuple(&entry, &schema)?;
+        self.mark_removed(self.meta_index, position, &schema, builder, snapshot)
+    }
 
-            // Read the existing tuple
-            let tuple_reader = TupleReader::from_schema(&schema);
-            meta_index.with_cell_at(position, |bytes| {
-                if let Some(layout) = tuple_reader.parse_for_snapshot(bytes, &snapshot)? {
-                    let tuple_ref = TupleRef::new(bytes, layout);
-                    let row = tuple_ref.to_row_with(&schema)?;
-                    Ok::<Option<(Tuple, Row)>, TupleError>(Some((Tuple::from_slice_unchecked(bytes)?, row)))
-                } else {
-                    Ok(None)
-                }
-            })??
-        })
-        else {
-            return Ok(())
+    /// Marks the tuple found in a catalog tree as deleted, if it is visible.
+    fn mark_removed(
+        &self,
+        root: PageId,
+        position: SearchResult,
+        schema: &Schema,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+    ) -> CatalogResult<()> {
+        let SearchResult::Found(position) = position else {
+            return Ok(());
         };
+        let reader = TupleReader::from_schema(schema);
+        let existing = builder.build_tree(root).with_cell_at(position, |bytes| {
+            match reader.parse_for_snapshot(bytes, snapshot)? {
+                Some(_) => Tuple::from_slice_unchecked(bytes).map(Some),
+                None => Ok(None),
+            }
+        })??;
 
-
-        existing_tuple.delete(snapshot.xid())?;
-
-        {
-            let mut meta_index = builder.build_tree_mut(self.meta_index);
-            meta_index.update(self.meta_index, existing_tuple, &schema)?;
+        if let Some(mut tuple) = existing {
+            tuple.delete(snapshot.xid())?;
+            builder.build_tree_mut(root).update(root, tuple, schema)?;
         }
-
         Ok(())
     }
 
@@ -751,7 +727,7 @@ impl Catalog {
 
         let tuple = Self::relation_as_meta_index_tuple(&relation, transaction_id)?;
 
-        // Will replace existing relation if it exists.
+        // Will replace the entry of the same relation if it exists.
         tree.upsert(self.meta_index, tuple, &schema)?;
 
         let schema = meta_table_schema();
@@ -774,28 +750,80 @@ impl Catalog {
         builder: &BtreeBuilder,
         snapshot: &Snapshot,
     ) -> CatalogResult<ObjectId> {
+        let schema = meta_index_schema();
+        let reader = TupleReader::from_schema(&schema);
+        self.find_name(name, builder, |id, bytes| {
+            Ok(reader.parse_for_snapshot(bytes, snapshot)?.map(|_| id))
+        })?
+        .ok_or_else(|| CatalogError::InvalidObjectName(name.to_string()))
+    }
+
+    /// Whether a concurrent transaction has created a relation with this name, be it committed by
+    /// now or not.
+    pub(crate) fn is_name_taken(
+        &self,
+        name: &str,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+        is_aborted: impl Fn(TransactionId) -> bool,
+    ) -> CatalogResult<bool> {
+        let schema = meta_index_schema();
+        let reader = TupleReader::from_schema(&schema);
+        let found = self.find_name(name, builder, |id, bytes| {
+            let tuple = TupleRef::new(bytes, reader.parse_last_version(bytes)?);
+            let xmin = tuple.version_xmin();
+            let created_by_other = xmin != snapshot.xid()
+                && !snapshot.is_committed_before_snapshot(xmin)
+                && !is_aborted(xmin);
+            // One that its own creator dropped again is gone whether it commits or not.
+            Ok((created_by_other && tuple.version_xmax() != Some(xmin)).then_some(id))
+        })?;
+        Ok(found.is_some())
+    }
+
+    /// Visits the entries with the given name in the meta index. The newest result counts.
+    fn find_name<R>(
+        &self,
+        name: &str,
+        builder: &BtreeBuilder,
+        visit: impl Fn(ObjectId, &[u8]) -> Result<Option<R>, TupleError>,
+    ) -> CatalogResult<Option<R>> {
         let schema = meta_index_schema();
         let mut meta_index = builder.build_tree(self.meta_index);
-        let name = Blob::from(name);
-        let result = meta_index.search(name.as_ref(), &schema)?;
+        if meta_index.is_empty()? {
+            return Ok(None);
+        }
 
-        match result {
-            SearchResult::Found(pos) => {
-                let row = meta_index
-                    .get_row_at(pos, &schema, snapshot)?
-                    .ok_or(CatalogError::InvalidObjectName(name.to_string()))?;
+        // The entries of a name follow the lowest possible one.
+        let key = Row::from(vec![
+            DataType::Blob(Blob::from(name)),
+            DataType::BigUInt(UInt64(0)),
+        ]);
+        let lowest = TupleBuilder::from_schema(&schema).build(&key, 0)?;
+        let reader = TupleReader::from_schema(&schema);
 
-                let object_id = match &row[1] {
-                    DataType::BigUInt(v) => v.value() as ObjectId,
-                    _ => panic!("Invalid object_id type in meta index row"),
+        let mut newest = None;
+        let mut cells = builder.build_tree(self.meta_index);
+        for position in meta_index.iter_from(&lowest, &schema)? {
+            let entry = cells.with_cell_at(position?, |bytes| {
+                let row = TupleRef::new(bytes, reader.parse_last_version(bytes)?)
+                    .to_row_with(&schema)?;
+                let (DataType::Blob(entry_name), DataType::BigUInt(id)) = (&row[0], &row[1]) else {
+                    panic!("Invalid types in meta index row");
                 };
+                if entry_name.as_str().ok() != Some(name) {
+                    return Ok(None);
+                }
+                Ok::<_, TupleError>(Some(visit(id.value(), bytes)?))
+            })??;
 
-                return Ok(object_id);
-            }
-            SearchResult::NotFound(_) => {
-                return Err(CatalogError::InvalidObjectName(name.to_string()));
-            }
-        };
+            let Some(result) = entry else {
+                break;
+            };
+            newest = result.or(newest);
+        }
+
+        Ok(newest)
     }
 
     pub(crate) fn get_next_object_id(&self) -> ObjectId {
diff --git a/crates/axmos-db/src/schema/mod.rs b/crates/axmos-db/src/schema/mod.rs
index 446e0dd..6b2e847 100644
--- a/crates/axmos-db/src/schema/mod.rs
+++ b/crates/axmos-db/src/schema/mod.rs
@@ -32,9 +32,10 @@ pub(crate) fn meta_index_schema() -> Schema {
     Schema::new_index(
         vec![
             Column::new_with_defaults(DataTypeKind::Blob, "name").with_non_null_constraint(),
+            // Part of the key, so that a dropped relation and its successors have an entry each.
             Column::new_with_defaults(DataTypeKind::BigUInt, "row_id"),
         ],
-        1,
+        2,
     )
 }
 
diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index 0fc1864..0af990b 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -1280,6 +1280,16 @@ impl Tuple {
         Ok(())
     }
 
+    /// Removes the deletion mark. Returns whether there was one.
+    pub(crate) fn clear_deletion(&mut self) -> bool {
+        let buffer = self.data.effective_data_mut();
+        let (mut header, _) = TupleHeader::read_from(buffer, 0);
+        let was_deleted = header.xmax().is_some();
+        header.xmax = -1;
+        header.write_to(buffer, 0);
+        was_deleted
+    }
+
     /// Vacuums the tuple by removing all delta versions that are no longer needed
     /// by any active transaction.
     ///
-- 
2.43.0


From 83b2312304b5afe593a07cea98a671f14cae3303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 32/51] fix: padding behind the last version of a stored row is
 not read as another version

---
 crates/axmos-db/src/storage/tuple.rs | 105 +++++++++++++++++----------
 1 file changed, 65 insertions(+), 40 deletions(-)

diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index 0af990b..faa35ea 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -532,56 +532,81 @@ impl<'a> TupleReader<'a> {
             return Ok(layout);
         }
 
-        let num_values = self.schema.num_values();
-        let bitmap_size = null_bitmap_size(num_values);
         let mut cursor = layout.delta_start();
 
-        // Delta layout: [DeltaHeader][num_changes: u8][full_bitmap][changes...]
-        while cursor < data.len() {
-            let (delta_header, header_end) = DeltaHeader::read_from(data, cursor);
-            cursor = header_end;
+        while DeltaHeader::aligned_offset(cursor) < data.len() {
+            cursor = self.apply_delta(data, cursor, &mut layout)?;
 
-            layout.version_xmax = Some(layout.version_xmin);
-            layout.version = delta_header.version();
-            layout.version_xmin = delta_header.xmin();
+            if layout.current_version() == target_version {
+                break;
+            }
+        }
 
-            // Read number of changes
-            let num_changes = data[cursor] as usize;
-            cursor += 1;
+        Ok(layout)
+    }
 
-            // Delta's FULL null bitmap
-            layout.null_bitmap_start = cursor;
-            let delta_bitmap = &data[cursor..cursor + bitmap_size];
-            cursor += bitmap_size;
+    /// Turns the layout of a version into that of the version before it, whose delta is at the
+    /// cursor. Returns where the next delta starts.
+    fn apply_delta(
+        &self,
+        data: &[u8],
+        cursor: usize,
+        layout: &mut TupleLayout,
+    ) -> TupleResult<usize> {
+        let bitmap_size = null_bitmap_size(self.schema.num_values());
 
-            // Parse changes - only non-null values have data
-            for _ in 0..num_changes {
-                let field_idx = data[cursor] as usize;
-                cursor += 1;
+        // Delta layout: [DeltaHeader][num_changes: u8][full_bitmap][changes...]
+        let (delta_header, header_end) = DeltaHeader::read_from(data, cursor);
+        let mut cursor = header_end;
 
-                // Check if this field is null using the delta's full bitmap
-                let is_null = Self::check_null(delta_bitmap, field_idx);
+        layout.version_xmax = Some(layout.version_xmin);
+        layout.version = delta_header.version();
+        layout.version_xmin = delta_header.xmin();
 
-                if !is_null {
-                    let dtype = self
-                        .schema
-                        .value(field_idx)
-                        .ok_or(TupleError::ValueError(field_idx))?
-                        .datatype();
+        // Read number of changes
+        let num_changes = data[cursor] as usize;
+        cursor += 1;
 
-                    layout.value_offsets[field_idx] = cursor;
-                    let (_, new_cursor) = dtype.deserialize(data, cursor)?;
-                    cursor = new_cursor;
-                }
-                // If null offset does not matter.
-            }
+        // Delta's FULL null bitmap
+        layout.null_bitmap_start = cursor;
+        let delta_bitmap = &data[cursor..cursor + bitmap_size];
+        cursor += bitmap_size;
 
-            if layout.current_version() == target_version {
-                break;
+        // Parse changes - only non-null values have data
+        for _ in 0..num_changes {
+            let field_idx = data[cursor] as usize;
+            cursor += 1;
+
+            // Check if this field is null using the delta's full bitmap
+            let is_null = Self::check_null(delta_bitmap, field_idx);
+
+            if !is_null {
+                let dtype = self
+                    .schema
+                    .value(field_idx)
+                    .ok_or(TupleError::ValueError(field_idx))?
+                    .datatype();
+
+                layout.value_offsets[field_idx] = cursor;
+                let (_, new_cursor) = dtype.deserialize(data, cursor)?;
+                cursor = new_cursor;
             }
+            // If null offset does not matter.
         }
 
-        Ok(layout)
+        Ok(cursor)
+    }
+
+    /// Parses all the versions of the tuple, the last one first.
+    pub(crate) fn parse_versions(&self, data: &[u8]) -> TupleResult<Vec<TupleLayout>> {
+        let mut layout = self.parse_last_version(data)?;
+        let mut cursor = layout.delta_start();
+        let mut versions = vec![layout.clone()];
+        while DeltaHeader::aligned_offset(cursor) < data.len() {
+            cursor = self.apply_delta(data, cursor, &mut layout)?;
+            versions.push(layout.clone());
+        }
+        Ok(versions)
     }
 
     /// Parses a byte array for a specific snapshot.
@@ -608,7 +633,7 @@ impl<'a> TupleReader<'a> {
         let bitmap_size = null_bitmap_size(num_values);
         let mut cursor = layout.delta_start();
 
-        while cursor < data.len() {
+        while DeltaHeader::aligned_offset(cursor) < data.len() {
             let (delta_header, header_end) = DeltaHeader::read_from(data, cursor);
             cursor = header_end;
 
@@ -1319,7 +1344,7 @@ impl Tuple {
         let mut last_needed_end = layout.delta_start();
         let mut superseded_by = layout.version_xmin();
 
-        while cursor < self.data.len() {
+        while DeltaHeader::aligned_offset(cursor) < self.data.len() {
             let (delta_header, header_end) =
                 DeltaHeader::read_from(self.data.effective_data(), cursor);
 
@@ -1402,7 +1427,7 @@ impl Tuple {
         let mut cursor = layout.delta_start();
         let mut count = 1;
 
-        while cursor < self.data.len() {
+        while DeltaHeader::aligned_offset(cursor) < self.data.len() {
             let (_, header_end) = DeltaHeader::read_from(self.data.effective_data(), cursor);
             let num_changes = self.data.effective_data()[header_end] as usize;
             let bitmap_start = header_end + 1;
-- 
2.43.0


From c62804727b32fe33f4b96a666074090fc7211088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 33/51] fix: ALTER TABLE gives existing rows the new shape,
 column defaults are applied, SET NOT NULL and PRIMARY KEY check the rows

---
 crates/axmos-db/src/lib.rs               |   3 +-
 crates/axmos-db/src/runtime/ddl.rs       | 278 +++++++++++++++++++++--
 crates/axmos-db/src/runtime/dml.rs       |   6 +-
 crates/axmos-db/src/schema/base.rs       |  33 +++
 crates/axmos-db/src/schema/catalog.rs    |  32 +--
 crates/axmos-db/src/sql/binder/binder.rs |  23 +-
 6 files changed, 339 insertions(+), 36 deletions(-)

diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index c194cd0..374fbfc 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -511,8 +511,9 @@ impl Database {
             let tree_builder = tx_ctx.tree_builder();
             let vacuum_snapshot = tx_ctx.snapshot();
 
+            // Every transaction from now on sees what has been committed before this one.
             let mut stats = catalog
-                .vacuum(&tree_builder, &vacuum_snapshot, oldest_active_xid)
+                .vacuum(&tree_builder, &vacuum_snapshot, vacuum_snapshot.xid())
                 .map_err(box_err)?;
 
             // Clean up transaction coordinator
diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index d642f10..13b873d 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -25,7 +25,7 @@ use crate::{
     sql::binder::bounds::*,
     storage::{
         page::BtreePage,
-        tuple::{Row, TupleBuilder, TupleError, TupleReader, TupleRef},
+        tuple::{Row, Tuple, TupleBuilder, TupleError, TupleReader, TupleRef},
     },
     types::{
         Blob, DataType, DataTypeKind, ObjectId, SerializationError, SerializationResult,
@@ -336,8 +336,10 @@ impl AlterActionInstr {
     pub fn try_inverse_with(&self, schema: &Schema) -> SchemaResult<Self> {
         match self {
             Self::AddColumn { column, .. } => {
-                let idx = schema.bind_column(column.name())?;
-                Ok(Self::DropColumn { column_idx: idx })
+                let idx = schema.bind_column(column.name());
+                Ok(Self::DropColumn {
+                    column_idx: idx.unwrap_or(schema.num_columns()),
+                })
             }
             Self::DropColumn { column_idx, .. } => {
                 let column = schema
@@ -584,7 +586,9 @@ impl DdlExecutor {
                 let action = match action_type {
                     BoundAlterColumnAction::SetDefault(expr) => {
                         let new_default =
-                            eval_literal_expr(expr).and_then(|dt| dt.serialize().ok());
+                            eval_literal_expr(expr)
+                                .filter(|dt| !dt.is_null())
+                                .and_then(|dt| dt.serialize().ok());
                         AlterColumnActionInstr::SetDefault {
                             old_default: column.default.clone(),
                             new_default,
@@ -634,6 +638,22 @@ impl DdlExecutor {
         columns.push(Column::new_with_defaults(DataTypeKind::BigUInt, "row_id"));
         columns.extend(instr.columns.iter().cloned());
 
+        // Check the names of all its indexes before anything is stored.
+        let mut names = HashSet::from([instr.table_name.clone()]);
+        for constraint in &instr.constraints {
+            if let TableConstraint::PrimaryKey(ids) | TableConstraint::Unique(ids) = constraint {
+                let col_names: Vec<String> = ids
+                    .iter()
+                    .filter_map(|id| columns.get(*id).map(|c| c.name().to_string()))
+                    .collect();
+                let name = index_name(&col_names, &instr.table_name);
+                self.check_index_name(&name)?;
+                if !names.insert(name.clone()) {
+                    return Err(RuntimeError::AlreadyExists(DatabaseItem::Index(name)));
+                }
+            }
+        }
+
         let object_id = self.ctx.catalog().get_next_object_id();
         let root_page = self.ctx.pager().write().allocate_page::<BtreePage>()?;
 
@@ -735,6 +755,7 @@ impl DdlExecutor {
         self.ctx.catalog().update_relation(
             instr.table_id,
             None,
+            None,
             Some(table.into_schema()),
             None,
             &tree_builder,
@@ -803,11 +824,14 @@ impl DdlExecutor {
         let action_desc = self.apply_alter_action(&mut relation, &instr.action)?;
 
         let id = relation.object_id();
+        let root = relation.root();
+        let stats = relation.stats().cloned();
         self.ctx.catalog().update_relation(
             id,
             None,
+            Some(root),
             Some(relation.into_schema()),
-            None,
+            stats,
             &tree_builder,
             self.ctx.snapshot(),
         )?;
@@ -832,21 +856,48 @@ impl DdlExecutor {
         match action {
             AlterActionInstr::AddColumn { column } => {
                 let name = column.name().to_string();
+                let rows = self.read_rows(relation)?;
+                let default = column.default_value()?;
+                if column.is_non_null && default.is_null() && !rows.is_empty() {
+                    return Err(Self::null_values(&name));
+                }
                 relation.add_column(column.clone())?;
+                self.rewrite_table(relation, rows, |mut row| {
+                    row.push(default.clone());
+                    Ok(row)
+                })?;
                 Ok(format!("ADD COLUMN {}", name))
             }
             AlterActionInstr::DropColumn { column_idx } => {
-                let schema = relation.schema_mut();
+                let schema = relation.schema();
                 if *column_idx < schema.num_keys() {
                     return Err(RuntimeError::CannotUpdateKeyColumn);
                 }
+                if schema.num_values() == 1 {
+                    return Err(RuntimeError::Other(
+                        "cannot drop the only column of a table".to_string(),
+                    ));
+                }
 
                 let name = schema
                     .column(*column_idx)
                     .ok_or(SchemaError::ColumnIndexOutOfBounds(*column_idx))?
                     .name()
                     .to_string();
-                schema.remove_column_unchecked(*column_idx);
+                let rows = self.read_rows(relation)?;
+                for index in self.indexes_on(relation, *column_idx)? {
+                    self.ctx.catalog().remove_relation(
+                        index,
+                        &self.ctx.tree_builder(),
+                        self.ctx.snapshot(),
+                        false,
+                    )?;
+                }
+                relation.schema_mut().remove_column_unchecked(*column_idx);
+                self.rewrite_table(relation, rows, |mut row| {
+                    row.remove(*column_idx);
+                    Ok(row)
+                })?;
                 Ok(format!("DROP COLUMN {}", name))
             }
             AlterActionInstr::AlterColumn { column_idx, action } => {
@@ -858,12 +909,193 @@ impl DdlExecutor {
         }
     }
 
+    /// The rows of a table, which no concurrent transaction may have changed.
+    fn read_rows(&self, relation: &Relation) -> RuntimeResult<Vec<Row>> {
+        let snapshot = self.ctx.snapshot();
+        let schema = relation.schema();
+        let mut rows = Vec::new();
+
+        let mut tree = self.ctx.build_tree(relation.root());
+        if tree.is_empty()? {
+            return Ok(rows);
+        }
+
+        let reader = TupleReader::from_schema(schema);
+        let mut cells = self.ctx.build_tree(relation.root());
+        for pos in tree.iter_forward()? {
+            let (row, xmin, xmax) = cells.with_cell_at(pos?, |bytes| {
+                let row = reader
+                    .parse_for_snapshot(bytes, snapshot)?
+                    .map(|layout| TupleRef::new(bytes, layout).to_row_with(schema))
+                    .transpose()?;
+                let last = TupleRef::new(bytes, reader.parse_last_version(bytes)?);
+                Ok::<_, TupleError>((row, last.version_xmin(), last.version_xmax()))
+            })??;
+
+            let is_concurrent = |xid| {
+                xid != snapshot.xid()
+                    && !snapshot.is_committed_before_snapshot(xid)
+                    && !self.ctx.is_aborted(xid)
+            };
+            if is_concurrent(xmin) || xmax.is_some_and(is_concurrent) {
+                return Err(RuntimeError::Other(format!(
+                    "rows of {} were changed by a concurrent transaction",
+                    relation.name()
+                )));
+            }
+            rows.extend(row);
+        }
+        Ok(rows)
+    }
+
+    /// Gives a table a new tree, whose rows have the shape of its schema. Transactions that do not
+    /// see this change keep reading the old one.
+    fn rewrite_table(
+        &mut self,
+        relation: &mut Relation,
+        rows: Vec<Row>,
+        reshape: impl Fn(Vec<DataType>) -> RuntimeResult<Vec<DataType>>,
+    ) -> RuntimeResult<()> {
+        let xid = self.ctx.snapshot().xid();
+        let tuples = rows
+            .into_iter()
+            .map(|row| {
+                let row = Row::from(reshape(row.into_inner().into_vec())?);
+                Ok(TupleBuilder::from_schema(relation.schema()).build(&row, xid)?)
+            })
+            .collect::<RuntimeResult<Vec<Tuple>>>()?;
+
+        let root = self.ctx.pager().write().allocate_page::<BtreePage>()?;
+        let mut tree = self.ctx.build_tree_mut(root);
+        for tuple in tuples {
+            tree.insert(root, tuple, relation.schema())?;
+        }
+        relation.set_root_page(root);
+
+        // What is known about the columns no longer applies.
+        if let Some(mut stats) = relation.stats().cloned() {
+            stats.column_stats.clear();
+            *relation = relation.clone().with_stats(stats);
+        }
+        Ok(())
+    }
+
+    /// The indexes of a table that contain the column.
+    fn indexes_on(&self, relation: &Relation, column_idx: usize) -> RuntimeResult<Vec<Relation>> {
+        let mut indexes = Vec::new();
+        for index in relation.get_indexes() {
+            if index.indexed_column_ids().contains(&column_idx) {
+                indexes.push(self.ctx.catalog().get_relation(
+                    index.id(),
+                    &self.ctx.tree_builder(),
+                    self.ctx.snapshot(),
+                )?);
+            }
+        }
+        Ok(indexes)
+    }
+
+    fn null_values(column: &str) -> RuntimeError {
+        RuntimeError::Schema(SchemaError::ConstraintViolation(format!(
+            "column {column} contains null values"
+        )))
+    }
+
+    /// Fails if one of the columns is NULL in a row of the table.
+    fn check_not_null(&self, relation: &Relation, columns: &[usize]) -> RuntimeResult<()> {
+        for row in self.read_rows(relation)? {
+            for idx in columns {
+                if row.as_slice().get(*idx).is_none_or(|value| value.is_null()) {
+                    let column = relation.schema().column(*idx);
+                    return Err(Self::null_values(column.map_or("", |c| c.name())));
+                }
+            }
+        }
+        Ok(())
+    }
+
+    /// Converts a column to another type, and rebuilds its indexes.
+    fn change_data_type(
+        &mut self,
+        relation: &mut Relation,
+        column_idx: usize,
+        new_type: u8,
+    ) -> RuntimeResult<()> {
+        let rows = self.read_rows(relation)?;
+        let indexes = self.indexes_on(relation, column_idx)?;
+
+        let column = relation
+            .schema_mut()
+            .column_mut(column_idx)
+            .ok_or(SchemaError::ColumnIndexOutOfBounds(column_idx))?;
+        let default = column.default_value()?;
+        column.dtype = new_type;
+        let kind = column.datatype();
+        column.default = match default.try_cast(kind)? {
+            DataType::Null => None,
+            value => Some(value.serialize()?),
+        };
+        let mut reshaped = Vec::with_capacity(rows.len());
+        for row in rows {
+            let mut row = row.into_inner().into_vec();
+            row[column_idx] = row[column_idx].try_cast(kind)?;
+            reshaped.push(Row::from(row));
+        }
+
+        // Distinct values may become the same one.
+        for handle in relation.get_indexes() {
+            let columns = handle.indexed_column_ids();
+            if !columns.contains(&column_idx) {
+                continue;
+            }
+            let mut seen = HashSet::new();
+            for row in &reshaped {
+                let key: Vec<DataType> = columns.iter().map(|idx| row[*idx].clone()).collect();
+                if !key.iter().any(|value| value.is_null()) && !seen.insert(key) {
+                    return Err(RuntimeError::Other(format!(
+                        "UNIQUE constraint violated by existing rows of {}",
+                        relation.name()
+                    )));
+                }
+            }
+        }
+        self.rewrite_table(relation, reshaped, Ok)?;
+
+        for index in indexes {
+            let name = index.name().to_string();
+            let columns = relation
+                .schema_mut()
+                .table_indexes
+                .as_mut()
+                .and_then(|indexes| indexes.remove(&index.object_id()))
+                .unwrap_or_default();
+            self.ctx.catalog().remove_relation(
+                index,
+                &self.ctx.tree_builder(),
+                self.ctx.snapshot(),
+                false,
+            )?;
+            self.create_unique_index(relation, &name, &columns)?;
+        }
+        Ok(())
+    }
+
     fn apply_column_alter(
-        &self,
+        &mut self,
         relation: &mut Relation,
         column_idx: usize,
         action: &AlterColumnActionInstr,
     ) -> RuntimeResult<String> {
+        match action {
+            AlterColumnActionInstr::SetNotNull { .. } => {
+                self.check_not_null(relation, &[column_idx])?;
+            }
+            AlterColumnActionInstr::SetDataType { new_type, .. } => {
+                self.change_data_type(relation, column_idx, *new_type)?;
+            }
+            _ => {}
+        }
+
         let schema = relation.schema_mut();
         let column = schema
             .columns
@@ -885,9 +1117,7 @@ impl DdlExecutor {
             AlterColumnActionInstr::DropNotNull { .. } => {
                 column.is_non_null = false;
             }
-            AlterColumnActionInstr::SetDataType { new_type, .. } => {
-                column.dtype = *new_type;
-            }
+            AlterColumnActionInstr::SetDataType { .. } => {}
         }
 
         Ok(format!("ALTER COLUMN {}", column_name))
@@ -903,6 +1133,7 @@ impl DdlExecutor {
                 if relation.schema().has_primary_key() {
                     return Err(RuntimeError::Schema(SchemaError::DuplicatePrimaryKey));
                 }
+                self.check_not_null(relation, col_indices)?;
 
                 {
                     let schema_mut = relation.schema_mut();
@@ -991,12 +1222,7 @@ impl DdlExecutor {
         }
         index_columns.push(Column::new_with_defaults(DataTypeKind::BigUInt, "row_id"));
 
-        if self.relation_exists(index_name) {
-            return Err(RuntimeError::AlreadyExists(DatabaseItem::Index(
-                index_name.to_string(),
-            )));
-        }
-        self.check_name_free(index_name)?;
+        self.check_index_name(index_name)?;
 
         let object_id = self.ctx.catalog().get_next_object_id();
         let root_page = self.ctx.pager().write().allocate_page::<BtreePage>()?;
@@ -1004,13 +1230,17 @@ impl DdlExecutor {
         let index_relation =
             Relation::index(object_id, index_name, root_page, index_columns, num_keys);
 
-        self.populate_index(
+        let populated = self.populate_index(
             table.root(),
             table.schema(),
             root_page,
             index_relation.schema(),
             indexed_column_ids,
-        )?;
+        );
+        if populated.is_err() {
+            self.ctx.build_tree_mut(root_page).dealloc()?;
+        }
+        populated?;
 
         let snapshot = self.ctx.snapshot();
         let tree_builder = self.ctx.tree_builder();
@@ -1114,6 +1344,16 @@ impl DdlExecutor {
         Ok(())
     }
 
+    /// Refuses a name that a new index cannot have.
+    fn check_index_name(&self, name: &str) -> RuntimeResult<()> {
+        if self.relation_exists(name) {
+            return Err(RuntimeError::AlreadyExists(DatabaseItem::Index(
+                name.to_string(),
+            )));
+        }
+        self.check_name_free(name)
+    }
+
     /// Refuses a name that a concurrent transaction has given to a relation.
     fn check_name_free(&self, name: &str) -> RuntimeResult<()> {
         let is_taken = self.ctx.catalog().is_name_taken(
diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index 78e9276..d3c4ed9 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -299,6 +299,7 @@ impl DmlExecutor {
             Some(row_id.value() + 1),
             None,
             None,
+            None,
             &tree_builder,
             &snapshot,
         )?;
@@ -514,7 +515,10 @@ impl DmlExecutor {
         row_id: UInt64,
     ) -> RuntimeResult<Row> {
         let num_cols = schema.num_columns();
-        let mut full_values: Vec<DataType> = vec![DataType::Null; num_cols];
+        let mut full_values: Vec<DataType> = schema
+            .iter_columns()
+            .map(|column| column.default_value())
+            .collect::<Result<_, _>>()?;
 
         // First column is always the row ID (primary key)
         full_values[0] = DataType::BigUInt(row_id);
diff --git a/crates/axmos-db/src/schema/base.rs b/crates/axmos-db/src/schema/base.rs
index da41a2b..caa9f22 100644
--- a/crates/axmos-db/src/schema/base.rs
+++ b/crates/axmos-db/src/schema/base.rs
@@ -83,6 +83,7 @@ impl From<&BoundColumnDef> for Column {
             .default
             .as_ref()
             .and_then(|expr| eval_literal_expr(expr))
+            .filter(|dt| !dt.is_null())
             .and_then(|dt: DataType| dt.serialize().ok());
 
         col
@@ -152,11 +153,32 @@ impl Schema {
     }
 
     // Remove a column from the schema without checking if it  exists
+    //
+    // The constraints and indexes it is part of go with it.
     pub(crate) fn remove_column_unchecked(&mut self, index: usize) {
         assert!(index >= self.num_keys, "Cannot remove key columns");
         // Remove from columns vector
         self.columns.remove(index);
         self.reindex();
+
+        // The columns after it move up.
+        let shift = |columns: &mut Vec<usize>| {
+            let is_kept = !columns.contains(&index);
+            for column in columns.iter_mut().filter(|column| **column > index) {
+                *column -= 1;
+            }
+            is_kept
+        };
+        if let Some(constraints) = self.table_constraints.as_mut() {
+            constraints.retain_mut(|constraint| match constraint {
+                TableConstraint::PrimaryKey(columns)
+                | TableConstraint::Unique(columns)
+                | TableConstraint::ForeignKey { columns, .. } => shift(columns),
+            });
+        }
+        if let Some(indexes) = self.table_indexes.as_mut() {
+            indexes.retain(|_, columns| shift(columns));
+        }
     }
 
     pub(crate) fn new_empty() -> Self {
@@ -601,6 +623,17 @@ impl Column {
         Ok(self)
     }
 
+    /// The value the column takes in rows that do not give it one.
+    pub(crate) fn default_value(&self) -> SerializationResult<DataType> {
+        let Some(bytes) = &self.default else {
+            return Ok(DataType::Null);
+        };
+        let mut aligned = AlignedVec::<16>::new();
+        aligned.extend_from_slice(bytes);
+        let (value, _) = self.datatype().deserialize(&aligned, 0)?;
+        Ok(value.to_owned().unwrap_or(DataType::Null))
+    }
+
     /// Add a non null constraint to the column
     pub(crate) fn with_non_null_constraint(mut self) -> Self {
         self.is_non_null = true;
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 77ef1e7..f05c624 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -391,7 +391,7 @@ impl Catalog {
                 continue;
             };
 
-            self.update_relation(id, None, None, Some(stats), &builder, &snapshot)?;
+            self.update_relation(id, None, None, None, Some(stats), &builder, &snapshot)?;
         }
 
         Ok(())
@@ -409,7 +409,8 @@ impl Catalog {
     ) -> CatalogResult<VacuumStats> {
         let mut stats = VacuumStats::default();
 
-        // Collect all user relations. The pages of those no transaction can see any more are freed.
+        // Collect all user relations. The pages of those no transaction can see any more are freed,
+        // and so are those a relation had before it was altered.
         let schema = meta_table_schema();
         let mut relations_to_vacuum: Vec<(ObjectId, PageId, Schema)> = Vec::new();
         let mut dropped: Vec<PageId> = Vec::new();
@@ -423,24 +424,23 @@ impl Catalog {
             let reader = TupleReader::from_schema(&schema);
             for pos in meta_table.iter_forward()? {
                 meta_table.with_cell_at(pos?, |bytes| {
-                    let visible = reader.parse_for_snapshot(bytes, snapshot)?;
-                    let is_visible = visible.is_some();
-                    let layout = match visible {
-                        Some(layout) => layout,
-                        None => reader.parse_last_version(bytes)?,
-                    };
-                    let row = TupleRef::new(bytes, layout).to_row_with(&schema)?;
-                    let relation = Relation::from_meta_table_row(row);
+                    let mut roots = HashSet::new();
+                    for layout in reader.parse_versions(bytes)? {
+                        let row = TupleRef::new(bytes, layout).to_row_with(&schema)?;
+                        roots.insert(Relation::from_meta_table_row(row).root());
+                    }
 
-                    if is_visible {
+                    if let Some(layout) = reader.parse_for_snapshot(bytes, snapshot)? {
+                        let row = TupleRef::new(bytes, layout).to_row_with(&schema)?;
+                        let relation = Relation::from_meta_table_row(row);
+                        roots.remove(&relation.root());
                         relations_to_vacuum.push((
                             relation.object_id(),
                             relation.root(),
                             relation.into_schema(),
                         ));
-                    } else {
-                        dropped.push(relation.root());
                     }
+                    dropped.extend(roots);
                     Ok::<(), TupleError>(())
                 })??;
             }
@@ -571,6 +571,7 @@ impl Catalog {
         &self,
         relation_id: ObjectId,
         new_row_id: Option<u64>,
+        new_root: Option<PageId>,
         new_schema: Option<Schema>,
         new_stats: Option<Stats>,
         builder: &BtreeBuilder,
@@ -624,6 +625,11 @@ impl Catalog {
             changes.insert(col_id, DataType::BigUInt(UInt64::from(id)));
         }
 
+        if let Some(root) = new_root {
+            let col_id = schema.bind_value("root_page")?;
+            changes.insert(col_id, DataType::BigUInt(UInt64::from(root)));
+        }
+
         if let Some(table_schema) = new_schema {
             let col_id = schema.bind_value("schema")?;
             changes.insert(col_id, DataType::Blob(table_schema.to_blob()?));
diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 360f506..ef6d848 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -3,6 +3,7 @@
 use crate::{
     io::pager::BtreeBuilder,
     multithreading::coordinator::Snapshot,
+    runtime::eval::ExpressionEvaluator,
     schema::{
         SharedCatalog,
         base::{Column, Schema, SchemaError, SchemaResult},
@@ -14,6 +15,7 @@ use crate::{
         TableReference, TransactionStatement, UnaryOperator, UpdateStatement, Values,
         WithStatement,
     },
+    storage::tuple::Row,
     types::{DataType, DataTypeKind},
 };
 
@@ -581,7 +583,7 @@ impl<'a> Binder<'a> {
         let default = col
             .default
             .as_ref()
-            .map(|e| self.bind_literal_expr(e))
+            .map(|e| self.bind_default(e, col.data_type))
             .transpose()?;
 
         Ok(BoundColumnDef {
@@ -685,7 +687,11 @@ impl<'a> Binder<'a> {
                 let action_type = match &alter.action {
                     AlterColumnAction::SetDataType(dt) => BoundAlterColumnAction::SetDataType(*dt),
                     AlterColumnAction::SetDefault(e) => {
-                        BoundAlterColumnAction::SetDefault(self.bind_literal_expr(e)?)
+                        let dtype = schema
+                            .column(col_idx)
+                            .ok_or_else(|| BinderError::ColumnNotFound(alter.name.clone()))?
+                            .datatype();
+                        BoundAlterColumnAction::SetDefault(self.bind_default(e, dtype)?)
                     }
                     AlterColumnAction::DropDefault => BoundAlterColumnAction::DropDefault,
                     AlterColumnAction::SetNotNull => BoundAlterColumnAction::SetNotNull,
@@ -965,6 +971,19 @@ impl<'a> Binder<'a> {
     }
 
     /// Bind expressions that don't require table scope (literals, constants)
+    /// Binds the default of a column: a constant expression, evaluated to a value of its type.
+    fn bind_default(&mut self, expr: &Expr, dtype: DataTypeKind) -> BinderResult<BoundExpression> {
+        let bound = self.bind_literal_expr(expr)?;
+        let row = Row::new_empty();
+        let schema = Schema::new_empty();
+        let value = ExpressionEvaluator::new(&row, &schema)
+            .evaluate_as_single_value(&bound)
+            .map_err(|e| BinderError::InvalidExpression(e.to_string()))?
+            .try_cast(dtype)
+            .map_err(|e| BinderError::InvalidExpression(e.to_string()))?;
+        Ok(BoundExpression::Literal { value })
+    }
+
     fn bind_literal_expr(&mut self, expr: &Expr) -> BinderResult<BoundExpression> {
         match expr {
             Expr::Number(n) => Ok(self.bind_number(*n)),
-- 
2.43.0


From 2161b7d020b253f0a053cf6091a6fbdd2cdf7aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 34/51] fix: scans release the pages they have read

---
 crates/axmos-db/src/tree/bplustree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/axmos-db/src/tree/bplustree.rs b/crates/axmos-db/src/tree/bplustree.rs
index 9729092..630bfea 100644
--- a/crates/axmos-db/src/tree/bplustree.rs
+++ b/crates/axmos-db/src/tree/bplustree.rs
@@ -531,6 +531,7 @@ where
         let page_id = pos.entry();
         let slot = pos.slot();
         let mut reassembler = Reassembler::new(self.get_pager().clone());
+        let held = self.accessor()?.contains(page_id);
         let page = self.get_page(page_id)?;
         let cell = page.cell(slot);
 
@@ -541,6 +542,11 @@ where
             f(cell.effective_data())
         };
 
+        // A scan reads all pages of a tree, which can be more than the cache holds.
+        if !held {
+            self.accessor_mut()?.release(page_id);
+        }
+
         Ok(result)
     }
 
-- 
2.43.0


From 316a1760c454cabc3df462c59ce77b4e49c520c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 35/51] fix: rolled-back transactions beyond the header's
 bitmap stay rolled back after reopen

---
 crates/axmos-db/src/io/pager.rs     | 71 ++++++++++++++++++++++++++++-
 crates/axmos-db/src/storage/page.rs |  3 ++
 2 files changed, 72 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index 524e157..2e354fd 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -11,7 +11,7 @@ use crate::{
     multithreading::frames::{AsReadLatch, AsWriteLatch, Frame, MemFrame},
     storage::{
         core::{buffer::MemBlock, traits::Buffer},
-        page::{OverflowPage, PageZero, PageZeroHeader},
+        page::{MAX_TRACKED_ABORTED_TXS, OverflowPage, PageZero, PageZeroHeader},
     },
     tree::{
         accessor::{BtreeReadAccessor, BtreeWriteAccessor, TreeReader, TreeWriter},
@@ -21,6 +21,7 @@ use crate::{
 };
 
 use std::{
+    collections::BTreeSet,
     io::{self, Error as IoError, ErrorKind, Read, Seek, SeekFrom, Write},
     path::Path,
 };
@@ -31,6 +32,8 @@ pub struct Pager {
     wal: WriteAheadLog,
     cache: PageCache,
     db_header: Option<PageZeroHeader>, // Page zero header is always in memory
+    aborted_beyond: BTreeSet<TransactionId>, // Aborted transactions the bitmap has no room for
+    aborted_changed: bool,             // The list above is not as it is on disk
 }
 
 impl<'a> FileOperations for Pager {
@@ -49,6 +52,8 @@ impl<'a> FileOperations for Pager {
             cache,
             wal,
             db_header: None,
+            aborted_beyond: BTreeSet::new(),
+            aborted_changed: false,
         })
     }
 
@@ -68,10 +73,13 @@ impl<'a> FileOperations for Pager {
             cache,
             wal,
             db_header: None,
+            aborted_beyond: BTreeSet::new(),
+            aborted_changed: false,
         };
 
         let page_zero = pager.load_page_zero(block_size)?;
         pager.db_header = Some(*page_zero.metadata());
+        pager.load_aborted_list()?;
 
         Ok(pager)
     }
@@ -167,15 +175,73 @@ impl Pager {
     }
 
     pub(crate) fn mark_transaction_aborted(&mut self, txid: TransactionId) {
+        if txid >= MAX_TRACKED_ABORTED_TXS as u64 {
+            self.aborted_changed |= self.aborted_beyond.insert(txid);
+            return;
+        }
         self.header_unchecked_mut().mark_transaction_aborted(txid);
     }
 
     pub(crate) fn get_aborted_transactions(&self) -> Vec<TransactionId> {
-        self.header_unchecked().get_aborted_transactions()
+        let mut aborted = self.header_unchecked().get_aborted_transactions();
+        aborted.extend(&self.aborted_beyond);
+        aborted
     }
 
     pub(crate) fn clear_aborted_up_to(&mut self, max_txid: TransactionId) {
         self.header_unchecked_mut().clear_aborted_up_to(max_txid);
+        let remaining = self.aborted_beyond.split_off(&max_txid.saturating_add(1));
+        self.aborted_changed |= !self.aborted_beyond.is_empty();
+        self.aborted_beyond = remaining;
+    }
+
+    /// Reads the list of aborted transactions the bitmap has no room for.
+    fn load_aborted_list(&mut self) -> io::Result<()> {
+        let mut current = self.header_unchecked().aborted_txs_list;
+        while let Some(page_id) = current {
+            let (ids, next) = self.with_page::<OverflowPage, _, _>(page_id, |page| {
+                let ids: Vec<TransactionId> = page
+                    .effective_data()
+                    .chunks_exact(size_of::<TransactionId>())
+                    .filter_map(|bytes| bytes.try_into().ok().map(TransactionId::from_le_bytes))
+                    .collect();
+                (ids, page.next())
+            })?;
+            self.aborted_beyond.extend(ids);
+            current = next;
+        }
+        Ok(())
+    }
+
+    /// Replaces the list of aborted transactions on disk by the one in memory.
+    fn store_aborted_list(&mut self) -> io::Result<()> {
+        if !self.aborted_changed {
+            return Ok(());
+        }
+
+        let mut current = self.header_unchecked().aborted_txs_list;
+        while let Some(page_id) = current {
+            current = self.with_page::<OverflowPage, _, _>(page_id, |page| page.next())?;
+            self.header_unchecked_mut().aborted_txs_list = current;
+            self.dealloc_page::<OverflowPage>(page_id)?;
+        }
+
+        let per_page =
+            OverflowPage::usable_space(self.page_size()) as usize / size_of::<TransactionId>();
+        let ids: Vec<TransactionId> = self.aborted_beyond.iter().copied().collect();
+        for chunk in ids.chunks(per_page) {
+            let bytes: Vec<u8> = chunk.iter().flat_map(|id| id.to_le_bytes()).collect();
+            let next = self.header_unchecked().aborted_txs_list;
+            let page_id = self.allocate_page::<OverflowPage>()?;
+            self.try_with_page_mut::<OverflowPage, _, _>(page_id, |page| {
+                page.push_bytes(&bytes);
+                page.metadata_mut().next = next;
+                Ok(())
+            })?;
+            self.header_unchecked_mut().aborted_txs_list = Some(page_id);
+        }
+        self.aborted_changed = false;
+        Ok(())
     }
 
     pub(crate) fn get_last_committed_transaction(&self) -> TransactionId {
@@ -541,6 +607,7 @@ impl Write for Pager {
     fn flush(&mut self) -> io::Result<()> {
         let block_size = self.page_size();
         self.wal.flush()?;
+        self.store_aborted_list()?;
         let pages = self.cache.clear();
         for page in pages {
             let page_number = page.page_number();
diff --git a/crates/axmos-db/src/storage/page.rs b/crates/axmos-db/src/storage/page.rs
index 544012f..a70404a 100644
--- a/crates/axmos-db/src/storage/page.rs
+++ b/crates/axmos-db/src/storage/page.rs
@@ -79,6 +79,8 @@ pub(crate) struct PageZeroHeader {
     pub(crate) min_keys: u8,
     pub(crate) num_siblings_per_side: u8,
     pub(crate) aborted_txs_bitmap: [u8; ABORTED_BITMAP_SIZE],
+    /// First page of the list of aborted transactions that are beyond the bitmap.
+    pub(crate) aborted_txs_list: Option<PageId>,
 }
 pub(crate) const PAGE_ZERO_HEADER_SIZE: usize = mem::size_of::<PageZeroHeader>();
 
@@ -121,6 +123,7 @@ impl PageZeroHeader {
             num_siblings_per_side,
             cache_size,
             aborted_txs_bitmap: [0u8; ABORTED_BITMAP_SIZE],
+            aborted_txs_list: None,
         }
     }
 
-- 
2.43.0


From 4166c86a22bbdacf8140fa97794719ab27d8e266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 36/51] fix: row ids taken under a rolled-back ALTER TABLE are
 not used again

---
 crates/axmos-db/src/schema/catalog.rs | 35 ++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index f05c624..fda1b36 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -150,13 +150,46 @@ impl Catalog {
         let mut next_row_ids = self.next_row_ids.lock();
         let next = match next_row_ids.get(&id) {
             Some(next) => *next,
-            None => Self::last_row_id(relation, builder)?.map_or(0, |last| last + 1),
+            None => self.unused_row_id(relation, builder)?,
         };
         let row_id = next.max(relation.next_row_id().value());
         next_row_ids.insert(id, row_id + 1);
         Ok(row_id)
     }
 
+    /// A row id greater than that of all rows of the table, including those it has under a schema
+    /// no transaction can see: index entries may still refer to them.
+    fn unused_row_id(&self, relation: &Relation, builder: &BtreeBuilder) -> CatalogResult<u64> {
+        let mut unused = Self::last_row_id(relation, builder)?.map_or(0, |last| last + 1);
+
+        let schema = meta_table_schema();
+        let mut meta_table = builder.build_tree(self.meta_table);
+        let key = UInt64(relation.object_id()).serialize()?;
+        let SearchResult::Found(pos) = meta_table.search(&key, &schema)? else {
+            return Ok(unused);
+        };
+        let reader = TupleReader::from_schema(&schema);
+        let versions = meta_table.with_cell_at(pos, |bytes| {
+            let mut versions = Vec::new();
+            for layout in reader.parse_versions(bytes)? {
+                let row = TupleRef::new(bytes, layout).to_row_with(&schema)?;
+                versions.push(Relation::from_meta_table_row(row));
+            }
+            Ok::<_, TupleError>(versions)
+        })??;
+        drop(meta_table);
+
+        let mut seen = HashSet::from([relation.root()]);
+        for version in versions {
+            unused = unused.max(version.next_row_id().value());
+            if seen.insert(version.root()) {
+                let last = Self::last_row_id(&version, builder)?;
+                unused = unused.max(last.map_or(0, |last| last + 1));
+            }
+        }
+        Ok(unused)
+    }
+
     /// The greatest row id in the table, including rows no transaction can see.
     fn last_row_id(relation: &Relation, builder: &BtreeBuilder) -> CatalogResult<Option<u64>> {
         let schema = relation.schema();
-- 
2.43.0


From b80e37dec9e7116df2e2ed9fd67d90bdd9f598d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 37/51] fix: a statement whose log record does not fit changes
 nothing

---
 crates/axmos-db/src/io/pager.rs        |  7 ++++++
 crates/axmos-db/src/io/wal.rs          | 15 ++++++++-----
 crates/axmos-db/src/runtime/context.rs |  7 ++++++
 crates/axmos-db/src/runtime/ddl.rs     | 30 +++++++++++++++++---------
 crates/axmos-db/src/runtime/dml.rs     |  9 ++++++++
 5 files changed, 53 insertions(+), 15 deletions(-)

diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index 2e354fd..3a6f8ab 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -12,6 +12,7 @@ use crate::{
     storage::{
         core::{buffer::MemBlock, traits::Buffer},
         page::{MAX_TRACKED_ABORTED_TXS, OverflowPage, PageZero, PageZeroHeader},
+        wal::{OwnedRecord, RECORD_HEADER_SIZE},
     },
     tree::{
         accessor::{BtreeReadAccessor, BtreeWriteAccessor, TreeReader, TreeWriter},
@@ -167,6 +168,12 @@ impl Pager {
         Ok(lsn)
     }
 
+    /// Fails if a record with a payload of the given size could not be logged.
+    pub(crate) fn check_log_record(&self, payload_size: usize) -> io::Result<()> {
+        let size = RECORD_HEADER_SIZE + OwnedRecord::compute_padded_size(payload_size);
+        self.wal.check_record_size(size)
+    }
+
     /// Load block zero from disk
     fn load_page_zero(&mut self, block_size: usize) -> io::Result<PageZero> {
         let mut block: MemBlock<PageZeroHeader> = MemBlock::new(block_size);
diff --git a/crates/axmos-db/src/io/wal.rs b/crates/axmos-db/src/io/wal.rs
index 6c00d20..0436f5a 100644
--- a/crates/axmos-db/src/io/wal.rs
+++ b/crates/axmos-db/src/io/wal.rs
@@ -299,11 +299,8 @@ impl WriteAheadLog {
         Ok(result)
     }
 
-    pub(crate) fn push(&mut self, record: OwnedRecord) -> io::Result<()> {
-        let lsn = record.lsn();
-        let record_size = record.total_size();
-
-        // Check if record can ever fit in a block
+    /// Check if a record of the given size can ever fit in a block
+    pub(crate) fn check_record_size(&self, record_size: usize) -> io::Result<()> {
         if record_size > self.max_record_size() {
             return Err(IoError::new(
                 ErrorKind::InvalidInput,
@@ -314,6 +311,14 @@ impl WriteAheadLog {
                 ),
             ));
         }
+        Ok(())
+    }
+
+    pub(crate) fn push(&mut self, record: OwnedRecord) -> io::Result<()> {
+        let lsn = record.lsn();
+        let record_size = record.total_size();
+
+        self.check_record_size(record_size)?;
 
         let lsn = record.lsn();
 
diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index 0f21f76..6c18578 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -188,6 +188,13 @@ impl TransactionLogger {
         Ok(())
     }
 
+    /// Fails if a record with this much undo and redo data could not be logged. Has to be called
+    /// before anything is changed.
+    pub(crate) fn check_record(&self, undo: usize, redo: usize) -> RuntimeResult<()> {
+        self.pager.read().check_log_record(undo + redo)?;
+        Ok(())
+    }
+
     /// Log an insert operation
     pub(crate) fn log_insert(
         &self,
diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index 13b873d..0267489 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -655,6 +655,12 @@ impl DdlExecutor {
         }
 
         let object_id = self.ctx.catalog().get_next_object_id();
+        let redo_bytes = instr.to_bytes()?;
+        let undo_instr = instr.inverse(object_id);
+        let undo_bytes = undo_instr.to_bytes()?;
+        self.logger
+            .check_record(undo_bytes.len(), redo_bytes.len())?;
+
         let root_page = self.ctx.pager().write().allocate_page::<BtreePage>()?;
 
         let mut relation = Relation::table(object_id, &instr.table_name, root_page, columns);
@@ -670,9 +676,6 @@ impl DdlExecutor {
             .catalog()
             .store_relation(relation, &tree_builder, snapshot.xid())?;
 
-        let redo_bytes = instr.to_bytes()?;
-        let undo_instr = instr.inverse(object_id);
-        let undo_bytes = undo_instr.to_bytes()?;
         self.logger.log_create(object_id, redo_bytes, undo_bytes)?;
 
         Ok(DdlResult::TableCreated {
@@ -712,14 +715,16 @@ impl DdlExecutor {
         let undo_instr = relation.to_create_table_instr()?;
 
         let id = relation.object_id();
+        let undo_bytes = undo_instr.to_bytes()?;
+        let redo_instr = undo_instr.inverse(id);
+        let redo_bytes = redo_instr.to_bytes()?;
+        self.logger
+            .check_record(undo_bytes.len(), redo_bytes.len())?;
 
         self.ctx
             .catalog()
             .remove_relation(relation, &tree_builder, &snapshot, instr.cascade)?;
 
-        let undo_bytes = undo_instr.to_bytes()?;
-        let redo_instr = undo_instr.inverse(id);
-        let redo_bytes = redo_instr.to_bytes()?;
         self.logger.log_drop(id, redo_bytes, undo_bytes)?;
 
         Ok(DdlResult::TableDropped { name: table_name })
@@ -750,6 +755,10 @@ impl DdlExecutor {
                 .catalog()
                 .get_relation(instr.table_id, &tree_builder, &snapshot)?;
 
+        let redo_bytes = instr.to_bytes()?;
+        let undo_size = instr.inverse(instr.table_id).to_bytes()?.len();
+        self.logger.check_record(undo_size, redo_bytes.len())?;
+
         let index_id = self.create_unique_index(&mut table, &instr.index_name, &instr.columns)?;
 
         self.ctx.catalog().update_relation(
@@ -762,7 +771,6 @@ impl DdlExecutor {
             &snapshot,
         )?;
 
-        let redo_bytes = instr.to_bytes()?;
         let undo_instr = instr.inverse(index_id);
         let undo_bytes = undo_instr.to_bytes()?;
 
@@ -821,6 +829,11 @@ impl DdlExecutor {
         self.ctx.check_current(instr.table_id)?;
 
         let undo_instr = instr.try_inverse_with(relation.schema())?;
+        let redo_bytes = instr.to_bytes()?;
+        let undo_bytes = undo_instr.to_bytes()?;
+        self.logger
+            .check_record(undo_bytes.len(), redo_bytes.len())?;
+
         let action_desc = self.apply_alter_action(&mut relation, &instr.action)?;
 
         let id = relation.object_id();
@@ -836,9 +849,6 @@ impl DdlExecutor {
             self.ctx.snapshot(),
         )?;
 
-        let redo_bytes = instr.to_bytes()?;
-        let undo_bytes = undo_instr.to_bytes()?;
-
         self.logger
             .log_alter(instr.table_id, redo_bytes, undo_bytes)?;
 
diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index d3c4ed9..5059f49 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -85,6 +85,15 @@ impl DmlExecutor {
         f: impl FnOnce(&mut Self) -> RuntimeResult<R>,
     ) -> RuntimeResult<R> {
         let result = f(self).and_then(|value| {
+            // Nothing is logged for a statement that fails.
+            for entry in &self.log {
+                let (undo, redo) = match entry {
+                    LogEntry::Insert(_, _, data) => (0, data.len()),
+                    LogEntry::Update(_, _, old, new) => (old.len(), new.len()),
+                    LogEntry::Delete(_, _, old) => (old.len(), 0),
+                };
+                self.logger.check_record(undo, redo)?;
+            }
             for entry in std::mem::take(&mut self.log) {
                 match entry {
                     LogEntry::Insert(table, row, data) => self.logger.log_insert(table, row, data),
-- 
2.43.0


From e6b79da38c6a15c757477cde9b23f0c379e0c6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 38/51] fix: the page cache grows for a moment instead of
 failing in the middle of an operation

---
 crates/axmos-db/src/io/cache.rs |  4 +++-
 crates/axmos-db/src/io/pager.rs | 24 ++++++++++++++++++------
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/crates/axmos-db/src/io/cache.rs b/crates/axmos-db/src/io/cache.rs
index f695902..39e71ad 100644
--- a/crates/axmos-db/src/io/cache.rs
+++ b/crates/axmos-db/src/io/cache.rs
@@ -103,8 +103,10 @@ impl PageCache {
             return Ok(None);
         }
 
+        // While every frame is in use none of them can leave: the capacity is exceeded instead of
+        // failing in the middle of an operation, until frames become free again.
         let evicted = if self.capacity <= self.frames.len() {
-            self.evict()?
+            self.evict().unwrap_or(None)
         } else {
             None
         };
diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index 3a6f8ab..7d6216f 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -487,17 +487,29 @@ impl Pager {
     /// - **NO-FORCE:** Writes to disk do not happen automatically at transaction commit; only when evicted.
     fn cache_frame(&mut self, frame: MemFrame) -> io::Result<PageId> {
         let id = frame.page_number();
+        while self.cache.num_frames() > self.cache.get_capacity() {
+            match self.cache.evict() {
+                Ok(Some(evicted)) => self.write_evicted(evicted)?,
+                _ => break,
+            }
+        }
         if let Some(evicted) = self.cache.insert(frame)? {
-            let evicted_id = evicted.page_number();
-
-            if evicted.is_dirty() {
-                let page_size = self.page_size();
-                evicted.with_bytes_mut(|bytes| self.write_block(evicted_id, &bytes, page_size))?;
-            };
+            self.write_evicted(evicted)?;
         };
         Ok(id)
     }
 
+    /// Writes an evicted frame to disk if it has changed.
+    fn write_evicted(&mut self, evicted: MemFrame) -> io::Result<()> {
+        let evicted_id = evicted.page_number();
+
+        if evicted.is_dirty() {
+            let page_size = self.page_size();
+            evicted.with_bytes_mut(|bytes| self.write_block(evicted_id, &bytes, page_size))?;
+        };
+        Ok(())
+    }
+
     /// Reads a page from the cache, if it is not found there it goes to the disk to get its contents
     ///
     /// The marker [H] indicates the type of page that is going to be read.
-- 
2.43.0


From 039ed3f163414158aa987ee156125a142f222713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 39/51] fix: after a crash the database holds exactly the
 committed transactions

The database file was changed page by page, both when pages were evicted and by checkpoints, so a
crash left a mixture of states that the log does not apply to, and recovery undid operations whose
pages had never been written and redid others in the order of transactions instead of the log.
Changed pages are now collected in a journal, which is copied to the database file as a whole, and
recovery redoes the operations of the committed transactions on the last checkpoint.
---
 crates/axmos-db/src/io/cache.rs               |   5 +
 crates/axmos-db/src/io/journal.rs             | 209 ++++++++++++
 crates/axmos-db/src/io/mod.rs                 |   1 +
 crates/axmos-db/src/io/pager.rs               | 105 ++++--
 crates/axmos-db/src/io/recovery.rs            | 307 ++++--------------
 crates/axmos-db/src/lib.rs                    |  52 +--
 .../src/multithreading/coordinator.rs         |  27 +-
 crates/axmos-db/src/multithreading/frames.rs  |  13 +
 crates/axmos-db/src/runtime/ddl.rs            |   4 +
 crates/axmos-db/src/runtime/dml.rs            |  43 ++-
 crates/axmos-db/src/storage/page.rs           |   8 +
 11 files changed, 464 insertions(+), 310 deletions(-)
 create mode 100644 crates/axmos-db/src/io/journal.rs

diff --git a/crates/axmos-db/src/io/cache.rs b/crates/axmos-db/src/io/cache.rs
index 39e71ad..b3a5c49 100644
--- a/crates/axmos-db/src/io/cache.rs
+++ b/crates/axmos-db/src/io/cache.rs
@@ -154,6 +154,11 @@ impl PageCache {
         ))
     }
 
+    /// All the frames in the cache.
+    pub(crate) fn frames(&self) -> impl Iterator<Item = &MemFrame> {
+        self.frames.values()
+    }
+
     pub fn get(&self, id: &PageId) -> Option<MemFrame> {
         if let Some(frame) = self.frames.get(id) {
             self.stats.cache_hit();
diff --git a/crates/axmos-db/src/io/journal.rs b/crates/axmos-db/src/io/journal.rs
new file mode 100644
index 0000000..b23c44e
--- /dev/null
+++ b/crates/axmos-db/src/io/journal.rs
@@ -0,0 +1,209 @@
+//! Checkpoint journal.
+//!
+//! The pages that changed since the last checkpoint do not reach the database file one by one: those
+//! that leave the cache and those that are written by a checkpoint are collected in the journal.
+//! Once it is complete and marked as such they are copied to the database file, so that after a
+//! crash the database file holds the state of one checkpoint, to which the log applies.
+//!
+//! [HEADER BLOCK       ] Written last: it makes the journal valid
+//! [SLOT 0             ] Page images
+//! [SLOT 1             ]
+//! [....               ]
+//! [INDEX              ] Page number of each slot
+use crate::{
+    PAGE_ALIGNMENT,
+    io::disk::{DBFile, FileOperations},
+    storage::core::buffer::MemBlock,
+    types::PageId,
+};
+
+use std::{
+    collections::HashMap,
+    fs,
+    io::{self, Read, Seek, SeekFrom, Write},
+    path::{Path, PathBuf},
+};
+
+const JOURNAL_MAGIC: u64 = 0x41786D6F734A4E4C;
+const WORD: usize = size_of::<u64>();
+
+/// A buffer that can be written to or read from a file opened for direct IO.
+type Block = MemBlock<u64>;
+
+pub(crate) struct Journal {
+    path: PathBuf,
+    file: Option<DBFile>,
+    /// The page in each slot.
+    pages: Vec<PageId>,
+    slots: HashMap<PageId, usize>,
+    page_size: usize,
+}
+
+impl Journal {
+    /// The journal of a database that is created or opened. Whatever it contains is discarded, see
+    /// [Journal::restore].
+    pub(crate) fn new(db_path: &Path) -> io::Result<Self> {
+        let mut journal = Self {
+            path: Self::path_for(db_path),
+            file: None,
+            pages: Vec::new(),
+            slots: HashMap::new(),
+            page_size: 0,
+        };
+        if journal.path.exists() {
+            let mut file = DBFile::open(&journal.path)?;
+            if file.metadata()?.len() > 0 {
+                file.truncate()?;
+            }
+            journal.file = Some(file);
+        }
+        Ok(journal)
+    }
+
+    fn path_for(db_path: &Path) -> PathBuf {
+        let mut path = db_path.as_os_str().to_os_string();
+        path.push("-journal");
+        PathBuf::from(path)
+    }
+
+    pub(crate) fn remove(db_path: &Path) -> io::Result<()> {
+        let path = Self::path_for(db_path);
+        if path.exists() {
+            fs::remove_file(path)?;
+        }
+        Ok(())
+    }
+
+    /// Completes the checkpoint that a crash interrupted after its journal had become valid.
+    /// Returns whether there was one: the log belongs to the state before it then.
+    pub(crate) fn restore(db_path: &Path, db_file: &mut DBFile) -> io::Result<bool> {
+        let path = Self::path_for(db_path);
+        if !path.exists() {
+            return Ok(false);
+        }
+        let mut file = DBFile::open(&path)?;
+        if file.metadata()?.len() < PAGE_ALIGNMENT as u64 {
+            return Ok(false);
+        }
+
+        let mut header = Block::new(PAGE_ALIGNMENT);
+        file.seek(SeekFrom::Start(0))?;
+        file.read_exact(header.as_mut())?;
+        let word = |i: usize| read_word(header.as_ref(), i);
+        if word(0) != JOURNAL_MAGIC {
+            return Ok(false);
+        }
+        let (page_size, count) = (word(1) as usize, word(2) as usize);
+
+        let mut index = Block::new(Self::index_size(count));
+        file.seek(SeekFrom::Start(Self::slot_offset(count, page_size)))?;
+        file.read_exact(index.as_mut())?;
+
+        let pages = (0..count).map(|i| read_word(index.as_ref(), i)).collect();
+        Self::copy(&mut file, pages, page_size, db_file)?;
+        Ok(true)
+    }
+
+    fn slot_offset(slot: usize, page_size: usize) -> u64 {
+        PAGE_ALIGNMENT as u64 + (slot * page_size) as u64
+    }
+
+    fn index_size(count: usize) -> usize {
+        (count * WORD).max(1).next_multiple_of(PAGE_ALIGNMENT)
+    }
+
+    /// Copies the slots to the database file.
+    fn copy(
+        file: &mut DBFile,
+        pages: Vec<PageId>,
+        page_size: usize,
+        db_file: &mut DBFile,
+    ) -> io::Result<()> {
+        let mut page = Block::new(page_size);
+        for (slot, id) in pages.into_iter().enumerate() {
+            file.seek(SeekFrom::Start(Self::slot_offset(slot, page_size)))?;
+            file.read_exact(page.as_mut())?;
+            db_file.seek(SeekFrom::Start(id * page_size as u64))?;
+            db_file.write_all(page.as_ref())?;
+        }
+        db_file.sync_all()
+    }
+
+    fn file(&mut self) -> io::Result<&mut DBFile> {
+        if self.file.is_none() {
+            self.file = Some(DBFile::create(&self.path)?);
+        }
+        Ok(self.file.as_mut().expect("Journal file was just created"))
+    }
+
+    /// Reads a page if it is in the journal.
+    pub(crate) fn read(&mut self, id: PageId, buffer: &mut [u8]) -> io::Result<bool> {
+        let Some(slot) = self.slots.get(&id).copied() else {
+            return Ok(false);
+        };
+        let offset = Self::slot_offset(slot, self.page_size);
+        let file = self.file()?;
+        file.seek(SeekFrom::Start(offset))?;
+        file.read_exact(buffer)?;
+        Ok(true)
+    }
+
+    /// Adds a page to the journal, or replaces it.
+    pub(crate) fn write(&mut self, id: PageId, content: &[u8]) -> io::Result<()> {
+        self.page_size = content.len();
+        let slot = self.slots.get(&id).copied().unwrap_or(self.pages.len());
+        let offset = Self::slot_offset(slot, self.page_size);
+        let file = self.file()?;
+        file.seek(SeekFrom::Start(offset))?;
+        file.write_all(content)?;
+        if slot == self.pages.len() {
+            self.pages.push(id);
+            self.slots.insert(id, slot);
+        }
+        Ok(())
+    }
+
+    /// Makes the journal valid and copies it to the database file.
+    pub(crate) fn commit(&mut self, db_file: &mut DBFile) -> io::Result<()> {
+        let (pages, page_size) = (self.pages.clone(), self.page_size);
+
+        let mut index = Block::new(Self::index_size(pages.len()));
+        for (i, id) in pages.iter().enumerate() {
+            write_word(index.as_mut(), i, *id);
+        }
+        let mut header = Block::new(PAGE_ALIGNMENT);
+        write_word(header.as_mut(), 0, JOURNAL_MAGIC);
+        write_word(header.as_mut(), 1, page_size as u64);
+        write_word(header.as_mut(), 2, pages.len() as u64);
+
+        let file = self.file()?;
+        file.seek(SeekFrom::Start(Self::slot_offset(pages.len(), page_size)))?;
+        file.write_all(index.as_ref())?;
+        file.sync_all()?;
+        file.seek(SeekFrom::Start(0))?;
+        file.write_all(header.as_ref())?;
+        file.sync_all()?;
+
+        Self::copy(file, pages, page_size, db_file)
+    }
+
+    /// Empties the journal.
+    pub(crate) fn clear(&mut self) -> io::Result<()> {
+        self.pages.clear();
+        self.slots.clear();
+        match self.file.as_mut() {
+            Some(file) => file.truncate(),
+            None => Ok(()),
+        }
+    }
+}
+
+fn read_word(bytes: &[u8], index: usize) -> u64 {
+    let mut word = [0; WORD];
+    word.copy_from_slice(&bytes[index * WORD..(index + 1) * WORD]);
+    u64::from_le_bytes(word)
+}
+
+fn write_word(bytes: &mut [u8], index: usize, value: u64) {
+    bytes[index * WORD..(index + 1) * WORD].copy_from_slice(&value.to_le_bytes());
+}
diff --git a/crates/axmos-db/src/io/mod.rs b/crates/axmos-db/src/io/mod.rs
index 1c0e0a3..7e60990 100644
--- a/crates/axmos-db/src/io/mod.rs
+++ b/crates/axmos-db/src/io/mod.rs
@@ -4,6 +4,7 @@
 //! from disk, as well as caching frequently accessed data in memory to improve performance.
 pub mod cache;
 pub mod disk;
+pub mod journal;
 pub mod logger;
 pub mod recovery;
 
diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index 7d6216f..896e6cd 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -4,6 +4,7 @@ use crate::{
     io::{
         cache::PageCache,
         disk::{DBFile, FileOperations, FileSystem, FileSystemBlockSize},
+        journal::Journal,
         logger::Operation,
         wal::{AnalysisResult, WriteAheadLog},
     },
@@ -12,7 +13,7 @@ use crate::{
     storage::{
         core::{buffer::MemBlock, traits::Buffer},
         page::{MAX_TRACKED_ABORTED_TXS, OverflowPage, PageZero, PageZeroHeader},
-        wal::{OwnedRecord, RECORD_HEADER_SIZE},
+        wal::{OwnedRecord, RECORD_HEADER_SIZE, RecordType},
     },
     tree::{
         accessor::{BtreeReadAccessor, BtreeWriteAccessor, TreeReader, TreeWriter},
@@ -31,10 +32,12 @@ use std::{
 pub struct Pager {
     file: DBFile,
     wal: WriteAheadLog,
+    journal: Journal, // Pages changed since the last checkpoint that are not in the cache
     cache: PageCache,
     db_header: Option<PageZeroHeader>, // Page zero header is always in memory
     aborted_beyond: BTreeSet<TransactionId>, // Aborted transactions the bitmap has no room for
-    aborted_changed: bool,             // The list above is not as it is on disk
+    aborted_on_disk: BTreeSet<TransactionId>, // The list above as it is on disk
+    unfinished: BTreeSet<TransactionId>, // Transactions that are neither committed nor aborted
 }
 
 impl<'a> FileOperations for Pager {
@@ -46,15 +49,18 @@ impl<'a> FileOperations for Pager {
         let dir = path.as_ref().parent().expect("Not a directory");
         let wal_path = dir.join("axmos.log");
         let wal = WriteAheadLog::create(wal_path)?;
+        let journal = Journal::new(path.as_ref())?;
         let cache = PageCache::with_capacity(DEFAULT_CACHE_SIZE as usize);
 
         Ok(Self {
             file,
             cache,
             wal,
+            journal,
             db_header: None,
             aborted_beyond: BTreeSet::new(),
-            aborted_changed: false,
+            aborted_on_disk: BTreeSet::new(),
+            unfinished: BTreeSet::new(),
         })
     }
 
@@ -62,20 +68,27 @@ impl<'a> FileOperations for Pager {
     where
         Self: Sized,
     {
-        let file = DBFile::open(&path)?;
+        let mut file = DBFile::open(&path)?;
         let block_size = FileSystem::block_size(&path)?;
         let cache = PageCache::with_capacity(DEFAULT_CACHE_SIZE);
         let dir = path.as_ref().parent().expect("Not a directory");
         let wal_path = dir.join("axmos.log");
-        let wal = WriteAheadLog::open(wal_path)?;
+        let mut wal = WriteAheadLog::open(wal_path)?;
+
+        if Journal::restore(path.as_ref(), &mut file)? {
+            wal.truncate()?;
+        }
+        let journal = Journal::new(path.as_ref())?;
 
         let mut pager = Self {
             file,
             cache,
             wal,
+            journal,
             db_header: None,
             aborted_beyond: BTreeSet::new(),
-            aborted_changed: false,
+            aborted_on_disk: BTreeSet::new(),
+            unfinished: BTreeSet::new(),
         };
 
         let page_zero = pager.load_page_zero(block_size)?;
@@ -90,6 +103,7 @@ impl<'a> FileOperations for Pager {
         let dir = path.as_ref().parent().expect("Not a directory");
         let wal_path = dir.join("axmos.log");
         WriteAheadLog::remove(&wal_path)?;
+        Journal::remove(path.as_ref())?;
         Ok(())
     }
 
@@ -102,6 +116,7 @@ impl<'a> FileOperations for Pager {
     fn truncate(&mut self) -> io::Result<()> {
         self.file.truncate()?;
         self.cache.clear();
+        self.journal.clear()?;
         self.wal.truncate()?;
         Ok(())
     }
@@ -146,12 +161,17 @@ impl Pager {
         Ok(page_zero)
     }
 
-    /// Syncs the header to the disk.
+    /// Adds the header to the journal.
     fn sync_header(&mut self) -> io::Result<()> {
         let page_size = self.page_size();
         let mut zero_from_disk = self.load_page_zero(page_size)?;
-        *zero_from_disk.metadata_mut() = *self.header_unchecked();
-        self.write_block(PAGE_ZERO, zero_from_disk.as_ref(), page_size)?;
+        let mut header = *self.header_unchecked();
+        // After a crash, only the log can tell that they were committed.
+        for txid in &self.unfinished {
+            header.mark_transaction_aborted(*txid);
+        }
+        *zero_from_disk.metadata_mut() = header;
+        self.journal.write(PAGE_ZERO, zero_from_disk.as_ref())?;
         Ok(())
     }
 
@@ -165,6 +185,15 @@ impl Pager {
         let lsn = self.wal.last_lsn().map(|l| l + 1).unwrap_or(0);
         let record = operation.into_record(lsn, tid, prev_lsn);
         self.wal.push(record)?;
+        match operation.op_type() {
+            RecordType::Begin => {
+                self.unfinished.insert(tid);
+            }
+            RecordType::Commit => {
+                self.unfinished.remove(&tid);
+            }
+            _ => {}
+        }
         Ok(lsn)
     }
 
@@ -182,13 +211,23 @@ impl Pager {
     }
 
     pub(crate) fn mark_transaction_aborted(&mut self, txid: TransactionId) {
+        self.unfinished.remove(&txid);
         if txid >= MAX_TRACKED_ABORTED_TXS as u64 {
-            self.aborted_changed |= self.aborted_beyond.insert(txid);
+            self.aborted_beyond.insert(txid);
             return;
         }
         self.header_unchecked_mut().mark_transaction_aborted(txid);
     }
 
+    pub(crate) fn mark_transaction_committed(&mut self, txid: TransactionId) {
+        self.unfinished.remove(&txid);
+        self.aborted_beyond.remove(&txid);
+        self.header_unchecked_mut().unmark_transaction_aborted(txid);
+        if txid > self.get_last_committed_transaction() {
+            self.set_last_committed_transaction(txid);
+        }
+    }
+
     pub(crate) fn get_aborted_transactions(&self) -> Vec<TransactionId> {
         let mut aborted = self.header_unchecked().get_aborted_transactions();
         aborted.extend(&self.aborted_beyond);
@@ -197,9 +236,7 @@ impl Pager {
 
     pub(crate) fn clear_aborted_up_to(&mut self, max_txid: TransactionId) {
         self.header_unchecked_mut().clear_aborted_up_to(max_txid);
-        let remaining = self.aborted_beyond.split_off(&max_txid.saturating_add(1));
-        self.aborted_changed |= !self.aborted_beyond.is_empty();
-        self.aborted_beyond = remaining;
+        self.aborted_beyond = self.aborted_beyond.split_off(&max_txid.saturating_add(1));
     }
 
     /// Reads the list of aborted transactions the bitmap has no room for.
@@ -217,12 +254,16 @@ impl Pager {
             self.aborted_beyond.extend(ids);
             current = next;
         }
+        self.aborted_on_disk = self.aborted_beyond.clone();
         Ok(())
     }
 
     /// Replaces the list of aborted transactions on disk by the one in memory.
     fn store_aborted_list(&mut self) -> io::Result<()> {
-        if !self.aborted_changed {
+        let unfinished = self.unfinished.range(MAX_TRACKED_ABORTED_TXS as u64..);
+        let wanted: BTreeSet<TransactionId> =
+            self.aborted_beyond.iter().chain(unfinished).copied().collect();
+        if wanted == self.aborted_on_disk {
             return Ok(());
         }
 
@@ -235,7 +276,7 @@ impl Pager {
 
         let per_page =
             OverflowPage::usable_space(self.page_size()) as usize / size_of::<TransactionId>();
-        let ids: Vec<TransactionId> = self.aborted_beyond.iter().copied().collect();
+        let ids: Vec<TransactionId> = wanted.iter().copied().collect();
         for chunk in ids.chunks(per_page) {
             let bytes: Vec<u8> = chunk.iter().flat_map(|id| id.to_le_bytes()).collect();
             let next = self.header_unchecked().aborted_txs_list;
@@ -247,7 +288,7 @@ impl Pager {
             })?;
             self.header_unchecked_mut().aborted_txs_list = Some(page_id);
         }
-        self.aborted_changed = false;
+        self.aborted_on_disk = wanted;
         Ok(())
     }
 
@@ -434,6 +475,9 @@ impl Pager {
         let offset = Self::page_offset(start_page_number, block_size as u64);
         Self::validate_alignment_of(offset as usize, PAGE_ALIGNMENT as usize)?;
 
+        if self.journal.read(start_page_number, buffer)? {
+            return Ok(());
+        }
         self.file.seek(SeekFrom::Start(offset))?;
         self.file.read_exact(buffer)?;
         Ok(())
@@ -483,8 +527,8 @@ impl Pager {
     /// Adds a frame to the cache, possibly evicting another one from it and writing its contents to disk thereby.
     ///
     /// As we are doing write ahead logging instead of shadow paging, we can safely perform NO-STEAL, NO FORCE behaviour.
-    /// - **NO-STEAL:** Dirty pages are not written to disk immediately upon modification unless eviction occurs.
-    /// - **NO-FORCE:** Writes to disk do not happen automatically at transaction commit; only when evicted.
+    /// - **NO-STEAL:** Dirty pages do not reach the database file before the next checkpoint. Those that are evicted go to the journal.
+    /// - **NO-FORCE:** Writes to disk do not happen automatically at transaction commit; only at a checkpoint.
     fn cache_frame(&mut self, frame: MemFrame) -> io::Result<PageId> {
         let id = frame.page_number();
         while self.cache.num_frames() > self.cache.get_capacity() {
@@ -499,13 +543,12 @@ impl Pager {
         Ok(id)
     }
 
-    /// Writes an evicted frame to disk if it has changed.
+    /// Writes an evicted frame to the journal if it has changed.
     fn write_evicted(&mut self, evicted: MemFrame) -> io::Result<()> {
         let evicted_id = evicted.page_number();
 
         if evicted.is_dirty() {
-            let page_size = self.page_size();
-            evicted.with_bytes_mut(|bytes| self.write_block(evicted_id, &bytes, page_size))?;
+            evicted.with_bytes(|bytes| self.journal.write(evicted_id, bytes))?;
         };
         Ok(())
     }
@@ -623,22 +666,24 @@ impl Write for Pager {
         self.file.write(buf)
     }
 
+    /// Performs a checkpoint: all the changes reach the database file, or none of them.
+    /// Nobody may be changing pages meanwhile.
     fn flush(&mut self) -> io::Result<()> {
-        let block_size = self.page_size();
         self.wal.flush()?;
         self.store_aborted_list()?;
-        let pages = self.cache.clear();
-        for page in pages {
-            let page_number = page.page_number();
-            if page.is_dirty() {
-                page.with_bytes_mut(|bytes| self.write_block(page_number, &bytes, block_size))?;
-            };
+        for page in self.cache.frames().filter(|page| page.is_dirty()) {
+            page.with_bytes(|bytes| self.journal.write(page.page_number(), bytes))?;
         }
-
         self.sync_header()?;
+        self.journal.commit(&mut self.file)?;
 
-        self.file.flush()?;
+        // The log belongs to the state before the checkpoint. The journal stays valid until it is
+        // gone.
         self.wal.truncate()?;
+        self.journal.clear()?;
+        for page in self.cache.frames() {
+            page.mark_clean();
+        }
         self.wal.flush()?;
         Ok(())
     }
diff --git a/crates/axmos-db/src/io/recovery.rs b/crates/axmos-db/src/io/recovery.rs
index e1638f6..1f6393f 100644
--- a/crates/axmos-db/src/io/recovery.rs
+++ b/crates/axmos-db/src/io/recovery.rs
@@ -14,9 +14,10 @@ use crate::{
         dml::DmlExecutor,
     },
     storage::tuple::Row,
+    types::Lsn,
 };
 
-use std::io::{Error as IoError, ErrorKind};
+use std::collections::BTreeSet;
 
 pub struct WalRecuperator {
     dml_executor: DmlExecutor,
@@ -31,78 +32,40 @@ impl WalRecuperator {
         }
     }
 
-    /// Runs the recovery
+    /// Runs the recovery: the operations of the committed transactions are executed again, in the
+    /// order of the log. The others are known to be aborted, so there is nothing to be undone.
     pub(crate) fn run_recovery(&mut self, analysis: &AnalysisResult) -> RuntimeResult<()> {
-        self.run_undo(&analysis)?;
-        self.run_redo(&analysis)?;
-
-        Ok(())
-    }
+        let committed: BTreeSet<Lsn> = analysis
+            .needs_redo
+            .iter()
+            .filter_map(|tid| analysis.try_iter_lsn(tid))
+            .flatten()
+            .copied()
+            .collect();
+
+        for lsn in committed {
+            if let Some(create_operation) = analysis.create_ops.get(&lsn) {
+                self.redo_create(create_operation)?;
+            }
+            if let Some(alter_operation) = analysis.alter_ops.get(&lsn) {
+                self.redo_alter(alter_operation)?;
+            }
+            if let Some(drop_operation) = analysis.drop_ops.get(&lsn) {
+                self.redo_drop(drop_operation)?;
+            }
 
-    /// Run all the undo.
-    pub(crate) fn run_undo(&mut self, analysis: &AnalysisResult) -> RuntimeResult<()> {
-        for redo_transaction in analysis.needs_undo.iter() {
-            // Reapply all the operations of this transaction
-            for lsn in analysis.try_iter_lsn(redo_transaction).ok_or(IoError::new(
-                ErrorKind::NotSeekable,
-                "transaction not found in th write ahead analysis",
-            ))? {
-                if let Some(delete_operation) = analysis.delete_ops.get(&lsn) {
-                    self.undo_delete(delete_operation)?;
-                }
-                if let Some(update_operation) = analysis.update_ops.get(&lsn) {
-                    self.undo_update(update_operation)?;
-                }
-
-                if let Some(insert_operation) = analysis.insert_ops.get(&lsn) {
-                    self.undo_insert(insert_operation)?;
-                }
-
-                if let Some(create_operation) = analysis.create_ops.get(&lsn) {
-                    self.undo_create(create_operation)?;
-                }
-                if let Some(alter_operation) = analysis.alter_ops.get(&lsn) {
-                    self.undo_alter(alter_operation)?;
-                }
-                if let Some(drop_operation) = analysis.drop_ops.get(&lsn) {
-                    self.undo_drop(drop_operation)?;
-                }
+            if let Some(delete_operation) = analysis.delete_ops.get(&lsn) {
+                self.redo_delete(delete_operation)?;
             }
-        }
 
-        Ok(())
-    }
+            if let Some(update_operation) = analysis.update_ops.get(&lsn) {
+                self.redo_update(update_operation)?;
+            }
 
-    /// Run all the redo.
-    pub(crate) fn run_redo(&mut self, analysis: &AnalysisResult) -> RuntimeResult<()> {
-        for redo_transaction in analysis.needs_redo.iter() {
-            // Reapply all the operations of this transaction
-            for lsn in analysis.try_iter_lsn(redo_transaction).ok_or(IoError::new(
-                ErrorKind::NotSeekable,
-                "transaction not found in th write ahead analysis",
-            ))? {
-                if let Some(create_operation) = analysis.create_ops.get(&lsn) {
-                    self.redo_create(create_operation)?;
-                }
-                if let Some(alter_operation) = analysis.alter_ops.get(&lsn) {
-                    self.redo_alter(alter_operation)?;
-                }
-                if let Some(drop_operation) = analysis.drop_ops.get(&lsn) {
-                    self.redo_drop(drop_operation)?;
-                }
-
-                if let Some(delete_operation) = analysis.delete_ops.get(&lsn) {
-                    self.redo_delete(delete_operation)?;
-                }
-
-                if let Some(update_operation) = analysis.update_ops.get(&lsn) {
-                    self.redo_update(update_operation)?;
-                }
-
-                if let Some(insert_operation) = analysis.insert_ops.get(&lsn) {
-                    self.redo_insert(insert_operation)?;
-                }
+            if let Some(insert_operation) = analysis.insert_ops.get(&lsn) {
+                self.redo_insert(insert_operation)?;
             }
+            self.dml_executor.forget();
         }
 
         Ok(())
@@ -119,62 +82,37 @@ impl WalRecuperator {
             return Ok(());
         }
 
-        // Try to deserialize as CreateTableInstr first
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(redo_bytes) {
-            let instr = DdlInstruction::CreateTable(create_table_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-            return Ok(());
-        }
-
-        // Try CreateIndexInstr
-        if let Ok(create_index_instr) = CreateIndexInstr::from_bytes(redo_bytes) {
-            let instr = DdlInstruction::CreateIndex(create_index_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-            return Ok(());
-        }
-
-        // Fallback: try generic DdlInstruction
-        if let Ok(instruction) = DdlInstruction::from_bytes(redo_bytes) {
-            self.ddl_executor.execute_instruction(&instruction)?;
-        }
-
-        Ok(())
-    }
-
-    /// Recovers a CREATE operation during undo phase.
-    ///
-    /// Deserializes the DropTableInstr or DropIndexInstr from the undo
-    /// payload and executes it to remove the created table/index.
-    fn undo_create(&mut self, create_op: &Create) -> RuntimeResult<()> {
+        // The object has to get the id by which the rest of the log refers to it.
         let object_id = create_op
             .row_id()
             .expect("Object ID must be set for CREATE logs");
 
-        // The undo of CREATE is DROP
-        // We need to get the redo bytes to know what type of object was created
-        let redo_bytes = create_op.redo();
-
-        if redo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        // Determine if it's a table or index and execute the inverse
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(redo_bytes) {
-            let drop_instr = create_table_instr.inverse(object_id);
-            let instr = DdlInstruction::DropTable(drop_instr);
+        if let Some(instr) = Self::create_table_instr(redo_bytes) {
+            let mut pager = self.ddl_executor.ctx().pager().write();
+            if pager.get_last_stored_object() < object_id {
+                pager.set_last_stored_object(object_id);
+            }
+            drop(pager);
+            let instr = DdlInstruction::CreateTable(instr);
             self.ddl_executor.execute_instruction(&instr)?;
             return Ok(());
         }
 
-        if let Ok(create_index_instr) = CreateIndexInstr::from_bytes(redo_bytes) {
-            let drop_instr = create_index_instr.inverse(object_id);
-            let instr = DdlInstruction::DropIndex(drop_instr);
+        if let Ok(instr) = CreateIndexInstr::from_bytes(redo_bytes) {
+            let instr = DdlInstruction::CreateIndex(instr);
             self.ddl_executor.execute_instruction(&instr)?;
         }
 
         Ok(())
     }
 
+    /// Deserializes a [CreateTableInstr], unless the bytes are those of something else.
+    fn create_table_instr(bytes: &[u8]) -> Option<CreateTableInstr> {
+        let instr = CreateTableInstr::from_bytes(bytes).ok()?;
+        let same = instr.to_bytes().ok()?;
+        (*same == *bytes).then_some(instr)
+    }
+
     /// Recovers a DROP operation during redo phase.
     ///
     /// Deserializes the DropTableInstr or DropIndexInstr from the redo
@@ -193,7 +131,7 @@ impl WalRecuperator {
         }
 
         // Get the table/index name from the undo instruction
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(undo_bytes) {
+        if let Some(create_table_instr) = Self::create_table_instr(undo_bytes) {
             let drop_instr = DropTableInstr::new(
                 create_table_instr.table_name,
                 object_id,
@@ -214,32 +152,6 @@ impl WalRecuperator {
         Ok(())
     }
 
-    /// Recovers a DROP operation during undo phase.
-    ///
-    /// Deserializes the CreateTableInstr or CreateIndexInstr from the undo
-    /// payload and executes it to restore the dropped table/index.
-    fn undo_drop(&mut self, drop_op: &DropOp) -> RuntimeResult<()> {
-        let undo_bytes = drop_op.undo();
-
-        if undo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        // The undo of DROP is CREATE - restore from the saved instruction
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(undo_bytes) {
-            let instr = DdlInstruction::CreateTable(create_table_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-            return Ok(());
-        }
-
-        if let Ok(create_index_instr) = CreateIndexInstr::from_bytes(undo_bytes) {
-            let instr = DdlInstruction::CreateIndex(create_index_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
-
-        Ok(())
-    }
-
     /// Recovers an ALTER operation during redo phase.
     ///
     /// Deserializes the AlterTableInstr from the redo payload and applies
@@ -259,97 +171,6 @@ impl WalRecuperator {
         Ok(())
     }
 
-    /// Recovers an ALTER operation during undo phase.
-    ///
-    /// Deserializes the AlterTableInstr from the undo payload (which contains
-    /// the inverse operation) and applies it to restore the previous state.
-    fn undo_alter(&mut self, alter_op: &Alter) -> RuntimeResult<()> {
-        let undo_bytes = alter_op.undo();
-
-        if undo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        if let Ok(alter_instr) = AlterTableInstr::from_bytes(undo_bytes) {
-            let instr = DdlInstruction::AlterTable(alter_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
-
-        Ok(())
-    }
-
-    // DML Undo operations
-    fn undo_delete(&mut self, delete_op: &Delete) -> RuntimeResult<()> {
-        let table_id = delete_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-
-        let builder = self.dml_executor.ctx().tree_builder();
-        let snapshot = self.dml_executor.ctx().snapshot();
-
-        let table = self
-            .dml_executor
-            .ctx()
-            .catalog()
-            .get_relation(table_id, &builder, &snapshot)?;
-
-        let schema = table.schema();
-
-        if let Some(row) =
-            Row::from_bytes_checked_with_snapshot(delete_op.undo(), schema, &snapshot)?
-        {
-            let columns = schema.column_indexes();
-            self.dml_executor.insert(table_id, &columns, &row)?;
-        }
-        Ok(())
-    }
-
-    fn undo_update(&mut self, update_op: &Update) -> RuntimeResult<()> {
-        let table_id = update_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-        let row_id = update_op
-            .row_id()
-            .map(|r| UInt64::from(r))
-            .expect("Row id must be set for DML logs");
-
-        let builder = self.dml_executor.ctx().tree_builder();
-        let snapshot = self.dml_executor.ctx().snapshot();
-
-        let table = self
-            .dml_executor
-            .ctx()
-            .catalog()
-            .get_relation(table_id, &builder, &snapshot)?;
-
-        let schema = table.schema();
-
-        if let Some(undo_row) =
-            Row::from_bytes_checked_with_snapshot(update_op.undo(), schema, &snapshot)?
-        {
-            if let Some(redo_row) =
-                Row::from_bytes_checked_with_snapshot(update_op.redo(), schema, &snapshot)?
-            {
-                self.dml_executor
-                    .update_row(table_id, &row_id, &redo_row, &undo_row)?;
-            }
-        }
-        Ok(())
-    }
-
-    fn undo_insert(&mut self, insert_op: &Insert) -> RuntimeResult<()> {
-        let table_id = insert_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-        let row_id = insert_op
-            .row_id()
-            .map(|r| UInt64::from(r))
-            .expect("Row id must be set for DML logs");
-
-        self.dml_executor.delete(table_id, &row_id)?;
-        Ok(())
-    }
-
     // DML Redo operations
 
     fn redo_delete(&mut self, delete_op: &Delete) -> RuntimeResult<()> {
@@ -375,7 +196,7 @@ impl WalRecuperator {
             .expect("Row id must be set for DML logs");
 
         let builder = self.dml_executor.ctx().tree_builder();
-        let snapshot = self.dml_executor.ctx().snapshot();
+        let snapshot = self.dml_executor.ctx().snapshot().clone();
 
         let table = self
             .dml_executor
@@ -385,17 +206,10 @@ impl WalRecuperator {
 
         let schema = table.schema();
 
-        if let Some(undo_row) =
-            Row::from_bytes_checked_with_snapshot(update_op.undo(), schema, &snapshot)?
-        {
-            if let Some(redo_row) =
-                Row::from_bytes_checked_with_snapshot(update_op.redo(), schema, &snapshot)?
-            {
-                // Redo: apply new state
-                self.dml_executor
-                    .update_row(table_id, &row_id, &undo_row, &redo_row)?;
-            }
-        }
+        let old_row = Row::from_bytes_checked(update_op.undo(), schema)?;
+        let new_row = Row::from_bytes_checked(update_op.redo(), schema)?;
+        self.dml_executor
+            .update_row(table_id, &row_id, &old_row, &new_row)?;
         Ok(())
     }
 
@@ -403,9 +217,12 @@ impl WalRecuperator {
         let table_id = insert_op
             .object_id()
             .expect("Table id must be set for DML logs");
+        let row_id = insert_op
+            .row_id()
+            .expect("Row id must be set for DML logs");
 
         let builder = self.dml_executor.ctx().tree_builder();
-        let snapshot = self.dml_executor.ctx().snapshot();
+        let snapshot = self.dml_executor.ctx().snapshot().clone();
 
         let table = self
             .dml_executor
@@ -413,14 +230,8 @@ impl WalRecuperator {
             .catalog()
             .get_relation(table_id, &builder, &snapshot)?;
 
-        let schema = table.schema();
-
-        if let Some(row) =
-            Row::from_bytes_checked_with_snapshot(insert_op.redo(), schema, &snapshot)?
-        {
-            let columns = schema.column_indexes();
-            self.dml_executor.insert(table_id, &columns, &row)?;
-        }
+        let row = Row::from_bytes_checked(insert_op.redo(), table.schema())?;
+        self.dml_executor.restore_row(table_id, row_id, row)?;
         Ok(())
     }
 }
diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index 374fbfc..ecdc02e 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -248,19 +248,17 @@ impl Database {
         let task_runner =
             SharedTaskRunner::new(config.pool_size, pager.clone(), coordinator.clone());
 
-        let db = Self {
+        // Run recovery
+        Self::run_recovery(&coordinator, &pager, &catalog, &task_runner)?;
+
+        Ok(Self {
             path,
             pager,
             catalog,
             coordinator,
             task_runner,
             config,
-        };
-
-        // Run recovery
-        db.run_recovery()?;
-
-        Ok(db)
+        })
     }
 
     pub(crate) fn begin_transaction(
@@ -303,30 +301,35 @@ impl Database {
     }
 
     /// Runs WAL recovery to restore database to consistent state.
-    fn run_recovery(&self) -> DatabaseResult<()> {
-        let (tx_ctx, logger) = Self::begin_transaction(
-            self.coordinator.clone(),
-            self.pager.clone(),
-            self.catalog.clone(),
-        )?;
-        let child = tx_ctx.create_child()?;
-        let pager = self.pager.clone();
-        // Begin a recovery transaction
-        self.task_runner.run(move |ctx| {
-            let mut recuperator = WalRecuperator::new(child, logger.clone());
+    fn run_recovery(
+        coordinator: &TransactionCoordinator,
+        pager: &SharedPager,
+        catalog: &SharedCatalog,
+        task_runner: &SharedTaskRunner,
+    ) -> DatabaseResult<()> {
+        let analysis = pager.write().run_analysis()?;
+        if analysis.lsn_chains.is_empty() {
+            return Ok(());
+        }
+        coordinator.restore_from_log(&analysis);
 
-            // Run analysis INSIDE the closure using the cloned pager
-            let analysis = pager.write().run_analysis().map_err(box_err)?;
+        // Begin a recovery transaction
+        let (tx_ctx, logger) =
+            Self::begin_transaction(coordinator.clone(), pager.clone(), catalog.clone())?;
+        let child = tx_ctx.create_child()?;
+        let pager = pager.clone();
+        task_runner.run(move |_ctx| {
+            let mut recuperator = WalRecuperator::new(child, logger);
 
             // Run recovery through recuperator
             recuperator.run_recovery(&analysis).map_err(box_err)?;
 
-            // Truncate WAL
-            pager.write().truncate_wal().map_err(box_err)?;
-
             // Commit recovery transaction
             tx_ctx.commit_transaction().map_err(box_err)?;
 
+            // The checkpoint also truncates the log. Until then, recovery leaves no trace on disk.
+            pager.write().flush().map_err(box_err)?;
+
             Ok(())
         })?;
 
@@ -411,6 +414,8 @@ impl Database {
 
     /// Flushes all pending writes to disk.
     pub fn flush(&self) -> DatabaseResult<()> {
+        // No change is half done while the pages are collected.
+        let _guard = self.catalog.lock_writes();
         self.pager.write().flush()?;
         Ok(())
     }
@@ -455,6 +460,7 @@ impl Database {
         let coordinator = self.coordinator.clone();
 
         self.task_runner.run(move |_ctx| {
+            let _guard = catalog.lock_writes();
             let (tx_ctx, logger) =
                 Self::begin_transaction(coordinator.clone(), pager.clone(), catalog.clone())
                     .map_err(box_err)?;
diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index 00de483..b8933d3 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -1,6 +1,6 @@
 //! MVCC Transaction System for AxmosDB
 use crate::{
-    io::pager::SharedPager,
+    io::{pager::SharedPager, wal::AnalysisResult},
     types::{LogicalId, TransactionId},
 };
 use parking_lot::RwLock;
@@ -358,6 +358,24 @@ impl TransactionCoordinator {
         }
     }
 
+    /// Takes the outcome of the transactions in the log from it.
+    pub(crate) fn restore_from_log(&self, analysis: &AnalysisResult) {
+        for txid in analysis.lsn_chains.keys() {
+            let mut pager = self.pager.write();
+            if *txid >= pager.get_last_created_transaction() {
+                pager.set_last_created_transaction(*txid + 1);
+            }
+            if analysis.needs_redo.contains(txid) {
+                pager.mark_transaction_committed(*txid);
+                drop(pager);
+                self.transactions.write().remove(txid);
+            } else {
+                pager.mark_transaction_aborted(*txid);
+            }
+        }
+        self.load_aborted_transactions();
+    }
+
     /// Get a set of transactions with the provided state.
     pub fn transaction_set(&self, state: TransactionState) -> HashSet<TransactionId> {
         self.transactions
@@ -457,11 +475,7 @@ impl TransactionCoordinator {
                 entry.state = TransactionState::Committed;
 
                 // Update last_committed in PageZero if this is the highest committed txid
-                let mut pager = self.pager.write();
-                let current_last = pager.get_last_committed_transaction();
-                if txid > current_last {
-                    pager.set_last_committed_transaction(txid);
-                }
+                self.pager.write().mark_transaction_committed(txid);
 
                 Ok(())
             }
@@ -660,6 +674,7 @@ impl TransactionCoordinator {
         for (id, entry) in txs.iter_mut() {
             if entry.state == TransactionState::Active {
                 entry.state = TransactionState::Aborted;
+                self.pager.write().mark_transaction_aborted(*id);
                 aborted.push(*id);
             }
         }
diff --git a/crates/axmos-db/src/multithreading/frames.rs b/crates/axmos-db/src/multithreading/frames.rs
index 2e36692..0ae954d 100644
--- a/crates/axmos-db/src/multithreading/frames.rs
+++ b/crates/axmos-db/src/multithreading/frames.rs
@@ -126,6 +126,10 @@ where
     pub(crate) fn mark_dirty(&self) {
         self.is_dirty.store(true, Ordering::SeqCst);
     }
+
+    pub(crate) fn mark_clean(&self) {
+        self.is_dirty.store(false, Ordering::SeqCst);
+    }
 }
 
 impl<P> Frame<P>
@@ -284,6 +288,15 @@ impl MemFrame {
         }
     }
 
+    #[inline]
+    pub(crate) fn mark_clean(&self) {
+        match self {
+            MemFrame::Btree(f) => f.mark_clean(),
+            MemFrame::Overflow(f) => f.mark_clean(),
+            MemFrame::Zero(f) => f.mark_clean(),
+        }
+    }
+
     /// Execute a callback on the raw bytes of the inner frame.
     ///
     /// Be aware that this function grabs the write lock inside of itself.
diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index 0267489..baa4ce9 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -489,6 +489,10 @@ impl DdlExecutor {
         Self { ctx, logger }
     }
 
+    pub(crate) fn ctx(&self) -> &ThreadContext {
+        &self.ctx
+    }
+
     pub fn is_ddl(stmt: &BoundStatement) -> bool {
         matches!(
             stmt,
diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index 5059f49..e711532 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -257,7 +257,6 @@ impl DmlExecutor {
 
         let tree_builder = self.ctx.tree_builder();
         let snapshot = self.ctx.snapshot().clone();
-        let tid = self.ctx.tid();
 
         // Get the relation and allocate a new row ID
         let relation = self
@@ -273,13 +272,51 @@ impl DmlExecutor {
         );
 
         let schema = relation.schema().clone();
-        let root = relation.root();
 
         // Build the full row with the assigned row ID
         let full_row = self.build_full_row(&schema, columns, values, row_id)?;
 
         // Constraint validation goes here.
         self.validate_insert_constraints(&relation, full_row.as_slice())?;
+
+        self.insert_row(&relation, row_id, full_row)
+    }
+
+    /// Inserts a row of the log with the row ID it had.
+    pub(crate) fn restore_row(
+        &mut self,
+        table_id: ObjectId,
+        row_id: RowId,
+        row: Row,
+    ) -> RuntimeResult<InsertResult> {
+        let catalog = self.ctx.catalog().clone();
+        let _guard = catalog.lock_writes();
+
+        let tree_builder = self.ctx.tree_builder();
+        let relation = catalog.get_relation(table_id, &tree_builder, self.ctx.snapshot())?;
+
+        self.insert_row(&relation, UInt64(row_id), row)
+    }
+
+    /// Forgets how to take back what was done, and what had to be logged for it.
+    pub(crate) fn forget(&mut self) {
+        self.undo.clear();
+        self.log.clear();
+    }
+
+    /// Inserts a complete and valid row.
+    fn insert_row(
+        &mut self,
+        relation: &Relation,
+        row_id: UInt64,
+        full_row: Row,
+    ) -> RuntimeResult<InsertResult> {
+        let table_id = relation.object_id();
+        let schema = relation.schema().clone();
+        let root = relation.root();
+        let tree_builder = self.ctx.tree_builder();
+        let snapshot = self.ctx.snapshot().clone();
+        let tid = self.ctx.tid();
         let indexes = relation.get_indexes();
 
         // Create and insert the tuple
@@ -304,7 +341,7 @@ impl DmlExecutor {
 
         // Update relation metadata
         self.ctx.catalog().update_relation(
-            relation.object_id(),
+            table_id,
             Some(row_id.value() + 1),
             None,
             None,
diff --git a/crates/axmos-db/src/storage/page.rs b/crates/axmos-db/src/storage/page.rs
index a70404a..a9fb509 100644
--- a/crates/axmos-db/src/storage/page.rs
+++ b/crates/axmos-db/src/storage/page.rs
@@ -145,6 +145,14 @@ impl PageZeroHeader {
         }
     }
 
+    pub(crate) fn unmark_transaction_aborted(&mut self, txid: TransactionId) {
+        if txid < MAX_TRACKED_ABORTED_TXS as u64 {
+            let byte_idx = (txid / 8) as usize;
+            let bit_idx = (txid % 8) as u8;
+            self.aborted_txs_bitmap[byte_idx] &= !(1 << bit_idx);
+        }
+    }
+
     pub(crate) fn is_transaction_aborted(&self, txid: TransactionId) -> bool {
         if txid >= MAX_TRACKED_ABORTED_TXS as u64 {
             return false;
-- 
2.43.0


From 66706b54af237198f903c68c24d12f32a456abfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 40/51] hook: channels of the task runner can be supplied by
 the checker

---
 crates/axmos-db/src/multithreading/runner.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/multithreading/runner.rs b/crates/axmos-db/src/multithreading/runner.rs
index ed77e13..c463e6a 100644
--- a/crates/axmos-db/src/multithreading/runner.rs
+++ b/crates/axmos-db/src/multithreading/runner.rs
@@ -2,9 +2,15 @@ use std::{
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult},
     io::{Error as IoError, ErrorKind},
-    sync::{Arc, mpsc},
+    sync::Arc,
 };
 
+// Under the checker, channels whose waits its scheduler can see.
+#[cfg(axmos_verif)]
+use crate::verif::mpsc;
+#[cfg(not(axmos_verif))]
+use std::sync::mpsc;
+
 use crate::{
     io::pager::SharedPager,
     multithreading::{
-- 
2.43.0


From 48f6c0c20ab93c252173d0d7e684f25d1ea5689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 41/51] fix: a statement that changes tables runs alone

Scans and name look-ups hold positions in pages that a concurrent statement rearranges, and latch
pages again while it waits for them: statements of other threads missed tables, rows and index
entries or deadlocked. Statements that only read still run side by side.
Index entries are compared by value, not by bytes that include padding.
---
 crates/axmos-db/src/lib.rs            |  2 +-
 crates/axmos-db/src/runtime/ddl.rs    |  3 ---
 crates/axmos-db/src/runtime/dml.rs    | 35 ++++++++++++---------------
 crates/axmos-db/src/runtime/mod.rs    |  9 +++++++
 crates/axmos-db/src/schema/catalog.rs | 20 +++++++++------
 5 files changed, 39 insertions(+), 30 deletions(-)

diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index ecdc02e..b4a3cbb 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -415,7 +415,7 @@ impl Database {
     /// Flushes all pending writes to disk.
     pub fn flush(&self) -> DatabaseResult<()> {
         // No change is half done while the pages are collected.
-        let _guard = self.catalog.lock_writes();
+        let _guard = self.catalog.lock_reads();
         self.pager.write().flush()?;
         Ok(())
     }
diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index baa4ce9..d66cc58 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -505,9 +505,6 @@ impl DdlExecutor {
     }
 
     pub fn execute(&mut self, stmt: &BoundStatement) -> RuntimeResult<DdlResult> {
-        let catalog = self.ctx.catalog().clone();
-        let _guard = catalog.lock_writes();
-
         match stmt {
             BoundStatement::CreateTable(create) => {
                 let instr = CreateTableInstr::from(create);
diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index e711532..fb9c1d7 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -109,8 +109,6 @@ impl DmlExecutor {
         let undo = std::mem::take(&mut self.undo);
         self.log.clear();
         if result.is_err() {
-            let catalog = self.ctx.catalog().clone();
-            let _guard = catalog.lock_writes();
             for entry in undo.into_iter().rev() {
                 let mut tree = self.ctx.build_tree_mut(entry.root);
                 match entry.before {
@@ -252,9 +250,6 @@ impl DmlExecutor {
         columns: &[usize],
         values: &Row,
     ) -> RuntimeResult<InsertResult> {
-        let catalog = self.ctx.catalog().clone();
-        let _guard = catalog.lock_writes();
-
         let tree_builder = self.ctx.tree_builder();
         let snapshot = self.ctx.snapshot().clone();
 
@@ -290,8 +285,6 @@ impl DmlExecutor {
         row: Row,
     ) -> RuntimeResult<InsertResult> {
         let catalog = self.ctx.catalog().clone();
-        let _guard = catalog.lock_writes();
-
         let tree_builder = self.ctx.tree_builder();
         let relation = catalog.get_relation(table_id, &tree_builder, self.ctx.snapshot())?;
 
@@ -390,9 +383,6 @@ impl DmlExecutor {
         row_id: &UInt64,
         assignments: HashMap<usize, DataType>,
     ) -> RuntimeResult<UpdateResult> {
-        let catalog = self.ctx.catalog().clone();
-        let _guard = catalog.lock_writes();
-
         let row_id_bytes = row_id.serialize()?;
         let snapshot = self.ctx.snapshot().clone();
         let tree_builder = self.ctx.tree_builder();
@@ -485,9 +475,6 @@ impl DmlExecutor {
     /// # Returns
     /// Whether the delete was successful.
     pub fn delete(&mut self, table_id: ObjectId, row_id: &UInt64) -> RuntimeResult<DeleteResult> {
-        let catalog = self.ctx.catalog().clone();
-        let _guard = catalog.lock_writes();
-
         let row_id_bytes = row_id.serialize()?;
         let snapshot = self.ctx.snapshot().clone();
         let tree_builder = self.ctx.tree_builder();
@@ -642,18 +629,29 @@ impl DmlExecutor {
             let schema = index_relation.schema();
             let root = index_relation.root();
 
-            let entry = |values: Option<&Row>| -> RuntimeResult<Option<Tuple>> {
+            let columns = index.indexed_column_ids();
+            let entry = |values: Option<&Row>| -> RuntimeResult<Option<Row>> {
                 let Some(values) = values else {
                     return Ok(None);
                 };
-                let columns = index.indexed_column_ids();
-                Self::build_index_entry(values.as_slice(), columns, row_id)?
+                Self::build_index_entry(values.as_slice(), columns, row_id)
+            };
+            let old_entry = entry(old_values)?;
+            let new_entry = entry(new_values)?;
+            if old_values.is_some()
+                && old_entry.as_ref().map(Row::as_slice) == new_entry.as_ref().map(Row::as_slice)
+            {
+                continue;
+            }
+
+            let tuple = |entry: Option<Row>| -> RuntimeResult<Option<Tuple>> {
+                entry
                     .map(|row| TupleBuilder::from_schema(schema).build(&row, xid))
                     .transpose()
                     .map_err(RuntimeError::from)
             };
-            let old_entry = entry(old_values)?;
-            let new_entry = entry(new_values)?;
+            let old_entry = tuple(old_entry)?;
+            let new_entry = tuple(new_entry)?;
 
             match (old_entry, new_entry) {
                 // Delete operation: mark the entry as well
@@ -666,7 +664,6 @@ impl DmlExecutor {
                         self.write_entry(root, old, schema)?;
                     }
                 }
-                (Some(old), Some(new)) if old.effective_data() == new.effective_data() => {}
                 (old, new) => {
                     if let Some(old) = old {
                         self.remove_entry(root, old, schema)?;
diff --git a/crates/axmos-db/src/runtime/mod.rs b/crates/axmos-db/src/runtime/mod.rs
index 413e73e..4182bf7 100644
--- a/crates/axmos-db/src/runtime/mod.rs
+++ b/crates/axmos-db/src/runtime/mod.rs
@@ -446,11 +446,20 @@ impl QueryRunner {
     }
 
     pub(crate) fn prepare_and_run(&self, sql: &str) -> QueryRunnerResult<QueryResult> {
+        let catalog = self.ctx.catalog();
+        let reading = catalog.lock_reads();
         let bound = self.prepare(sql)?;
+        if is_query(&bound) {
+            return self.execute_statement(bound);
+        }
+        drop(reading);
+
+        let _writing = catalog.lock_writes();
         self.execute_statement(bound)
     }
 
     pub(crate) fn prepare_and_explain(&self, sql: &str) -> QueryRunnerResult<String> {
+        let _reading = self.ctx.catalog().lock_reads();
         let bound = self.prepare(sql)?;
         self.explain(bound)
     }
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index fda1b36..8da1e68 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -22,7 +22,7 @@ use super::{
 };
 
 use std::collections::{HashMap, HashSet};
-use parking_lot::{Mutex, MutexGuard};
+use parking_lot::{Mutex, RwLock, RwLockReadGuard, RwLockWriteGuard};
 use std::fmt::{Display, Formatter, Result as FmtResult};
 use std::time::{SystemTime, UNIX_EPOCH};
 
@@ -117,8 +117,9 @@ pub struct Catalog {
     meta_table: PageId,
     meta_index: PageId,
     pager: SharedPager,
-    /// Held while the rows, index entries and catalog entries of a change are written.
-    writes: Mutex<()>,
+    /// A statement that changes tables or the catalog runs alone: those that read find neither
+    /// half of its changes nor pages it is about to rearrange.
+    statements: RwLock<()>,
     /// The next row id of the tables written so far. It only grows, also when the transaction that
     /// took a row id rolls back, because its row stays in the table until VACUUM.
     next_row_ids: Mutex<HashMap<ObjectId, u64>>,
@@ -130,14 +131,19 @@ impl Catalog {
             meta_table,
             meta_index,
             pager,
-            writes: Mutex::new(()),
+            statements: RwLock::new(()),
             next_row_ids: Mutex::new(HashMap::new()),
         }
     }
 
-    /// Serializes the read-modify-write steps of a change to tables and to the catalog.
-    pub(crate) fn lock_writes(&self) -> MutexGuard<'_, ()> {
-        self.writes.lock()
+    /// Held while a statement is prepared, and while one that only reads is executed.
+    pub(crate) fn lock_reads(&self) -> RwLockReadGuard<'_, ()> {
+        self.statements.read()
+    }
+
+    /// Held while a statement that changes tables or the catalog is executed.
+    pub(crate) fn lock_writes(&self) -> RwLockWriteGuard<'_, ()> {
+        self.statements.write()
     }
 
     /// Takes a row id no other row of the table has, visible or not.
-- 
2.43.0


From 084508050e756bf301634ccaba0e76d501f2bcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:06 +0000
Subject: [PATCH 42/51] fix: whether a row version is the last one is not
 decided by its wrapping number

---
 crates/axmos-db/src/schema/catalog.rs | 4 ++--
 crates/axmos-db/src/storage/tuple.rs  | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 8da1e68..6132376 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -557,7 +557,7 @@ impl Catalog {
                     // What is left of transactions that were rolled back has to go, as they are
                     // forgotten afterwards: newer versions and a deletion mark.
                     let visible = TupleRef::new(bytes, layout);
-                    let is_last = visible.current_version() == visible.global_last_version();
+                    let is_last = visible.is_last_version();
                     let mut changed = tuple.clear_deletion();
                     if !is_last {
                         let row = visible.to_row_with(schema)?;
@@ -634,7 +634,7 @@ impl Catalog {
                 return Ok(None);
             };
             let visible = TupleRef::new(bytes, layout);
-            let is_last = visible.current_version() == visible.global_last_version();
+            let is_last = visible.is_last_version();
             Ok::<_, TupleError>(Some((
                 Tuple::from_slice_unchecked(bytes)?,
                 visible.to_row_with(&schema)?,
diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index faa35ea..38e39a3 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -753,6 +753,12 @@ impl<'a> TupleRef<'a> {
         header.version()
     }
 
+    /// Whether no newer version of the row exists. (Version numbers wrap around, so they cannot tell).
+    pub(crate) fn is_last_version(&self) -> bool {
+        let (_, header_end) = TupleHeader::read_from(self.data, 0);
+        self.layout.null_bitmap_start == header_end
+    }
+
     pub(crate) fn global_xmin(&self) -> TransactionId {
         let (header, _) = TupleHeader::read_from(self.data, 0);
         header.xmin()
-- 
2.43.0


From d91012ebfb94cea1aeae0d077e2a0b28e9566741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 43/51] fix: the type of an arithmetic result is wide enough
 for its value

---
 crates/axmos-db/src/sql/binder/binder.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index ef6d848..54034dd 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -1137,8 +1137,13 @@ impl<'a> Binder<'a> {
             ScalarFunction::Coalesce => args
                 .iter()
                 .map(|a| a.data_type())
-                .find(|kind| *kind != DataTypeKind::Null)
-                .unwrap_or(DataTypeKind::Null),
+                .fold(DataTypeKind::Null, |first, other| {
+                    if first == DataTypeKind::Null || first.is_numeric() && other.is_numeric() {
+                        self.wider_numeric(first, other)
+                    } else {
+                        first
+                    }
+                }),
             ScalarFunction::NullIf | ScalarFunction::Cast => args
                 .first()
                 .map(|a| a.data_type())
@@ -1147,11 +1152,16 @@ impl<'a> Binder<'a> {
         }
     }
 
+    /// Type of an arithmetic operation (or of a choice) between two numeric types: wide enough for
+    /// any value the evaluator produces for them.
     fn wider_numeric(&self, a: DataTypeKind, b: DataTypeKind) -> DataTypeKind {
+        use DataTypeKind::*;
         match (a, b) {
-            (DataTypeKind::Double, _) | (_, DataTypeKind::Double) => DataTypeKind::Double,
-            (DataTypeKind::BigInt, _) | (_, DataTypeKind::BigInt) => DataTypeKind::BigInt,
-            (DataTypeKind::Int, _) | (_, DataTypeKind::Int) => DataTypeKind::Int,
+            (Null, other) | (other, Null) => other,
+            (a, b) if a == b => a,
+            (Double | Float, _) | (_, Double | Float) => Double,
+            (UInt | BigUInt, UInt | BigUInt) => BigUInt,
+            (BigInt | UInt | BigUInt, _) | (_, BigInt | UInt | BigUInt) => BigInt,
             _ => a,
         }
     }
-- 
2.43.0


From 8b23a1c9bf37d755fdd0891fb953e6e77594f236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:46 +0000
Subject: [PATCH 44/51] fix: an integer literal beyond 2^53 keeps its value

---
 crates/axmos-db/src/sql/binder/analyzer.rs |  6 +++---
 crates/axmos-db/src/sql/binder/binder.rs   | 14 ++++++++++++++
 crates/axmos-db/src/sql/parser/ast.rs      |  2 ++
 crates/axmos-db/src/sql/parser/lexer.rs    |  9 +++++++++
 crates/axmos-db/src/sql/parser/mod.rs      | 14 ++++++++++++++
 5 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/crates/axmos-db/src/sql/binder/analyzer.rs b/crates/axmos-db/src/sql/binder/analyzer.rs
index 34f6f04..6826abe 100644
--- a/crates/axmos-db/src/sql/binder/analyzer.rs
+++ b/crates/axmos-db/src/sql/binder/analyzer.rs
@@ -291,7 +291,7 @@ impl Analyzer {
                 Ok(())
             }
             // Literals don't need validation
-            Expr::Number(_) | Expr::String(_) | Expr::Boolean(_) | Expr::Null | Expr::Star => {
+            Expr::Number(_) | Expr::Integer(_) | Expr::String(_) | Expr::Boolean(_) | Expr::Null | Expr::Star => {
                 Ok(())
             }
         }
@@ -401,7 +401,7 @@ impl Analyzer {
     /// Infers the data type of an expression.
     fn infer_expr_type(&self, expr: &Expr) -> AnalyzerResult<DataTypeKind> {
         match expr {
-            Expr::Number(_) => Ok(DataTypeKind::Double),
+            Expr::Number(_) | Expr::Integer(_) => Ok(DataTypeKind::Double),
             Expr::String(_) => Ok(DataTypeKind::Blob),
             Expr::Boolean(_) => Ok(DataTypeKind::Bool),
             Expr::Null => Ok(DataTypeKind::Null),
@@ -871,7 +871,7 @@ impl Analyzer {
     /// Validates expressions that don't require table scope (literals, simple expressions)
     fn validate_literal_expr(&self, expr: &Expr) -> AnalyzerResult<()> {
         match expr {
-            Expr::Number(_) | Expr::String(_) | Expr::Boolean(_) | Expr::Null => Ok(()),
+            Expr::Number(_) | Expr::Integer(_) | Expr::String(_) | Expr::Boolean(_) | Expr::Null => Ok(()),
             Expr::UnaryOp { expr, .. } => self.validate_literal_expr(expr),
             Expr::BinaryOp { left, right, .. } => {
                 self.validate_literal_expr(left)?;
diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 54034dd..4be5f28 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -743,6 +743,7 @@ impl<'a> Binder<'a> {
     fn bind_expr(&mut self, expr: &Expr) -> BinderResult<BoundExpression> {
         match expr {
             Expr::Number(n) => Ok(self.bind_number(*n)),
+            Expr::Integer(n) => Ok(self.bind_integer(*n)),
             Expr::String(s) => Ok(BoundExpression::Literal {
                 value: DataType::Blob(s.as_str().into()),
             }),
@@ -987,6 +988,7 @@ impl<'a> Binder<'a> {
     fn bind_literal_expr(&mut self, expr: &Expr) -> BinderResult<BoundExpression> {
         match expr {
             Expr::Number(n) => Ok(self.bind_number(*n)),
+            Expr::Integer(n) => Ok(self.bind_integer(*n)),
             Expr::String(s) => Ok(BoundExpression::Literal {
                 value: DataType::Blob(s.as_str().into()),
             }),
@@ -1038,6 +1040,18 @@ impl<'a> Binder<'a> {
         BoundExpression::Literal { value }
     }
 
+    fn bind_integer(&self, n: i128) -> BoundExpression {
+        let value = if let Ok(n) = i64::try_from(n) {
+            DataType::BigInt(n.into())
+        } else if let Ok(n) = u64::try_from(n) {
+            DataType::BigUInt(n.into())
+        } else {
+            DataType::Double((n as f64).into())
+        };
+
+        BoundExpression::Literal { value }
+    }
+
     fn try_parse_aggregate(&self, name: &str) -> Option<AggregateFunction> {
         match name {
             "COUNT" => Some(AggregateFunction::Count),
diff --git a/crates/axmos-db/src/sql/parser/ast.rs b/crates/axmos-db/src/sql/parser/ast.rs
index 5ec3666..0d72343 100644
--- a/crates/axmos-db/src/sql/parser/ast.rs
+++ b/crates/axmos-db/src/sql/parser/ast.rs
@@ -9,6 +9,7 @@ pub(crate) trait Simplify {
 pub(crate) enum Expr {
     // Literals
     Number(f64),
+    Integer(i128), // An integer that a double may not represent
     String(String),
     Boolean(bool),
     Null,
@@ -783,6 +784,7 @@ impl Display for Expr {
     fn fmt(&self, f: &mut Formatter<'_>) -> FmtResult {
         match self {
             Expr::Number(n) => write!(f, "{n}"),
+            Expr::Integer(n) => write!(f, "{n}"),
             Expr::String(s) => write!(f, "'{s}'"),
             Expr::Boolean(b) => write!(f, "{}", if *b { "TRUE" } else { "FALSE" }),
             Expr::Null => write!(f, "NULL"),
diff --git a/crates/axmos-db/src/sql/parser/lexer.rs b/crates/axmos-db/src/sql/parser/lexer.rs
index 969dd51..e5925ea 100644
--- a/crates/axmos-db/src/sql/parser/lexer.rs
+++ b/crates/axmos-db/src/sql/parser/lexer.rs
@@ -123,6 +123,7 @@ pub enum Token {
     Identifier(String),
     StringLiteral(String),
     NumberLiteral(f64),
+    IntegerLiteral(u64), // An integer that a double may not represent
 
     // Symbols and operators
     Star,      // *
@@ -156,6 +157,7 @@ impl fmt::Display for Token {
             Token::Identifier(s) => write!(f, "{s}"),
             Token::StringLiteral(s) => write!(f, "'{s}'"),
             Token::NumberLiteral(n) => write!(f, "{n}"),
+            Token::IntegerLiteral(n) => write!(f, "{n}"),
             Token::Star => write!(f, "*"),
             Token::Comma => write!(f, ","),
             Token::Dot => write!(f, "."),
@@ -304,6 +306,13 @@ impl Lexer {
             }
         }
 
+        // Not every integer has an exact double from 2^53 on.
+        if let Ok(int) = num_str.parse::<u64>()
+            && int >= 1 << 53
+        {
+            return Token::IntegerLiteral(int);
+        }
+
         match num_str.parse::<f64>() {
             Ok(num) if num.is_finite() => Token::NumberLiteral(num),
             _ => Token::Invalid(num_str),
diff --git a/crates/axmos-db/src/sql/parser/mod.rs b/crates/axmos-db/src/sql/parser/mod.rs
index 4204a55..0456e7f 100644
--- a/crates/axmos-db/src/sql/parser/mod.rs
+++ b/crates/axmos-db/src/sql/parser/mod.rs
@@ -137,6 +137,11 @@ impl Parser {
                 self.next_token();
                 Ok(Expr::Number(num))
             }
+            Token::IntegerLiteral(n) => {
+                let int = i128::from(*n);
+                self.next_token();
+                Ok(Expr::Integer(int))
+            }
             Token::StringLiteral(s) => {
                 let string = s.clone();
                 self.next_token();
@@ -263,6 +268,9 @@ impl Parser {
                     let num = -n;
                     self.next_token();
                     Ok(Expr::Number(num))
+                } else if let Token::IntegerLiteral(n) = self.current_token {
+                    self.next_token();
+                    Ok(Expr::Integer(-i128::from(n)))
                 } else {
                     // Regular unary minus for expressions
                     let expr = self.parse_expr_bp(9)?;
@@ -1274,6 +1282,9 @@ impl Parser {
                 let limit_val = n as usize;
                 self.next_token();
                 Some(limit_val)
+            } else if let Token::IntegerLiteral(n) = self.current_token {
+                self.next_token();
+                Some(n as usize)
             } else {
                 return Err(ParserError::InvalidExpression(
                     "expected number after LIMIT".to_string(),
@@ -1289,6 +1300,9 @@ impl Parser {
                 let offset_val = n as usize;
                 self.next_token();
                 Some(offset_val)
+            } else if let Token::IntegerLiteral(n) = self.current_token {
+                self.next_token();
+                Some(n as usize)
             } else {
                 return Err(ParserError::InvalidExpression(
                     "expected number after OFFSET".to_string(),
-- 
2.43.0


From 3cb3d9763c1487be7aaf64f1d988addb63b4709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 45/51] fix: text after a complete statement is an error, not
 ignored

---
 crates/axmos-db/src/sql/parser/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/axmos-db/src/sql/parser/mod.rs b/crates/axmos-db/src/sql/parser/mod.rs
index 0456e7f..2b29908 100644
--- a/crates/axmos-db/src/sql/parser/mod.rs
+++ b/crates/axmos-db/src/sql/parser/mod.rs
@@ -595,6 +595,17 @@ impl Parser {
     }
 
     pub fn parse(&mut self) -> ParseResult<Statement> {
+        let statement = self.parse_statement()?;
+
+        // Whatever follows must not be ignored: it may be a condition the statement depends on.
+        while self.consume_if(&Token::Semicolon) {}
+        if self.current_token != Token::Eof {
+            return Err(ParserError::UnexpectedToken(self.current_token.to_string()));
+        }
+        Ok(statement)
+    }
+
+    fn parse_statement(&mut self) -> ParseResult<Statement> {
         match &self.current_token {
             Token::With => Ok(Statement::With(self.parse_with_statement()?)),
             Token::Select => Ok(Statement::Select(self.parse_select_statement()?)),
-- 
2.43.0


From 97d50bb6780517d4e9376ef80d12fa4f1ead62c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 46/51] fix: IS NOT TRUE and IS NOT FALSE hold for NULL

---
 crates/axmos-db/src/runtime/eval.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/axmos-db/src/runtime/eval.rs b/crates/axmos-db/src/runtime/eval.rs
index 8ef76a6..e5d8af3 100644
--- a/crates/axmos-db/src/runtime/eval.rs
+++ b/crates/axmos-db/src/runtime/eval.rs
@@ -439,6 +439,13 @@ impl<'a> ExpressionEvaluator<'a> {
                             return Ok(vec![DataType::Bool(Bool(true))]);
                         };
                     }
+                    // IS and IS NOT are never unknown: NULL is no value but NULL itself
+                    BinaryOperator::Is | BinaryOperator::IsNot => {
+                        let both = matches!(left[0], DataType::Null)
+                            && matches!(right[0], DataType::Null);
+                        let is = matches!(bin_op, BinaryOperator::Is);
+                        return Ok(vec![DataType::Bool(Bool(both == is))]);
+                    }
                     _ => return Ok(vec![DataType::Null]),
                 }
             }
-- 
2.43.0


From 77b4f664ede72eedb9b85f3c13728b2e4da5caa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 47/51] fix: INSERT and ALTER cannot set the internal row id,
 nor a statement one column twice

---
 crates/axmos-db/src/sql/binder/binder.rs | 26 +++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 4be5f28..404ca30 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -20,7 +20,7 @@ use crate::{
 };
 
 use std::{
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult},
 };
@@ -386,6 +386,19 @@ impl<'a> Binder<'a> {
         })
     }
 
+    /// A statement may name each column once.
+    fn check_distinct<'n>(names: impl Iterator<Item = &'n String>) -> BinderResult<()> {
+        let mut seen = HashSet::new();
+        for name in names {
+            if !seen.insert(name) {
+                return Err(BinderError::Other(format!(
+                    "column '{name}' specified more than once"
+                )));
+            }
+        }
+        Ok(())
+    }
+
     /// Entry point to bind [InsertStatement]. Produces [BoundInsert] statements.
     fn bind_insert(&mut self, stmt: &InsertStatement) -> BinderResult<BoundInsert> {
         let relation = self
@@ -400,15 +413,20 @@ impl<'a> Binder<'a> {
         // If user specifies columns, use those indices
         // If not, use all columns EXCEPT the internal row_id (column 0)
         let column_indices: Vec<usize> = if let Some(cols) = &stmt.columns {
-            cols.iter()
+            let indices: Vec<usize> = cols
+                .iter()
                 .map(|name| {
                     table_schema
                         .column_index
                         .get(name)
                         .copied()
+                        // The row id is not for the user to choose: it could be another row's.
+                        .filter(|idx| *idx >= table_schema.num_keys())
                         .ok_or_else(|| BinderError::ColumnNotFound(name.clone()))
                 })
-                .collect::<BinderResult<_>>()?
+                .collect::<BinderResult<_>>()?;
+            Self::check_distinct(cols.iter())?;
+            indices
         } else {
             // Skip column 0 (internal row_id) when user doesn't specify columns
             (1..table_schema.num_columns()).collect()
@@ -475,6 +493,7 @@ impl<'a> Binder<'a> {
         })?;
 
         // Bind SET clauses
+        Self::check_distinct(stmt.set_clauses.iter().map(|sc| &sc.column))?;
         let assignments: Vec<BoundAssignment> = stmt
             .set_clauses
             .iter()
@@ -682,6 +701,7 @@ impl<'a> Binder<'a> {
                     .column_index
                     .get(&alter.name)
                     .copied()
+                    .filter(|idx| *idx >= schema.num_keys())
                     .ok_or_else(|| BinderError::ColumnNotFound(alter.name.clone()))?;
 
                 let action_type = match &alter.action {
-- 
2.43.0


From 649454da04849e20c5c2913ac0a91d4fe77798be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 48/51] fix: a subquery in FROM does not see the tables next to
 it

---
 crates/axmos-db/src/sql/binder/binder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 404ca30..a1feb00 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -254,8 +254,11 @@ impl<'a> Binder<'a> {
             }
 
             TableReference::Subquery { query, alias } => {
-                // Subquery has its own scope
-                let bound_query = self.bind_select(query)?;
+                // Subquery has its own scope: the tables next to it are no part of it
+                let outer = std::mem::replace(&mut self.scopes, ScopeStack::new());
+                let bound_query = self.bind_select(query);
+                self.scopes = outer;
+                let bound_query = bound_query?;
                 let schema = bound_query.schema.clone();
 
                 self.add_to_scope(ScopeEntry {
-- 
2.43.0


From 6a9b0a101220efe0493dd2819554ef6d79317340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:16 +0000
Subject: [PATCH 49/51] fix: a name that stands for two columns is an error

---
 crates/axmos-db/src/sql/binder/binder.rs |  2 ++
 crates/axmos-db/src/sql/binder/mod.rs    | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index a1feb00..49d7eaa 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -567,6 +567,8 @@ impl<'a> Binder<'a> {
 
     /// Binds a [CreateTableStatement], producing a [BoundCreateTable] statement
     fn bind_create_table(&mut self, stmt: &CreateTableStatement) -> BinderResult<BoundCreateTable> {
+        Self::check_distinct(stmt.columns.iter().map(|c| &c.name))?;
+
         // Build temporary schema INCLUDING row_id, exactly as DDL executor does
         let mut temp_columns: Vec<Column> = Vec::with_capacity(stmt.columns.len() + 1);
 
diff --git a/crates/axmos-db/src/sql/binder/mod.rs b/crates/axmos-db/src/sql/binder/mod.rs
index ee7aaac..5b513c8 100644
--- a/crates/axmos-db/src/sql/binder/mod.rs
+++ b/crates/axmos-db/src/sql/binder/mod.rs
@@ -27,6 +27,17 @@ pub(crate) struct ScopeEntry {
     pub cte_idx: Option<usize>,
 }
 
+impl ScopeEntry {
+    /// How many columns a name stands for: a query can give several of its columns one name.
+    fn num_named(&self, column: &str) -> usize {
+        if self.table_id.is_some() {
+            return self.schema.column_index.contains_key(column).into();
+        }
+        let columns = self.schema.iter_columns();
+        columns.filter(|c| c.name() == column).count()
+    }
+}
+
 /// Result of resolving a column
 pub(crate) struct ResolvedColumn {
     pub scope_index: usize,
@@ -176,6 +187,10 @@ fn resolve_in_scope(
             .get_entry(table_name)
             .ok_or_else(|| ScopeError::NotFound(DatabaseItem::Table(table_name.to_string())))?;
 
+        if entry.num_named(column) > 1 {
+            return Err(ScopeError::AmbiguousColumn(column.to_string()));
+        }
+
         let col_idx_in_table = entry.schema.column_index.get(column).ok_or_else(|| {
             ScopeError::NotFound(DatabaseItem::Column(
                 table_name.to_string(),
@@ -217,7 +232,7 @@ fn resolve_in_scope(
                         data_type: col.datatype(),
                         table_id: entry.table_id,
                     });
-                    found_count += 1;
+                    found_count += entry.num_named(column);
                 }
             }
         }
-- 
2.43.0


From b5fd2f81cd661a2abf94b28700a0dbffdd66ae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:37 +0000
Subject: [PATCH 50/51] fix: DROP TABLE IF EXISTS of a table that does not
 exist drops nothing

---
 crates/axmos-db/src/runtime/ddl.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index d66cc58..a67cac2 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -518,6 +518,8 @@ impl DdlExecutor {
                 let instr = self.alter_table_instr_from_bound(alter)?;
                 self.execute_alter_table(&instr)
             }
+            // Only with IF EXISTS
+            BoundStatement::DropTable(drop) if drop.table_id.is_none() => Ok(DdlResult::NoOp),
             BoundStatement::DropTable(drop) => {
                 let instr = DropTableInstr::from(drop);
                 self.execute_drop_table(&instr)
-- 
2.43.0


From 898cddf9c7e67d7a590188d27dce73e07ff523b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:37 +0000
Subject: [PATCH 51/51] fix: the name of an index does not name a table

---
 crates/axmos-db/src/sql/binder/binder.rs | 60 +++++++++---------------
 1 file changed, 22 insertions(+), 38 deletions(-)

diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 49d7eaa..1ea0f0c 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -6,7 +6,7 @@ use crate::{
     runtime::eval::ExpressionEvaluator,
     schema::{
         SharedCatalog,
-        base::{Column, Schema, SchemaError, SchemaResult},
+        base::{Column, Relation, Schema, SchemaError, SchemaResult},
     },
     sql::parser::ast::{
         AlterAction, AlterColumnAction, AlterTableStatement, BinaryOperator, ColumnDefExpr,
@@ -213,10 +213,7 @@ impl<'a> Binder<'a> {
                 }
 
                 // Lookup in catalog
-                let relation = self
-                    .catalog
-                    .get_relation_by_name(name, &self.tree_builder, &self.snapshot)
-                    .map_err(|_| BinderError::TableNotFound(name.clone()))?;
+                let relation = self.find_table(name)?;
 
                 let table_id = relation.object_id();
                 let schema = relation.schema().clone();
@@ -404,10 +401,7 @@ impl<'a> Binder<'a> {
 
     /// Entry point to bind [InsertStatement]. Produces [BoundInsert] statements.
     fn bind_insert(&mut self, stmt: &InsertStatement) -> BinderResult<BoundInsert> {
-        let relation = self
-            .catalog
-            .get_relation_by_name(&stmt.table, &self.tree_builder, &self.snapshot)
-            .map_err(|_| BinderError::TableNotFound(stmt.table.clone()))?;
+        let relation = self.find_table(&stmt.table)?;
 
         let table_id = relation.object_id();
         let table_schema = relation.schema().clone();
@@ -477,10 +471,7 @@ impl<'a> Binder<'a> {
 
     /// Binds an [UpdateStatement] producing a [BoundUpdate] statement.
     fn bind_update(&mut self, stmt: &UpdateStatement) -> BinderResult<BoundUpdate> {
-        let relation = self
-            .catalog
-            .get_relation_by_name(&stmt.table, &self.tree_builder, &self.snapshot)
-            .map_err(|_| BinderError::TableNotFound(stmt.table.clone()))?;
+        let relation = self.find_table(&stmt.table)?;
 
         let table_id = relation.object_id();
         let table_schema = relation.schema().clone();
@@ -532,10 +523,7 @@ impl<'a> Binder<'a> {
 
     /// Binds a [DeleteStatement] producing a [BoundDelete] statement
     fn bind_delete(&mut self, stmt: &DeleteStatement) -> BinderResult<BoundDelete> {
-        let relation = self
-            .catalog
-            .get_relation_by_name(&stmt.table, &self.tree_builder, &self.snapshot)
-            .map_err(|_| BinderError::TableNotFound(stmt.table.clone()))?;
+        let relation = self.find_table(&stmt.table)?;
 
         let table_id = relation.object_id();
         let table_schema = relation.schema().clone();
@@ -640,10 +628,7 @@ impl<'a> Binder<'a> {
             } => {
                 let col_indices = self.resolve_column_indices(columns, schema)?;
 
-                let ref_relation = self
-                    .catalog
-                    .get_relation_by_name(ref_table, &self.tree_builder, &self.snapshot)
-                    .map_err(|_| BinderError::TableNotFound(ref_table.clone()))?;
+                let ref_relation = self.find_table(ref_table)?;
 
                 let ref_indices =
                     self.resolve_column_indices(ref_columns, ref_relation.schema())?;
@@ -659,10 +644,7 @@ impl<'a> Binder<'a> {
 
     /// Entry point to bind [CreateIndexStatement], producing [BoundCreateIndex]
     fn bind_create_index(&mut self, stmt: &CreateIndexStatement) -> BinderResult<BoundCreateIndex> {
-        let relation = self
-            .catalog
-            .get_relation_by_name(&stmt.table, &self.tree_builder, &self.snapshot)
-            .map_err(|_| BinderError::TableNotFound(stmt.table.clone()))?;
+        let relation = self.find_table(&stmt.table)?;
 
         let table_id = relation.object_id();
         let schema = relation.schema();
@@ -683,10 +665,7 @@ impl<'a> Binder<'a> {
 
     /// Entry point to bind [AlterTableStatement], producing [BoundAlterTable]
     fn bind_alter_table(&mut self, stmt: &AlterTableStatement) -> BinderResult<BoundAlterTable> {
-        let relation = self
-            .catalog
-            .get_relation_by_name(&stmt.table, &self.tree_builder, &self.snapshot)
-            .map_err(|_| BinderError::TableNotFound(stmt.table.clone()))?;
+        let relation = self.find_table(&stmt.table)?;
 
         let table_id = relation.object_id();
         let schema = relation.schema();
@@ -736,17 +715,22 @@ impl<'a> Binder<'a> {
         Ok(BoundAlterTable { table_id, action })
     }
 
-    /// Entry point to bind [DropTableStatement], producing [BoundDropTable]
-    fn bind_drop_table(&mut self, stmt: &DropTableStatement) -> BinderResult<BoundDropTable> {
-        let table_id = self
-            .catalog
-            .get_relation_by_name(&stmt.table, &self.tree_builder, &self.snapshot)
+    /// Looks up a table in the catalog. The name of an index does not name a table.
+    fn find_table(&self, name: &str) -> BinderResult<Relation> {
+        self.catalog
+            .get_relation_by_name(name, &self.tree_builder, &self.snapshot)
             .ok()
-            .map(|r| r.object_id());
+            .filter(|relation| relation.is_table())
+            .ok_or_else(|| BinderError::TableNotFound(name.to_string()))
+    }
 
-        if table_id.is_none() && !stmt.if_exists {
-            return Err(BinderError::TableNotFound(stmt.table.clone()));
-        }
+    /// Entry point to bind [DropTableStatement], producing [BoundDropTable]
+    fn bind_drop_table(&mut self, stmt: &DropTableStatement) -> BinderResult<BoundDropTable> {
+        let table_id = match self.find_table(&stmt.table) {
+            Ok(table) => Some(table.object_id()),
+            Err(_) if stmt.if_exists => None,
+            Err(err) => return Err(err),
+        };
 
         Ok(BoundDropTable {
             table_id,
-- 
2.43.0

