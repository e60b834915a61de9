From aa905cbb45eef805e4c657051347fe1677556620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:57 +0000
Subject: [PATCH 01/47] fix: make file replacement durable, atomic and confined
 to its path

NativeVfs::write renamed a file whose data was never synced, and used a
temp name shared by every file with the same stem. Appends and renames
did not sync the directory, so a new journal could vanish after a power
loss. A failed background write was never reported: sync_all drops it,
flush returns it. A path with an inner '..' left the base directory, and
a failing stat looked like a missing file.
---
 crates/logicaffeine_system/src/fs/mod.rs | 65 +++++++++++++++++++-----
 1 file changed, 53 insertions(+), 12 deletions(-)

diff --git a/crates/logicaffeine_system/src/fs/mod.rs b/crates/logicaffeine_system/src/fs/mod.rs
index 04fcd46..98580d3 100644
--- a/crates/logicaffeine_system/src/fs/mod.rs
+++ b/crates/logicaffeine_system/src/fs/mod.rs
@@ -62,7 +62,7 @@ use async_trait::async_trait;
 use std::io;
 
 #[cfg(not(target_arch = "wasm32"))]
-use std::path::PathBuf;
+use std::path::{Component, Path, PathBuf};
 
 /// Error type for VFS operations
 #[derive(Debug)]
@@ -197,10 +197,31 @@ impl NativeVfs {
 
     /// Resolve a virtual path to an absolute filesystem path.
     fn resolve(&self, path: &str) -> PathBuf {
-        // Security: Prevent path traversal attacks
-        let clean = path.trim_start_matches('/').trim_start_matches("../");
+        // Security: Prevent path traversal attacks. `..` never climbs above the base.
+        let mut clean = PathBuf::new();
+        for part in Path::new(path).components() {
+            match part {
+                Component::Normal(name) => clean.push(name),
+                Component::ParentDir => {
+                    clean.pop();
+                }
+                _ => {}
+            }
+        }
         self.base_dir.join(clean)
     }
+
+    /// Make a created or renamed entry durable by syncing the directory that holds it.
+    async fn sync_parent(path: &Path) -> VfsResult<()> {
+        #[cfg(unix)]
+        if let Some(parent) = path.parent() {
+            let dir = if parent.as_os_str().is_empty() { Path::new(".") } else { parent };
+            tokio::fs::File::open(dir).await?.sync_all().await?;
+        }
+        #[cfg(not(unix))]
+        let _ = path;
+        Ok(())
+    }
 }
 
 #[cfg(not(target_arch = "wasm32"))]
@@ -217,6 +238,9 @@ impl Vfs for NativeVfs {
     }
 
     async fn write(&self, path: &str, contents: &[u8]) -> VfsResult<()> {
+        use std::sync::atomic::{AtomicU64, Ordering};
+        use tokio::io::AsyncWriteExt;
+
         let full_path = self.resolve(path);
 
         // Ensure parent directory exists
@@ -224,12 +248,23 @@ impl Vfs for NativeVfs {
             tokio::fs::create_dir_all(parent).await?;
         }
 
-        // Atomic write: write to temp file, then rename
-        let temp_path = full_path.with_extension("tmp");
-        tokio::fs::write(&temp_path, contents).await?;
-        tokio::fs::rename(&temp_path, &full_path).await?;
-
-        Ok(())
+        // Atomic write: write to a temp file of its own, sync it, then rename
+        static NEXT_TEMP: AtomicU64 = AtomicU64::new(0);
+        let name = full_path.file_name().unwrap_or_default().to_string_lossy();
+        let temp_path = full_path
+            .with_file_name(format!(".{}.{}.tmp", name, NEXT_TEMP.fetch_add(1, Ordering::Relaxed)));
+        let written = async {
+            let mut file = tokio::fs::File::create(&temp_path).await?;
+            file.write_all(contents).await?;
+            file.flush().await?; // sync_all does not report a failed background write
+            file.sync_all().await?;
+            tokio::fs::rename(&temp_path, &full_path).await
+        };
+        if let Err(e) = written.await {
+            let _ = tokio::fs::remove_file(&temp_path).await;
+            return Err(e.into());
+        }
+        Self::sync_parent(&full_path).await
     }
 
     async fn append(&self, path: &str, contents: &[u8]) -> VfsResult<()> {
@@ -249,14 +284,15 @@ impl Vfs for NativeVfs {
             .await?;
 
         file.write_all(contents).await?;
+        file.flush().await?; // sync_all does not report a failed background write
         file.sync_all().await?;
 
-        Ok(())
+        Self::sync_parent(&full_path).await
     }
 
     async fn exists(&self, path: &str) -> VfsResult<bool> {
         let full_path = self.resolve(path);
-        Ok(full_path.exists())
+        Ok(full_path.try_exists()?)
     }
 
     async fn remove(&self, path: &str) -> VfsResult<()> {
@@ -272,7 +308,12 @@ impl Vfs for NativeVfs {
     async fn rename(&self, from: &str, to: &str) -> VfsResult<()> {
         let from_path = self.resolve(from);
         let to_path = self.resolve(to);
-        tokio::fs::rename(&from_path, &to_path).await.map_err(VfsError::from)
+        tokio::fs::rename(&from_path, &to_path).await.map_err(VfsError::from)?;
+        Self::sync_parent(&to_path).await?;
+        if from_path.parent() != to_path.parent() {
+            Self::sync_parent(&from_path).await?;
+        }
+        Ok(())
     }
 
     async fn list_dir(&self, path: &str) -> VfsResult<Vec<DirEntry>> {
-- 
2.43.0


From d196b43424e451244c791a5dd0040591e247dffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:37 +0000
Subject: [PATCH 02/47] fix: keep acknowledged changes through torn appends and
 compaction

After a torn or failed append the next entry landed behind the partial
one, so a later mount lost it or refused the journal. The journal is now
replaced by a snapshot first. Compaction released the lock before it
wrote, which dropped a change made meanwhile. A failing existence check
mounted an empty value.
---
 crates/logicaffeine_system/src/storage/mod.rs | 65 +++++++++++++++----
 1 file changed, 53 insertions(+), 12 deletions(-)

diff --git a/crates/logicaffeine_system/src/storage/mod.rs b/crates/logicaffeine_system/src/storage/mod.rs
index b2405e0..eddd814 100644
--- a/crates/logicaffeine_system/src/storage/mod.rs
+++ b/crates/logicaffeine_system/src/storage/mod.rs
@@ -52,6 +52,7 @@ use logicaffeine_data::crdt::Merge;
 use crate::fs::{Vfs, VfsResult, VfsError};
 use serde::{de::DeserializeOwned, Serialize};
 use std::marker::PhantomData;
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
 use async_lock::Mutex;
 
@@ -103,6 +104,8 @@ where
     vfs: Arc<dyn Vfs + Send + Sync>,
     journal_path: String,
     entry_count: Arc<Mutex<u64>>,
+    /// The journal ends in a partial entry: rewrite it before adding anything.
+    torn_tail: AtomicBool,
     _marker: PhantomData<T>,
 }
 
@@ -116,17 +119,22 @@ where
     vfs: Arc<dyn Vfs>,
     journal_path: String,
     entry_count: Arc<Mutex<u64>>,
+    /// The journal ends in a partial entry: rewrite it before adding anything.
+    torn_tail: AtomicBool,
     _marker: PhantomData<T>,
 }
 
 /// Helper function to replay journal entries (shared between platforms).
-fn replay_journal<T>(data: &[u8]) -> Result<(T, u64), VfsError>
+///
+/// The last part of the result says whether the journal ends in a partial entry.
+fn replay_journal<T>(data: &[u8]) -> Result<(T, u64, bool), VfsError>
 where
     T: Merge + Serialize + DeserializeOwned + Clone + Default,
 {
     let mut state = T::default();
     let mut entry_count = 0u64;
     let mut pos = 0;
+    let mut valid_end = 0;
 
     while pos + JournalHeader::SIZE <= data.len() {
         let header_bytes: [u8; 8] = data[pos..pos + 8].try_into().unwrap();
@@ -157,10 +165,11 @@ where
         }
 
         pos = payload_end;
+        valid_end = pos;
         entry_count += 1;
     }
 
-    Ok((state, entry_count))
+    Ok((state, entry_count, valid_end < data.len()))
 }
 
 /// Native implementation with Send bounds.
@@ -175,11 +184,11 @@ where
     /// If not, creates a new journal with default state.
     ///
         pub async fn mount(vfs: Arc<dyn Vfs + Send + Sync>, path: &str) -> VfsResult<Self> {
-        let (state, entry_count) = if vfs.exists(path).await.unwrap_or(false) {
+        let (state, entry_count, torn_tail) = if vfs.exists(path).await? {
             let data = vfs.read(path).await?;
             replay_journal(&data)?
         } else {
-            (T::default(), 0)
+            (T::default(), 0, false)
         };
 
         Ok(Self {
@@ -187,6 +196,7 @@ where
             vfs,
             journal_path: path.to_string(),
             entry_count: Arc::new(Mutex::new(entry_count)),
+            torn_tail: AtomicBool::new(torn_tail),
             _marker: PhantomData,
         })
     }
@@ -204,6 +214,11 @@ where
         let mut guard = self.inner.lock().await;
         let result = f(&mut *guard);
 
+        if self.torn_tail.load(Ordering::Acquire) {
+            self.write_snapshot(&*guard).await?;
+            return Ok(result);
+        }
+
         let op = JournalOp::Delta(guard.clone());
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
@@ -213,7 +228,11 @@ where
         entry.extend_from_slice(&header);
         entry.extend_from_slice(&payload);
 
-        self.vfs.append(&self.journal_path, &entry).await?;
+        if let Err(e) = self.vfs.append(&self.journal_path, &entry).await {
+            // Part of the entry may be in the file.
+            self.torn_tail.store(true, Ordering::Release);
+            return Err(e);
+        }
         *self.entry_count.lock().await += 1;
 
         Ok(result)
@@ -221,9 +240,14 @@ where
 
     /// Compact the journal by writing a snapshot.
     pub async fn compact(&self) -> VfsResult<()> {
-        let state = self.inner.lock().await.clone();
+        // Held until the snapshot is in place: a change journalled meanwhile would be lost.
+        let guard = self.inner.lock().await;
+        self.write_snapshot(&*guard).await
+    }
 
-        let op = JournalOp::<T>::Snapshot(state);
+    /// Replace the journal by a snapshot of `state`.
+    async fn write_snapshot(&self, state: &T) -> VfsResult<()> {
+        let op = JournalOp::<T>::Snapshot(state.clone());
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
 
@@ -233,6 +257,7 @@ where
         entry.extend_from_slice(&payload);
 
         self.vfs.write(&self.journal_path, &entry).await?;
+        self.torn_tail.store(false, Ordering::Release);
         *self.entry_count.lock().await = 1;
 
         Ok(())
@@ -262,11 +287,11 @@ where
 {
     /// Mount a persistent value from a journal file.
     pub async fn mount(vfs: Arc<dyn Vfs>, path: &str) -> VfsResult<Self> {
-        let (state, entry_count) = if vfs.exists(path).await.unwrap_or(false) {
+        let (state, entry_count, torn_tail) = if vfs.exists(path).await? {
             let data = vfs.read(path).await?;
             replay_journal(&data)?
         } else {
-            (T::default(), 0)
+            (T::default(), 0, false)
         };
 
         Ok(Self {
@@ -274,6 +299,7 @@ where
             vfs,
             journal_path: path.to_string(),
             entry_count: Arc::new(Mutex::new(entry_count)),
+            torn_tail: AtomicBool::new(torn_tail),
             _marker: PhantomData,
         })
     }
@@ -291,6 +317,11 @@ where
         let mut guard = self.inner.lock().await;
         let result = f(&mut *guard);
 
+        if self.torn_tail.load(Ordering::Acquire) {
+            self.write_snapshot(&*guard).await?;
+            return Ok(result);
+        }
+
         let op = JournalOp::Delta(guard.clone());
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
@@ -300,7 +331,11 @@ where
         entry.extend_from_slice(&header);
         entry.extend_from_slice(&payload);
 
-        self.vfs.append(&self.journal_path, &entry).await?;
+        if let Err(e) = self.vfs.append(&self.journal_path, &entry).await {
+            // Part of the entry may be in the file.
+            self.torn_tail.store(true, Ordering::Release);
+            return Err(e);
+        }
         *self.entry_count.lock().await += 1;
 
         Ok(result)
@@ -308,9 +343,14 @@ where
 
     /// Compact the journal by writing a snapshot.
     pub async fn compact(&self) -> VfsResult<()> {
-        let state = self.inner.lock().await.clone();
+        // Held until the snapshot is in place: a change journalled meanwhile would be lost.
+        let guard = self.inner.lock().await;
+        self.write_snapshot(&*guard).await
+    }
 
-        let op = JournalOp::<T>::Snapshot(state);
+    /// Replace the journal by a snapshot of `state`.
+    async fn write_snapshot(&self, state: &T) -> VfsResult<()> {
+        let op = JournalOp::<T>::Snapshot(state.clone());
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
 
@@ -320,6 +360,7 @@ where
         entry.extend_from_slice(&payload);
 
         self.vfs.write(&self.journal_path, &entry).await?;
+        self.torn_tail.store(false, Ordering::Release);
         *self.entry_count.lock().await = 1;
 
         Ok(())
-- 
2.43.0


From 7198bbe99ed3a69acd666da2b49ec8bb5fa54efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:24 +0000
Subject: [PATCH 03/47] fix: serialise a distributed value's journal writes

Compaction of a distributed value took its snapshot, then replaced the
journal without keeping others out, so a local change or a remote update
journalled in between was lost although it had been acknowledged. After a
torn or failed append the next entry landed behind the partial one and
was lost at the next mount. A failing existence check mounted an empty
value.
---
 crates/logicaffeine_system/src/distributed.rs | 118 +++++++++++++-----
 1 file changed, 88 insertions(+), 30 deletions(-)

diff --git a/crates/logicaffeine_system/src/distributed.rs b/crates/logicaffeine_system/src/distributed.rs
index b7b0d51..2bdf5ae 100644
--- a/crates/logicaffeine_system/src/distributed.rs
+++ b/crates/logicaffeine_system/src/distributed.rs
@@ -51,6 +51,7 @@ use logicaffeine_data::crdt::Merge;
 use crate::fs::{Vfs, VfsResult, VfsError};
 use async_lock::Mutex;
 use serde::{de::DeserializeOwned, Serialize};
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
 
 /// Compaction threshold: auto-compact when journal exceeds this many entries.
@@ -88,13 +89,16 @@ impl JournalHeader {
 }
 
 /// Replay journal entries to reconstruct state.
-fn replay_journal<T>(data: &[u8]) -> Result<(T, u64), VfsError>
+///
+/// The last part of the result says whether the journal ends in a partial entry.
+fn replay_journal<T>(data: &[u8]) -> Result<(T, u64, bool), VfsError>
 where
     T: Merge + Serialize + DeserializeOwned + Clone + Default,
 {
     let mut state = T::default();
     let mut entry_count = 0u64;
     let mut pos = 0;
+    let mut valid_end = 0;
 
     while pos + JournalHeader::SIZE <= data.len() {
         let header_bytes: [u8; 8] = data[pos..pos + 8].try_into().unwrap();
@@ -125,10 +129,11 @@ where
         }
 
         pos = payload_end;
+        valid_end = pos;
         entry_count += 1;
     }
 
-    Ok((state, entry_count))
+    Ok((state, entry_count, valid_end < data.len()))
 }
 
 // =============================================================================
@@ -153,7 +158,10 @@ where
     vfs: Arc<dyn Vfs + Send + Sync>,
     journal_path: String,
     topic: Option<String>,
+    /// Also the journal's lock: held while the journal is appended to or replaced.
     entry_count: Arc<Mutex<u64>>,
+    /// The journal ends in a partial entry: rewrite it before adding anything.
+    torn_tail: Arc<AtomicBool>,
     local_peer_id: Option<String>,
 }
 
@@ -192,11 +200,11 @@ where
         topic: Option<String>,
     ) -> VfsResult<Self> {
         // 1. Replay journal to reconstruct state
-        let (state, entry_count) = if vfs.exists(path).await.unwrap_or(false) {
+        let (state, entry_count, torn_tail) = if vfs.exists(path).await? {
             let data = vfs.read(path).await?;
             replay_journal(&data)?
         } else {
-            (T::default(), 0)
+            (T::default(), 0, false)
         };
 
         // 2. Get local peer ID for echo detection
@@ -208,6 +216,7 @@ where
             journal_path: path.to_string(),
             topic: topic.clone(),
             entry_count: Arc::new(Mutex::new(entry_count)),
+            torn_tail: Arc::new(AtomicBool::new(torn_tail)),
             local_peer_id,
         };
 
@@ -259,8 +268,9 @@ where
 
     /// Manual compaction.
     pub async fn compact(&self) -> VfsResult<()> {
+        let mut count = self.entry_count.lock().await;
         let snapshot = self.inner.lock().await.clone();
-        self.do_compact(&snapshot).await
+        self.do_compact(snapshot, &mut count).await
     }
 
     /// Get the number of journal entries.
@@ -277,6 +287,7 @@ where
         let path = self.journal_path.clone();
         let local_id = self.local_peer_id.clone();
         let entry_count = self.entry_count.clone();
+        let torn_tail = self.torn_tail.clone();
 
         tokio::spawn(async move {
             let mut rx = crate::network::gossip::subscribe(&topic).await;
@@ -310,10 +321,23 @@ where
                 entry.extend_from_slice(&header);
                 entry.extend_from_slice(&payload);
 
+                let mut count = entry_count.lock().await;
+                if torn_tail.load(Ordering::Acquire) {
+                    let snapshot = inner.lock().await.clone();
+                    match Self::write_snapshot(&vfs, &path, snapshot).await {
+                        Ok(()) => {
+                            torn_tail.store(false, Ordering::Release);
+                            *count = 1;
+                        }
+                        Err(e) => eprintln!("[Distributed] Journal rewrite failed: {:?}", e),
+                    }
+                    continue;
+                }
                 if let Err(e) = vfs.append(&path, &entry).await {
+                    torn_tail.store(true, Ordering::Release);
                     eprintln!("[Distributed] Journal append failed: {:?}", e);
                 } else {
-                    *entry_count.lock().await += 1;
+                    *count += 1;
                 }
             }
 
@@ -333,25 +357,47 @@ where
         entry.extend_from_slice(&header);
         entry.extend_from_slice(&payload);
 
-        self.vfs.append(&self.journal_path, &entry).await?;
-        *self.entry_count.lock().await += 1;
+        let mut count = self.entry_count.lock().await;
+        if self.torn_tail.load(Ordering::Acquire) {
+            let snapshot = self.inner.lock().await.clone();
+            return self.do_compact(snapshot, &mut count).await;
+        }
+        if let Err(e) = self.vfs.append(&self.journal_path, &entry).await {
+            // Part of the entry may be in the file.
+            self.torn_tail.store(true, Ordering::Release);
+            return Err(e);
+        }
+        *count += 1;
 
         Ok(())
     }
 
     /// Auto-compact if entry count exceeds threshold.
     async fn maybe_compact(&self) -> VfsResult<()> {
-        let count = *self.entry_count.lock().await;
-        if count >= COMPACT_THRESHOLD {
+        let mut count = self.entry_count.lock().await;
+        if *count >= COMPACT_THRESHOLD {
             let snapshot = self.inner.lock().await.clone();
-            self.do_compact(&snapshot).await?;
+            self.do_compact(snapshot, &mut count).await?;
         }
         Ok(())
     }
 
-    /// Write snapshot and reset journal.
-    async fn do_compact(&self, snapshot: &T) -> VfsResult<()> {
-        let op = JournalOp::Snapshot(snapshot.clone());
+    /// Write snapshot and reset journal. The caller holds the journal's lock.
+    async fn do_compact(&self, snapshot: T, count: &mut u64) -> VfsResult<()> {
+        Self::write_snapshot(&self.vfs, &self.journal_path, snapshot).await?;
+
+        self.torn_tail.store(false, Ordering::Release);
+        *count = 1;
+        Ok(())
+    }
+
+    /// Replace the journal by a snapshot. The caller holds the journal's lock.
+    async fn write_snapshot(
+        vfs: &Arc<dyn Vfs + Send + Sync>,
+        journal_path: &str,
+        snapshot: T,
+    ) -> VfsResult<()> {
+        let op = JournalOp::Snapshot(snapshot);
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
 
@@ -361,12 +407,9 @@ where
         entry.extend_from_slice(&payload);
 
         // Atomic: write temp → rename
-        let temp_path = format!("{}.tmp", self.journal_path);
-        self.vfs.write(&temp_path, &entry).await?;
-        self.vfs.rename(&temp_path, &self.journal_path).await?;
-
-        *self.entry_count.lock().await = 1;
-        Ok(())
+        let temp_path = format!("{}.tmp", journal_path);
+        vfs.write(&temp_path, &entry).await?;
+        vfs.rename(&temp_path, journal_path).await
     }
 }
 
@@ -386,7 +429,10 @@ where
     inner: Arc<Mutex<T>>,
     vfs: Arc<dyn Vfs>,
     journal_path: String,
+    /// Also the journal's lock: held while the journal is appended to or replaced.
     entry_count: Arc<Mutex<u64>>,
+    /// The journal ends in a partial entry: rewrite it before adding anything.
+    torn_tail: Arc<AtomicBool>,
 }
 
 #[cfg(target_arch = "wasm32")]
@@ -403,11 +449,11 @@ where
         path: &str,
         _topic: Option<String>,  // Ignored on WASM
     ) -> VfsResult<Self> {
-        let (state, entry_count) = if vfs.exists(path).await.unwrap_or(false) {
+        let (state, entry_count, torn_tail) = if vfs.exists(path).await? {
             let data = vfs.read(path).await?;
             replay_journal(&data)?
         } else {
-            (T::default(), 0)
+            (T::default(), 0, false)
         };
 
         Ok(Self {
@@ -415,6 +461,7 @@ where
             vfs,
             journal_path: path.to_string(),
             entry_count: Arc::new(Mutex::new(entry_count)),
+            torn_tail: Arc::new(AtomicBool::new(torn_tail)),
         })
     }
 
@@ -444,8 +491,9 @@ where
 
     /// Manual compaction.
     pub async fn compact(&self) -> VfsResult<()> {
+        let mut count = self.entry_count.lock().await;
         let snapshot = self.inner.lock().await.clone();
-        self.do_compact(&snapshot).await
+        self.do_compact(&snapshot, &mut count).await
     }
 
     /// Get the number of journal entries.
@@ -463,22 +511,31 @@ where
         entry.extend_from_slice(&header);
         entry.extend_from_slice(&payload);
 
-        self.vfs.append(&self.journal_path, &entry).await?;
-        *self.entry_count.lock().await += 1;
+        let mut count = self.entry_count.lock().await;
+        if self.torn_tail.load(Ordering::Acquire) {
+            let snapshot = self.inner.lock().await.clone();
+            return self.do_compact(&snapshot, &mut count).await;
+        }
+        if let Err(e) = self.vfs.append(&self.journal_path, &entry).await {
+            // Part of the entry may be in the file.
+            self.torn_tail.store(true, Ordering::Release);
+            return Err(e);
+        }
+        *count += 1;
 
         Ok(())
     }
 
     async fn maybe_compact(&self) -> VfsResult<()> {
-        let count = *self.entry_count.lock().await;
-        if count >= COMPACT_THRESHOLD {
+        let mut count = self.entry_count.lock().await;
+        if *count >= COMPACT_THRESHOLD {
             let snapshot = self.inner.lock().await.clone();
-            self.do_compact(&snapshot).await?;
+            self.do_compact(&snapshot, &mut count).await?;
         }
         Ok(())
     }
 
-    async fn do_compact(&self, snapshot: &T) -> VfsResult<()> {
+    async fn do_compact(&self, snapshot: &T, count: &mut u64) -> VfsResult<()> {
         let op = JournalOp::Snapshot(snapshot.clone());
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
@@ -493,7 +550,8 @@ where
         self.vfs.write(&temp_path, &entry).await?;
         self.vfs.rename(&temp_path, &self.journal_path).await?;
 
-        *self.entry_count.lock().await = 1;
+        self.torn_tail.store(false, Ordering::Release);
+        *count = 1;
         Ok(())
     }
 }
-- 
2.43.0


From d8efeb4281d43fb113fc0d8e5e5ac30e7693e419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:50 +0000
Subject: [PATCH 04/47] Add a seam for a simulated mesh

Under --cfg logos_sim a process can install a stand-in for the libp2p
mesh, with one set of subscriptions per simulated node. Nothing changes
without the flag.
---
 .../logicaffeine_system/src/network/gossip.rs | 19 +++++++++---
 .../logicaffeine_system/src/network/mesh.rs   | 29 +++++++++++++++++++
 crates/logicaffeine_system/src/network/mod.rs |  2 ++
 3 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/crates/logicaffeine_system/src/network/gossip.rs b/crates/logicaffeine_system/src/network/gossip.rs
index 45513d4..f1276a8 100644
--- a/crates/logicaffeine_system/src/network/gossip.rs
+++ b/crates/logicaffeine_system/src/network/gossip.rs
@@ -46,6 +46,17 @@ use tokio::sync::{mpsc, Mutex};
 static SUBSCRIPTIONS: Lazy<Mutex<HashMap<String, mpsc::Sender<Vec<u8>>>>> =
     Lazy::new(|| Mutex::new(HashMap::new()));
 
+/// The subscriptions of this process (`--cfg logos_sim`: of the current simulated node).
+fn subscriptions() -> &'static Mutex<HashMap<String, mpsc::Sender<Vec<u8>>>> {
+    #[cfg(logos_sim)]
+    if let Some(mesh) = crate::network::sim::MESH.get() {
+        let make: fn() -> Box<crate::network::sim::State> =
+            || Box::new(Mutex::new(HashMap::<String, mpsc::Sender<Vec<u8>>>::new()));
+        return (mesh.node_state)(make).downcast_ref().expect("gossip subscriptions");
+    }
+    &SUBSCRIPTIONS
+}
+
 /// Subscribe to a topic. Returns a receiver for incoming messages.
 ///
 /// This registers the subscription locally and forwards it to the mesh node.
@@ -55,7 +66,7 @@ pub async fn subscribe(topic: &str) -> mpsc::Receiver<Vec<u8>> {
 
     // Register subscription
     {
-        let mut subs = SUBSCRIPTIONS.lock().await;
+        let mut subs = subscriptions().lock().await;
         subs.insert(topic.to_string(), tx);
     }
 
@@ -122,7 +133,7 @@ pub async fn subscribe_and_merge<T: Merge + DeserializeOwned + Send + 'static>(
 
     // Register subscription
     {
-        let mut subs = SUBSCRIPTIONS.lock().await;
+        let mut subs = subscriptions().lock().await;
         subs.insert(topic.to_string(), tx);
     }
 
@@ -151,7 +162,7 @@ pub async fn on_message(topic: &str, data: Vec<u8>) {
     #[cfg(test)]
     test_hooks::log_received(topic, &data);
 
-    let subs = SUBSCRIPTIONS.lock().await;
+    let subs = subscriptions().lock().await;
     if let Some(tx) = subs.get(topic) {
         if tx.send(data).await.is_err() {
             eprintln!("[gossip] Failed to forward message to subscriber");
@@ -164,7 +175,7 @@ pub async fn on_message(topic: &str, data: Vec<u8>) {
 /// This removes the subscription and stops receiving messages.
 #[allow(dead_code)]
 pub async fn unsubscribe(topic: &str) {
-    let mut subs = SUBSCRIPTIONS.lock().await;
+    let mut subs = subscriptions().lock().await;
     subs.remove(topic);
     // Note: Should also tell mesh node to unsubscribe from gossipsub
 }
diff --git a/crates/logicaffeine_system/src/network/mesh.rs b/crates/logicaffeine_system/src/network/mesh.rs
index 28f9974..c1577a4 100644
--- a/crates/logicaffeine_system/src/network/mesh.rs
+++ b/crates/logicaffeine_system/src/network/mesh.rs
@@ -680,6 +680,10 @@ pub async fn send<T: Serialize>(peer: &PeerAgent, msg: &T) -> Result<(), Network
 
 /// Get the local peer ID.
 pub async fn local_peer_id() -> Result<PeerId, NetworkError> {
+    #[cfg(logos_sim)]
+    if sim::MESH.get().is_some() {
+        return Ok(PeerId::random());
+    }
     let guard = get_mesh().await?;
     let mesh = guard.as_ref().ok_or(NetworkError::NotInitialized)?;
     Ok(mesh.local_peer_id())
@@ -705,6 +709,10 @@ pub async fn local_peer_id() -> Result<PeerId, NetworkError> {
 /// Increase state's clicks by 1.  // Auto-publishes via GossipSub
 /// ```
 pub async fn gossip_publish(topic: &str, data: Vec<u8>) {
+    #[cfg(logos_sim)]
+    if let Some(mesh) = sim::MESH.get() {
+        return (mesh.publish)(topic, data);
+    }
     // Ensure mesh is initialized
     if ensure_mesh().await.is_err() {
         eprintln!("[GOSSIP] Mesh not initialized, cannot publish");
@@ -731,6 +739,10 @@ pub async fn gossip_publish(topic: &str, data: Vec<u8>) {
 ///
 /// * `topic` - The topic name to subscribe to
 pub async fn gossip_subscribe(topic: &str) {
+    #[cfg(logos_sim)]
+    if let Some(mesh) = sim::MESH.get() {
+        return (mesh.subscribe)(topic);
+    }
     // Ensure mesh is initialized
     if ensure_mesh().await.is_err() {
         eprintln!("[GOSSIP] Mesh not initialized, cannot subscribe");
@@ -746,6 +758,23 @@ pub async fn gossip_subscribe(topic: &str) {
     }
 }
 
+/// A simulated mesh in place of libp2p (`--cfg logos_sim` only).
+#[cfg(logos_sim)]
+pub mod sim {
+    use std::sync::OnceLock;
+
+    pub type State = dyn std::any::Any + Send + Sync;
+
+    pub struct Mesh {
+        /// Several simulated nodes share one process: the current node's own gossip state.
+        pub node_state: fn(fn() -> Box<State>) -> &'static State,
+        pub publish: fn(&str, Vec<u8>),
+        pub subscribe: fn(&str),
+    }
+
+    pub static MESH: OnceLock<Mesh> = OnceLock::new();
+}
+
 // =============================================================================
 // Test infrastructure (compiles out in release)
 // =============================================================================
diff --git a/crates/logicaffeine_system/src/network/mod.rs b/crates/logicaffeine_system/src/network/mod.rs
index 66d9938..8a3f24b 100644
--- a/crates/logicaffeine_system/src/network/mod.rs
+++ b/crates/logicaffeine_system/src/network/mod.rs
@@ -53,3 +53,5 @@ mod e2e_tests;
 pub use sipping::{FileSipper, FileManifest, FileChunk, DEFAULT_CHUNK_SIZE};
 pub use mesh::{listen, connect, send, local_peer_id, PeerAgent, MeshNode, NetworkError};
 pub use mesh::{gossip_publish, gossip_subscribe};
+#[cfg(logos_sim)]
+pub use mesh::sim;
-- 
2.43.0


From 46f5c896ec89b2e222f85d689b7cf8c37beb5900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:07 +0000
Subject: [PATCH 05/47] fix: include removals in the deltas of a replicated set

A delta named only live additions, so a replica kept up by deltas never
learned about removals and its version never caught up.
---
 crates/logicaffeine_data/src/crdt/causal/context.rs | 8 ++++++++
 crates/logicaffeine_data/src/crdt/orset.rs          | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/crates/logicaffeine_data/src/crdt/causal/context.rs b/crates/logicaffeine_data/src/crdt/causal/context.rs
index 69e007c..542e866 100644
--- a/crates/logicaffeine_data/src/crdt/causal/context.rs
+++ b/crates/logicaffeine_data/src/crdt/causal/context.rs
@@ -87,6 +87,14 @@ impl DotContext {
         self.compact();
     }
 
+    /// Every dot this context has seen.
+    pub fn dots(&self) -> impl Iterator<Item = Dot> + '_ {
+        self.clock
+            .replicas()
+            .flat_map(|&replica| (1..=self.clock.get(replica)).map(move |n| Dot::new(replica, n)))
+            .chain(self.cloud.iter().copied())
+    }
+
     /// Get the underlying vector clock.
     pub fn clock(&self) -> &VClock {
         &self.clock
diff --git a/crates/logicaffeine_data/src/crdt/orset.rs b/crates/logicaffeine_data/src/crdt/orset.rs
index 1b5fe5c..deefc29 100644
--- a/crates/logicaffeine_data/src/crdt/orset.rs
+++ b/crates/logicaffeine_data/src/crdt/orset.rs
@@ -296,6 +296,14 @@ impl<T: Hash + Eq + Clone + Serialize + DeserializeOwned + Send + 'static, B: Se
                 entries.insert(value.clone(), fresh);
             }
         }
+        // Dots that are seen but no longer live are removals. They carry no entry, so the context
+        // has to name them, whatever `since` says: removing does not advance the version.
+        let live: HashSet<Dot> = self.entries.values().flatten().copied().collect();
+        for dot in self.context.dots() {
+            if !live.contains(&dot) {
+                context.add(dot);
+            }
+        }
         Some(ORSetDelta { entries, context })
     }
 
-- 
2.43.0


From 890f3941a87a79f4bfbc0b1931677d33b93862e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:07 +0000
Subject: [PATCH 06/47] fix: offer no incomplete delta list to a concurrent
 peer

A peer whose version is concurrent with the evicted deltas was given the
remaining ones and silently missed the evicted changes.
---
 crates/logicaffeine_data/src/crdt/delta_buffer.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_data/src/crdt/delta_buffer.rs b/crates/logicaffeine_data/src/crdt/delta_buffer.rs
index b65def6..c29d27c 100644
--- a/crates/logicaffeine_data/src/crdt/delta_buffer.rs
+++ b/crates/logicaffeine_data/src/crdt/delta_buffer.rs
@@ -35,7 +35,7 @@ impl<D: Clone> DeltaBuffer<D> {
     pub fn push(&mut self, version: VClock, delta: D) {
         if self.deltas.len() >= self.max_size {
             if let Some((old_version, _)) = self.deltas.pop_front() {
-                self.oldest_version = old_version;
+                self.oldest_version.merge_vclock(&old_version);
             }
         }
         self.deltas.push_back((version, delta));
@@ -47,8 +47,11 @@ impl<D: Clone> DeltaBuffer<D> {
     /// Returns `Some(vec![])` if the peer is up-to-date.
     pub fn deltas_since(&self, version: &VClock) -> Option<Vec<D>> {
         // If we've evicted deltas and the peer is at or behind what we evicted,
-        // we can't help them catch up (they need the evicted delta).
-        if self.oldest_version != VClock::new() && self.oldest_version.dominates(version) {
+        // we can't help them catch up (they need the evicted delta). Nor can we help a peer whose
+        // version is merely concurrent with what we evicted.
+        if self.oldest_version != VClock::new()
+            && (self.oldest_version.dominates(version) || !version.dominates(&self.oldest_version))
+        {
             return None;
         }
 
-- 
2.43.0


From df6ee3b5cb98c0bc54d9701f6afbd81655ff9bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:07 +0000
Subject: [PATCH 07/47] fix: deliver gossip messages to every subscriber of a
 topic

A second subscription replaced the first one, and a subscriber that did
not read blocked delivery on every topic.
---
 .../logicaffeine_system/src/network/gossip.rs | 38 +++++++++++++------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/crates/logicaffeine_system/src/network/gossip.rs b/crates/logicaffeine_system/src/network/gossip.rs
index f1276a8..c1f8798 100644
--- a/crates/logicaffeine_system/src/network/gossip.rs
+++ b/crates/logicaffeine_system/src/network/gossip.rs
@@ -42,16 +42,16 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use tokio::sync::{mpsc, Mutex};
 
-/// Topic subscriptions: topic -> channel for incoming messages
-static SUBSCRIPTIONS: Lazy<Mutex<HashMap<String, mpsc::Sender<Vec<u8>>>>> =
+/// Topic subscriptions: topic -> channels for incoming messages, one per subscriber
+static SUBSCRIPTIONS: Lazy<Mutex<HashMap<String, Vec<mpsc::Sender<Vec<u8>>>>>> =
     Lazy::new(|| Mutex::new(HashMap::new()));
 
 /// The subscriptions of this process (`--cfg logos_sim`: of the current simulated node).
-fn subscriptions() -> &'static Mutex<HashMap<String, mpsc::Sender<Vec<u8>>>> {
+fn subscriptions() -> &'static Mutex<HashMap<String, Vec<mpsc::Sender<Vec<u8>>>>> {
     #[cfg(logos_sim)]
     if let Some(mesh) = crate::network::sim::MESH.get() {
         let make: fn() -> Box<crate::network::sim::State> =
-            || Box::new(Mutex::new(HashMap::<String, mpsc::Sender<Vec<u8>>>::new()));
+            || Box::new(Mutex::new(HashMap::<String, Vec<mpsc::Sender<Vec<u8>>>>::new()));
         return (mesh.node_state)(make).downcast_ref().expect("gossip subscriptions");
     }
     &SUBSCRIPTIONS
@@ -67,7 +67,9 @@ pub async fn subscribe(topic: &str) -> mpsc::Receiver<Vec<u8>> {
     // Register subscription
     {
         let mut subs = subscriptions().lock().await;
-        subs.insert(topic.to_string(), tx);
+        let subscribers = subs.entry(topic.to_string()).or_default();
+        subscribers.retain(|other| !other.is_closed());
+        subscribers.push(tx);
     }
 
     // Forward subscription to mesh node
@@ -134,7 +136,9 @@ pub async fn subscribe_and_merge<T: Merge + DeserializeOwned + Send + 'static>(
     // Register subscription
     {
         let mut subs = subscriptions().lock().await;
-        subs.insert(topic.to_string(), tx);
+        let subscribers = subs.entry(topic.to_string()).or_default();
+        subscribers.retain(|other| !other.is_closed());
+        subscribers.push(tx);
     }
 
     // Forward subscription to mesh node
@@ -156,23 +160,33 @@ pub async fn subscribe_and_merge<T: Merge + DeserializeOwned + Send + 'static>(
 
 /// Called by mesh node when a GossipSub message arrives.
 ///
-/// Routes the message to the appropriate subscription channel.
+/// Routes the message to every subscription of its topic.
 pub async fn on_message(topic: &str, data: Vec<u8>) {
     // Test hook: log received messages
     #[cfg(test)]
     test_hooks::log_received(topic, &data);
 
-    let subs = subscriptions().lock().await;
-    if let Some(tx) = subs.get(topic) {
-        if tx.send(data).await.is_err() {
-            eprintln!("[gossip] Failed to forward message to subscriber");
+    // Send without holding the registry: a subscriber that does not read must not stop the others.
+    let subscribers = match subscriptions().lock().await.get(topic) {
+        Some(subscribers) => subscribers.clone(),
+        None => return,
+    };
+    let mut full = Vec::new();
+    for tx in subscribers {
+        if let Err(mpsc::error::TrySendError::Full(data)) = tx.try_send(data.clone()) {
+            full.push((tx, data));
         }
     }
+    for (tx, data) in full {
+        tokio::spawn(async move {
+            let _ = tx.send(data).await;
+        });
+    }
 }
 
 /// Unsubscribe from a topic.
 ///
-/// This removes the subscription and stops receiving messages.
+/// This removes the topic's subscriptions and stops receiving messages.
 #[allow(dead_code)]
 pub async fn unsubscribe(topic: &str) {
     let mut subs = subscriptions().lock().await;
-- 
2.43.0


From f43aca710b017e41f9bc06c074f5f6bf834ccd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:18 +0000
Subject: [PATCH 08/47] fix: wake a select that names a pipe twice only once

The second registration survived the wake-up and swallowed a later value,
or made the task run while it was not waiting.
---
 crates/logicaffeine_runtime/src/scheduler.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/logicaffeine_runtime/src/scheduler.rs b/crates/logicaffeine_runtime/src/scheduler.rs
index 817973e..63605e0 100644
--- a/crates/logicaffeine_runtime/src/scheduler.rs
+++ b/crates/logicaffeine_runtime/src/scheduler.rs
@@ -611,17 +611,14 @@ impl<'t> Scheduler<'t> {
                 slot.state = TaskState::Ready;
             }
             self.ready.push(rid);
-            self.cancel_select_registrations(rid, Some(ch));
+            self.cancel_select_registrations(rid);
         } else {
             self.mark_ready(rid, value);
         }
     }
 
-    fn cancel_select_registrations(&mut self, rid: TaskId, except: Option<ChanId>) {
-        for (cid, chan) in self.chans.iter_mut() {
-            if Some(*cid) == except {
-                continue;
-            }
+    fn cancel_select_registrations(&mut self, rid: TaskId) {
+        for chan in self.chans.values_mut() {
             chan.blocked_receivers.retain(|t| *t != rid);
         }
         self.timers.retain(|t| t.tid != rid);
@@ -742,7 +739,7 @@ impl<'t> Scheduler<'t> {
                 }
                 self.ready.push(tid);
                 if had.is_some() {
-                    self.cancel_select_registrations(tid, None);
+                    self.cancel_select_registrations(tid);
                 }
             }
             None => self.mark_ready(tid, RtPayload::Nothing),
@@ -801,7 +798,10 @@ impl<'t> Scheduler<'t> {
             chan.blocked_receivers.drain(..).collect()
         };
         for rid in waiters {
-            self.wake_closed_receiver(rid, ch);
+            // A select naming this channel twice waits here twice, but is woken once.
+            if !matches!(self.tasks[&rid].state, TaskState::Ready) {
+                self.wake_closed_receiver(rid, ch);
+            }
         }
     }
 
@@ -819,7 +819,7 @@ impl<'t> Scheduler<'t> {
                 slot.state = TaskState::Ready;
             }
             self.ready.push(rid);
-            self.cancel_select_registrations(rid, Some(ch));
+            self.cancel_select_registrations(rid);
         } else {
             self.mark_ready(rid, RtPayload::Nothing);
         }
-- 
2.43.0


From 7b9cd7c18e92abda3e98e0f679dfa08b2f82dd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:18 +0000
Subject: [PATCH 09/47] fix: let a stopped task do nothing more

A task stopping itself kept running. With several workers, a task stopped
by an earlier task of the same batch still printed and took its step.
---
 crates/logicaffeine_runtime/src/executor.rs  |  4 ++++
 crates/logicaffeine_runtime/src/scheduler.rs | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_runtime/src/executor.rs b/crates/logicaffeine_runtime/src/executor.rs
index 90a5453..b2623b3 100644
--- a/crates/logicaffeine_runtime/src/executor.rs
+++ b/crates/logicaffeine_runtime/src/executor.rs
@@ -248,6 +248,10 @@ where
             for tid in &order {
                 let WorkerReport { tid: rt, output: slice_out, step } =
                     reports.remove(tid).expect("report for dispatched task");
+                // Aborted by a task picked before it: cooperatively it would not have run.
+                if sched.ws_is_done(rt) {
+                    continue;
+                }
                 output.extend(slice_out);
                 apply_step(&mut sched, &mut fresh, rt, step);
             }
diff --git a/crates/logicaffeine_runtime/src/scheduler.rs b/crates/logicaffeine_runtime/src/scheduler.rs
index 63605e0..268be3a 100644
--- a/crates/logicaffeine_runtime/src/scheduler.rs
+++ b/crates/logicaffeine_runtime/src/scheduler.rs
@@ -404,6 +404,12 @@ impl<'t> Scheduler<'t> {
         })
     }
 
+    /// Has this task finished or been aborted?
+    #[cfg(not(target_arch = "wasm32"))]
+    pub(crate) fn ws_is_done(&self, tid: TaskId) -> bool {
+        matches!(self.tasks[&tid].state, TaskState::Done)
+    }
+
     /// Every task finished?
     #[cfg(not(target_arch = "wasm32"))]
     pub(crate) fn ws_all_done(&self) -> bool {
@@ -458,7 +464,9 @@ impl<'t> Scheduler<'t> {
             TaskStep::Await(target) => self.do_await(tid, target),
             TaskStep::Abort(target) => {
                 self.do_abort(target);
-                self.mark_ready(tid, RtPayload::Nothing);
+                if target != tid {
+                    self.mark_ready(tid, RtPayload::Nothing);
+                }
             }
             TaskStep::Close(ch) => {
                 self.do_close(ch);
-- 
2.43.0


From 6082bedb38f83974c386920bb1a340caa3c272d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:00:13 +0000
Subject: [PATCH 10/47] fix: pass every argument of a launched task

'Launch a task to f with a and b' read the arguments as one logical expression.
---
 crates/logicaffeine_language/src/parser/mod.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/crates/logicaffeine_language/src/parser/mod.rs b/crates/logicaffeine_language/src/parser/mod.rs
index 9d0a7f7..aa37c94 100644
--- a/crates/logicaffeine_language/src/parser/mod.rs
+++ b/crates/logicaffeine_language/src/parser/mod.rs
@@ -4385,19 +4385,13 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
 
         // Optional arguments in parentheses or with "with" keyword
         let args = if self.check(&TokenType::LParen) {
-            self.parse_call_arguments()?
+            self.advance(); // consume '('
+            let args = self.parse_call_arguments()?;
+            self.consume(TokenType::RParen)?;
+            args
         } else if self.check_word("with") {
             self.advance(); // consume "with"
-            let mut args = Vec::new();
-            let arg = self.parse_imperative_expr()?;
-            args.push(arg);
-            // Handle additional args separated by "and"
-            while self.check(&TokenType::And) {
-                self.advance();
-                let arg = self.parse_imperative_expr()?;
-                args.push(arg);
-            }
-            args
+            self.parse_call_arguments()?
         } else {
             Vec::new()
         };
-- 
2.43.0


From 41c19339c1d5a919983ff75624640fd39df9c3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:00:13 +0000
Subject: [PATCH 11/47] fix: report the error of a launched task

The interpreter dropped it, while the bytecode machine reported it.
---
 crates/logicaffeine_compile/src/concurrency/bridge.rs | 4 +++-
 crates/logicaffeine_compile/src/concurrency/driver.rs | 1 +
 crates/logicaffeine_compile/src/interpreter.rs        | 3 ++-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_compile/src/concurrency/bridge.rs b/crates/logicaffeine_compile/src/concurrency/bridge.rs
index 0d123da..02ee037 100644
--- a/crates/logicaffeine_compile/src/concurrency/bridge.rs
+++ b/crates/logicaffeine_compile/src/concurrency/bridge.rs
@@ -95,11 +95,13 @@ impl ResumeValue {
 pub struct YieldState<'a> {
     pub request: Option<BlockingRequest<'a>>,
     pub resume: ResumeValue,
+    /// Where the task, and every task it launches, reports its error.
+    pub err_sink: Option<super::driver::ErrSink>,
 }
 
 impl<'a> YieldState<'a> {
     pub fn new() -> Self {
-        YieldState { request: None, resume: ResumeValue::None }
+        YieldState { request: None, resume: ResumeValue::None, err_sink: None }
     }
 }
 
diff --git a/crates/logicaffeine_compile/src/concurrency/driver.rs b/crates/logicaffeine_compile/src/concurrency/driver.rs
index 55ad744..e15fc05 100644
--- a/crates/logicaffeine_compile/src/concurrency/driver.rs
+++ b/crates/logicaffeine_compile/src/concurrency/driver.rs
@@ -34,6 +34,7 @@ impl<'a> InterpreterTask<'a> {
         ys: Yield<'a>,
         err_sink: Option<ErrSink>,
     ) -> Self {
+        ys.borrow_mut().err_sink = err_sink.clone();
         InterpreterTask { fut, ys, err_sink }
     }
 }
diff --git a/crates/logicaffeine_compile/src/interpreter.rs b/crates/logicaffeine_compile/src/interpreter.rs
index 48c2c6f..6a9ee27 100644
--- a/crates/logicaffeine_compile/src/interpreter.rs
+++ b/crates/logicaffeine_compile/src/interpreter.rs
@@ -3847,7 +3847,8 @@ impl<'a> Interpreter<'a> {
         let fut = Box::pin(async move {
             child.call_function_with_values(function, args).await.map(|_| ())
         });
-        Box::new(InterpreterTask::new(fut, ys, None))
+        let err_sink = self.yield_state.as_ref().and_then(|y| y.borrow().err_sink.clone());
+        Box::new(InterpreterTask::new(fut, ys, err_sink))
     }
 
     #[async_recursion(?Send)]
-- 
2.43.0


From 8163bfa10cc4404f87d1577fc6e3c0404b603d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:00:13 +0000
Subject: [PATCH 12/47] fix: report task errors when running on several workers

---
 .../src/concurrency/vm_driver.rs                 | 12 +++++++++++-
 crates/logicaffeine_compile/src/ui_bridge.rs     |  6 +++---
 crates/logicaffeine_runtime/src/executor.rs      | 16 +++++++++++-----
 crates/logicaffeine_runtime/src/task.rs          |  6 ++++++
 4 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/crates/logicaffeine_compile/src/concurrency/vm_driver.rs b/crates/logicaffeine_compile/src/concurrency/vm_driver.rs
index ad26ece..b7b773e 100644
--- a/crates/logicaffeine_compile/src/concurrency/vm_driver.rs
+++ b/crates/logicaffeine_compile/src/concurrency/vm_driver.rs
@@ -47,7 +47,8 @@ impl<'p> VmTask<'p> {
     /// A work-stealing task: output buffers locally (reported via `take_output`),
     /// and a spawn forwards a `SpawnDesc` the worker rebuilds — never a boxed body
     /// (which is `!Send` and could not cross a worker boundary anyway).
-    pub fn work_stealing(vm: Vm<'p>, err_sink: Option<ErrSink>) -> Self {
+    pub fn work_stealing(vm: Vm<'p>) -> Self {
+        let err_sink = Some(Rc::new(RefCell::new(None)));
         VmTask { vm, output: OutputMode::Buffered(Vec::new()), err_sink }
     }
 
@@ -152,6 +153,15 @@ impl<'p> Task<'p> for VmTask<'p> {
             OutputMode::Shared(_) => Vec::new(),
         }
     }
+
+    /// Hand the work-stealing coordinator the error this task failed with, so the
+    /// first one in pick order is reported.
+    fn take_error(&mut self) -> Option<String> {
+        match &self.output {
+            OutputMode::Buffered(_) => self.err_sink.as_ref()?.borrow_mut().take(),
+            OutputMode::Shared(_) => None,
+        }
+    }
 }
 
 /// Translate the scheduler's resume context into the VM resume value: a freshly
diff --git a/crates/logicaffeine_compile/src/ui_bridge.rs b/crates/logicaffeine_compile/src/ui_bridge.rs
index a94ec46..91e9944 100644
--- a/crates/logicaffeine_compile/src/ui_bridge.rs
+++ b/crates/logicaffeine_compile/src/ui_bridge.rs
@@ -2389,17 +2389,17 @@ pub fn run_vm_workstealing_seeded(input: &str, seed: u64, workers: usize) -> Int
                 if !desc.is_main {
                     vm.setup_task(desc.func, &desc.args);
                 }
-                Box::new(VmTask::work_stealing(vm, None))
+                Box::new(VmTask::work_stealing(vm))
             };
             let main = SpawnDesc { func: 0, args: vec![], priority: 0, is_main: true };
             let config = SchedulerConfig::default().with_workers(workers.max(1));
             let result = run_workstealing_seeded(config, SchedSeed(seed), main, build);
-            let error = match result.outcome {
+            let error = result.error.or(match result.outcome {
                 RunOutcome::Deadlock => {
                     Some("deadlock: every task is blocked waiting".to_string())
                 }
                 _ => None,
-            };
+            });
             InterpreterResult { lines: result.output, error }
         }
         Err(advice) => InterpreterResult { lines: vec![], error: Some(advice) },
diff --git a/crates/logicaffeine_runtime/src/executor.rs b/crates/logicaffeine_runtime/src/executor.rs
index b2623b3..aa27f48 100644
--- a/crates/logicaffeine_runtime/src/executor.rs
+++ b/crates/logicaffeine_runtime/src/executor.rs
@@ -101,6 +101,7 @@ enum ReportStep {
 struct WorkerReport {
     tid: TaskId,
     output: Vec<String>,
+    error: Option<String>,
     step: ReportStep,
 }
 
@@ -114,6 +115,8 @@ enum WorkMsg {
 pub struct WsOutcome {
     pub outcome: crate::scheduler::RunOutcome,
     pub output: Vec<String>,
+    /// The first task error, in pick order.
+    pub error: Option<String>,
     pub trace: crate::seed::SchedTrace,
 }
 
@@ -167,7 +170,7 @@ where
     // Scoped threads let workers BORROW `&build` (and through it the program), so
     // the bodies need not be `'static` — no leak, no unsafe.
     let build_ref = &build;
-    let (outcome, output, trace) = std::thread::scope(|scope| {
+    let (outcome, output, error, trace) = std::thread::scope(|scope| {
         // coordinator→worker work (one channel each, so a pinned resume routes to
         // its owning worker).
         let mut work_txs = Vec::with_capacity(n);
@@ -182,6 +185,7 @@ where
         let mut owner: HashMap<TaskId, usize> = HashMap::new();
         let mut next_w = 0usize;
         let mut output: Vec<String> = Vec::new();
+        let mut error: Option<String> = None;
 
         let outcome = loop {
             // The ready batch, in the SAME pick order the cooperative scheduler uses.
@@ -246,13 +250,14 @@ where
             // through the SAME Scheduler methods the cooperative driver uses — this
             // is what makes output + channel resolution identical to cooperative.
             for tid in &order {
-                let WorkerReport { tid: rt, output: slice_out, step } =
+                let WorkerReport { tid: rt, output: slice_out, error: slice_err, step } =
                     reports.remove(tid).expect("report for dispatched task");
                 // Aborted by a task picked before it: cooperatively it would not have run.
                 if sched.ws_is_done(rt) {
                     continue;
                 }
                 output.extend(slice_out);
+                error = error.or(slice_err);
                 apply_step(&mut sched, &mut fresh, rt, step);
             }
         };
@@ -261,10 +266,10 @@ where
             let _ = tx.send(WorkMsg::Shutdown);
         }
         drop(work_txs);
-        (outcome, output, sched.into_trace())
+        (outcome, output, error, sched.into_trace())
     });
 
-    WsOutcome { outcome, output, trace }
+    WsOutcome { outcome, output, error, trace }
 }
 
 /// Apply one worker's report through the authoritative `Scheduler` (reusing its
@@ -335,11 +340,12 @@ fn worker_main<'env, B>(
         let task = local.get_mut(&tid).expect("task body present on its owning worker");
         let step = task.poll(&mut ctx);
         let out = task.take_output();
+        let error = task.take_error();
         let (rstep, done) = project_step(step);
         if done {
             local.remove(&tid);
         }
-        if report_tx.send(WorkerReport { tid, output: out, step: rstep }).is_err() {
+        if report_tx.send(WorkerReport { tid, output: out, error, step: rstep }).is_err() {
             break;
         }
     }
diff --git a/crates/logicaffeine_runtime/src/task.rs b/crates/logicaffeine_runtime/src/task.rs
index 7067201..666bbff 100644
--- a/crates/logicaffeine_runtime/src/task.rs
+++ b/crates/logicaffeine_runtime/src/task.rs
@@ -108,4 +108,10 @@ pub trait Task<'t> {
     fn take_output(&mut self) -> Vec<String> {
         Vec::new()
     }
+
+    /// The error the task failed with during the *just-finished* `poll` slice.
+    /// Cooperative tasks write it straight to their sink (the default: none).
+    fn take_error(&mut self) -> Option<String> {
+        None
+    }
 }
-- 
2.43.0


From 28bdbc752913033c261c020d5a4f7c8d536d9a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:18:18 +0000
Subject: [PATCH 13/47] fix: keep the relay listening after a failed accept

One failed accept ended the relay's listening loop for good: existing clients
stayed connected but no new client could join until the process was restarted.
A failed accept now pauses briefly and the loop goes on.
---
 crates/logicaffeine_system/src/relay.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_system/src/relay.rs b/crates/logicaffeine_system/src/relay.rs
index d2c621c..b286ce1 100644
--- a/crates/logicaffeine_system/src/relay.rs
+++ b/crates/logicaffeine_system/src/relay.rs
@@ -187,7 +187,16 @@ async fn serve_inner(addr: &str, hub: Hub) -> std::io::Result<RelayServer> {
     let hub_for_loop = hub.clone();
     let next_id = Arc::new(AtomicU64::new(0));
     let accept = tokio::spawn(async move {
-        while let Ok((stream, _peer)) = listener.accept().await {
+        loop {
+            let stream = match listener.accept().await {
+                Ok((stream, _peer)) => stream,
+                // A failed accept (a peer that is already gone, no descriptor free) is
+                // not the end of the relay: pause and go on listening.
+                Err(_) => {
+                    tokio::time::sleep(std::time::Duration::from_millis(20)).await;
+                    continue;
+                }
+            };
             let hub = hub_for_loop.clone();
             let id = next_id.fetch_add(1, Ordering::Relaxed);
             tokio::spawn(async move {
-- 
2.43.0


From ce9ebf0f7e657fd1137170da467193447711743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:07 +0000
Subject: [PATCH 14/47] fix: make the pad ledger's rename durable

The record of consumed pad was written, synced and renamed into place, but the
directory was never synced. After a power loss the previous record could be
back, and pad that had already protected a message was handed out again.
---
 crates/logicaffeine_compile/src/concurrency/pnp.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/logicaffeine_compile/src/concurrency/pnp.rs b/crates/logicaffeine_compile/src/concurrency/pnp.rs
index 81469ef..c1893ec 100644
--- a/crates/logicaffeine_compile/src/concurrency/pnp.rs
+++ b/crates/logicaffeine_compile/src/concurrency/pnp.rs
@@ -170,6 +170,17 @@ impl PadLedgerStore for FileLedger {
         f.write_all(&cursor.to_le_bytes()).expect("pnp ledger: write");
         f.sync_all().expect("pnp ledger: fsync");
         std::fs::rename(&tmp, &self.path).expect("pnp ledger: rename");
+        // The rename itself is durable only once its directory is.
+        #[cfg(unix)]
+        {
+            let dir = match self.path.parent() {
+                Some(d) if !d.as_os_str().is_empty() => d,
+                _ => std::path::Path::new("."),
+            };
+            std::fs::File::open(dir)
+                .and_then(|d| d.sync_all())
+                .expect("pnp ledger: fsync directory");
+        }
     }
 }
 
-- 
2.43.0


From 08aa4604df47c5a4a359df9bca6b95b58083a89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:46 +0000
Subject: [PATCH 15/47] fix: refuse to seal when the pad ledger cannot be read

A record of consumed pad that existed but could not be read, or had the wrong
length, was taken for a fresh pad, and sealing started over at its beginning.
Such a record now counts as a spent pad.
---
 crates/logicaffeine_compile/src/concurrency/pnp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_compile/src/concurrency/pnp.rs b/crates/logicaffeine_compile/src/concurrency/pnp.rs
index c1893ec..64e863f 100644
--- a/crates/logicaffeine_compile/src/concurrency/pnp.rs
+++ b/crates/logicaffeine_compile/src/concurrency/pnp.rs
@@ -160,7 +160,10 @@ impl PadLedgerStore for FileLedger {
     fn load_cursor(&self) -> u64 {
         match std::fs::read(&self.path) {
             Ok(bytes) if bytes.len() == 8 => u64::from_le_bytes(bytes.try_into().unwrap()),
-            _ => 0,
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => 0,
+            // A record that exists but cannot be read says nothing about what is left of the
+            // pad: count all of it as consumed, so that sealing fails closed.
+            _ => u64::MAX,
         }
     }
     fn commit_cursor(&self, cursor: u64) {
-- 
2.43.0


From abeef866b4539052a6f153947e3d356c3a075afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:24:25 +0000
Subject: [PATCH 16/47] fix: accept a pad cover only once under concurrency

The receive window was checked before the cover was verified and updated after
it, with the lock released in between. Two threads opening the same cover at
the same time both accepted it, so a replay got through.
---
 crates/logicaffeine_compile/src/concurrency/pnp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_compile/src/concurrency/pnp.rs b/crates/logicaffeine_compile/src/concurrency/pnp.rs
index 64e863f..1cf0dcf 100644
--- a/crates/logicaffeine_compile/src/concurrency/pnp.rs
+++ b/crates/logicaffeine_compile/src/concurrency/pnp.rs
@@ -410,7 +410,12 @@ impl PnpSuite {
         for ((d, c), p) in plain.iter_mut().zip(payload).zip(xor) {
             *d = c ^ p;
         }
-        self.recv.lock().unwrap().accept(offset, end);
+        // Checked again with the lock held: another thread may have opened the same cover meanwhile.
+        let mut recv = self.recv.lock().unwrap();
+        if !recv.acceptable(offset) {
+            return None;
+        }
+        recv.accept(offset, end);
         Some(plain)
     }
 }
-- 
2.43.0


From 708f42f2a87c12d1075da100d42060aaf23f2754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:32:32 +0000
Subject: [PATCH 17/47] fix: never mix the parts of different redundant
 messages

Every sender numbered its redundant messages from zero and the receiver
grouped the parts by that number alone. Parts of different senders, and
parts left over from an earlier message, were combined and the message
was lost. The number is now a keyed hash of the sender and its counter,
and parts of an already delivered message are dropped.
---
 .../src/concurrency/net_inbox.rs              | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_compile/src/concurrency/net_inbox.rs b/crates/logicaffeine_compile/src/concurrency/net_inbox.rs
index 2c64f2d..82220a6 100644
--- a/crates/logicaffeine_compile/src/concurrency/net_inbox.rs
+++ b/crates/logicaffeine_compile/src/concurrency/net_inbox.rs
@@ -10,7 +10,9 @@
 //! non-blocking primitives here (`drain` + `try_take_message` / `try_take_stream`).
 
 use std::cell::RefCell;
+use std::collections::hash_map::RandomState;
 use std::collections::{HashMap, VecDeque};
+use std::hash::BuildHasher;
 use std::rc::Rc;
 
 use crate::concurrency::marshal::{self, WireSchemaCache, WireTypeRegistry};
@@ -28,6 +30,9 @@ pub(crate) enum RecvSlot {
     Stream(Rc<Vec<u8>>),
 }
 
+/// How many reconstructed `Send redundant` messages are remembered.
+const DONE_SHARDS: usize = 1024;
+
 /// The peer-messaging state shared by the tree-walker and the VM task. Fields are `pub(crate)` so a
 /// holder's networking-statement handlers can read/establish them directly (e.g. set `net` on
 /// `Connect`, `inbox` on `Listen`) while the receive primitives below own the buffer mechanics.
@@ -45,8 +50,13 @@ pub(crate) struct NetInbox {
     pub recv_schema: WireSchemaCache,
     /// Monotonic id stamped on each `Send redundant` message so its FEC shards can be regrouped.
     pub send_msg_id: u64,
+    /// Keys the hash that turns (sender, `send_msg_id`) into a wire message id, so neither two senders
+    /// nor two runs of one sender put the same id on the wire.
+    pub msg_id_keys: RandomState,
     /// Receive-side buffer of incoming FEC shards, keyed by message id, until K arrive to reconstruct.
     pub recv_shards: HashMap<u64, Vec<Vec<u8>>>,
+    /// The message ids reconstructed most recently: their late and duplicate shards are dropped.
+    pub done_shards: VecDeque<u64>,
     /// THIS node's published acceptance surface — advertised in our handshake AND the budget the
     /// decode path enforces. One declaration, both advertised and enforced (it cannot drift).
     pub my_profile: marshal::PeerProfile,
@@ -109,7 +119,9 @@ impl NetInbox {
             send_schema: HashMap::new(),
             recv_schema: WireSchemaCache::content_addressed(),
             send_msg_id: 0,
+            msg_id_keys: RandomState::new(),
             recv_shards: HashMap::new(),
+            done_shards: VecDeque::new(),
             my_profile: marshal::PeerProfile::default(),
             peer_profiles: HashMap::new(),
             handshaked: std::collections::HashSet::new(),
@@ -173,7 +185,7 @@ impl NetInbox {
 
     /// The next `Send redundant` message id (post-increment), so its FEC shards regroup on receipt.
     pub fn next_msg_id(&mut self) -> u64 {
-        let id = self.send_msg_id;
+        let id = self.msg_id_keys.hash_one((&self.inbox, self.send_msg_id));
         self.send_msg_id = self.send_msg_id.wrapping_add(1);
         id
     }
@@ -224,6 +236,9 @@ impl NetInbox {
                 // A `Send redundant` FEC shard: buffer by message id and reconstruct the exact
                 // message once K shards of that id have arrived, then decode normally.
                 if let Some((msg_id, k, _n)) = crate::concurrency::fec::shard_header(&data) {
+                    if self.done_shards.contains(&msg_id) {
+                        continue;
+                    }
                     let buf = self.recv_shards.entry(msg_id).or_default();
                     buf.push(data);
                     let recovered = if buf.len() >= k {
@@ -233,6 +248,10 @@ impl NetInbox {
                     };
                     if let Some((_, payload)) = recovered {
                         self.recv_shards.remove(&msg_id);
+                        if self.done_shards.len() == DONE_SHARDS {
+                            self.done_shards.pop_front();
+                        }
+                        self.done_shards.push_back(msg_id);
                         self.enqueue_received(payload);
                     }
                 } else {
-- 
2.43.0


From c0872c596f2e1ed7db9457b16f4685b0101c5e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:23:55 +0000
Subject: [PATCH 18/47] fix: reject stream frame lengths beyond 64 bits

---
 crates/logicaffeine_compile/src/concurrency/stream.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/logicaffeine_compile/src/concurrency/stream.rs b/crates/logicaffeine_compile/src/concurrency/stream.rs
index 92f4282..d07d12e 100644
--- a/crates/logicaffeine_compile/src/concurrency/stream.rs
+++ b/crates/logicaffeine_compile/src/concurrency/stream.rs
@@ -91,6 +91,9 @@ fn read_uvarint(buf: &[u8]) -> Option<(u64, usize)> {
     let mut value = 0u64;
     let mut shift = 0u32;
     for (i, &b) in buf.iter().enumerate() {
+        if shift == 63 && b & 0x7e != 0 {
+            return None; // a length beyond 64 bits must not pass for the short one left of it
+        }
         value |= u64::from(b & 0x7f) << shift;
         if b & 0x80 == 0 {
             return Some((value, i + 1));
-- 
2.43.0


From 9929b759d7bdb6067930edce3d9d5b8dc8621ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:40:44 +0000
Subject: [PATCH 19/47] fix: hold decompressed messages to the byte budget

---
 .../src/concurrency/marshal.rs                | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/logicaffeine_compile/src/concurrency/marshal.rs b/crates/logicaffeine_compile/src/concurrency/marshal.rs
index 888e503..ba28d7d 100644
--- a/crates/logicaffeine_compile/src/concurrency/marshal.rs
+++ b/crates/logicaffeine_compile/src/concurrency/marshal.rs
@@ -2966,14 +2966,22 @@ pub fn best_compressed_len(body: &[u8]) -> usize {
 
 /// Inflate `body` that was compressed with `codec`. `None` on any malformed input.
 fn decompress_body(codec: WireCompression, body: &[u8]) -> Option<Vec<u8>> {
+    // The byte budget holds for the inflated body too: a few bytes may claim to expand to gigabytes.
+    let max = receive_limits().max_bytes;
     match codec {
         WireCompression::None => Some(body.to_vec()),
-        WireCompression::Deflate => miniz_oxide::inflate::decompress_to_vec(body).ok(),
-        WireCompression::Lz4 => lz4_flex::decompress_size_prepended(body).ok(),
+        WireCompression::Deflate => miniz_oxide::inflate::decompress_to_vec_with_limit(body, max).ok(),
+        WireCompression::Lz4 => {
+            let (size, _) = lz4_flex::block::uncompressed_size(body).ok()?;
+            (size <= max).then(|| lz4_flex::decompress_size_prepended(body).ok())?
+        }
         WireCompression::Zstd => {
             #[cfg(not(target_arch = "wasm32"))]
             {
-                zstd::decode_all(body).ok()
+                use std::io::Read;
+                let mut out = Vec::new();
+                zstd::Decoder::new(body).ok()?.take(max as u64 + 1).read_to_end(&mut out).ok()?;
+                (out.len() <= max).then_some(out)
             }
             #[cfg(target_arch = "wasm32")]
             {
@@ -2988,9 +2996,10 @@ fn decompress_body(codec: WireCompression, body: &[u8]) -> Option<Vec<u8>> {
 fn zstd_decode_ruzstd(body: &[u8]) -> Option<Vec<u8>> {
     use std::io::Read;
     let mut dec = ruzstd::StreamingDecoder::new(body).ok()?;
+    let max = receive_limits().max_bytes;
     let mut out = Vec::new();
-    dec.read_to_end(&mut out).ok()?;
-    Some(out)
+    dec.by_ref().take(max as u64 + 1).read_to_end(&mut out).ok()?;
+    (out.len() <= max).then_some(out)
 }
 
 // ---- Group varint (Stream VByte layout) for int arrays ------------------------
-- 
2.43.0


From 57324a9a81469695a6ccaee332adef07e9742166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:40:44 +0000
Subject: [PATCH 20/47] fix: hold every expanding column to the element budget

---
 crates/logicaffeine_base/src/describe.rs           |  6 +++---
 .../src/concurrency/marshal.rs                     | 14 +++++++-------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/logicaffeine_base/src/describe.rs b/crates/logicaffeine_base/src/describe.rs
index d8924b8..08208b0 100644
--- a/crates/logicaffeine_base/src/describe.rs
+++ b/crates/logicaffeine_base/src/describe.rs
@@ -2349,7 +2349,7 @@ pub fn decode_int_column_body(
         }
         // Frame-of-reference column: unpack the bit-packed residuals, add the minimum.
         T_INTS_FOR => {
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded(read_uvarint(buf, pos)?, max_elements)?;
             let min = unzigzag(read_uvarint(buf, pos)?);
             let width = *buf.get(*pos)?;
             *pos += 1;
@@ -2378,7 +2378,7 @@ pub fn decode_int_column_body(
             for _ in 0..runs {
                 let val = unzigzag(read_uvarint(buf, pos)?);
                 let len = read_uvarint(buf, pos)? as usize;
-                if v.len().checked_add(len)? > RLE_MAX_TOTAL {
+                if v.len().checked_add(len)? > RLE_MAX_TOTAL.min(max_elements) {
                     return None;
                 }
                 v.resize(v.len() + len, val);
@@ -2392,7 +2392,7 @@ pub fn decode_int_column_body(
             for _ in 0..d {
                 dict.push(unzigzag(read_uvarint(buf, pos)?));
             }
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded(read_uvarint(buf, pos)?, max_elements)?;
             let iw = *buf.get(*pos)?;
             *pos += 1;
             if iw > 64 {
diff --git a/crates/logicaffeine_compile/src/concurrency/marshal.rs b/crates/logicaffeine_compile/src/concurrency/marshal.rs
index ba28d7d..05343d1 100644
--- a/crates/logicaffeine_compile/src/concurrency/marshal.rs
+++ b/crates/logicaffeine_compile/src/concurrency/marshal.rs
@@ -2076,14 +2076,14 @@ impl<'a> WireView<'a> {
         let mut p = 1;
         let type_name = read_str(self.val, &mut p)?;
         let f = read_uvarint(self.val, &mut p)? as usize;
-        let mut field_names = Vec::with_capacity(f);
+        let mut field_names = Vec::with_capacity(f.min(PREALLOC_CAP));
         for _ in 0..f {
             field_names.push(read_str(self.val, &mut p)?);
         }
         if tag == T_STRUCTS_FVIEW {
             p = p.checked_add(f)?; // skip the F kind bytes
         }
-        let n = read_uvarint(self.val, &mut p)? as usize;
+        let n = bounded_count(read_uvarint(self.val, &mut p)?)?;
         Some((type_name, field_names, n))
     }
 
@@ -2176,7 +2176,7 @@ impl<'a> WireView<'a> {
         let tn_len = read_uvarint(val, &mut p)? as usize; // type_name (skipped)
         p = p.checked_add(tn_len)?;
         let f = read_uvarint(val, &mut p)? as usize;
-        let mut field_names = Vec::with_capacity(f);
+        let mut field_names = Vec::with_capacity(f.min(PREALLOC_CAP));
         for _ in 0..f {
             let nlen = read_uvarint(val, &mut p)? as usize;
             field_names.push(val.get(p..p.checked_add(nlen)?)?);
@@ -5301,7 +5301,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
                 dict.push(s);
                 *pos += len;
             }
-            let n = read_uvarint(buf, pos)? as usize;
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
             let iw = *buf.get(*pos)?;
             *pos += 1;
             if iw > 64 {
@@ -5343,8 +5343,8 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
         }
         T_SET_STRINGS => {
             // Front-coded: reconstruct each member from `common` bytes of the previous + the suffix.
-            let n = read_uvarint(buf, pos)? as usize;
-            let mut items = Vec::with_capacity(n);
+            let n = bounded_count(read_uvarint(buf, pos)?)?;
+            let mut items = Vec::with_capacity(n.min(PREALLOC_CAP));
             let mut prev = String::new();
             for _ in 0..n {
                 let common = read_uvarint(buf, pos)? as usize;
@@ -5766,7 +5766,7 @@ fn decode_struct_columns(
     field_names: Vec<String>,
 ) -> Option<RuntimeValue> {
     let k = field_names.len();
-    let n = read_uvarint(buf, pos)? as usize;
+    let n = bounded_count(read_uvarint(buf, pos)?)?;
     let mut columns: Vec<ListRepr> = Vec::with_capacity(k.min(PREALLOC_CAP));
     for _ in 0..k {
         // Keep each decoded column AS its packed `ListRepr` (no `to_values`):
-- 
2.43.0


From 46eddcb17c088bcaf6ac15e0d57fe84069dcbc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:43:38 +0000
Subject: [PATCH 21/47] fix: encode map and set entries in the order they are
 written

---
 .../src/concurrency/marshal.rs                | 53 ++++++++++++-------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/crates/logicaffeine_compile/src/concurrency/marshal.rs b/crates/logicaffeine_compile/src/concurrency/marshal.rs
index 05343d1..920cdd1 100644
--- a/crates/logicaffeine_compile/src/concurrency/marshal.rs
+++ b/crates/logicaffeine_compile/src/concurrency/marshal.rs
@@ -4309,6 +4309,29 @@ fn decode_uuid(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
     Some(RuntimeValue::Uuid(Rc::new(logicaffeine_base::Uuid::from_bytes(arr))))
 }
 
+/// The bytes a Set member or Map key is ordered by: its self-contained encoding. The ordering pass
+/// must not touch the schema cache or the sharing memo — both require that what is written first is
+/// also what the receiver reads first, so the entries are encoded for real only once they are sorted.
+fn canonical_key(v: &RuntimeValue) -> Result<Vec<u8>, String> {
+    let cache = SCHEMA_CACHE.with(|c| c.borrow_mut().take());
+    let dedup = DEDUP_ENABLED.with(|c| c.replace(false));
+    let mut key = Vec::new();
+    let r = native_encode(v, &mut key);
+    DEDUP_ENABLED.with(|c| c.set(dedup));
+    SCHEMA_CACHE.with(|c| *c.borrow_mut() = cache);
+    r.map(|()| key)
+}
+
+/// Write the value ordered by `key` — which already IS its encoding when there is neither a schema
+/// cache nor a sharing memo to keep.
+fn encode_keyed(key: &[u8], v: &RuntimeValue, out: &mut Vec<u8>) -> Result<(), String> {
+    if DEDUP_ENABLED.with(|c| c.get()) || SCHEMA_CACHE.with(|c| c.borrow().is_some()) {
+        return native_encode(v, out);
+    }
+    out.extend_from_slice(key);
+    Ok(())
+}
+
 /// Write a value as tagged varint bytes. `Err` for a non-portable value (with the
 /// same messages the JSON path produces), caught at the exact offending node.
 fn native_encode(v: &RuntimeValue, out: &mut Vec<u8>) -> Result<(), String> {
@@ -4488,16 +4511,14 @@ fn native_encode(v: &RuntimeValue, out: &mut Vec<u8>) -> Result<(), String> {
                 // order → BYTE-IDENTICAL wire (content-addressing / dedup / cached keying / FEC hold).
                 // Mirrors the canonical `T_MAP` (sort-by-encoded-key) / `T_STRUCT` (sort-by-field-name).
                 out.push(T_SET);
-                let mut encoded: Vec<Vec<u8>> = Vec::with_capacity(b.len());
+                let mut members: Vec<(Vec<u8>, &RuntimeValue)> = Vec::with_capacity(b.len());
                 for x in b.iter() {
-                    let mut xb = Vec::new();
-                    native_encode(x, &mut xb)?;
-                    encoded.push(xb);
+                    members.push((canonical_key(x)?, x));
                 }
-                encoded.sort_unstable();
-                write_uvarint(encoded.len() as u64, out);
-                for xb in &encoded {
-                    out.extend_from_slice(xb);
+                members.sort_by(|a, b| a.0.cmp(&b.0));
+                write_uvarint(members.len() as u64, out);
+                for (key, x) in members {
+                    encode_keyed(&key, x, out)?;
                 }
             }
         }
@@ -4577,20 +4598,16 @@ fn native_encode(v: &RuntimeValue, out: &mut Vec<u8>) -> Result<(), String> {
                 }
             } else {
                 out.push(T_MAP);
-                // Canonical (general): encode each entry, then sort by encoded key.
-                let mut entries: Vec<(Vec<u8>, Vec<u8>)> = Vec::with_capacity(b.len());
+                // Canonical (general): sort the entries by encoded key, then encode them in that order.
+                let mut entries: Vec<(Vec<u8>, &RuntimeValue, &RuntimeValue)> = Vec::with_capacity(b.len());
                 for (k, val) in b.iter() {
-                    let mut kb = Vec::new();
-                    native_encode(k, &mut kb)?;
-                    let mut vb = Vec::new();
-                    native_encode(val, &mut vb)?;
-                    entries.push((kb, vb));
+                    entries.push((canonical_key(k)?, k, val));
                 }
                 entries.sort_by(|a, b| a.0.cmp(&b.0));
                 write_uvarint(entries.len() as u64, out);
-                for (kb, vb) in entries {
-                    out.extend_from_slice(&kb);
-                    out.extend_from_slice(&vb);
+                for (key, k, val) in entries {
+                    encode_keyed(&key, k, out)?;
+                    native_encode(val, out)?;
                 }
             }
         }
-- 
2.43.0


From dbbdeb79bb2bfd37c4c90a10c398f5ea3b30ba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:46:00 +0000
Subject: [PATCH 22/47] fix: display a span of the most negative number of days

---
 crates/logicaffeine_compile/src/interpreter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/logicaffeine_compile/src/interpreter.rs b/crates/logicaffeine_compile/src/interpreter.rs
index 6a9ee27..7e5bf11 100644
--- a/crates/logicaffeine_compile/src/interpreter.rs
+++ b/crates/logicaffeine_compile/src/interpreter.rs
@@ -1513,7 +1513,7 @@ impl RuntimeValue {
                 }
 
                 if *days != 0 || parts.is_empty() {
-                    parts.push(if days.abs() == 1 {
+                    parts.push(if days.unsigned_abs() == 1 {
                         format!("{} day", days)
                     } else {
                         format!("{} days", days)
-- 
2.43.0


From 05235a7914d39b0e056e68704646cbb110920652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:46:00 +0000
Subject: [PATCH 23/47] fix: refuse quantities and decimals no arithmetic can
 hold

---
 .../logicaffeine_compile/src/concurrency/marshal.rs  | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_compile/src/concurrency/marshal.rs b/crates/logicaffeine_compile/src/concurrency/marshal.rs
index 920cdd1..bfc2649 100644
--- a/crates/logicaffeine_compile/src/concurrency/marshal.rs
+++ b/crates/logicaffeine_compile/src/concurrency/marshal.rs
@@ -4284,6 +4284,9 @@ fn decode_money(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
     let bytes = buf.get(*pos..pos.checked_add(len)?)?;
     *pos += len;
     let scale = u32::try_from(read_uvarint(buf, pos)?).ok()?;
+    if scale as usize > receive_limits().max_string_bytes {
+        return None;
+    }
     let amount = logicaffeine_base::Decimal::from_le_bytes(negative, bytes, scale);
     let clen = read_uvarint(buf, pos)? as usize;
     let cbytes = buf.get(*pos..pos.checked_add(clen)?)?;
@@ -4830,6 +4833,10 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             let bytes = buf.get(*pos..pos.checked_add(len)?)?;
             *pos += len;
             let scale = u32::try_from(read_uvarint(buf, pos)?).ok()?;
+            // The scale is written out in zeros when the value is shown.
+            if scale as usize > receive_limits().max_string_bytes {
+                return None;
+            }
             // Decimal does NOT downsize on a whole value (the scale is meaning), so build
             // the variant directly rather than through a downsizing chokepoint.
             RuntimeValue::Decimal(Rc::new(logicaffeine_base::Decimal::from_le_bytes(
@@ -4890,8 +4897,9 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             // Dimension: 10 exponent (numerator, denominator) pairs as zig-zag varints.
             let mut exps = [logicaffeine_base::Exp::ZERO; logicaffeine_base::BaseDim::COUNT];
             for slot in exps.iter_mut() {
-                let en = unzigzag(read_uvarint(buf, pos)?) as i32;
-                let ed = unzigzag(read_uvarint(buf, pos)?) as i32;
+                // `Exp` negates and takes magnitudes, so the value without a counterpart is refused.
+                let en = i32::try_from(unzigzag(read_uvarint(buf, pos)?)).ok().filter(|e| *e != i32::MIN)?;
+                let ed = i32::try_from(unzigzag(read_uvarint(buf, pos)?)).ok().filter(|e| *e != i32::MIN)?;
                 *slot = logicaffeine_base::Exp::new(en, if ed == 0 { 1 } else { ed });
             }
             let dim = logicaffeine_base::Dimension::from_exps(exps);
-- 
2.43.0


From 3ddea98435ef113e8e9777acb1a9fd070c38a50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:24 +0000
Subject: [PATCH 24/47] fix: hold expanding text columns to a byte budget

---
 .../src/concurrency/marshal.rs                | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/crates/logicaffeine_compile/src/concurrency/marshal.rs b/crates/logicaffeine_compile/src/concurrency/marshal.rs
index bfc2649..ff4c9f4 100644
--- a/crates/logicaffeine_compile/src/concurrency/marshal.rs
+++ b/crates/logicaffeine_compile/src/concurrency/marshal.rs
@@ -4775,6 +4775,13 @@ fn bounded_count(n: u64) -> Option<usize> {
     (n <= receive_limits().max_elements).then_some(n)
 }
 
+/// The running byte length of a string column whose entries share text on the wire (a prefix, a
+/// dictionary entry), refused once it outgrows any column a real message carries: like a generator,
+/// such a column expands from a few bytes.
+fn bounded_text(len: usize) -> Option<u32> {
+    (len <= receive_limits().max_bytes.saturating_mul(4)).then(|| u32::try_from(len).ok())?
+}
+
 fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
     // Bound recursion depth FIRST — a crafted deeply-nested message is refused here (clean `None`),
     // never recursed into a stack overflow. Unwinds via `Drop` as the `?`s propagate back up.
@@ -5253,7 +5260,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
                 data.extend_from_slice(&prefix);
                 data.extend_from_slice(num.to_string().as_bytes());
                 data.extend_from_slice(&suffix);
-                ends.push(u32::try_from(data.len()).ok()?);
+                ends.push(bounded_text(data.len())?);
             }
             RuntimeValue::List(Rc::new(RefCell::new(ListRepr::strings(data, ends))))
         }
@@ -5276,7 +5283,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
                 s.extend_from_slice(&prev[..common]);
                 s.extend_from_slice(suffix);
                 data.extend_from_slice(&s);
-                ends.push(u32::try_from(data.len()).ok()?);
+                ends.push(bounded_text(data.len())?);
                 prev = s;
             }
             // The concatenation must be valid UTF-8 (front-coding cuts on char boundaries; a corrupt
@@ -5304,7 +5311,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
                 data.extend_from_slice(&prefix);
                 data.extend_from_slice(mid);
                 data.extend_from_slice(&suffix);
-                ends.push(u32::try_from(data.len()).ok()?);
+                ends.push(bounded_text(data.len())?);
             }
             // Affixes + middles all came from valid strings; reject a corrupt non-UTF-8 frame.
             if std::str::from_utf8(&data).is_err() {
@@ -5336,13 +5343,14 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             let mut out_ends: Vec<u32> = Vec::with_capacity(n.min(PREALLOC_CAP));
             let mut push = |s: &[u8], out_data: &mut Vec<u8>, out_ends: &mut Vec<u32>| {
                 out_data.extend_from_slice(s);
-                out_ends.push(out_data.len() as u32);
+                out_ends.push(bounded_text(out_data.len())?);
+                Some(())
             };
             if iw == 0 {
                 if n > 0 {
                     let s = *dict.first()?;
                     for _ in 0..n {
-                        push(s, &mut out_data, &mut out_ends);
+                        push(s, &mut out_data, &mut out_ends)?;
                     }
                 }
             } else {
@@ -5350,7 +5358,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
                 let bytes = buf.get(*pos..pos.checked_add(nbytes)?)?;
                 *pos += nbytes;
                 for ix in bitunpack(bytes, n, iw)? {
-                    push(*dict.get(ix as usize)?, &mut out_data, &mut out_ends);
+                    push(*dict.get(ix as usize)?, &mut out_data, &mut out_ends)?;
                 }
             }
             RuntimeValue::List(Rc::new(RefCell::new(ListRepr::strings(out_data, out_ends))))
@@ -5370,6 +5378,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
             // Front-coded: reconstruct each member from `common` bytes of the previous + the suffix.
             let n = bounded_count(read_uvarint(buf, pos)?)?;
             let mut items = Vec::with_capacity(n.min(PREALLOC_CAP));
+            let mut total = 0usize;
             let mut prev = String::new();
             for _ in 0..n {
                 let common = read_uvarint(buf, pos)? as usize;
@@ -5378,6 +5387,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
                 }
                 let suffix = read_str(buf, pos)?;
                 let s = format!("{}{}", &prev[..common], suffix);
+                total = bounded_text(total.checked_add(s.len())?)? as usize;
                 items.push(RuntimeValue::Text(Rc::new(s.clone())));
                 prev = s;
             }
@@ -5412,6 +5422,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
                     // previous + the suffix (mirrors T_SET_STRINGS).
                     let n = read_uvarint(buf, pos)? as usize;
                     let mut vs = Vec::with_capacity(n.min(keys.len().saturating_add(1)));
+                    let mut total = 0usize;
                     let mut prev = String::new();
                     for _ in 0..n {
                         let common = read_uvarint(buf, pos)? as usize;
@@ -5420,6 +5431,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
                         }
                         let suffix = read_str(buf, pos)?;
                         let s = format!("{}{}", &prev[..common], suffix);
+                        total = bounded_text(total.checked_add(s.len())?)? as usize;
                         vs.push(RuntimeValue::Text(Rc::new(s.clone())));
                         prev = s;
                     }
@@ -5605,7 +5617,7 @@ fn native_decode(buf: &[u8], pos: &mut usize) -> Option<RuntimeValue> {
                                 rows_bytes.get(base.checked_add(4)?..base.checked_add(8)?)?.try_into().ok()?,
                             ) as usize;
                             data.extend_from_slice(blob.get(toff..toff.checked_add(tlen)?)?);
-                            ends.push(data.len() as u32);
+                            ends.push(bounded_text(data.len())?);
                         }
                         ListRepr::strings(data, ends)
                     }
-- 
2.43.0


From 21265954c4ca1580fa42ef6fe30933827893c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:38:15 +0000
Subject: [PATCH 25/47] Let a simulated run schedule the background compiler
 between calls (guarded)

---
 crates/logicaffeine_compile/src/vm/bg_compile.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/logicaffeine_compile/src/vm/bg_compile.rs b/crates/logicaffeine_compile/src/vm/bg_compile.rs
index 6686175..c1173ea 100644
--- a/crates/logicaffeine_compile/src/vm/bg_compile.rs
+++ b/crates/logicaffeine_compile/src/vm/bg_compile.rs
@@ -114,6 +114,9 @@ impl BgCompiler {
     /// Take one finished result if the worker has produced one — polled at the
     /// interpreter's profiling points. Never blocks.
     pub(crate) fn try_drain(&mut self) -> Option<CompileResult> {
+        // Under simulation the worker may run, and finish, at any of these points.
+        #[cfg(logos_sim)]
+        std::thread::yield_now();
         match self.res_rx.try_recv() {
             Ok(r) => {
                 self.inflight = self.inflight.saturating_sub(1);
-- 
2.43.0


From 845ff5b52f541514dfc848666d51beb24e843053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:38:15 +0000
Subject: [PATCH 26/47] fix: keep functions that write shared lists out of
 native code

A natively compiled function wrote straight through the list it was given, so
a caller's list changed once the callee became hot. The bytecode copies a
shared list before writing it.
---
 crates/logicaffeine_compile/src/vm/machine.rs | 34 +++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/crates/logicaffeine_compile/src/vm/machine.rs b/crates/logicaffeine_compile/src/vm/machine.rs
index 1e3bffc..32f9a9d 100644
--- a/crates/logicaffeine_compile/src/vm/machine.rs
+++ b/crates/logicaffeine_compile/src/vm/machine.rs
@@ -601,6 +601,28 @@ impl<'p> Vm<'p> {
         out
     }
 
+    /// True if a function body may write a collection somebody else also holds:
+    /// one it neither created nor borrowed as a `mutable` parameter, or one it
+    /// created and copied to another name.
+    fn body_writes_shared_list(body: &[Op], entry_pc: usize, mutable_params: &[u16]) -> bool {
+        let mutated = Self::region_mutated_collection_regs(body);
+        if mutated.is_empty() {
+            return false;
+        }
+        let fresh = Self::region_fresh_collection_regs(body, entry_pc);
+        let in_window = |r: u16| {
+            body.iter().any(|op| {
+                matches!(*op, Op::Call { args_start, arg_count, .. }
+                    if (args_start..args_start.saturating_add(arg_count)).contains(&r))
+            })
+        };
+        mutated.iter().any(|r| !fresh.contains(r) && !mutable_params.contains(r))
+            || body.iter().any(|op| {
+                matches!(*op, Op::Move { dst, src }
+                    if mutated.contains(&src) && fresh.contains(&src) && !in_window(dst))
+            })
+    }
+
     /// True if any mutated-collection register is COPIED, ALIASED, redefined, or
     /// otherwise escapes the region — so region-entry copy-on-write alone cannot
     /// keep it isolated and the region must run on the value-semantic VM. An
@@ -1598,6 +1620,18 @@ impl<'p> Vm<'p> {
                 .filter(|&e| e > f.entry_pc)
                 .min()
                 .unwrap_or(self.program.code.len());
+            // Native code writes through list handles; the bytecode copies a
+            // shared list before writing it.
+            if crate::semantics::collections::value_semantics_enabled()
+                && Self::body_writes_shared_list(
+                    &self.program.code[f.entry_pc..end],
+                    f.entry_pc,
+                    &f.mutable_param_regs,
+                )
+            {
+                self.native[fi] = NativeSlot::Failed;
+                return NativeDisposition::Interpret;
+            }
             let callees: Vec<super::native_tier::CalleeSig> = {
                 let prog = &self.program;
                 let code_len = prog.code.len();
-- 
2.43.0


From 660305bbb048da284d6c8a49c400268c9b541ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:38:15 +0000
Subject: [PATCH 27/47] fix: never treat a reused register, or an unpinned
 argument, as a list in native code

A native loop entered functions that take lists without planting the pins
their bodies read, and a function body moved a scalar as a list when its
register had held a list on another path.
---
 crates/logicaffeine_jit/src/lib.rs | 41 +++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_jit/src/lib.rs b/crates/logicaffeine_jit/src/lib.rs
index 5ea1bdf..84fe834 100644
--- a/crates/logicaffeine_jit/src/lib.rs
+++ b/crates/logicaffeine_jit/src/lib.rs
@@ -1550,6 +1550,29 @@ fn adapt_function(
         jt("chosen");
     }
     let (kin, ret_kind) = chosen?;
+    // A register that holds a list on one path may be reused for a scalar on
+    // another; its Moves and Returns must not be taken for list handles there.
+    // Aliases are pinned as Int lists, so only those may be moved.
+    if mode_b {
+        for (op, k) in ops.iter().zip(&kin) {
+            let Some(k) = k else { continue };
+            let sound = match *op {
+                Op::Move { src, .. } => !is_list[src as usize] || k[src as usize] == Kind::IntList,
+                Op::Return { src } => {
+                    !is_list[src as usize]
+                        || matches!(
+                            k[src as usize],
+                            Kind::IntList | Kind::FloatList | Kind::BoolList
+                        )
+                }
+                _ => true,
+            };
+            if !sound {
+                jt("list-register-reused");
+                return None;
+            }
+        }
+    }
     let ret = if ret_any_list {
         NativeRet::ListByHandle
     } else {
@@ -3758,10 +3781,22 @@ fn adapt_region(
                 for j in 0..arg_count {
                     micro.push(MicroOp::Move { dst: window + j, src: args_start + j });
                 }
+                // A compiled list-parameter body reads its lists through pin
+                // slots that only the VM boundary fills in; entering it from
+                // here would run it on whatever the window holds. Such a call
+                // always takes the unpublished-entry deopt.
+                let pinned_params = callees.get(func as usize).is_some_and(|s| {
+                    s.param_kinds.iter().any(|p| matches!(p, Some(ParamKind::List(_))))
+                });
+                let table_addr = if pinned_params {
+                    UNPUBLISHED.as_ptr() as i64
+                } else {
+                    ctx.table.slot_addr(func as usize)
+                };
                 micro.push(MicroOp::Call {
                     dst,
                     args_start: window,
-                    table_addr: ctx.table.slot_addr(func as usize),
+                    table_addr,
                     depth_addr: std::sync::Arc::as_ptr(&ctx.depth) as i64,
                     status_addr: std::sync::Arc::as_ptr(&ctx.status) as i64,
                     limit_slot,
@@ -3896,6 +3931,10 @@ fn adapt_region(
     ))
 }
 
+/// An entry-table slot pair that is never published.
+static UNPUBLISHED: [std::sync::atomic::AtomicI64; 2] =
+    [const { std::sync::atomic::AtomicI64::new(0) }; 2];
+
 /// Slots in the per-thread native call arena: deep self-recursion windows
 /// callee frames upward through this one buffer (16 MiB); the call stencil's
 /// arena-limit check deopts before any overflow.
-- 
2.43.0


From 1bcd4dafb595451f5eb2554a4cf64fcd02bb47b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:51:06 +0000
Subject: [PATCH 28/47] fix: let overflow leave a natively compiled list
 function

Only some operations had their register kinds recorded, so overflow in an
addition, subtraction or multiplication panicked instead of resuming.
---
 crates/logicaffeine_jit/src/lib.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/crates/logicaffeine_jit/src/lib.rs b/crates/logicaffeine_jit/src/lib.rs
index 84fe834..3007189 100644
--- a/crates/logicaffeine_jit/src/lib.rs
+++ b/crates/logicaffeine_jit/src/lib.rs
@@ -1687,17 +1687,8 @@ fn adapt_function(
     let mut i = 0usize;
     while i < ops.len() {
         if mode_b {
-            let deoptable = matches!(
-                ops[i],
-                Op::Div { .. }
-                    | Op::Mod { .. }
-                    | Op::Index { .. }
-                    | Op::IndexUnchecked { .. }
-                    | Op::SetIndex { .. }
-                    | Op::SetIndexUnchecked { .. }
-                    | Op::Call { .. }
-            );
-            if deoptable && kin[i].is_some() {
+            // Any op may side-exit (checked arithmetic overflows).
+            if kin[i].is_some() {
                 if capture(i, &kin, &pin_of).is_none() {
                     jt("capture");
                     return None;
-- 
2.43.0


From 98a6debb068f0ee47b966e94dd6ef3b347622168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:52:14 +0000
Subject: [PATCH 29/47] fix: return from a function only when its native loop
 says so

The constant that flags a return inside a natively compiled loop was hoisted
out of the branch that sets it, so the function returned as soon as the loop
ended.
---
 crates/logicaffeine_forge/src/regalloc.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_forge/src/regalloc.rs b/crates/logicaffeine_forge/src/regalloc.rs
index 306c910..1887b5d 100644
--- a/crates/logicaffeine_forge/src/regalloc.rs
+++ b/crates/logicaffeine_forge/src/regalloc.rs
@@ -838,7 +838,10 @@ struct ConstHoist {
 ///     writer in the span is this `LoadConst`) — so the register holds the same
 ///     constant bits on every iteration. A slot reused for two different
 ///     constants (a scratch `LoadConst {dst,0}` then `LoadConst {dst,1}`) has two
-///     writers and is therefore NOT hoisted.
+///     writers and is therefore NOT hoisted;
+///  4. every use of `dst` reads this constant: some op in the span reads it, and
+///     it is not live into `head`. A slot only the frame's reader sees (the
+///     in-region return flag, set on one path) must keep its conditional write.
 ///
 /// Register-residency is NOT decided here (the analysis is purely structural over
 /// the op stream); the caller filters to `dst`s that are actually `Loc::Reg`/
@@ -854,6 +857,7 @@ fn loop_invariant_const_hoists(ops: &[MicroOp]) -> Vec<ConstHoist> {
             }
         }
     }
+    let live = liveness_after(ops, max_slot_of(ops));
     let mut chosen: Vec<ConstHoist> = Vec::new();
     for (i, op) in ops.iter().enumerate() {
         let MicroOp::LoadConst { dst, value } = *op else { continue };
@@ -882,7 +886,15 @@ fn loop_invariant_const_hoists(ops: &[MicroOp]) -> Vec<ConstHoist> {
             .iter()
             .enumerate()
             .all(|(off, o)| head + off == i || dest_of(o) != Some(dst));
-        if sole_writer {
+        let mut reads = Vec::new();
+        for o in &ops[head..=back] {
+            read_slots_of(o, &mut reads);
+        }
+        let mut head_reads = Vec::new();
+        read_slots_of(&ops[head], &mut head_reads);
+        let live_into_head = head_reads.contains(&dst)
+            || (head != i && live[head].get(dst as usize).copied().unwrap_or(true));
+        if sole_writer && reads.contains(&dst) && !live_into_head {
             chosen.push(ConstHoist { op: i, head, dst, value });
         }
     }
-- 
2.43.0


From 04b7e984810194f35839eee6e7612672b5f22207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:29:24 +0000
Subject: [PATCH 30/47] fix: a reopened document no longer accepts analyses of
 its previous text

---
 crates/logicaffeine_lsp/src/scheduler.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_lsp/src/scheduler.rs b/crates/logicaffeine_lsp/src/scheduler.rs
index 98bf1a3..71fabbd 100644
--- a/crates/logicaffeine_lsp/src/scheduler.rs
+++ b/crates/logicaffeine_lsp/src/scheduler.rs
@@ -19,8 +19,13 @@ pub const DEBOUNCE: Duration = Duration::from_millis(150);
 /// generation, and an analysis pass only installs+publishes its result if the
 /// generation it captured is still current when it finishes. Stale results
 /// are dropped on the floor — no locks held, nothing blocks.
+///
+/// Every opening of a document counts from a range of generations of its own,
+/// so an analysis that outlives a close can never pass for the reopened
+/// document's.
 pub struct Scheduler {
     entries: DashMap<Url, DocEntry>,
+    openings: AtomicU64,
 }
 
 struct DocEntry {
@@ -33,18 +38,20 @@ impl Scheduler {
     pub fn new() -> Self {
         Scheduler {
             entries: DashMap::new(),
+            openings: AtomicU64::new(0),
         }
     }
 
     /// Register a newly opened document. Returns its starting generation.
     pub fn open(&self, uri: Url, text: String, version: i32) -> u64 {
+        let generation = self.openings.fetch_add(1, Ordering::SeqCst) << 32;
         let entry = DocEntry {
-            generation: Arc::new(AtomicU64::new(0)),
+            generation: Arc::new(AtomicU64::new(generation)),
             text,
             version,
         };
         self.entries.insert(uri, entry);
-        0
+        generation
     }
 
     /// Apply LSP content changes in order and bump the generation.
-- 
2.43.0


From a4e71565d318791e032fbe58960bf6603477f1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:30:00 +0000
Subject: [PATCH 31/47] fix: an edit past the end of a line stays before the
 line break

---
 crates/logicaffeine_lsp/src/line_index.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_lsp/src/line_index.rs b/crates/logicaffeine_lsp/src/line_index.rs
index a80a1be..a1ec243 100644
--- a/crates/logicaffeine_lsp/src/line_index.rs
+++ b/crates/logicaffeine_lsp/src/line_index.rs
@@ -81,7 +81,13 @@ impl LineIndex {
             .copied()
             .unwrap_or(self.source.len());
 
+        // A character past the end of the line means its end, before the
+        // line break.
         let line_text = &self.source[line_start..line_end];
+        let line_text = line_text
+            .strip_suffix("\r\n")
+            .or_else(|| line_text.strip_suffix('\n'))
+            .unwrap_or(line_text);
         let mut utf16_offset = 0u32;
         let target = position.character;
 
@@ -92,7 +98,7 @@ impl LineIndex {
             utf16_offset += ch.len_utf16() as u32;
         }
 
-        line_end
+        line_start + line_text.len()
     }
 }
 
-- 
2.43.0


From 3c2d8bca75aa0b0766343228692f2756116fc64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:30:47 +0000
Subject: [PATCH 32/47] fix: spans inside multi-byte characters no longer stop
 the language server

---
 crates/logicaffeine_lsp/src/line_index.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_lsp/src/line_index.rs b/crates/logicaffeine_lsp/src/line_index.rs
index a1ec243..afb80f6 100644
--- a/crates/logicaffeine_lsp/src/line_index.rs
+++ b/crates/logicaffeine_lsp/src/line_index.rs
@@ -27,11 +27,22 @@ impl LineIndex {
         }
     }
 
+    /// The start of the character `byte_offset` falls in, or the end of the
+    /// source. Spans of tokens in multi-byte text need not fall between
+    /// characters, and no span may take the server down.
+    fn char_boundary(&self, byte_offset: usize) -> usize {
+        let mut offset = byte_offset.min(self.source.len());
+        while !self.source.is_char_boundary(offset) {
+            offset -= 1;
+        }
+        offset
+    }
+
     /// Convert a byte offset to an LSP `Position`.
     ///
     /// Returns `(line, character)` where character is a UTF-16 code unit offset.
     pub fn position(&self, byte_offset: usize) -> Position {
-        let byte_offset = byte_offset.min(self.source.len());
+        let byte_offset = self.char_boundary(byte_offset);
 
         let line = self
             .line_starts
@@ -59,8 +70,8 @@ impl LineIndex {
 
     /// Compute the UTF-16 length of a byte range in the source.
     pub fn utf16_length(&self, byte_start: usize, byte_end: usize) -> u32 {
-        let start = byte_start.min(self.source.len());
-        let end = byte_end.min(self.source.len());
+        let start = self.char_boundary(byte_start);
+        let end = self.char_boundary(byte_end);
         if start >= end {
             return 0;
         }
-- 
2.43.0


From 58f76eb856ff8536c269c950cc3e5a247dc914f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:31:15 +0000
Subject: [PATCH 33/47] fix: results of an older external check never pass for
 those of a newer save

---
 crates/logicaffeine_lsp/src/flycheck.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/logicaffeine_lsp/src/flycheck.rs b/crates/logicaffeine_lsp/src/flycheck.rs
index aa9674e..584de56 100644
--- a/crates/logicaffeine_lsp/src/flycheck.rs
+++ b/crates/logicaffeine_lsp/src/flycheck.rs
@@ -76,16 +76,19 @@ impl Flycheck {
 
     /// Edits invalidate findings outright — their positions would lie.
     pub fn clear(&self, uri: &Url) {
-        self.results.remove(uri);
-        // Bump so an in-flight save result from before the edit is dropped.
-        if let Some(generation) = self.generations.get(uri) {
+        // Bump so an in-flight save result from before the edit is dropped;
+        // the guard keeps it from being stored in between.
+        let generation = self.generations.get_mut(uri);
+        if let Some(generation) = &generation {
             generation.fetch_add(1, Ordering::SeqCst);
         }
+        self.results.remove(uri);
     }
 
+    /// A document was closed. Its generations go on: a run still in flight
+    /// must not pass for one of the reopened document.
     pub fn forget(&self, uri: &Url) {
-        self.results.remove(uri);
-        self.generations.remove(uri);
+        self.clear(uri);
     }
 
     /// The last completed run's diagnostics, for merging into any publish.
@@ -111,7 +114,9 @@ impl Flycheck {
         checked_text: &str,
         interactive: &[Diagnostic],
     ) -> Option<Vec<Diagnostic>> {
-        if !self.is_current(uri, generation) {
+        // Held until the result is stored, so that no edit comes in between.
+        let current = self.generations.get_mut(uri)?;
+        if current.load(Ordering::SeqCst) != generation {
             return None;
         }
         let diagnostics = to_diagnostics(findings, checked_text, interactive);
-- 
2.43.0


From a09c8c512892325fda93578f7844ac5035543521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:36:11 +0000
Subject: [PATCH 34/47] fix: publish diagnostics in the order they were decided

---
 crates/logicaffeine_lsp/src/scheduler.rs | 15 ++++++++++++++
 crates/logicaffeine_lsp/src/server.rs    | 25 +++++++++++++++++++-----
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/crates/logicaffeine_lsp/src/scheduler.rs b/crates/logicaffeine_lsp/src/scheduler.rs
index 71fabbd..6c38944 100644
--- a/crates/logicaffeine_lsp/src/scheduler.rs
+++ b/crates/logicaffeine_lsp/src/scheduler.rs
@@ -93,6 +93,21 @@ impl Scheduler {
             .unwrap_or(false)
     }
 
+    /// Run `install` if `generation` is still current; the document can be
+    /// neither edited nor closed meanwhile.
+    pub fn while_current<T>(
+        &self,
+        uri: &Url,
+        generation: u64,
+        install: impl FnOnce() -> T,
+    ) -> Option<T> {
+        let entry = self.entries.get(uri)?;
+        if entry.generation.load(Ordering::SeqCst) != generation {
+            return None;
+        }
+        Some(install())
+    }
+
     /// Every open document, for whole-server sweeps (config changes).
     pub fn open_uris(&self) -> Vec<Url> {
         self.entries.iter().map(|e| e.key().clone()).collect()
diff --git a/crates/logicaffeine_lsp/src/server.rs b/crates/logicaffeine_lsp/src/server.rs
index c7ba4a0..711486f 100644
--- a/crates/logicaffeine_lsp/src/server.rs
+++ b/crates/logicaffeine_lsp/src/server.rs
@@ -20,6 +20,9 @@ pub struct LogicAffeineServer {
     flycheck: Arc<Flycheck>,
     /// `logicaffeine.flycheck.enable` — on-save rustc analysis (default on).
     flycheck_enabled: std::sync::atomic::AtomicBool,
+    /// Held from deciding what to publish until it is published, so that an
+    /// older decision is never published after a newer one.
+    publishing: Arc<tokio::sync::Mutex<()>>,
 }
 
 impl LogicAffeineServer {
@@ -38,6 +41,7 @@ impl LogicAffeineServer {
             workspace_roots: std::sync::Mutex::new(Vec::new()),
             flycheck: Arc::new(Flycheck::new(runner)),
             flycheck_enabled: std::sync::atomic::AtomicBool::new(true),
+            publishing: Arc::new(tokio::sync::Mutex::new(())),
         }
     }
 
@@ -60,6 +64,7 @@ impl LogicAffeineServer {
         state: Arc<ServerState>,
         scheduler: Arc<Scheduler>,
         flycheck: Arc<Flycheck>,
+        publishing: Arc<tokio::sync::Mutex<()>>,
         uri: Url,
         text: String,
         version: i32,
@@ -81,10 +86,12 @@ impl LogicAffeineServer {
             }
         };
 
-        if !scheduler.is_current(&uri, generation) {
+        let _turn = publishing.lock().await;
+        let Some(snapshot) = scheduler.while_current(&uri, generation, || {
+            state.install_snapshot(uri.clone(), document)
+        }) else {
             return;
-        }
-        let snapshot = state.install_snapshot(uri.clone(), document);
+        };
         let mut diagnostics = snapshot.diagnostics.clone();
         diagnostics.extend(flycheck.diagnostics_for(&uri));
         client
@@ -213,8 +220,11 @@ impl LanguageServer for LogicAffeineServer {
             // Turning it off retracts published findings: republish every
             // open document's interactive-only set.
             let uris = self.scheduler.open_uris();
+            for uri in &uris {
+                self.flycheck.forget(uri);
+            }
             for uri in uris {
-                self.flycheck.forget(&uri);
+                let _turn = self.publishing.lock().await;
                 if let Some(doc) = self.state.snapshot(&uri) {
                     self.client
                         .publish_diagnostics(uri, doc.diagnostics.clone(), Some(doc.version))
@@ -252,6 +262,7 @@ impl LanguageServer for LogicAffeineServer {
         let client = self.client.clone();
         let state = Arc::clone(&self.state);
         let flycheck = Arc::clone(&self.flycheck);
+        let publishing = Arc::clone(&self.publishing);
         tokio::spawn(async move {
             let run_text = text.clone();
             let run_flycheck = Arc::clone(&flycheck);
@@ -264,6 +275,7 @@ impl LanguageServer for LogicAffeineServer {
             // Unavailable toolchain: interactive-only diagnostics, silently.
             let Some(findings) = findings else { return };
 
+            let _turn = publishing.lock().await;
             let interactive = state
                 .snapshot(&uri)
                 .map(|doc| doc.diagnostics.clone())
@@ -337,6 +349,7 @@ impl LanguageServer for LogicAffeineServer {
             Arc::clone(&self.state),
             Arc::clone(&self.scheduler),
             Arc::clone(&self.flycheck),
+            Arc::clone(&self.publishing),
             uri,
             text,
             version,
@@ -365,13 +378,14 @@ impl LanguageServer for LogicAffeineServer {
         let state = Arc::clone(&self.state);
         let scheduler = Arc::clone(&self.scheduler);
         let flycheck = Arc::clone(&self.flycheck);
+        let publishing = Arc::clone(&self.publishing);
         tokio::spawn(async move {
             tokio::time::sleep(DEBOUNCE).await;
             let Some((text, version)) = scheduler.current_if(&uri, generation) else {
                 return;
             };
             Self::analyze_and_publish(
-                client, state, scheduler, flycheck, uri, text, version, generation,
+                client, state, scheduler, flycheck, publishing, uri, text, version, generation,
             )
             .await;
         });
@@ -382,6 +396,7 @@ impl LanguageServer for LogicAffeineServer {
         self.state.close_document(&params.text_document.uri);
         self.flycheck.forget(&params.text_document.uri);
         // Clear diagnostics on close
+        let _turn = self.publishing.lock().await;
         self.client
             .publish_diagnostics(params.text_document.uri, vec![], None)
             .await;
-- 
2.43.0


From 22dab88abc68c4c311cdfdcfad6b46b9f59c79bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:43:25 +0000
Subject: [PATCH 35/47] fix: the workspace index always ends up matching the
 files on disk

Two readings of one file could be stored in the wrong order, a deletion
notice handled late removed a file that was back, and references of a file
that could no longer be read stayed in the index.
---
 crates/logicaffeine_lsp/src/server.rs    | 12 +++++-------
 crates/logicaffeine_lsp/src/workspace.rs |  6 +++++-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/logicaffeine_lsp/src/server.rs b/crates/logicaffeine_lsp/src/server.rs
index 711486f..7fb05f0 100644
--- a/crates/logicaffeine_lsp/src/server.rs
+++ b/crates/logicaffeine_lsp/src/server.rs
@@ -298,13 +298,11 @@ impl LanguageServer for LogicAffeineServer {
         let index = Arc::clone(&self.workspace_index);
         tokio::task::spawn_blocking(move || {
             for change in params.changes {
-                match change.typ {
-                    FileChangeType::DELETED => index.remove(&change.uri),
-                    _ => {
-                        if let Ok(path) = change.uri.to_file_path() {
-                            index.index_file(&path);
-                        }
-                    }
+                // A deleted file may be back by now: the disk decides.
+                match change.uri.to_file_path() {
+                    Ok(path) => index.index_file(&path),
+                    Err(()) if change.typ == FileChangeType::DELETED => index.remove(&change.uri),
+                    Err(()) => {}
                 }
             }
         });
diff --git a/crates/logicaffeine_lsp/src/workspace.rs b/crates/logicaffeine_lsp/src/workspace.rs
index ff84470..6c940c5 100644
--- a/crates/logicaffeine_lsp/src/workspace.rs
+++ b/crates/logicaffeine_lsp/src/workspace.rs
@@ -40,6 +40,9 @@ pub struct FileReference {
 pub struct WorkspaceIndex {
     files: DashMap<Url, Vec<WorkspaceSymbol>>,
     refs: DashMap<Url, Vec<FileReference>>,
+    /// Held from reading a file to storing what was found in it, so an older
+    /// reading never replaces a newer one.
+    indexing: std::sync::Mutex<()>,
 }
 
 impl WorkspaceIndex {
@@ -90,8 +93,9 @@ impl WorkspaceIndex {
     /// (Re-)analyze one file into the index.
     pub fn index_file(&self, path: &Path) {
         let Ok(uri) = Url::from_file_path(path) else { return };
+        let _indexing = self.indexing.lock().unwrap_or_else(|poisoned| poisoned.into_inner());
         let Ok(source) = std::fs::read_to_string(path) else {
-            self.files.remove(&uri);
+            self.remove(&uri);
             return;
         };
         let analysis = pipeline::analyze(&source);
-- 
2.43.0


From f972c1f796c4c220c0cce3523f58870572cc391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:48:52 +0000
Subject: [PATCH 36/47] fix: a licence verdict dated in the future is no longer
 trusted without asking

With the clock set back, a cached verdict counted as fresh until the clock
caught up, however long that took.
---
 crates/logicaffeine_verify/src/license.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_verify/src/license.rs b/crates/logicaffeine_verify/src/license.rs
index d9d4825..e391bf7 100644
--- a/crates/logicaffeine_verify/src/license.rs
+++ b/crates/logicaffeine_verify/src/license.rs
@@ -353,7 +353,9 @@ impl LicenseValidator {
             .unwrap_or_default()
             .as_secs();
 
-        now.saturating_sub(cached.validated_at) < CACHE_DURATION_SECS
+        // A verdict from the future (the clock was set back) has no known age.
+        now.checked_sub(cached.validated_at)
+            .is_some_and(|age| age < CACHE_DURATION_SECS)
     }
 }
 
-- 
2.43.0


From 245e349f96337c8d6cfb8584d564aeb9acc5f176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:49:40 +0000
Subject: [PATCH 37/47] fix: a licence the service rejects is no longer
 accepted from an old verdict

The service answers 404 for a deleted subscription. The client treated that
as an outage and fell back to the last verdict on disk, whatever its age.
---
 crates/logicaffeine_verify/src/license.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_verify/src/license.rs b/crates/logicaffeine_verify/src/license.rs
index e391bf7..d8c858d 100644
--- a/crates/logicaffeine_verify/src/license.rs
+++ b/crates/logicaffeine_verify/src/license.rs
@@ -300,10 +300,20 @@ impl LicenseValidator {
 
     /// Validate the key against the API.
     fn validate_with_api(&self, key: &str) -> Result<(bool, LicensePlan), String> {
-        let response = ureq::post(LICENSE_API)
+        let response = match ureq::post(LICENSE_API)
             .set("Content-Type", "application/json")
             .send_json(ureq::json!({ "licenseKey": key }))
-            .map_err(|e| format!("Network error: {}", e))?;
+        {
+            Ok(response) => response,
+            // The service was reached and rejects the key: not an outage.
+            Err(ureq::Error::Status(code @ 400..=499, response)) => {
+                return match response.into_json::<LicenseResponse>() {
+                    Ok(body) if !body.valid => Ok((false, LicensePlan::None)),
+                    _ => Err(format!("Network error: status code {}", code)),
+                };
+            }
+            Err(e) => return Err(format!("Network error: {}", e)),
+        };
 
         let body: LicenseResponse = response
             .into_json()
-- 
2.43.0


From 4c6d14129cebb47d9896b9da95fc16a67df90302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:06:03 +0000
Subject: [PATCH 38/47] fix: asking for a piece far past the end of a file
 yields nothing

The offset of the piece overflowed: a panic in debug builds, another
piece's bytes in release builds.
---
 crates/logicaffeine_system/src/network/sipping.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_system/src/network/sipping.rs b/crates/logicaffeine_system/src/network/sipping.rs
index 230b690..404ab01 100644
--- a/crates/logicaffeine_system/src/network/sipping.rs
+++ b/crates/logicaffeine_system/src/network/sipping.rs
@@ -99,8 +99,9 @@ impl<'a> FileSipper<'a> {
     /// The last chunk may be smaller than chunk_size.
     pub fn get_chunk(&self, index: usize) -> &[u8] {
         let slice = self.zone.as_slice();
-        let start = index * self.chunk_size;
-        let end = (start + self.chunk_size).min(slice.len());
+        // The index may come from a peer: far past the end is past the end.
+        let start = index.saturating_mul(self.chunk_size);
+        let end = start.saturating_add(self.chunk_size).min(slice.len());
         if start >= slice.len() {
             &[]
         } else {
-- 
2.43.0


From 786b153d58d515676ce0aadb9097361dcbd73c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:17:48 +0000
Subject: [PATCH 39/47] fix: make directories created for a file durable before
 acknowledging the write

---
 crates/logicaffeine_system/src/fs/mod.rs | 61 ++++++++++++++++++------
 1 file changed, 46 insertions(+), 15 deletions(-)

diff --git a/crates/logicaffeine_system/src/fs/mod.rs b/crates/logicaffeine_system/src/fs/mod.rs
index 98580d3..0b62b52 100644
--- a/crates/logicaffeine_system/src/fs/mod.rs
+++ b/crates/logicaffeine_system/src/fs/mod.rs
@@ -184,6 +184,8 @@ pub trait Vfs {
 pub struct NativeVfs {
     /// Base directory for all operations (sandbox root).
     base_dir: PathBuf,
+    /// Set once the base directory exists and is itself durable.
+    base_ready: tokio::sync::OnceCell<()>,
 }
 
 #[cfg(not(target_arch = "wasm32"))]
@@ -192,6 +194,7 @@ impl NativeVfs {
     pub fn new<P: Into<PathBuf>>(base_dir: P) -> Self {
         Self {
             base_dir: base_dir.into(),
+            base_ready: tokio::sync::OnceCell::new(),
         }
     }
 
@@ -211,15 +214,47 @@ impl NativeVfs {
         self.base_dir.join(clean)
     }
 
-    /// Make a created or renamed entry durable by syncing the directory that holds it.
-    async fn sync_parent(path: &Path) -> VfsResult<()> {
-        #[cfg(unix)]
+    /// Create the directory that is to hold `path`.
+    async fn create_parent(&self, path: &Path) -> VfsResult<()> {
+        self.base_ready
+            .get_or_try_init(|| async {
+                tokio::fs::create_dir_all(&self.base_dir).await?;
+                // Directories above the base need not be ours to open, nor their file system able to sync.
+                for dir in self.base_dir.ancestors().skip(1) {
+                    match Self::sync_dir(dir).await {
+                        Err(VfsError::PermissionDenied(_)) => break,
+                        Err(VfsError::IoError(e)) if e.kind() == io::ErrorKind::InvalidInput => break,
+                        synced => synced?,
+                    }
+                }
+                Ok::<(), VfsError>(())
+            })
+            .await?;
         if let Some(parent) = path.parent() {
-            let dir = if parent.as_os_str().is_empty() { Path::new(".") } else { parent };
+            tokio::fs::create_dir_all(parent).await?;
+        }
+        Ok(())
+    }
+
+    async fn sync_dir(dir: &Path) -> VfsResult<()> {
+        #[cfg(unix)]
+        {
+            let dir = if dir.as_os_str().is_empty() { Path::new(".") } else { dir };
             tokio::fs::File::open(dir).await?.sync_all().await?;
         }
         #[cfg(not(unix))]
-        let _ = path;
+        let _ = dir;
+        Ok(())
+    }
+
+    /// Make a created or renamed entry durable by syncing the directories that lead to it.
+    async fn sync_parent(&self, path: &Path) -> VfsResult<()> {
+        for dir in path.ancestors().skip(1) {
+            Self::sync_dir(dir).await?;
+            if dir == self.base_dir {
+                break;
+            }
+        }
         Ok(())
     }
 }
@@ -244,9 +279,7 @@ impl Vfs for NativeVfs {
         let full_path = self.resolve(path);
 
         // Ensure parent directory exists
-        if let Some(parent) = full_path.parent() {
-            tokio::fs::create_dir_all(parent).await?;
-        }
+        self.create_parent(&full_path).await?;
 
         // Atomic write: write to a temp file of its own, sync it, then rename
         static NEXT_TEMP: AtomicU64 = AtomicU64::new(0);
@@ -264,7 +297,7 @@ impl Vfs for NativeVfs {
             let _ = tokio::fs::remove_file(&temp_path).await;
             return Err(e.into());
         }
-        Self::sync_parent(&full_path).await
+        self.sync_parent(&full_path).await
     }
 
     async fn append(&self, path: &str, contents: &[u8]) -> VfsResult<()> {
@@ -273,9 +306,7 @@ impl Vfs for NativeVfs {
         let full_path = self.resolve(path);
 
         // Ensure parent directory exists
-        if let Some(parent) = full_path.parent() {
-            tokio::fs::create_dir_all(parent).await?;
-        }
+        self.create_parent(&full_path).await?;
 
         let mut file = tokio::fs::OpenOptions::new()
             .create(true)
@@ -287,7 +318,7 @@ impl Vfs for NativeVfs {
         file.flush().await?; // sync_all does not report a failed background write
         file.sync_all().await?;
 
-        Self::sync_parent(&full_path).await
+        self.sync_parent(&full_path).await
     }
 
     async fn exists(&self, path: &str) -> VfsResult<bool> {
@@ -309,9 +340,9 @@ impl Vfs for NativeVfs {
         let from_path = self.resolve(from);
         let to_path = self.resolve(to);
         tokio::fs::rename(&from_path, &to_path).await.map_err(VfsError::from)?;
-        Self::sync_parent(&to_path).await?;
+        self.sync_parent(&to_path).await?;
         if from_path.parent() != to_path.parent() {
-            Self::sync_parent(&from_path).await?;
+            self.sync_parent(&from_path).await?;
         }
         Ok(())
     }
-- 
2.43.0


From 38e13c1177b668d7648537211a718ee61ed4771c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:41:35 +0000
Subject: [PATCH 40/47] Let a simulated run give the build tool its command
 line (guarded)

---
 apps/logicaffeine_cli/src/cli.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/apps/logicaffeine_cli/src/cli.rs b/apps/logicaffeine_cli/src/cli.rs
index c2b2875..a36636f 100644
--- a/apps/logicaffeine_cli/src/cli.rs
+++ b/apps/logicaffeine_cli/src/cli.rs
@@ -604,6 +604,12 @@ pub enum Commands {
     },
 }
 
+#[cfg(logos_sim)]
+thread_local! {
+    /// The command line [`run_cli`] runs when simulated.
+    pub static SIM_ARGS: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
+}
+
 /// Parse CLI arguments and execute the corresponding command.
 ///
 /// This is the main entry point for the `largo` CLI. It parses command-line
@@ -631,7 +637,10 @@ pub enum Commands {
 /// }
 /// ```
 pub fn run_cli() -> Result<(), Box<dyn std::error::Error>> {
+    #[cfg(not(logos_sim))]
     let cli = Cli::parse();
+    #[cfg(logos_sim)]
+    let cli = Cli::try_parse_from(SIM_ARGS.with(|a| a.borrow().clone()))?;
     ui::init(cli.color, cli.quiet, cli.verbose);
 
     match cli.command {
-- 
2.43.0


From 1335351cd3c93b5fc15f150e5037dd478aa932c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:02:24 +0000
Subject: [PATCH 41/47] fix: largo add, remove and fmt replace a file in one
 step instead of truncating it first

---
 apps/logicaffeine_cli/src/commands/deps.rs |  3 +-
 apps/logicaffeine_cli/src/commands/fmt.rs  |  3 +-
 apps/logicaffeine_cli/src/project/mod.rs   | 61 ++++++++++++++++++++++
 3 files changed, 65 insertions(+), 2 deletions(-)

diff --git a/apps/logicaffeine_cli/src/commands/deps.rs b/apps/logicaffeine_cli/src/commands/deps.rs
index 72549e3..41c0a5b 100644
--- a/apps/logicaffeine_cli/src/commands/deps.rs
+++ b/apps/logicaffeine_cli/src/commands/deps.rs
@@ -11,6 +11,7 @@ use std::path::Path;
 use toml_edit::{value, DocumentMut, Item, Table};
 
 use crate::commands::require_project_root;
+use crate::project::replace_file;
 use crate::project::manifest::Manifest;
 use crate::ui::{self, CliError};
 
@@ -146,7 +147,7 @@ fn save_manifest_doc(root: &Path, doc: &DocumentMut) -> Result<(), Box<dyn std::
     let text = doc.to_string();
     toml::from_str::<Manifest>(&text)
         .map_err(|e| CliError::new(format!("edit would corrupt Largo.toml: {e}")))?;
-    fs::write(root.join("Largo.toml"), text)?;
+    replace_file(&root.join("Largo.toml"), text.as_bytes(), false)?;
     Ok(())
 }
 
diff --git a/apps/logicaffeine_cli/src/commands/fmt.rs b/apps/logicaffeine_cli/src/commands/fmt.rs
index 5c2fede..679f75c 100644
--- a/apps/logicaffeine_cli/src/commands/fmt.rs
+++ b/apps/logicaffeine_cli/src/commands/fmt.rs
@@ -9,6 +9,7 @@ use std::path::{Path, PathBuf};
 use logicaffeine_language::source_format::format_source;
 
 use crate::commands::require_project_root;
+use crate::project::replace_file;
 use crate::project::manifest::Manifest;
 use crate::ui::{self, CliError};
 
@@ -37,7 +38,7 @@ pub(crate) fn cmd_fmt(paths: Vec<PathBuf>, check: bool) -> Result<(), Box<dyn st
         let formatted = format_source(&source);
         if formatted != source {
             if !check {
-                fs::write(file, &formatted)
+                replace_file(file, formatted.as_bytes(), false)
                     .map_err(|e| CliError::new(format!("cannot write {}: {e}", file.display())))?;
             }
             dirty.push(file.clone());
diff --git a/apps/logicaffeine_cli/src/project/mod.rs b/apps/logicaffeine_cli/src/project/mod.rs
index 451df32..90b6be6 100644
--- a/apps/logicaffeine_cli/src/project/mod.rs
+++ b/apps/logicaffeine_cli/src/project/mod.rs
@@ -28,6 +28,10 @@
 //! The [`Loader`] and [`ModuleSource`] types are re-exported from the compile
 //! crate for loading LOGOS modules from various URI schemes.
 
+use std::fs;
+use std::io::{self, Write};
+use std::path::Path;
+
 // Re-export Loader from compile crate (basic file/logos: schemes)
 pub use logicaffeine_compile::loader::{Loader, ModuleSource};
 
@@ -44,3 +48,60 @@ pub use build::{
 };
 pub use credentials::{Credentials, get_token as get_registry_token};
 pub use registry::{RegistryClient, create_tarball, is_git_dirty};
+
+/// Replace the contents of `path`, creating it if needed.
+///
+/// The new contents reach the disk under a temporary name first and then take
+/// the place of the old ones in one step. `private` makes the file readable by
+/// its owner only from the start; otherwise an existing file keeps its
+/// permissions.
+pub(crate) fn replace_file(path: &Path, contents: &[u8], private: bool) -> io::Result<()> {
+    // A symbolic link stays one: its target is what gets replaced.
+    let path = match fs::canonicalize(path) {
+        Ok(target) => target,
+        Err(e) if e.kind() == io::ErrorKind::NotFound => path.to_path_buf(),
+        Err(e) => return Err(e),
+    };
+    let name = path
+        .file_name()
+        .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "not a file name"))?;
+    let temp = path.with_file_name(format!(
+        ".{}.{:016x}.tmp",
+        name.to_string_lossy(),
+        rand::random::<u64>()
+    ));
+
+    let result = write_new(&temp, &path, contents, private).and_then(|()| fs::rename(&temp, &path));
+    if result.is_err() {
+        let _ = fs::remove_file(&temp);
+        return result;
+    }
+
+    #[cfg(unix)]
+    {
+        let dir = path.parent().filter(|d| !d.as_os_str().is_empty()).unwrap_or(Path::new("."));
+        fs::File::open(dir)?.sync_all()?;
+    }
+    Ok(())
+}
+
+/// Write `contents` to the new file `temp` with the permissions `path` is to have.
+fn write_new(temp: &Path, path: &Path, contents: &[u8], private: bool) -> io::Result<()> {
+    let mut options = fs::OpenOptions::new();
+    options.write(true).create_new(true);
+    #[cfg(unix)]
+    if private {
+        use std::os::unix::fs::OpenOptionsExt;
+        options.mode(0o600);
+    }
+    let mut file = options.open(temp)?;
+    if !private {
+        match fs::metadata(path) {
+            Ok(m) => file.set_permissions(m.permissions())?,
+            Err(e) if e.kind() == io::ErrorKind::NotFound => {}
+            Err(e) => return Err(e),
+        }
+    }
+    file.write_all(contents)?;
+    file.sync_all()
+}
-- 
2.43.0


From e196171b794cd0d7ef6b0da1eb2a62ec11b7a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:02:38 +0000
Subject: [PATCH 42/47] fix: largo new and init never take an unreadable
 directory for an empty one, nor leave a partial manifest

---
 apps/logicaffeine_cli/src/commands/new.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/apps/logicaffeine_cli/src/commands/new.rs b/apps/logicaffeine_cli/src/commands/new.rs
index e271da9..02dac0d 100644
--- a/apps/logicaffeine_cli/src/commands/new.rs
+++ b/apps/logicaffeine_cli/src/commands/new.rs
@@ -4,6 +4,7 @@ use std::env;
 use std::fs;
 use std::path::PathBuf;
 
+use crate::project::replace_file;
 use crate::project::manifest::Manifest;
 use crate::ui::CliError;
 
@@ -30,7 +31,7 @@ pub(crate) fn cmd_new(name: &str) -> Result<(), Box<dyn std::error::Error>> {
     validate_project_name(name)?;
     let project_dir = PathBuf::from(name);
 
-    if project_dir.exists() {
+    if project_dir.try_exists()? {
         return Err(format!("Directory '{}' already exists", project_dir.display()).into());
     }
 
@@ -40,7 +41,7 @@ pub(crate) fn cmd_new(name: &str) -> Result<(), Box<dyn std::error::Error>> {
 
     // Write Largo.toml
     let manifest = Manifest::new(name);
-    fs::write(project_dir.join("Largo.toml"), manifest.to_toml()?)?;
+    replace_file(&project_dir.join("Largo.toml"), manifest.to_toml()?.as_bytes(), false)?;
 
     // Write src/main.lg
     let main_lg = r#"# Main
@@ -77,7 +78,7 @@ pub(crate) fn cmd_init(name: Option<&str>) -> Result<(), Box<dyn std::error::Err
         .unwrap_or_else(|| "project".to_string());
     validate_project_name(&project_name)?;
 
-    if current_dir.join("Largo.toml").exists() {
+    if current_dir.join("Largo.toml").try_exists()? {
         return Err("Largo.toml already exists".into());
     }
 
@@ -86,11 +87,11 @@ pub(crate) fn cmd_init(name: Option<&str>) -> Result<(), Box<dyn std::error::Err
 
     // Write Largo.toml
     let manifest = Manifest::new(&project_name);
-    fs::write(current_dir.join("Largo.toml"), manifest.to_toml()?)?;
+    replace_file(&current_dir.join("Largo.toml"), manifest.to_toml()?.as_bytes(), false)?;
 
     // Write src/main.lg if it doesn't exist
     let main_path = current_dir.join("src/main.lg");
-    if !main_path.exists() {
+    if !main_path.try_exists()? {
         let main_lg = r#"# Main
 
 A simple LOGOS program.
-- 
2.43.0


From 54cd2a03ce1272f83452307d056e431e8be6447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:02:38 +0000
Subject: [PATCH 43/47] fix: largo fmt and clean fail when they cannot look at
 a directory instead of skipping it

---
 apps/logicaffeine_cli/src/commands/clean.rs | 4 ++--
 apps/logicaffeine_cli/src/commands/fmt.rs   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/apps/logicaffeine_cli/src/commands/clean.rs b/apps/logicaffeine_cli/src/commands/clean.rs
index 1daf121..b544570 100644
--- a/apps/logicaffeine_cli/src/commands/clean.rs
+++ b/apps/logicaffeine_cli/src/commands/clean.rs
@@ -14,7 +14,7 @@ pub(crate) fn cmd_clean(all: bool) -> Result<(), Box<dyn std::error::Error>> {
     let mut removed = Vec::new();
 
     let target = project_root.join("target");
-    if target.exists() {
+    if target.try_exists()? {
         fs::remove_dir_all(&target)
             .map_err(|e| format!("could not remove {}: {e}", target.display()))?;
         removed.push(target);
@@ -22,7 +22,7 @@ pub(crate) fn cmd_clean(all: bool) -> Result<(), Box<dyn std::error::Error>> {
 
     if all {
         let native = project_root.join(".logos-native");
-        if native.exists() {
+        if native.try_exists()? {
             fs::remove_dir_all(&native)
                 .map_err(|e| format!("could not remove {}: {e}", native.display()))?;
             removed.push(native);
diff --git a/apps/logicaffeine_cli/src/commands/fmt.rs b/apps/logicaffeine_cli/src/commands/fmt.rs
index 679f75c..797bf2b 100644
--- a/apps/logicaffeine_cli/src/commands/fmt.rs
+++ b/apps/logicaffeine_cli/src/commands/fmt.rs
@@ -73,7 +73,7 @@ fn project_source_files() -> Result<Vec<PathBuf>, Box<dyn std::error::Error>> {
 
     let manifest = Manifest::load(&root)?;
     let entry = root.join(&manifest.package.entry);
-    if entry.exists() && !files.contains(&entry) {
+    if entry.try_exists()? && !files.contains(&entry) {
         files.push(entry);
     }
     files.sort();
@@ -83,12 +83,12 @@ fn project_source_files() -> Result<Vec<PathBuf>, Box<dyn std::error::Error>> {
 
 /// Recursively collect `.lg` and `.md` files under `dir`.
 fn collect_sources(dir: &Path, files: &mut Vec<PathBuf>) -> Result<(), std::io::Error> {
-    if !dir.exists() {
+    if !dir.try_exists()? {
         return Ok(());
     }
     for entry in fs::read_dir(dir)? {
         let path = entry?.path();
-        if path.is_dir() {
+        if path.try_exists()? && fs::metadata(&path)?.is_dir() {
             collect_sources(&path, files)?;
         } else if matches!(
             path.extension().and_then(|e| e.to_str()),
-- 
2.43.0


From cd5a8de460213937697a4c73359955ae6118c818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:03:56 +0000
Subject: [PATCH 44/47] fix: the credentials file is replaced in one step and
 never readable by others

---
 .../src/project/credentials.rs                 | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/apps/logicaffeine_cli/src/project/credentials.rs b/apps/logicaffeine_cli/src/project/credentials.rs
index 97cb4bd..5388fe5 100644
--- a/apps/logicaffeine_cli/src/project/credentials.rs
+++ b/apps/logicaffeine_cli/src/project/credentials.rs
@@ -21,6 +21,8 @@ use std::collections::HashMap;
 use std::fs;
 use std::path::PathBuf;
 
+use crate::project::replace_file;
+
 /// Persistent storage for registry authentication tokens.
 ///
 /// Tokens are stored per-registry URL, allowing authentication with
@@ -68,19 +70,9 @@ impl Credentials {
         let content = toml::to_string_pretty(self)
             .map_err(|e| CredentialsError::Serialize(e.to_string()))?;
 
-        fs::write(&path, content)
-            .map_err(|e| CredentialsError::Io(e.to_string()))?;
-
-        // Set restrictive permissions on Unix
-        #[cfg(unix)]
-        {
-            use std::os::unix::fs::PermissionsExt;
-            let perms = std::fs::Permissions::from_mode(0o600);
-            fs::set_permissions(&path, perms)
-                .map_err(|e| CredentialsError::Io(e.to_string()))?;
-        }
-
-        Ok(())
+        // Readable by the owner only, from the first byte on
+        replace_file(&path, content.as_bytes(), true)
+            .map_err(|e| CredentialsError::Io(e.to_string()))
     }
 
     /// Get token for a registry
-- 
2.43.0


From de164c50e97e2cee1a1ca9b970ede6cec2110478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:03:56 +0000
Subject: [PATCH 45/47] fix: login and logout keep the stored tokens when the
 credentials file cannot be read

---
 apps/logicaffeine_cli/src/commands/publish.rs    |  4 ++--
 apps/logicaffeine_cli/src/project/credentials.rs | 11 +++++------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/apps/logicaffeine_cli/src/commands/publish.rs b/apps/logicaffeine_cli/src/commands/publish.rs
index 64987d6..d7fbff7 100644
--- a/apps/logicaffeine_cli/src/commands/publish.rs
+++ b/apps/logicaffeine_cli/src/commands/publish.rs
@@ -138,7 +138,7 @@ pub(crate) fn cmd_login(
     let user_info = client.validate_token()?;
 
     // Save to credentials file
-    let mut creds = Credentials::load().unwrap_or_default();
+    let mut creds = Credentials::load()?;
     creds.set_token(registry_url, &token);
     creds.save()?;
 
@@ -151,7 +151,7 @@ pub(crate) fn cmd_login(
 pub(crate) fn cmd_logout(registry: Option<&str>) -> Result<(), Box<dyn std::error::Error>> {
     let registry_url = registry.unwrap_or(RegistryClient::default_url());
 
-    let mut creds = Credentials::load().unwrap_or_default();
+    let mut creds = Credentials::load()?;
 
     if creds.get_token(registry_url).is_none() {
         println!("Not logged in to {}", registry_url);
diff --git a/apps/logicaffeine_cli/src/project/credentials.rs b/apps/logicaffeine_cli/src/project/credentials.rs
index 5388fe5..5b59c5e 100644
--- a/apps/logicaffeine_cli/src/project/credentials.rs
+++ b/apps/logicaffeine_cli/src/project/credentials.rs
@@ -46,12 +46,11 @@ impl Credentials {
     pub fn load() -> Result<Self, CredentialsError> {
         let path = credentials_path().ok_or(CredentialsError::NoConfigDir)?;
 
-        if !path.exists() {
-            return Ok(Self::default());
-        }
-
-        let content = fs::read_to_string(&path)
-            .map_err(|e| CredentialsError::Io(e.to_string()))?;
+        let content = match fs::read_to_string(&path) {
+            Ok(content) => content,
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => return Ok(Self::default()),
+            Err(e) => return Err(CredentialsError::Io(e.to_string())),
+        };
 
         toml::from_str(&content)
             .map_err(|e| CredentialsError::Parse(e.to_string()))
-- 
2.43.0


From ff6e087516a9bad2155a1ef26646a3291dff8a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:04:56 +0000
Subject: [PATCH 46/47] fix: publish fails when a project file cannot be read
 instead of leaving it out

---
 apps/logicaffeine_cli/src/commands/publish.rs |  4 ++--
 apps/logicaffeine_cli/src/project/registry.rs | 21 +++++++++++++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/apps/logicaffeine_cli/src/commands/publish.rs b/apps/logicaffeine_cli/src/commands/publish.rs
index d7fbff7..335e2a0 100644
--- a/apps/logicaffeine_cli/src/commands/publish.rs
+++ b/apps/logicaffeine_cli/src/commands/publish.rs
@@ -61,8 +61,8 @@ pub(crate) fn cmd_publish(
 
     // Read README if present
     let readme = project_root.join("README.md");
-    let readme_content = if readme.exists() {
-        fs::read_to_string(&readme).ok()
+    let readme_content = if readme.try_exists()? {
+        Some(String::from_utf8_lossy(&fs::read(&readme)?).into_owned())
     } else {
         None
     };
diff --git a/apps/logicaffeine_cli/src/project/registry.rs b/apps/logicaffeine_cli/src/project/registry.rs
index faa3ea7..f971d56 100644
--- a/apps/logicaffeine_cli/src/project/registry.rs
+++ b/apps/logicaffeine_cli/src/project/registry.rs
@@ -251,12 +251,12 @@ pub fn create_tarball(project_dir: &Path) -> Result<Vec<u8>, PackageError> {
         add_dir_recursive(&mut builder, project_dir, "src")?;
 
         // Add README.md if it exists
-        if project_dir.join("README.md").exists() {
+        if is_there(project_dir, "README.md")? {
             add_file_to_tar(&mut builder, project_dir, "README.md")?;
         }
 
         // Add LICENSE if it exists
-        if project_dir.join("LICENSE").exists() {
+        if is_there(project_dir, "LICENSE")? {
             add_file_to_tar(&mut builder, project_dir, "LICENSE")?;
         }
 
@@ -267,6 +267,13 @@ pub fn create_tarball(project_dir: &Path) -> Result<Vec<u8>, PackageError> {
     Ok(tarball)
 }
 
+fn is_there(base_dir: &Path, rel_path: &str) -> Result<bool, PackageError> {
+    base_dir
+        .join(rel_path)
+        .try_exists()
+        .map_err(|e| PackageError::Io(format!("{}: {}", rel_path, e)))
+}
+
 fn add_file_to_tar<W: std::io::Write>(
     builder: &mut tar::Builder<W>,
     base_dir: &Path,
@@ -311,9 +318,15 @@ fn add_dir_recursive<W: std::io::Write>(
             continue;
         }
 
-        if path.is_dir() {
+        // A link to nowhere is left out; what cannot be looked at is not.
+        if !is_there(base_dir, &rel_path)? {
+            continue;
+        }
+        let kind = std::fs::metadata(&path)
+            .map_err(|e| PackageError::Io(format!("{}: {}", rel_path, e)))?;
+        if kind.is_dir() {
             add_dir_recursive(builder, base_dir, &rel_path)?;
-        } else if path.is_file() {
+        } else if kind.is_file() {
             // Only include .lg, .md, and common config files
             let ext = path.extension().and_then(|e| e.to_str()).unwrap_or("");
             if matches!(ext, "lg" | "md" | "toml" | "json") || name_str == "LICENSE" {
-- 
2.43.0


From abd538a556e14329cea708a64afe52dde4e35202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:04:56 +0000
Subject: [PATCH 47/47] fix: publish reports a package the registry did not
 accept as an error

---
 apps/logicaffeine_cli/src/project/registry.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apps/logicaffeine_cli/src/project/registry.rs b/apps/logicaffeine_cli/src/project/registry.rs
index f971d56..0afe370 100644
--- a/apps/logicaffeine_cli/src/project/registry.rs
+++ b/apps/logicaffeine_cli/src/project/registry.rs
@@ -203,6 +203,12 @@ impl RegistryClient {
         let result: PublishResult = response.into_json()
             .map_err(|e| RegistryError::Network(e.to_string()))?;
 
+        if !result.success {
+            return Err(RegistryError::InvalidPackage(
+                "the registry did not accept the package".to_string(),
+            ));
+        }
+
         Ok(result)
     }
 }
-- 
2.43.0

