From e4fa9342c85166496660349066c56c36832608f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 01/55] Add a guarded hook that limits tree fanout for
 simulation

Compiled only with --cfg bfffs_dst.
---
 bfffs-core/src/tree/mod.rs      | 28 ++++++++++++++++++++++++++++
 bfffs-core/src/tree/tree/mod.rs |  3 +++
 2 files changed, 31 insertions(+)

diff --git a/bfffs-core/src/tree/mod.rs b/bfffs-core/src/tree/mod.rs
index dbba508..a31a8f3 100644
--- a/bfffs-core/src/tree/mod.rs
+++ b/bfffs-core/src/tree/mod.rs
@@ -37,6 +37,34 @@ cfg_select! {
     }
 }
 
+/// Hooks for deterministic simulation testing.
+///
+/// Never compiled by default.  Set `--cfg bfffs_dst` to enable.
+#[allow(unexpected_cfgs)]
+#[cfg(bfffs_dst)]
+pub mod dst {
+    use std::cell::Cell;
+
+    thread_local! {
+        static MAX_FANOUT: Cell<usize> = const { Cell::new(0) };
+    }
+
+    /// Limit the fanout of every Tree created subsequently by this thread, so
+    /// that even a small workload will split and merge nodes.  0 means no
+    /// limit.
+    pub fn set_max_fanout(max: usize) {
+        assert!(max == 0 || max >= 8);
+        MAX_FANOUT.with(|m| m.set(max));
+    }
+
+    pub(super) fn max_fanout(natural: usize) -> usize {
+        match MAX_FANOUT.with(Cell::get) {
+            0 => natural,
+            limit => natural.min(limit)
+        }
+    }
+}
+
 /// Describes how much WriteBack credit is needed for various Tree operations,
 /// in the worst-case
 #[derive(Clone, Copy, Debug)]
diff --git a/bfffs-core/src/tree/tree/mod.rs b/bfffs-core/src/tree/tree/mod.rs
index 9c47a46..c8e0ee7 100644
--- a/bfffs-core/src/tree/tree/mod.rs
+++ b/bfffs-core/src/tree/tree/mod.rs
@@ -688,6 +688,9 @@ impl<A, D, K, V> Tree<A, D, K, V>
                 // larger half on the left side.
                 2 * (split_size / elem_size)
             };
+            #[allow(unexpected_cfgs)]
+            #[cfg(bfffs_dst)]
+            let max_fanout = crate::tree::dst::max_fanout(max_fanout);
             debug_assert!(max_fanout <= usize::from(u16::MAX));
             let min_fanout = (max_fanout as u16).div_ceil(spread);
             (min_fanout, max_fanout as u16)
-- 
2.43.0


From 31586df9dcebaf6407d3b24c17b183d676e19641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 02/55] fix: wake waiters when a cache load fails

If a task waiting on another task's pending cache insertion saw that task
fail, be cancelled, or have its block evicted, then it would hang or panic.
---
 bfffs-core/src/cache/mod.rs | 53 +++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/bfffs-core/src/cache/mod.rs b/bfffs-core/src/cache/mod.rs
index 4875f5f..b1d580d 100644
--- a/bfffs-core/src/cache/mod.rs
+++ b/bfffs-core/src/cache/mod.rs
@@ -8,6 +8,7 @@ use std::{
     borrow::Borrow,
     collections::HashMap,
     fmt::Debug,
+    sync::{Arc, Mutex},
 };
 
 mod lru;
@@ -188,6 +189,30 @@ impl Cache {
     }
 }
 
+/// A promise to insert a block into the cache.
+///
+/// Awakens all of the tasks that are waiting for the block when dropped, no
+/// matter whether the block was successfully inserted.
+#[doc(hidden)]
+pub struct PendingInsertion {
+    cache: Arc<Mutex<Cache>>,
+    key: Key
+}
+
+impl PendingInsertion {
+    pub fn new(cache: &Arc<Mutex<Cache>>, key: Key) -> Self {
+        PendingInsertion{cache: cache.clone(), key}
+    }
+}
+
+impl Drop for PendingInsertion {
+    fn drop(&mut self) {
+        if let Ok(mut guard) = self.cache.lock() {
+            guard.pending_insertions.remove(&self.key);
+        }
+    }
+}
+
 /// Get a read-only reference to a cached block, or if not present read it from
 /// disk and update cache.
 ///
@@ -220,11 +245,21 @@ macro_rules! get_or_insert {
                 v.push(tx);
                 drop(guard);
                 let cache2 = $amself.clone();
+                let fallback = $f;
                 return async move {
-                    rx.await.unwrap();
-                    let t = cache2.lock().unwrap().get::<$R>(&$key)
-                        .expect("Other task did not insert to cache as promised?");
-                    Ok(t)
+                    // The other task will drop its end of the channel when it's
+                    // finished.  Usually, that means that the block is cached.
+                    let _ = rx.await;
+                    if let Some(t) = cache2.lock().unwrap().get::<$R>(&$key) {
+                        return Ok(t);
+                    }
+                    // But the other task's read might've failed, or it might've
+                    // been cancelled, or the block might've been evicted
+                    // already.  We'll have to read it ourselves.
+                    let cacheable: Box<$C> = fallback.await?;
+                    let r = cacheable.make_ref();
+                    cache2.lock().unwrap().insert($key, cacheable);
+                    Ok(r.downcast::<$R>().unwrap())
                 }.boxed();
             } else {
                 guard.pending_insertions.insert($key, Vec::new());
@@ -232,15 +267,11 @@ macro_rules! get_or_insert {
             }
 
             let cache2 = $amself.clone();
+            let pending = $crate::cache::PendingInsertion::new(&cache2, $key);
             $f.map_ok(move |cacheable: Box<$C>| {
                 let r = cacheable.make_ref();
-                let mut guard = cache2.lock().unwrap();
-                guard.insert($key, cacheable);
-                if let Some(v) = guard.pending_insertions.remove(&$key) {
-                    for s in v.into_iter() {
-                        s.send(()).unwrap();
-                    }
-                }
+                cache2.lock().unwrap().insert($key, cacheable);
+                drop(pending);
                 r.downcast::<$R>().unwrap()
             }).boxed()
         }
-- 
2.43.0


From bd9f14980de75e8508f441576a3fe114fa162d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 03/55] fix: delete dying inodes one per transaction when
 mounting

Deleting several in a single transaction repaid more write back credit than
had been borrowed.
---
 bfffs-core/src/fs.rs | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index ab17c27..f723f9c 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -1054,29 +1054,27 @@ impl Fs {
                                                    PropertyName::Atime);
             let recsize_fut = Fs::get_prop_unmounted(tree_id, db3.clone(),
                                                      PropertyName::RecordSize);
-            let di_fut = db3.fswrite(tree_id, 0, 1, 0, 0,
-            move |dataset| async move {
+            let di_fut = async move {
                 // Delete all dying inodes.  If there are any, it means that
-                // the previous mount was uncleanly dismounted.
+                // the previous mount was uncleanly dismounted.  Use a separate
+                // transaction for each one, so as not to exceed the borrowed
+                // credit.
                 // TODO: don't do this when mounting read-only.
-                let ds = Arc::new(dataset);
-                let ds2 = ds.clone();
-                let had_dying_inodes = ds.range(FSKey::dying_inode_range())
-                .try_fold(false, move |_acc, (_k, v)| {
-                    let ds3 = ds.clone();
-                    async move {
-                        let ino = v.as_dying_inode().unwrap().ino();
-                        Fs::do_delete_inode(ds3, ino).await?;
-                        Ok(true)
-                    }
-                }).await?;
-                // Finally, range delete all of the dying inodes, if any
-                if had_dying_inodes {
-                    ds2.range_delete(FSKey::dying_inode_range())
-                        .await?;
-                }
+                while db3.fswrite(tree_id, 0, 1, 1, 0,
+                    move |dataset| async move {
+                        let di = dataset.range(FSKey::dying_inode_range())
+                            .try_next().await?;
+                        if let Some((_k, v)) = di {
+                            let ino = v.as_dying_inode().unwrap().ino();
+                            Fs::do_inactive(Arc::new(dataset), ino).await?;
+                            Ok(true)
+                        } else {
+                            Ok(false)
+                        }
+                    }).await?
+                {}
                 Ok(())
-            }).boxed();
+            }.boxed();
             future::try_join4(last_key_fut, atime_fut, recsize_fut, di_fut)
         }).map_err(Error::unhandled)
         .await.unwrap();
-- 
2.43.0


From 64efbe29736df2f7632d64ccb5fc10e09164422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 04/55] fix: don't lose hash-colliding directory entries in
 link(2)

Also, don't race the nlink and ctime updates of the linked inode.
---
 bfffs-core/src/fs.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index f723f9c..2f75312 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -1421,7 +1421,9 @@ impl Fs {
             let inode_key = FSKey::new(ino, ObjKey::Inode);
             let r = ds.get(inode_key).await?;
             let mut iv = r.unwrap().as_mut_inode().unwrap().clone();
+            let now = Timespec::now();
             iv.nlink += 1;
+            iv.ctime = now;
             let dtype = iv.file_type.dtype();
             // FUSE is single-threaded, so we don't have to worry that
             // the target gets deleted before we increase its link
@@ -1431,12 +1433,10 @@ impl Fs {
             let ifut = ds.insert(inode_key, FSValue::inode(iv));
 
             let dirent_objkey = ObjKey::dir_entry(&name);
-            let dirent = Dirent { ino, dtype, name };
+            let dirent = Dirent { ino, dtype, name: name.clone() };
             let dirent_key = FSKey::new(parent_ino, dirent_objkey);
-            let dirent_value = FSValue::DirEntry(dirent);
-            let dfut = ds.insert(dirent_key, dirent_value);
+            let dfut = htable::insert(ds.clone(), dirent_key, dirent, name);
 
-            let now = Timespec::now();
             let parent_attr = SetAttr {
                 ctime: Some(now),
                 mtime: Some(now),
@@ -1445,13 +1445,7 @@ impl Fs {
             let parent_fut = Fs::do_setattr(ds.clone(), parent_ino,
                 parent_attr);
 
-            let ctime_attr = SetAttr {
-                ctime: Some(now),
-                .. Default::default()
-            };
-            let ctime_fut = Fs::do_setattr(ds, ino, ctime_attr);
-
-            future::try_join4(ifut, dfut, parent_fut, ctime_fut).await?;
+            future::try_join3(ifut, dfut, parent_fut).await?;
             Ok(())
         }).map_err(Error::into)
         .await
-- 
2.43.0


From 4e97c9bdba6289f624ff7b94f020aff328145a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 05/55] fix: hold the txg guard for as long as a zone is being
 cleaned

SyncCleaner::clean_now dropped the guard as soon as the clean_zone future was
constructed, so the transaction could advance in the middle of the operation.
---
 bfffs-core/src/cleaner.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/cleaner.rs b/bfffs-core/src/cleaner.rs
index 9526ce9..566c6c6 100644
--- a/bfffs-core/src/cleaner.rs
+++ b/bfffs-core/src/cleaner.rs
@@ -47,9 +47,11 @@ impl SyncCleaner {
             .try_for_each(move |zone| {
                 let idml3 = idml2.clone();
                 idml2.txg()
-                .then(move |txg_guard| 
-                    idml3.clean_zone(zone, *txg_guard)
-                )
+                .then(move |txg_guard| async move {
+                    // Hold the guard until done, so the transaction can't
+                    // advance while we're still cleaning.
+                    idml3.clean_zone(zone, *txg_guard).await
+                })
             })
         })
     }
-- 
2.43.0


From 362e081b320f3c1b2bbe02d48b81754a9e9010fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 06/55] fix: synchronize the cleaner with operations that free
 records

If IDML::delete or IDML::pop raced with IDML::move_record, then the record's
old location could be freed twice, or the cleaner would panic.  And if a write
to the zone being cleaned was still in progress, then its reverse mapping could
be lost.
---
 bfffs-core/src/idml/idml.rs | 122 +++++++++++++++++++++++++-----------
 1 file changed, 87 insertions(+), 35 deletions(-)

diff --git a/bfffs-core/src/idml/idml.rs b/bfffs-core/src/idml/idml.rs
index 0c5fcc6..7323225 100644
--- a/bfffs-core/src/idml/idml.rs
+++ b/bfffs-core/src/idml/idml.rs
@@ -13,7 +13,7 @@ use divbuf::DivBufShared;
 use futures::{
     Future, FutureExt, Stream, StreamExt, TryFutureExt, TryStreamExt, future
 };
-use futures_locks::{RwLock, RwLockReadFut};
+use futures_locks::{RwLock, RwLockReadFut, RwLockWriteFut};
 #[cfg(test)] use mockall::mock;
 use speedy::{Readable, Writable};
 use std::{
@@ -29,6 +29,35 @@ use tracing::instrument;
 use tracing_futures::Instrument;
 use super::{DTree, RidtEntry};
 
+/// Synchronizes the cleaner with operations that free records.
+///
+/// Moving a record must exclude freeing that same record.  Otherwise, one of
+/// them would free the record's old location twice, or leak its new location.
+#[derive(Clone)]
+struct RecordLocks(Arc<[RwLock<()>]>);
+
+impl RecordLocks {
+    /// Use multiple locks so the cleaner won't need to wait for every ongoing
+    /// delete.
+    const COUNT: u64 = 64;
+
+    /// Lock this record prior to freeing it
+    fn free(&self, rid: RID) -> RwLockReadFut<()> {
+        self.0[(rid.0 % Self::COUNT) as usize].read()
+    }
+
+    /// Lock this record prior to moving it
+    fn relocate(&self, rid: RID) -> RwLockWriteFut<()> {
+        self.0[(rid.0 % Self::COUNT) as usize].write()
+    }
+}
+
+impl Default for RecordLocks {
+    fn default() -> Self {
+        RecordLocks((0..Self::COUNT).map(|_| RwLock::new(())).collect())
+    }
+}
+
 /// Indirect Data Management Layer for a single `Pool`
 pub struct IDML {
     cache: Arc<Mutex<Cache>>,
@@ -56,6 +85,8 @@ pub struct IDML {
     // can be 'static
     ridt: Arc<DTree<RID, RidtEntry>>,
 
+    record_locks: RecordLocks,
+
     /// The IDML is the owner of the WriteBack tracker
     writeback: WriteBack
 }
@@ -211,28 +242,31 @@ impl<'a> IDML {
         let total_blocks = zone.total_blocks;
         // Cleaning normally happens in the background, so limit concurrency to
         // 1, so as not to interfere too much with foreground tasks
+        let record_locks = self.record_locks.clone();
         self.list_indirect_records(&zone)
         .try_for_each(move |record| {
-            IDML::move_record(&cache2, ridt2.clone(), alloct2.clone(), &ddml2,
-                record, txg)
-            .map_ok(move |drp| {
-                // We shouldn't have moved the record into the same zone
-                debug_assert!(drp.pba().cluster != pba.cluster ||
-                              drp.pba().lba < pba.lba ||
-                              drp.pba().lba >= pba.lba + total_blocks);
+            let cache3 = cache2.clone();
+            let ridt4 = ridt2.clone();
+            let alloct4 = alloct2.clone();
+            let ddml4 = ddml2.clone();
+            record_locks.relocate(record)
+            .then(move |guard| {
+                IDML::move_record(&cache3, ridt4, alloct4, &ddml4, record, txg)
+                .map_ok(move |odrp| {
+                    drop(guard);
+                    if let Some(drp) = odrp {
+                        // We shouldn't have moved the record into the same zone
+                        debug_assert!(drp.pba().cluster != pba.cluster ||
+                                      drp.pba().lba < pba.lba ||
+                                      drp.pba().lba >= pba.lba + total_blocks);
+                    }
+                })
             })
         }).and_then(move |_| {
             let txgs2 = zone.txgs.clone();
             let pba_range = pba..end;
             let czfut = ridt3.clean_zone(pba_range.clone(), txgs2, txg);
-            // Finish alloct.range_delete before alloct.clean_zone, because the
-            // range delete is likely to eliminate most if not all nodes that
-            // need to be moved by clean_zone
-            let atfut = alloct3.clone()
-            .range_delete(pba_range.clone(), txg, Credit::null())
-            .and_then(move |_| {
-                alloct3.clean_zone(pba_range, zone.txgs, txg)
-            });
+            let atfut = alloct3.clean_zone(pba_range, zone.txgs, txg);
             future::try_join(czfut, atfut).map_ok(drop)
         }).and_then(move |_| {
             #[cfg(debug_assertions)]
@@ -256,7 +290,9 @@ impl<'a> IDML {
         let transaction = RwLock::new(TxgT::from(0));
         // TODO: apply configurable writeback size
         let writeback = WriteBack::limitless();
-        IDML{cache, ddml, next_rid, transaction, alloct, ridt, writeback}
+        let record_locks = RecordLocks::default();
+        IDML{cache, ddml, next_rid, transaction, alloct, ridt, record_locks,
+             writeback}
     }
 
     /// Drop all data from the cache, for testing or benchmarking purposes
@@ -358,16 +394,20 @@ impl<'a> IDML {
             transaction,
             alloct,
             ridt,
+            record_locks: RecordLocks::default(),
             writeback
         };
         (idml, label_reader)
     }
 
     /// Rewrite the given direct Record and update its metadata.
+    ///
+    /// Returns the record's new location, or `None` if it was already freed.
+    /// The caller must hold the record's lock.
     fn move_record(cache: &Arc<Mutex<Cache>>, ridt: Arc<DTree<RID, RidtEntry>>,
                    alloct: Arc<DTree<PBA, RID>>,
                    ddml: &Arc<DDML>, rid: RID, txg: TxgT)
-        -> impl Future<Output=Result<DRP>> + Send
+        -> impl Future<Output=Result<Option<DRP>>> + Send
     {
         // Even if the cache contains the target record, we must also do an RIDT
         // lookup because we're going to rewrite the RIDT
@@ -377,8 +417,12 @@ impl<'a> IDML {
         let ridt2 = ridt.clone();
         ridt.get(rid)
             .and_then(move |v| {
-                let mut entry = v.expect(
-                    "Inconsistency in alloct.  Entry not found in RIDT");
+                let mut entry = match v {
+                    Some(entry) => entry,
+                    // The record was freed after being listed
+                    None => return future::ok(None).boxed()
+                };
+                let old_pba = entry.drp.pba();
                 let compressed = entry.drp.is_compressed();
 
                 let cache_miss = || {
@@ -433,11 +477,14 @@ impl<'a> IDML {
                     entry.drp = drp;
                     let ridt_fut = ridt2.insert(rid, entry, txg,
                                                 Credit::null());
-                    let alloct_fut = alloct.insert(drp.pba(), rid, txg,
-                                                   Credit::null());
+                    let alloct_fut = alloct.clone()
+                    .insert(drp.pba(), rid, txg, Credit::null())
+                    .and_then(move |_| {
+                        alloct.remove(old_pba, txg, Credit::null())
+                    });
                     future::try_join(ridt_fut, alloct_fut)
-                    .map_ok(move |_| drp)
-                })
+                    .map_ok(move |_| Some(drp))
+                }).boxed()
             })
     }
 
@@ -525,8 +572,10 @@ impl DML for IDML {
         let alloct2 = self.alloct.clone();
         let ridt2 = self.ridt.clone();
         let rid = *ridp;
-        let fut = self.ridt.get(rid)
-            .and_then(move |oentry| {
+        let ridt3 = self.ridt.clone();
+        let fut = self.record_locks.free(rid)
+            .then(move |guard| ridt3.get(rid).map_ok(move |e| (guard, e)))
+            .and_then(move |(guard, oentry)| {
                 let mut entry = match oentry {
                     Some(e) => e,
                     None => panic!("Double delete detected for {rid:?}.")
@@ -538,15 +587,17 @@ impl DML for IDML {
                     let alloct_fut = alloct2.remove(entry.drp.pba(), txg,
                         Credit::null());
                     let ridt_fut = ridt2.remove(rid, txg, Credit::null());
-                    Box::pin(
-                        future::try_join3(ddml_fut, alloct_fut, ridt_fut)
-                         .map_ok(|(_, old_rid, _old_ridt_entry)| {
-                             assert!(old_rid.is_some());
-                         })
-                     )
+                    future::try_join3(ddml_fut, alloct_fut, ridt_fut)
+                    .map_ok(move |(_, old_rid, _old_ridt_entry)| {
+                        drop(guard);
+                        assert!(old_rid.is_some());
+                    }).boxed()
                 } else {
                     let ridt_fut = ridt2.insert(rid, entry, txg, Credit::null())
-                        .map_ok(|old| assert!(old.is_some()));
+                        .map_ok(move |old| {
+                            drop(guard);
+                            assert!(old.is_some())
+                        });
                     ridt_fut.boxed()
                 }
             });
@@ -587,9 +638,10 @@ impl DML for IDML {
         let ddml2 = self.ddml.clone();
         let alloct2 = self.alloct.clone();
         let ridt2 = self.ridt.clone();
-        let efut = self.ridt.get(rid);
+        let lock_fut = self.record_locks.free(rid);
         async move {
-            let mut entry = efut.await?
+            let _guard = lock_fut.await;
+            let mut entry = ridt2.clone().get(rid).await?
                 .ok_or(Error::ENOENT)?;
             entry.refcount -= 1;
             if entry.refcount == 0 {
-- 
2.43.0


From 855757761bb0c375ec4037200abfec13a73da164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 07/55] fix: cope with concurrent changes while cleaning zones

Don't clean a zone that has been erased since it was listed, or one that is
still being written.  And tolerate the tree's height decreasing.
---
 bfffs-core/src/cleaner.rs       |  5 +++++
 bfffs-core/src/idml/idml.rs     | 33 +++++++++++++++++++++++++++++----
 bfffs-core/src/tree/tree/mod.rs |  9 ++++++++-
 3 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/bfffs-core/src/cleaner.rs b/bfffs-core/src/cleaner.rs
index 566c6c6..6bb4d0c 100644
--- a/bfffs-core/src/cleaner.rs
+++ b/bfffs-core/src/cleaner.rs
@@ -50,6 +50,11 @@ impl SyncCleaner {
                 .then(move |txg_guard| async move {
                     // Hold the guard until done, so the transaction can't
                     // advance while we're still cleaning.
+                    if zone.txgs.end > *txg_guard {
+                        // Writes to this zone may still be in progress.  Clean
+                        // it later.
+                        return Ok(());
+                    }
                     idml3.clean_zone(zone, *txg_guard).await
                 })
             })
diff --git a/bfffs-core/src/idml/idml.rs b/bfffs-core/src/idml/idml.rs
index 7323225..67f25bb 100644
--- a/bfffs-core/src/idml/idml.rs
+++ b/bfffs-core/src/idml/idml.rs
@@ -41,6 +41,14 @@ impl RecordLocks {
     /// delete.
     const COUNT: u64 = 64;
 
+    /// Wait for every ongoing free to complete
+    #[cfg(debug_assertions)]
+    async fn drain(&self) {
+        for lock in self.0.iter() {
+            drop(lock.write().await);
+        }
+    }
+
     /// Lock this record prior to freeing it
     fn free(&self, rid: RID) -> RwLockReadFut<()> {
         self.0[(rid.0 % Self::COUNT) as usize].read()
@@ -243,8 +251,11 @@ impl<'a> IDML {
         // Cleaning normally happens in the background, so limit concurrency to
         // 1, so as not to interfere too much with foreground tasks
         let record_locks = self.record_locks.clone();
-        self.list_indirect_records(&zone)
-        .try_for_each(move |record| {
+        #[cfg(debug_assertions)]
+        let record_locks2 = self.record_locks.clone();
+        let records = self.list_indirect_records(&zone);
+        let zone2 = zone.clone();
+        let clean_fut = records.try_for_each(move |record| {
             let cache3 = cache2.clone();
             let ridt4 = ridt2.clone();
             let alloct4 = alloct2.clone();
@@ -271,11 +282,25 @@ impl<'a> IDML {
         }).and_then(move |_| {
             #[cfg(debug_assertions)]
             {
-                ddml3.assert_clean_zone(pba.cluster, zid, txg)
-                    .map(Ok)
+                // Some records may have been removed from the AllocT by an
+                // operation that hasn't finished freeing them.
+                async move {
+                    record_locks2.drain().await;
+                    ddml3.assert_clean_zone(pba.cluster, zid, txg).await;
+                    Ok(())
+                }
             }
             #[cfg(not(debug_assertions))]
             future::ok(())
+        });
+        // The zone may have been erased, and even reopened, since it was listed
+        self.list_closed_zones()
+        .then(move |mut zones| {
+            if zones.any(|z| z.pba == zone2.pba && z.txgs == zone2.txgs) {
+                clean_fut.boxed()
+            } else {
+                future::ok(()).boxed()
+            }
         })
     }
 
diff --git a/bfffs-core/src/tree/tree/mod.rs b/bfffs-core/src/tree/tree/mod.rs
index c8e0ee7..693154d 100644
--- a/bfffs-core/src/tree/tree/mod.rs
+++ b/bfffs-core/src/tree/tree/mod.rs
@@ -2396,7 +2396,10 @@ impl<D, K, V> Tree<ddml::DRP, D, K, V>
     {
         let tree_guard = self.read().await;
         let h = tree_guard.height;
-        if h == params.echelon + 1 {
+        if h <= params.echelon {
+            // The tree's height has decreased, so this level is gone
+            Ok((VecDeque::new(), None))
+        } else if h == params.echelon + 1 {
             // Clean the tree root
             let dirty = if tree_guard.elem.ptr.is_addr() &&
                 tree_guard.elem.ptr.as_addr().pba() >= params.pbas.start &&
@@ -2479,6 +2482,10 @@ impl<D, K, V> Tree<ddml::DRP, D, K, V>
         .then(move |mut guard| {
             let h = guard.height;
             let dml2 = self.dml.clone();
+            if h <= node.height {
+                // The tree's height has decreased, so this node is gone
+                return future::ok(()).boxed();
+            }
             if h == node.height + 1 {
                 // Clean the root node
                 if guard.elem.ptr.is_mem() {
-- 
2.43.0


From 5a0affce870bb6541b68b08529341d5000a9ed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 08/55] fix: reclaim zones that were fully freed before being
 closed

Such a zone would never be erased, not even by the cleaner.
---
 bfffs-core/src/cluster.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index baeaec1..ea1dd81 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -898,6 +898,11 @@ impl Cluster {
         nearly_full_zones.iter().map(|&zone_id| {
             let blocks = wg.finish_zone(zone_id, txg);
             self.allocated_space.fetch_add(blocks, Ordering::Relaxed);
+            if wg.in_use(zone_id) == 0 {
+                // Everything in the zone was freed while it was still open
+                let blocks = wg.kill_zone(zone_id);
+                self.allocated_space.fetch_sub(blocks, Ordering::Relaxed);
+            }
             self.vdev.finish_zone(zone_id)
         }).collect::<FuturesUnordered<BoxVdevFut>>()
     }
-- 
2.43.0


From 5ffca9af77aa1e6268e66c509da4696a04bdb315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:14 +0000
Subject: [PATCH 09/55] fix: don't panic when flushing an extent that is still
 being read

---
 bfffs-core/src/fs_tree.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/fs_tree.rs b/bfffs-core/src/fs_tree.rs
index 7f8667c..f7090ae 100644
--- a/bfffs-core/src/fs_tree.rs
+++ b/bfffs-core/src/fs_tree.rs
@@ -574,7 +574,7 @@ impl InlineExtAttr {
         debug_assert!(lsize > BLOB_THRESHOLD);
         let namespace = self.namespace;
         let name = self.name;
-        let dbs = Arc::try_unwrap(self.extent.buf).unwrap();
+        let dbs = self.extent.into_dbs();
         dml.put(dbs, Compression::None, txg)
         .map_ok(move |rid: D::Addr| {
             let rid_a = checked_transmute(rid);
@@ -1062,7 +1062,7 @@ impl InlineExtent {
     {
         let lsize = self.len();
         assert!(lsize > BLOB_THRESHOLD);
-        let dbs = Arc::try_unwrap(self.buf).unwrap();
+        let dbs = self.into_dbs();
         let gfut = dml.put(dbs, Compression::None, txg);
         let g_type_id = gfut.type_id();
         let cfut: Pin<Box<dyn Future<Output=Result<RID>> + Send>> = unsafe {
@@ -1073,6 +1073,14 @@ impl InlineExtent {
         InlineExtentFlush{k, inner: cfut, lsize: lsize as u32}
     }
 
+    /// Take ownership of the buffer.  If a reader still has a reference to it,
+    /// then make a copy instead.
+    fn into_dbs(self) -> DivBufShared {
+        Arc::try_unwrap(self.buf).unwrap_or_else(|buf| {
+            DivBufShared::from(buf.try_const().unwrap()[..].to_vec())
+        })
+    }
+
     pub fn len(&self) -> usize {
         self.buf.len()
     }
-- 
2.43.0


From e5e5e7a159403a6c702d836b27298287c406f6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 10/55] fix: don't lose hash-colliding extended attributes that
 get flushed early

If an item is flushed to its own record in between its insertion and its being
packed into a bucket, then the bucket would refer to a freed record.
---
 bfffs-core/src/fs.rs      | 19 +++++++++++++++----
 bfffs-core/src/fs_tree.rs |  9 +++++++++
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index 2f75312..6c5cf6b 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -136,7 +136,20 @@ mod htable {
         where D: AsRef<ReadWriteFilesystem> + Send + 'static,
               T: HTItem
     {
+        // If we read back the item after it has been flushed to a separate
+        // record, then that record will be freed as soon as we overwrite the
+        // item.  So use our own copy in that case.
+        fn readback<T: HTItem>(r: Option<FSValue>, original: T) -> T {
+            let new = T::try_from(r.unwrap()).unwrap();
+            if new.is_flushed() {
+                original
+            } else {
+                new
+            }
+        }
+
         let aux = value.aux();
+        let value2 = value.clone();
         let fsvalue = value.into_fsvalue();
         dataset.as_ref().insert(key, fsvalue)
         .and_then(move |r| {
@@ -150,8 +163,7 @@ mod htable {
                         // item. Get the old value back, and pack them together.
                         dataset.as_ref().get(key)
                         .and_then(move |r| {
-                            let v = r.unwrap();
-                            let new = T::try_from(v).unwrap();
+                            let new = readback(r, value2);
                             let values = vec![old, new];
                             let fsvalue = T::into_bucket(values);
                             dataset.as_ref()
@@ -165,8 +177,7 @@ mod htable {
                     // back, then pack them together.
                     dataset.as_ref().get(key)
                     .and_then(move |r| {
-                        let v = r.unwrap();
-                        let new = T::try_from(v).unwrap();
+                        let new = readback(r, value2);
                         let r = if let Some(i) = old.iter().position(|x| {
                             x.same(aux, &name)
                         }) {
diff --git a/bfffs-core/src/fs_tree.rs b/bfffs-core/src/fs_tree.rs
index f7090ae..a791e23 100644
--- a/bfffs-core/src/fs_tree.rs
+++ b/bfffs-core/src/fs_tree.rs
@@ -383,6 +383,11 @@ pub trait HTItem: TryFrom<FSValue, Error=()> + Clone + Send + Sized + 'static {
     /// Turn self into a regular `FSValue`, suitable for inserting into the Tree
     fn into_fsvalue(self) -> FSValue;
 
+    /// Has this item's value been flushed to a separate record?
+    fn is_flushed(&self) -> bool {
+        false
+    }
+
     /// Do these values represent the same item, even if their values aren't
     /// identical?
     fn same<T: AsRef<OsStr>>(&self, aux: Self::Aux, name: T) -> bool;
@@ -777,6 +782,10 @@ impl HTItem for ExtAttr {
         FSValue::ExtAttr(self)
     }
 
+    fn is_flushed(&self) -> bool {
+        matches!(self, ExtAttr::Blob(_))
+    }
+
     fn same<T: AsRef<OsStr>>(&self, aux: Self::Aux, name: T) -> bool {
         self.namespace() == aux && self.name() == name.as_ref()
     }
-- 
2.43.0


From 2b02a64d40e8daf4858cb8df253011815bc44f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 11/55] fix: share one in-memory tree among everybody who opens
 a dataset

If two operations opened the same dataset at the same time, each would get
its own in-memory tree.  Only one of them was known to the database, so
everything that had been written through the other would be lost.
---
 bfffs-core/src/database/database.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index 4f59d57..5d6af39 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -210,12 +210,10 @@ impl Inner {
         let idml2 = inner.idml.clone();
         let tree = ITree::<FSKey, FSValue>::open(idml2, false, tod);
         let atree = Arc::new(tree);
-        let atree2 = atree.clone();
         inner.fs_trees.with_write(move |mut wguard| {
-            wguard.entry(tree_id).or_insert(atree2);
-            future::ready(())
-        }).map(|_| {
-            Ok(atree)
+            // If somebody else opened it first, then we must use their ITree.
+            let tree = wguard.entry(tree_id).or_insert(atree).clone();
+            future::ready(Ok(tree))
         })
     }
 
-- 
2.43.0


From 01294f3edc9d789ca7b75d44acf635702478210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 12/55] fix: don't lose track of whether the database is dirty

fswrite and friends set the dirty flag before locking the transaction group.
A concurrent sync could clear the flag again before they did any work, and
then the next sync would return success without doing anything.  Also,
a second sync that began while the first was in progress returned success
immediately, as did every sync after a failed one.
---
 bfffs-core/src/database/database.rs | 101 +++++++++++++++-------------
 1 file changed, 55 insertions(+), 46 deletions(-)

diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index 5d6af39..c9bf44f 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -24,7 +24,7 @@ use futures::{
     select,
     stream::{self, FuturesUnordered},
 };
-use futures_locks::RwLock;
+use futures_locks::{Mutex, RwLock};
 #[cfg(test)] use mockall::automock;
 use speedy::{Readable, Writable};
 use std::collections::BTreeMap;
@@ -98,7 +98,7 @@ impl Syncer {
                         let now = Instant::now();
                         if now > sync_time {
                             //Time's up.  Sync the database
-                            Database::sync_transaction_priv(&inner)
+                            Database::sync_transaction_priv(inner.clone())
                             .await
                             .unwrap();
                             sync_time = Instant::now() + sync_duration;
@@ -156,6 +156,9 @@ struct Inner {
     // TreeID>) or by (<parent name>, <name>) or by <parent TreeID, hash(name)>?
     forest: Forest,
     idml: Arc<IDML>,
+    /// Serializes transaction syncs, so that nobody can find the database to be
+    /// clean while somebody else is still busy syncing it.
+    sync_lock: Mutex<()>,
 }
 
 impl Inner {
@@ -170,12 +173,12 @@ impl Inner {
         // from disk.  Ensure that it does not remain in the cache, too.  Do
         // this all in a single transaction.
         let tname = name.split('/').next_back().unwrap();
-        inner.dirty.store(true, Ordering::Relaxed);
 
         // First check that the tree exists ane ensure it is cached.
         Inner::open_filesystem(&inner, tree_id).await?;
 
         let txg = inner.idml.txg().await;
+        inner.dirty.store(true, Ordering::Relaxed);
         // Delete it from the forest while locking fs_trees
         let itree = {
             let mut wg = inner.fs_trees.write().await;
@@ -198,7 +201,8 @@ impl Inner {
     {
         let dirty = AtomicBool::new(true);
         let fs_trees = RwLock::new(BTreeMap::new());
-        Inner{dirty, fs_trees, idml, forest}
+        let sync_lock = Mutex::new(());
+        Inner{dirty, fs_trees, idml, forest, sync_lock}
     }
 
     fn new_filesystem(
@@ -249,7 +253,6 @@ impl Inner {
         where F: FnOnce(ReadWriteFilesystem) -> B,
               B: Future<Output=Result<R>>,
     {
-        inner.dirty.store(true, Ordering::Relaxed);
         Inner::open_filesystem(&inner, tree_id)
         .and_then(move |itree| async move {
             let cr = itree.credit_requirements();
@@ -261,6 +264,10 @@ impl Inner {
             ).await;
             let idml2 = inner.idml.clone();
             let txg = inner.idml.txg().await;
+            // Only set dirty once we've locked the transaction group.  If we
+            // set it earlier, then the previous transaction's sync might clear
+            // it again.
+            inner.dirty.store(true, Ordering::Relaxed);
             let ds = ReadWriteFilesystem::new(idml2, itree, *txg, credit);
             let r = f(ds).await;
             drop(txg);
@@ -490,7 +497,6 @@ impl Database {
         -> Result<TreeID>
         where S: Into<String> + Debug + 'static
     {
-        self.inner.dirty.store(true, Ordering::Relaxed);
         let idml2 = self.inner.idml.clone();
         let idml3 = self.inner.idml.clone();
         let inner3 = self.inner.clone();
@@ -502,6 +508,7 @@ impl Database {
             ITree::<FSKey, FSValue>::create(idml2, false, 9.00, 1.61)
         );
         let txg_guard = idml3.txg().await;
+        self.inner.dirty.store(true, Ordering::Relaxed);
         fs.clone().flush(*txg_guard).await?;
 
         // Write the new Tree to the Forest, the source-of-truth for trees
@@ -711,14 +718,11 @@ impl Database {
         -> impl Future<Output=Result<()>> + Send
     {
         future::try_join(self.syncer.kick(),
-                         Database::sync_transaction_priv(&self.inner))
+                         Database::sync_transaction_priv(self.inner.clone()))
             .map_ok(drop)
     }
 
-    #[auto_enum(Future)]
-    fn sync_transaction_priv(inner: &Arc<Inner>)
-        -> impl Future<Output=Result<()>>
-    {
+    async fn sync_transaction_priv(inner: Arc<Inner>) -> Result<()> {
         // Outline:
         // 1) Flush the trees
         // 2) Sync the pool, so the label will be accurate.
@@ -727,43 +731,48 @@ impl Database {
         // 5) Write the second label
         // 6) Sync the pool again, in case we're about to physically pull the
         //    disk or power off.
+        let _guard = inner.sync_lock.lock().await;
         if !inner.dirty.swap(false, Ordering::Relaxed) {
-            future::ok(())
-        } else {
-            let inner2 = inner.clone();
-            inner.idml.advance_transaction(move |txg| async move {
-                let guard = inner2.fs_trees.read().await;
-                guard.values()
-                    .map(move |itree| {
-                        itree.clone().flush(txg)
-                    }).collect::<FuturesUnordered<_>>()
-                    .try_collect::<Vec<_>>().await?;
-                // TODO: only write out the dirty trees
-                let forest_futs = guard.iter()
-                    .map(|(tree_id, itree)| {
-                        inner2.forest
-                            .update_tree(*tree_id, itree.serialize().unwrap(), txg)
-                    }).collect::<FuturesUnordered<_>>();
-                drop(guard);
-                forest_futs.try_collect::<Vec<_>>().await?;
-                inner2.forest.flush(txg).await?;
-                inner2.idml.clone().flush(Some(0), txg).await?;
-                inner2.idml.sync_all(txg).await?;
-                let forest = inner2.forest.serialize();
-                let label = Label {forest};
-                inner2.write_label(&label, 0, txg).await?;
-                inner2.idml.clone().flush(Some(1), txg).await?;
-                // The only time we need to read the second label is if we lose
-                // power while writing the first.  The fact that we reached this
-                // point means that that won't happen, at least not until the
-                // _next_ transaction sync.  So we don't need an additional
-                // sync_all between inner2.idml.clone().flush(1, ...) and
-                // inner2.idml.sync_all(...).
-                inner2.idml.sync_all(txg).await?;
-                inner2.write_label(&label, 1, txg).await?;
-                inner2.idml.sync_all(txg).await
-            })
+            return Ok(());
+        }
+        let inner2 = inner.clone();
+        let r = inner.idml.advance_transaction(move |txg| async move {
+            let guard = inner2.fs_trees.read().await;
+            guard.values()
+                .map(move |itree| {
+                    itree.clone().flush(txg)
+                }).collect::<FuturesUnordered<_>>()
+                .try_collect::<Vec<_>>().await?;
+            // TODO: only write out the dirty trees
+            let forest_futs = guard.iter()
+                .map(|(tree_id, itree)| {
+                    inner2.forest
+                        .update_tree(*tree_id, itree.serialize().unwrap(), txg)
+                }).collect::<FuturesUnordered<_>>();
+            drop(guard);
+            forest_futs.try_collect::<Vec<_>>().await?;
+            inner2.forest.flush(txg).await?;
+            inner2.idml.clone().flush(Some(0), txg).await?;
+            inner2.idml.sync_all(txg).await?;
+            let forest = inner2.forest.serialize();
+            let label = Label {forest};
+            inner2.write_label(&label, 0, txg).await?;
+            inner2.idml.clone().flush(Some(1), txg).await?;
+            // The only time we need to read the second label is if we lose
+            // power while writing the first.  The fact that we reached this
+            // point means that that won't happen, at least not until the
+            // _next_ transaction sync.  So we don't need an additional
+            // sync_all between inner2.idml.clone().flush(1, ...) and
+            // inner2.idml.sync_all(...).
+            inner2.idml.sync_all(txg).await?;
+            inner2.write_label(&label, 1, txg).await?;
+            inner2.idml.sync_all(txg).await
+        }).await;
+        if r.is_err() {
+            // We don't know how much got written
+            inner.dirty.store(true, Ordering::Relaxed);
         }
+        r
     }
 
     /// Perform a read-write operation on a Filesystem
-- 
2.43.0


From 62a993ee8ecb662fe7d55b5b57ba6da1fce3be79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:24 +0000
Subject: [PATCH 13/55] fix: use the spacemap that matches the label when
 importing

Each disk has two labels and two spacemaps, so that there is always a good
pair no matter when power gets lost.  But import always used the first
spacemap, even when it was newer than the label.  Zones that the newer
spacemap considered to be dead would then get erased, even though the label
still referenced them.

Choose the best label by transaction number, preferring the second one, and
use its spacemap.  Don't reuse the label's transaction number after import.
Make sure that both spacemaps are always complete, that the second one isn't
touched until the first label is stable, and that a sync never begins by
overwriting the only good pair.
---
 bfffs-core/src/cluster.rs           | 89 +++++++++++++++++++++++++----
 bfffs-core/src/database/database.rs | 35 +++++++-----
 bfffs-core/src/idml/idml.rs         |  3 +-
 bfffs-core/src/label.rs             | 23 +++++++-
 bfffs-core/src/mirror.rs            |  7 ++-
 bfffs-core/src/pool.rs              | 24 ++++++--
 bfffs-core/src/raid/mod.rs          |  6 +-
 bfffs-core/src/vdev_block.rs        | 32 +++++------
 8 files changed, 164 insertions(+), 55 deletions(-)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index ea1dd81..25980e6 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -32,7 +32,8 @@ use std::{
     path::Path,
     pin::Pin,
     sync::{
-        atomic::{AtomicU64, Ordering},
+        atomic::{AtomicBool, AtomicU64, Ordering},
+        Arc,
         RwLock,
         RwLockWriteGuard
     },
@@ -159,6 +160,10 @@ struct FreeSpaceMap {
     /// Currently open zones
     open_zones: BTreeMap<ZoneT, OpenZone>,
 
+    /// For each of the on-disk spacemaps, which Blocks need to be written even
+    /// if they haven't been modified since the last Cluster::flush?
+    stale: [FixedBitSet; LABEL_COUNT as usize],
+
     /// Total number of zones in the vdev
     total_zones: ZoneT,
 
@@ -430,10 +435,12 @@ impl<'a> FreeSpaceMap {
         // When newly created, all blocks are considered dirty.  This forces
         // them to be written out when formatting a new disk.
         dirty.insert_range(..);
+        let clean = FixedBitSet::with_capacity(spacemap_blocks as usize);
         FreeSpaceMap{
             dirty,
             empty_zones: BTreeSet::new(),
             open_zones: BTreeMap::new(),
+            stale: [clean.clone(), clean],
             total_zones,
             zones: Vec::new()
         }
@@ -491,8 +498,15 @@ impl<'a> FreeSpaceMap {
         }
     }
 
-    /// Open a FreeSpaceMap from an already-formatted `VdevRaid`.
+    #[cfg(test)]
     async fn open(vdev: RaidImpl) -> Result<(Self, RaidImpl)>
+    {
+        FreeSpaceMap::open_idx(vdev, 0).await
+    }
+
+    /// Open a FreeSpaceMap from an already-formatted `VdevRaid`, using the
+    /// `idx`th of its spacemaps.
+    async fn open_idx(vdev: RaidImpl, idx: u32) -> Result<(Self, RaidImpl)>
     {
         let total_zones = vdev.zones();
         // NB: it would be slightly faster to created it with the correct
@@ -500,10 +514,14 @@ impl<'a> FreeSpaceMap {
         let blocks = (total_zones as usize).div_ceil(SPACEMAP_ZONES_PER_LBA);
         let dbs = DivBufShared::from(vec![0u8; blocks * BYTES_PER_LBA]);
         let dbm = dbs.try_mut().unwrap();
-        vdev.read_spacemap(dbm, 0)
+        vdev.read_spacemap(dbm, idx)
         .and_then(move |_| {
             FreeSpaceMap::deserialize(vdev, dbs.try_const().unwrap(),
                                       total_zones)
+        }).map_ok(move |(mut fsm, vdev)| {
+            // The other spacemap may be from a different transaction.
+            fsm.stale[1 - idx as usize].insert_range(..);
+            (fsm, vdev)
         }).await
     }
 
@@ -867,6 +885,9 @@ pub struct Cluster {
 
     fsm: RwLock<FreeSpaceMap>,
 
+    /// Have we written a label that isn't yet known to be on stable storage?
+    label_unsynced: Arc<AtomicBool>,
+
     /// Underlying vdev (which may or may not use RAID)
     vdev: RaidImpl
 }
@@ -963,6 +984,23 @@ impl Cluster {
             self.allocated_space.fetch_add(gap, Ordering::Relaxed);
             fut
         }).collect::<FuturesUnordered<BoxVdevFut>>();
+        // Everything that we're about to write will need to be written to the
+        // other spacemap too, on the next flush.
+        let me = idx as usize;
+        let mut stale = std::mem::take(&mut fsm.stale[me]);
+        let dirty = fsm.dirty.clone();
+        fsm.stale[1 - me].union_with(&dirty);
+        fsm.dirty.union_with(&stale);
+        stale.clear();
+        fsm.stale[me] = stale;
+        // Don't modify this spacemap until the other label is on stable
+        // storage.  Otherwise, if we lost power, we might have no label that
+        // matches its spacemap.
+        let barrier = if self.label_unsynced.load(Ordering::Relaxed) {
+            self.vdev.sync_all(None)
+        } else {
+            Box::pin(future::ok(())) as BoxVdevFut
+        };
         // Since FreeSpaceMap::waste_space is synchronous, we can serialize the
         // FSM here; we don't need to copy it into a Future's continuation.
         let sm_futs = fsm.serialize()
@@ -980,10 +1018,12 @@ impl Cluster {
                 vec![db]
             };
             self.vdev.write_spacemap(sglist, idx, block)
-        });
-        futs.extend(sm_futs);
-        let fut = futs.try_collect::<Vec<_>>()
-        .map_ok(drop);
+        }).collect::<Vec<_>>();
+        let fut = async move {
+            barrier.await?;
+            futs.extend(sm_futs);
+            futs.try_collect::<Vec<_>>().await.map(drop)
+        };
         fsm.clear_dirty_zones();
         drop(fsm);
         fut
@@ -1030,7 +1070,12 @@ impl Cluster {
     fn new(args: (FreeSpaceMap, RaidImpl)) -> Self {
         let (fsm, vdev) = args;
         let allocated_space = fsm.allocated_total().into();
-        Cluster{allocated_space, fsm: RwLock::new(fsm), vdev}
+        Cluster{
+            allocated_space,
+            fsm: RwLock::new(fsm),
+            label_unsynced: Arc::new(AtomicBool::new(false)),
+            vdev
+        }
     }
 
     /// Open a `Cluster` from an already opened [`RaidImpl`]
@@ -1039,7 +1084,14 @@ impl Cluster {
     /// construct other vdevs stacked on top.
     pub async fn open(vdev_raid: RaidImpl) -> Result<Self>
     {
-        FreeSpaceMap::open(vdev_raid).await
+        Cluster::open_spacemap(vdev_raid, 0).await
+    }
+
+    /// Like [`Cluster::open`], but use the spacemap with the given index, which
+    /// must be the same as the index of the label in use.
+    pub async fn open_spacemap(vdev_raid: RaidImpl, idx: u32) -> Result<Self>
+    {
+        FreeSpaceMap::open_idx(vdev_raid, idx).await
             .map(Cluster::new)
     }
 
@@ -1230,7 +1282,11 @@ impl Cluster {
     /// Sync the `Cluster`, ensuring that all data written so far reaches stable
     /// storage.
     pub fn sync_all(&self) -> BoxVdevFut {
-        self.vdev.sync_all(None)
+        let label_unsynced = self.label_unsynced.clone();
+        Box::pin(
+            self.vdev.sync_all(None)
+            .map_ok(move |_| label_unsynced.store(false, Ordering::Relaxed))
+        )
     }
 
     /// How many blocks are currently in use?
@@ -1306,6 +1362,7 @@ impl Cluster {
     /// All data and spacemap should be written and synced first!
     pub fn write_label(&self, labeller: LabelWriter, txg: TxgT) -> BoxVdevFut
     {
+        self.label_unsynced.store(true, Ordering::Relaxed);
         self.vdev.write_label(labeller, txg)
     }
 }
@@ -1320,12 +1377,20 @@ impl Manager {
     pub fn import(&mut self, uuid: Uuid)
         -> impl Future<Output=Result<(Cluster, LabelReader)>>
     {
-        self.0.import(uuid)
-            .and_then(|(vra, lr)| Cluster::open(vra)
+        self.import_vdev(uuid)
+            .and_then(|(vra, lr)| Cluster::open_spacemap(vra, lr.rank().1)
                 .map_ok(|cluster| (cluster, lr))
             )
     }
 
+    /// Import the underlying vdev of a Cluster that is already known to exist
+    #[cfg(not(test))]
+    pub fn import_vdev(&mut self, uuid: Uuid)
+        -> impl Future<Output=Result<(RaidImpl, LabelReader)>>
+    {
+        self.0.import(uuid)
+    }
+
     /// Taste the device identified by `p` for a BFFFS label.
     ///
     /// If present, retain the device in the `DevManager` for use as a spare or
diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index c9bf44f..83610a6 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -34,7 +34,7 @@ use std::{
     io,
     path::Path,
     sync::{
-        atomic::{AtomicBool, Ordering},
+        atomic::{AtomicBool, AtomicU32, Ordering},
         Arc,
     },
 };
@@ -144,6 +144,11 @@ struct Inner {
     // NB: This is likely to be highly contended and very slow.  Better to
     // replace it with a per-cpu counter.
     dirty: AtomicBool,
+    /// Which label should be written first during the next sync?
+    // Normally it's 0, and both labels are identical before the sync begins.
+    // But if we crashed before writing label 1, then label 0 and its spacemap
+    // are the only good ones, and they must not be overwritten first.
+    first_label: AtomicU32,
     // Owner for the file system trees.  They must be owned by the Database
     // rather than the Fs so that the Database may flush and sync them all.
     fs_trees: RwLock<BTreeMap<TreeID, Arc<ITree<FSKey, FSValue>>>>,
@@ -201,8 +206,9 @@ impl Inner {
     {
         let dirty = AtomicBool::new(true);
         let fs_trees = RwLock::new(BTreeMap::new());
+        let first_label = AtomicU32::new(0);
         let sync_lock = Mutex::new(());
-        Inner{dirty, fs_trees, idml, forest, sync_lock}
+        Inner{dirty, first_label, fs_trees, idml, forest, sync_lock}
     }
 
     fn new_filesystem(
@@ -675,7 +681,11 @@ impl Database {
     {
         let l: Label = label_reader.deserialize().unwrap();
         let forest = Forest::open(idml.clone(), l.forest);
-        Database::new(idml, forest)
+        let db = Database::new(idml, forest);
+        // Whichever label we're using now, overwrite the other one first.
+        let (_, idx) = label_reader.rank();
+        db.inner.first_label.store(1 - idx, Ordering::Relaxed);
+        db
     }
 
     pub fn pool_name(&self) -> &str {
@@ -752,21 +762,18 @@ impl Database {
             drop(guard);
             forest_futs.try_collect::<Vec<_>>().await?;
             inner2.forest.flush(txg).await?;
-            inner2.idml.clone().flush(Some(0), txg).await?;
+            let first = inner2.first_label.load(Ordering::Relaxed);
+            inner2.idml.clone().flush(Some(first), txg).await?;
             inner2.idml.sync_all(txg).await?;
             let forest = inner2.forest.serialize();
             let label = Label {forest};
-            inner2.write_label(&label, 0, txg).await?;
-            inner2.idml.clone().flush(Some(1), txg).await?;
-            // The only time we need to read the second label is if we lose
-            // power while writing the first.  The fact that we reached this
-            // point means that that won't happen, at least not until the
-            // _next_ transaction sync.  So we don't need an additional
-            // sync_all between inner2.idml.clone().flush(1, ...) and
-            // inner2.idml.sync_all(...).
+            inner2.write_label(&label, first, txg).await?;
+            inner2.idml.clone().flush(Some(1 - first), txg).await?;
+            inner2.idml.sync_all(txg).await?;
+            inner2.write_label(&label, 1 - first, txg).await?;
             inner2.idml.sync_all(txg).await?;
-            inner2.write_label(&label, 1, txg).await?;
-            inner2.idml.sync_all(txg).await
+            inner2.first_label.store(0, Ordering::Relaxed);
+            Ok(())
         }).await;
         if r.is_err() {
             // We don't know how much got written
diff --git a/bfffs-core/src/idml/idml.rs b/bfffs-core/src/idml/idml.rs
index 67f25bb..2d08fec 100644
--- a/bfffs-core/src/idml/idml.rs
+++ b/bfffs-core/src/idml/idml.rs
@@ -409,7 +409,8 @@ impl<'a> IDML {
         let l: Label = label_reader.deserialize().unwrap();
         let alloct = Arc::new(DTree::open(ddml.clone(), true, l.alloct));
         let ridt = Arc::new(DTree::open(ddml.clone(), true, l.ridt));
-        let transaction = RwLock::new(l.txg);
+        // The label's transaction is already finished
+        let transaction = RwLock::new(l.txg + 1);
         let next_rid = AtomicU64::new(l.next_rid);
         let writeback = WriteBack::with_capacity(writeback_size);
         let idml = IDML{
diff --git a/bfffs-core/src/label.rs b/bfffs-core/src/label.rs
index f6c3b3c..38d1741 100644
--- a/bfffs-core/src/label.rs
+++ b/bfffs-core/src/label.rs
@@ -53,7 +53,11 @@ pub fn spacemap_space(nzones: u64) -> LbaT {
 
 /// Used to read successive structs out of the label
 pub struct LabelReader {
-    cursor: io::Cursor<Vec<u8>>
+    cursor: io::Cursor<Vec<u8>>,
+    /// Which of the disk's labels is this?
+    label: u32,
+    /// The transaction group that this label describes
+    txg: TxgT
 }
 
 impl LabelReader {
@@ -104,7 +108,22 @@ impl LabelReader {
         // Seek past header
         cursor.seek(SeekFrom::Start(contents_start as u64))
             .expect("IoVec too short");
-        Ok(LabelReader { cursor })
+        Ok(LabelReader { cursor, label: 0, txg: TxgT::from(0) })
+    }
+
+    /// If several labels are available, then the one with the greatest rank is
+    /// the one that should be used.
+    ///
+    /// That's the one from the most recent transaction.  Within the same
+    /// transaction, it's the last one written.
+    pub fn rank(&self) -> (TxgT, u32) {
+        (self.txg, self.label)
+    }
+
+    /// Record where this label came from
+    pub fn set_rank(&mut self, txg: TxgT, label: u32) {
+        self.txg = txg;
+        self.label = label;
     }
 
     /// Get the offset of the `label`th label.
diff --git a/bfffs-core/src/mirror.rs b/bfffs-core/src/mirror.rs
index ee5b818..3e8b1b0 100644
--- a/bfffs-core/src/mirror.rs
+++ b/bfffs-core/src/mirror.rs
@@ -498,7 +498,7 @@ impl Mirror {
     fn open(uuid: Option<Uuid>, combined: Vec<(VdevBlock, LabelReader)>)
         -> Result<(Self, LabelReader)>
     {
-        let mut label_pair = None;
+        let mut label_pair: Option<(Label, LabelReader)> = None;
         let highest_txg = combined.iter()
             .map(|(vb, _)| vb.txg())
             .max()
@@ -510,7 +510,10 @@ impl Mirror {
                     assert_eq!(u, label.uuid,
                                "Opening disk from wrong mirror");
                 }
-                if label_pair.is_none() && vdev_block.txg() == highest_txg {
+                if vdev_block.txg() == highest_txg &&
+                    label_pair.as_ref()
+                    .is_none_or(|(_, lr)| label_reader.rank() > lr.rank())
+                {
                     label_pair = Some((label, label_reader));
                 }
                 (vdev_block.uuid(), vdev_block)
diff --git a/bfffs-core/src/pool.rs b/bfffs-core/src/pool.rs
index 957d92d..c2bf925 100644
--- a/bfffs-core/src/pool.rs
+++ b/bfffs-core/src/pool.rs
@@ -86,9 +86,9 @@ impl Manager {
             Some(l) => l,
             None => return Err(Error::ENOENT)
         };
-        let mut cc = Vec::with_capacity(pl.children.len());
+        let mut vv = Vec::with_capacity(pl.children.len());
         let results = pl.children.into_iter()
-            .map(move |child_uuid| self.cm.import(child_uuid))
+            .map(move |child_uuid| self.cm.import_vdev(child_uuid))
             .collect::<FuturesUnordered<_>>()
             .collect::<Vec<_>>().await;
         // XXX Can't use StreamExt::try_collect, because that will drop
@@ -96,10 +96,22 @@ impl Manager {
         // stabilizes.  https://github.com/rust-lang/rust/issues/94047
         for r in results.into_iter() {
             match r {
-                Ok(c) => cc.push(c),
+                Ok(v) => vv.push(v),
                 Err(e) => return Err(e)
             }
         };
+        // All clusters must use the spacemap that matches the label that we're
+        // going to use.  Some clusters might not have written that label yet,
+        // but they must've written the spacemap.
+        let (_, idx) = vv.iter()
+            .map(|(_, lr)| lr.rank())
+            .max()
+            .ok_or(Error::ENOENT)?;
+        let cc = vv.into_iter()
+            .map(|(vdev, lr)| Cluster::open_spacemap(vdev, idx)
+                .map_ok(|cluster| (cluster, lr))
+            ).collect::<FuturesUnordered<_>>()
+            .try_collect::<Vec<_>>().await?;
         Ok(Pool::open(Some(uuid), cc))
     }
 
@@ -383,14 +395,16 @@ impl Pool {
     pub fn open(uuid: Option<Uuid>, combined: Vec<(Cluster, LabelReader)>)
         -> (Self, LabelReader)
     {
-        let mut label_pair = None;
+        let mut label_pair: Option<(Label, LabelReader)> = None;
         let mut all_clusters = combined.into_iter()
             .map(|(cluster, mut label_reader)| {
             let label: Label = label_reader.deserialize().unwrap();
             if let Some(u) = uuid {
                 assert_eq!(u, label.uuid, "Opening cluster from wrong pool");
             }
-            if label_pair.is_none() {
+            if label_pair.as_ref()
+                .is_none_or(|(_, lr)| label_reader.rank() > lr.rank())
+            {
                 label_pair = Some((label, label_reader));
             }
             (cluster.uuid(), cluster)
diff --git a/bfffs-core/src/raid/mod.rs b/bfffs-core/src/raid/mod.rs
index 4a3ba54..7cabe44 100644
--- a/bfffs-core/src/raid/mod.rs
+++ b/bfffs-core/src/raid/mod.rs
@@ -201,14 +201,16 @@ pub fn create(chunksize: Option<NonZeroU64>, disks_per_stripe: i16,
 fn open(uuid: Option<Uuid>, combined: Vec<(Mirror, LabelReader)>)
     -> (RaidImpl, LabelReader)
 {
-    let mut label_pair = None;
+    let mut label_pair: Option<(Label, LabelReader)> = None;
     let all_mirrors = combined.into_iter()
     .map(|(mirror, mut label_reader)| {
         let label: Label = label_reader.deserialize().unwrap();
         if let Some(u) = uuid {
             assert_eq!(u, label.uuid(), "Opening disk from wrong cluster");
         }
-        if label_pair.is_none() {
+        if label_pair.as_ref()
+            .is_none_or(|(_, lr)| label_reader.rank() > lr.rank())
+        {
             label_pair = Some((label, label_reader));
         }
         (mirror.uuid(), mirror)
diff --git a/bfffs-core/src/vdev_block.rs b/bfffs-core/src/vdev_block.rs
index cc9ec41..8435257 100644
--- a/bfffs-core/src/vdev_block.rs
+++ b/bfffs-core/src/vdev_block.rs
@@ -1202,8 +1202,7 @@ impl Manager {
     {
         future::ready(self.devices.remove(&uuid).ok_or(Error::ENOENT))
             .and_then(move |rec| async move {
-                let mut lr = Self::read_label(&rec.file).await?;
-                let label: Label = lr.deserialize().unwrap();
+                let (lr, label) = Self::read_label(&rec.file).await?;
                 assert_eq!(uuid, label.uuid);
                 let vb = VdevBlock::new(rec.file, rec.path, uuid,
                     label.lbas, label.lbas_per_zone, label.txg);
@@ -1211,10 +1210,10 @@ impl Manager {
             })
     }
 
-    /// Read just one of a vdev's labels
-    async fn read_label(f: &fs::File) -> Result<LabelReader>
+    /// Read the best of a vdev's labels
+    async fn read_label(f: &fs::File) -> Result<(LabelReader, Label)>
     {
-        let mut r = Err(Error::EDOOFUS);    // Will get overridden
+        let mut r: Result<(LabelReader, Label)> = Err(Error::EDOOFUS);
 
         for label in 0..2 {
             let lba = LabelReader::lba(label);
@@ -1224,19 +1223,19 @@ impl Manager {
             match f.read_at(&mut rbuf[..], offset).unwrap().await {
                 Ok(_aio_result) => {
                     match LabelReader::new(rbuf) {
-                        Ok(lr) => {
-                            r = Ok(lr);
-                            break
-                        }
-                        Err(e) => {
-                            // If this is the first label, try the second.
-                            r = Err(e);
+                        Ok(mut lr) => {
+                            let vblabel: Label = lr.deserialize().unwrap();
+                            lr.set_rank(vblabel.txg, label);
+                            match &r {
+                                Ok((old, _)) if old.rank() > lr.rank() => (),
+                                _ => r = Ok((lr, vblabel))
+                            }
                         }
+                        // If this is the first label, try the second.
+                        Err(e) => r = r.or(Err(e))
                     }
                 },
-                Err(e) => {
-                    r = Err(Error::from(e));
-                }
+                Err(e) => r = r.or(Err(Error::from(e)))
             }
         }
         r
@@ -1257,8 +1256,7 @@ impl Manager {
             .write(true)
             .custom_flags(libc::O_DIRECT | libc::O_EXLOCK)
             .open(&p)?;
-        let mut lr = Self::read_label(&file).await?;
-        let label: Label = lr.deserialize().unwrap();
+        let (lr, label) = Self::read_label(&file).await?;
         let path = p.as_ref().to_path_buf();
         let importable = ImportableLeaf{file, path};
         self.devices.insert(label.uuid, importable);
-- 
2.43.0


From 00458f9dc9657dfdbe8116f7b6ea421cb974a5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 14/55] fix: borrow enough credit to rewrite partial records
 when truncating

Truncating or punching a hole in a file may rewrite up to two partial
records.  They will be dirty, so the operation must hold enough writeback
credit for them.  Otherwise the tree's nodes' credit would go negative,
and repaying the rest could exceed the WriteBack's capacity.
---
 bfffs-core/src/fs.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index 6c5cf6b..c4d5aa7 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -41,6 +41,9 @@ pub type ExtAttr = crate::fs_tree::ExtAttr;
 pub type ExtAttrNamespace = crate::fs_tree::ExtAttrNamespace;
 pub type Timespec = crate::fs_tree::Timespec;
 
+/// The largest permissible value for the `recordsize` property, in bytes.
+const MAX_RECORD_SIZE: usize = 1 << 20;
+
 /// Operations used for data that is stored in in-BTree hash tables
 mod htable {
     use crate::{
@@ -582,7 +585,10 @@ impl Fs {
     {
         let ino = fd.ino;
         let inode_key = FSKey::new(ino, ObjKey::Inode);
-        self.db.fswrite(self.tree, 3, 1, 2, 0,
+        // Up to two partial records may need to be rewritten as dirty inline
+        // extents.  Their size isn't known yet, so assume the worst.
+        let bb = FSValue::extent_space(MAX_RECORD_SIZE, 2);
+        self.db.fswrite(self.tree, 3, 1, 2, bb,
         move |dataset| async move {
             let ds = Arc::new(dataset);
             let mut inode_value = ds.get(inode_key).await?.unwrap();
@@ -2237,13 +2243,17 @@ impl Fs {
         let mut ninsert = 1;
         let mut nrange_delete = 0;
         let mut nremove = 0;
+        let mut bb = 0;
         if attr.size.is_some() {
             // We're truncating
             ninsert += 1;
             nrange_delete += 1;
             nremove += 1;
+            // One partial record may need to be rewritten as a dirty inline
+            // extent.  Its size isn't known yet, so assume the worst.
+            bb = FSValue::extent_space(MAX_RECORD_SIZE, 1);
         }
-        self.db.fswrite(self.tree, ninsert, nrange_delete, nremove, 0,
+        self.db.fswrite(self.tree, ninsert, nrange_delete, nremove, bb,
         move |dataset| {
             let ds = Arc::new(dataset);
             if attr.ctime.is_none() {
-- 
2.43.0


From 2fd36195ffbeaeb5487defab18a208482ad2c7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 15/55] fix: accept recordsize=1048576

The parser misspelled it, even though that's how it gets displayed.
---
 bfffs-core/src/property.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/property.rs b/bfffs-core/src/property.rs
index 1c695c9..2b81757 100644
--- a/bfffs-core/src/property.rs
+++ b/bfffs-core/src/property.rs
@@ -180,7 +180,8 @@ impl FromStr for Property {
                         131_072 => Ok(Property::RecordSize(17)),
                         262_144 => Ok(Property::RecordSize(18)),
                         524_288 => Ok(Property::RecordSize(19)),
-                        1_048_776 => Ok(Property::RecordSize(20)),
+                        // 1_048_776 is an old misspelling of 1 MB
+                        1_048_576 | 1_048_776 => Ok(Property::RecordSize(20)),
                         _ => Err(ParsePropertyError::Value(propval.to_string()))
                     }
                 } else {
-- 
2.43.0


From 265d4d3604077079e47002e9834e3e481c2dc210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 16/55] fix: don't repeat directory entries when resuming
 readdir in a hash bucket

The cursor for an entry in the middle of a bucket must count all of the
bucket's entries that have already been returned, not only those that
were returned since the last resumption.
---
 bfffs-core/src/fs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index c4d5aa7..2716771 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -1943,7 +1943,8 @@ impl Fs {
                             Poll::Ready(Some(Ok(de)))
                         },
                         FSValue::DirEntries(mut bucket) => {
-                            for _ in 0..self.bucket_idx {
+                            let returned = self.bucket_idx;
+                            for _ in 0..returned {
                                 // Ignore errors.  They indicate that the bucket
                                 // has shrunk since the Cursor was created
                                 let _ = bucket.pop();
@@ -1953,7 +1954,7 @@ impl Fs {
                                 self.bucketing = Some(Bucketing {
                                     bucket,
                                     kofs: k.offset(),
-                                    returned: 0
+                                    returned
                                 });
                                 Poll::Ready(Some(Ok(self.pop_bucket())))
                             } else {
-- 
2.43.0


From 26e6df7949f4bcd8237820bd894d82b89870673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:25 +0000
Subject: [PATCH 17/55] fix: check the right length when writing part of a
 buffer to a file

DivBuf's Borrow implementation returns the entire buffer that it's part of, so
the assertion failed when writing one column of a record to a RAID device.
---
 bfffs-core/src/vdev_file.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bfffs-core/src/vdev_file.rs b/bfffs-core/src/vdev_file.rs
index f2ed8f7..6752156 100644
--- a/bfffs-core/src/vdev_file.rs
+++ b/bfffs-core/src/vdev_file.rs
@@ -19,7 +19,6 @@ use futures::{
 use nix::libc::{c_int, off_t};
 use pin_project::pin_project;
 use std::{
-    borrow::Borrow,
     fs,
     io::{self, IoSlice, IoSliceMut},
     mem::{self, MaybeUninit},
@@ -475,10 +474,7 @@ impl<'fd> VdevFile<'fd> {
     fn write_at_unchecked(&'fd self, buf: IoVec, lba: LbaT) -> VdevFileFut<'fd>
     {
         let off = lba * (BYTES_PER_LBA as u64);
-        {
-            let b: &[u8] = buf.borrow();
-            debug_assert!(b.len().is_multiple_of(BYTES_PER_LBA));
-        }
+        debug_assert!(buf.len().is_multiple_of(BYTES_PER_LBA));
 
         // Safe because fut's lifetime is equal to buf's (or rather, it will
         // be once we move it into the WriteAt struct
-- 
2.43.0


From 35ae59c1af10c7c24d0a210da38e1775aad607e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:25 +0000
Subject: [PATCH 18/55] fix: don't panic when modifying a record that is still
 being written

The RAID layer, the cache, or a concurrent reader may still hold a reference to
the buffer of a record that was just flushed.
---
 bfffs-core/src/fs.rs      |  4 +++-
 bfffs-core/src/fs_tree.rs | 12 ++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index 2716771..6f0e64c 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -903,6 +903,7 @@ impl Fs {
                     future::ok(0)
                 }.boxed(),
                 Some(FSValue::InlineExtent(ile)) => async move {
+                    let ile = ile.into_mutable();
                     let mut b = ile.buf.try_mut().unwrap();
                     let r = if recofs > b.len() as u64 {
                         // Nothing to do.  The truncation happens in a part of
@@ -970,6 +971,7 @@ impl Fs {
                         future::ok(0).boxed()
                     },
                     Some(FSValue::InlineExtent(ile)) => async move {
+                        let ile = ile.into_mutable();
                         let mut b = ile.buf.try_mut().unwrap();
                         if len < b.len() as u64 {
                             for i in 0..len {
@@ -2534,7 +2536,7 @@ impl Fs {
                 },
                 Some(FSValue::InlineExtent(ile)) => {
                     let old_len = ile.len() as i64;
-                    (ile.buf, old_len)
+                    (ile.into_mutable().buf, old_len)
                 },
                 // Some(FSValue::BlobExtent(be)) should never happen, because
                 // FSValue::dpop will change it to an inline extent.
diff --git a/bfffs-core/src/fs_tree.rs b/bfffs-core/src/fs_tree.rs
index a791e23..43af9cd 100644
--- a/bfffs-core/src/fs_tree.rs
+++ b/bfffs-core/src/fs_tree.rs
@@ -1090,6 +1090,18 @@ impl InlineExtent {
         })
     }
 
+    /// Ensure that the buffer can be modified.  If anything else still has a
+    /// reference to it, like a reader or a write that is still in progress,
+    /// then make a copy instead.
+    pub fn into_mutable(self) -> Self {
+        if self.buf.try_mut().is_ok() {
+            self
+        } else {
+            let copy = self.buf.try_const().unwrap()[..].to_vec();
+            InlineExtent::new(Arc::new(DivBufShared::from(copy)))
+        }
+    }
+
     pub fn len(&self) -> usize {
         self.buf.len()
     }
-- 
2.43.0


From beafd97f23011cf8823d45b5cc779d05cba3763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:25 +0000
Subject: [PATCH 19/55] fix: keep acknowledged data readable while its stripe
 is being written

A write that fits in the stripe buffer completes immediately.  But when a later
write fills the stripe, the buffer got emptied before the stripe reached the
disks, so a concurrent read of the former would return stale data.
---
 bfffs-core/src/raid/vdev_raid.rs | 84 +++++++++++++++++++++++++++++---
 1 file changed, 78 insertions(+), 6 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 46b9b39..3105175 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -32,7 +32,7 @@ use std::{
     path::Path,
     pin::Pin,
     ptr,
-    sync::{Arc, RwLock}
+    sync::{Arc, Mutex, RwLock}
 };
 use super::{
     LocatorImpl,
@@ -179,6 +179,18 @@ impl StripeBuffer {
     }
 }
 
+/// Removes a stripe from [`VdevRaid::flushing_stripes`] once its write is done
+struct FlushGuard {
+    lba: LbaT,
+    stripes: Arc<Mutex<BTreeMap<LbaT, SGList>>>
+}
+
+impl Drop for FlushGuard {
+    fn drop(&mut self) {
+        self.stripes.lock().unwrap().remove(&self.lba);
+    }
+}
+
 /// A child of a VdevRaid.  Probably either a Mirror or a missing disk.
 enum Child {
     Present(Mirror),
@@ -524,6 +536,13 @@ pub struct VdevRaid {
     /// stripes uses fewer resources than only cacheing the parity information.
     stripe_buffers: RwLock<BTreeMap<ZoneT, StripeBuffer>>,
 
+    /// Stripes that have left their [`StripeBuffer`] but have not yet been
+    /// completely written to the mirror devices, indexed by starting LBA.
+    ///
+    /// The first parts of them belong to writes that have already completed, so
+    /// it must always be possible to read them back.
+    flushing_stripes: Arc<Mutex<BTreeMap<LbaT, SGList>>>,
+
     uuid: Uuid,
 
     inner: Arc<Inner>,
@@ -698,6 +717,7 @@ impl VdevRaid {
             optimum_queue_depth,
             size,
             stripe_buffers: RwLock::new(BTreeMap::new()),
+            flushing_stripes: Arc::default(),
             uuid,
             inner
         }
@@ -1693,6 +1713,24 @@ impl VdevRaid {
         labeller.serialize(&label).unwrap();
     }
 
+    /// Write exactly one stripe that came from a [`StripeBuffer`].
+    ///
+    /// The caller must still hold `stripe_buffers`' lock, so that the data is
+    /// always readable from either the `StripeBuffer`, `flushing_stripes`, or
+    /// the disks.
+    fn flush_stripe(&self, sglist: SGList, lba: LbaT) -> BoxVdevFut {
+        let fut = self.writev_at_one(&sglist, lba);
+        self.flushing_stripes.lock().unwrap().insert(lba, sglist);
+        let guard = FlushGuard {
+            lba,
+            stripes: self.flushing_stripes.clone()
+        };
+        Box::pin(fut.map(move |r| {
+            drop(guard);
+            r
+        }))
+    }
+
     /// Write two or more whole stripes
     #[allow(clippy::needless_range_loop)]   // Code looks better this way
     fn write_at_multi(&self, mut buf: IoVec, lba: LbaT) -> BoxVdevFut {
@@ -2115,7 +2153,7 @@ impl VdevRaidApi for VdevRaid {
             sb.pad();
             let lba = sb.lba();
             let sgl = sb.pop();
-            futs.push(self.writev_at_one(&sgl, lba))
+            futs.push(self.flush_stripe(sgl, lba))
         }
         futs.extend(
             self.inner.children.iter()
@@ -2150,8 +2188,7 @@ impl VdevRaidApi for VdevRaid {
                     let pad_lbas = sb.pad();
                     let lba = sb.lba();
                     let sgl = sb.pop();
-                    drop(sb_ref);
-                    (pad_lbas, Box::pin(self.writev_at_one(&sgl, lba)))
+                    (pad_lbas, self.flush_stripe(sgl, lba))
                 }
             }
         }
@@ -2222,6 +2259,41 @@ impl VdevRaidApi for VdevRaid {
         if justreturn {
             return Box::pin(future::ok(()))
         }
+
+        // Look for a stripe that contains part of the requested range and has
+        // left its StripeBuffer, but isn't on disk yet.
+        let stripe_lbas = self.chunksize * m;
+        let flushing = self.flushing_stripes.lock().unwrap()
+            .range(..=end_lba)
+            .next_back()
+            .filter(|(slba, _)| **slba + stripe_lbas > lba)
+            .map(|(slba, sglist)| (*slba, sglist.clone()));
+        if let Some((slba, sglist)) = flushing {
+            let start = cmp::max(lba, slba);
+            let end = cmp::min(end_lba + 1, slba + stripe_lbas);
+            let mut head = buf2;
+            let mut body = head.split_off(
+                (start - lba) as usize * BYTES_PER_LBA);
+            let tail = body.split_off((end - start) as usize * BYTES_PER_LBA);
+            let mut cursor = SGCursor::from(&sglist);
+            let mut to_skip = (start - slba) as usize * BYTES_PER_LBA;
+            while to_skip > 0 {
+                to_skip -= cursor.next(to_skip).unwrap().len();
+            }
+            while !body.is_empty() {
+                let iovec = cursor.next(body.len()).unwrap();
+                body.split_to(iovec.len())[..].copy_from_slice(&iovec[..]);
+            }
+            let futs = FuturesUnordered::<BoxVdevFut>::new();
+            if !head.is_empty() {
+                futs.push(self.read_at(head, lba));
+            }
+            if !tail.is_empty() {
+                futs.push(self.read_at(tail, end));
+            }
+            return Box::pin(futs.try_collect::<Vec<_>>().map_ok(drop));
+        }
+
         let start_stripe = lba / (self.chunksize * m as LbaT);
         let end_stripe = end_lba / (self.chunksize * m);
         if start_stripe == end_stripe {
@@ -2429,7 +2501,7 @@ impl VdevRaidApi for VdevRaid {
                     let stripe_lba = stripe_buffer.lba();
                     let sglist = stripe_buffer.pop();
                     lba += ((buflen - buf2.len()) / BYTES_PER_LBA) as LbaT;
-                    futs.push(self.writev_at_one(&sglist, stripe_lba));
+                    futs.push(self.flush_stripe(sglist, stripe_lba));
                 }
                 buf2
             } else {
@@ -2447,7 +2519,7 @@ impl VdevRaidApi for VdevRaid {
                         // completing a stripe
                         let slba = stripe_buffer.lba();
                         let sglist = stripe_buffer.pop();
-                        futs.push(self.writev_at_one(&sglist, slba));
+                        futs.push(self.flush_stripe(sglist, slba));
                     }
                     debug_assert!(!stripe_buffer.is_full());
                     debug_assert!(buf4.is_empty());
-- 
2.43.0


From 05ac3d6c0bdcda186202fe85700e031915ccc357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:30 +0000
Subject: [PATCH 20/55] fix: don't panic when syncing or importing a degraded
 RAID

VdevRaid::write_label and write_spacemap assumed that every mirror was
present, and read_spacemap could try to read from one that wasn't.
---
 bfffs-core/src/raid/vdev_raid.rs | 37 ++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 3105175..7e5f75f 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -393,14 +393,16 @@ impl Child {
         }
     }
 
-    fn write_label(&self, labeller: LabelWriter, txg: TxgT) -> BoxVdevFut {
-        self.as_present().unwrap().write_label(labeller, txg, false)
+    fn write_label(&self, labeller: LabelWriter, txg: TxgT)
+        -> Option<BoxVdevFut>
+    {
+        self.as_present().map(|m| m.write_label(labeller, txg, false))
     }
 
     fn write_spacemap(&self, sglist: SGList, idx: u32, block: LbaT)
-        ->  BoxVdevFut
+        ->  Option<BoxVdevFut>
     {
-        self.as_present().unwrap().write_spacemap(sglist, idx, block)
+        self.as_present().map(|m| m.write_spacemap(sglist, idx, block))
     }
 
     fn writev_at(&self, bufs: SGList, lba: LbaT) -> ChildWriteFut {
@@ -484,11 +486,11 @@ impl Future for ReadSpacemap {
                 }
             }
             // Try a different child.
+            pinned.fut.set(None);
             let buf = pinned.dbi.try_mut().unwrap();
             let child = &pinned.inner.children[*pinned.next];
-            *pinned.next += 1;
-            let new_fut = child.read_spacemap(buf, *pinned.smidx);
-            pinned.fut.replace(new_fut);
+            *pinned.next = pinned.inner.next_present(*pinned.next + 1);
+            pinned.fut.set(Some(child.read_spacemap(buf, *pinned.smidx)));
         }
     }
 }
@@ -505,6 +507,16 @@ struct Inner {
     codec: Codec,
 }
 
+impl Inner {
+    /// The index of the first present child at or after `start`, or else the
+    /// total number of children.
+    fn next_present(&self, start: usize) -> usize {
+        (start..self.children.len())
+            .find(|i| self.children[*i].is_present())
+            .unwrap_or(self.children.len())
+    }
+}
+
 /// `VdevRaid`: Virtual Device for the RAID transform
 ///
 /// This Vdev implements the RAID I/O path, for all types of RAID encodings and
@@ -2332,11 +2344,14 @@ impl VdevRaidApi for VdevRaid {
     {
         let dbi = buf.clone_inaccessible();
         let inner = self.inner.clone();
-        let fut = inner.children.first().map(|child| child.read_spacemap(buf, smidx));
+        let first = inner.next_present(0);
+        let next = inner.next_present(first + 1);
+        let fut = inner.children.get(first)
+            .map(|child| child.read_spacemap(buf, smidx));
 
         Box::pin(ReadSpacemap {
             inner,
-            next: 1,
+            next,
             dbi,
             smidx,
             fut
@@ -2537,7 +2552,7 @@ impl VdevRaidApi for VdevRaid {
     fn write_label(&self, mut labeller: LabelWriter, txg: TxgT) -> BoxVdevFut
     {
         self.serialize_label(&mut labeller);
-        let fut = self.inner.children.iter().map(|bd| {
+        let fut = self.inner.children.iter().filter_map(|bd| {
            bd.write_label(labeller.clone(), txg)
         }).collect::<FuturesUnordered<_>>()
         .try_collect::<Vec<_>>()
@@ -2548,7 +2563,7 @@ impl VdevRaidApi for VdevRaid {
     fn write_spacemap(&self, sglist: SGList, idx: u32, block: LbaT)
         -> BoxVdevFut
     {
-        let fut = self.inner.children.iter().map(|bd| {
+        let fut = self.inner.children.iter().filter_map(|bd| {
             bd.write_spacemap(sglist.clone(), idx, block)
         }).collect::<FuturesUnordered<_>>()
         .try_collect::<Vec<_>>()
-- 
2.43.0


From d72009a306db7d9d32acbe22324cb96a233aacd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:30 +0000
Subject: [PATCH 21/55] fix: recover from read errors that arise in just part
 of a RAID read

If a child failed unexpectedly the RAID reread into a buffer that other
parts of the same read were still using, and panicked, or else failed to
reconstruct stripes that it should've been able to.  Reread the whole
stripe into separate buffers instead.  A mirror can't retry if it can't
have exclusive access to the buffer, so leave that to the RAID, too.
---
 bfffs-core/src/mirror.rs         |  54 +++++----
 bfffs-core/src/raid/vdev_raid.rs | 190 +++++++++++++++++--------------
 2 files changed, 140 insertions(+), 104 deletions(-)

diff --git a/bfffs-core/src/mirror.rs b/bfffs-core/src/mirror.rs
index 3e8b1b0..34aafa0 100644
--- a/bfffs-core/src/mirror.rs
+++ b/bfffs-core/src/mirror.rs
@@ -912,21 +912,26 @@ impl Future for ReadAt {
             return Poll::Ready(Err(Error::ENXIO));
         }
         loop {
-            match pinned.fut.as_mut().as_pin_mut().unwrap().poll(cx) {
+            let e = match pinned.fut.as_mut().as_pin_mut().unwrap().poll(cx) {
                 Poll::Pending => return Poll::Pending,
                 Poll::Ready(Ok(())) => return Poll::Ready(Ok(())),
-                Poll::Ready(Err(e)) => {
-                    if pinned.children.is_empty() {
-                        // Out of children.  Fail the Read.
-                        return Poll::Ready(Err(e));
-                    }
-                }
+                Poll::Ready(Err(e)) => e
+            };
+            if pinned.children.is_empty() {
+                // Out of children.  Fail the Read.
+                return Poll::Ready(Err(e));
             }
             // Try a different child.
-            let buf = pinned.dbi.try_mut().unwrap();
+            pinned.fut.set(None);
+            let buf = match pinned.dbi.try_mut() {
+                Ok(buf) => buf,
+                // Our caller still holds other parts of the buffer.  Leave
+                // error recovery up to it.
+                Err(_) => return Poll::Ready(Err(e))
+            };
             let child = pinned.children.pop().unwrap();
             let new_fut = child.read_at(buf, *pinned.lba);
-            pinned.fut.replace(new_fut);
+            pinned.fut.set(Some(new_fut));
         }
     }
 }
@@ -962,10 +967,11 @@ impl Future for ReadSpacemap {
                 }
             }
             // Try a different child.
+            pinned.fut.set(None);
             let buf = pinned.dbi.try_mut().unwrap();
             let child = pinned.children.pop().unwrap();
             let new_fut = child.read_spacemap(buf, *pinned.smidx);
-            pinned.fut.replace(new_fut);
+            pinned.fut.set(Some(new_fut));
         }
     }
 }
@@ -990,23 +996,29 @@ impl Future for ReadvAt {
             return Poll::Ready(Err(Error::ENXIO));
         }
         loop {
-            match pinned.fut.as_mut().as_pin_mut().unwrap().poll(cx) {
+            let e = match pinned.fut.as_mut().as_pin_mut().unwrap().poll(cx) {
                 Poll::Pending => return Poll::Pending,
                 Poll::Ready(Ok(())) => return Poll::Ready(Ok(())),
-                Poll::Ready(Err(e)) => {
-                    if pinned.children.is_empty() {
-                        // Out of children.  Fail the Read.
-                        return Poll::Ready(Err(e));
-                    }
-                }
+                Poll::Ready(Err(e)) => e
+            };
+            if pinned.children.is_empty() {
+                // Out of children.  Fail the Read.
+                return Poll::Ready(Err(e));
             }
             // Try a different child.
-            let bufs = pinned.dbis.iter()
-                .map(|dbi| dbi.try_mut().unwrap())
-                .collect::<Vec<_>>();
+            pinned.fut.set(None);
+            let bufs = match pinned.dbis.iter()
+                .map(DivBufInaccessible::try_mut)
+                .collect::<std::result::Result<Vec<_>, _>>()
+            {
+                Ok(bufs) => bufs,
+                // Our caller still holds other parts of the buffer.  Leave
+                // error recovery up to it.
+                Err(_) => return Poll::Ready(Err(e))
+            };
             let child = pinned.children.pop().unwrap();
             let new_fut = child.readv_at(bufs, *pinned.lba);
-            pinned.fut.replace(new_fut);
+            pinned.fut.set(Some(new_fut));
         }
     }
 }
diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 7e5f75f..3237d57 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -1057,10 +1057,22 @@ impl VdevRaid {
                     let dvs = lociter
                         .map(|(_cid, loc)| dv[loc.disk as usize])
                         .collect::<Vec<_>>();
-                    Self::read_at_reconstruction(&inner.codec, chunksize, data,
-                                           usslba, exbuf, dvs)
-                }).reduce(|acc, e| acc.and(e))
-                .unwrap()
+                    let inner = inner.clone();
+                    async move {
+                        let nerrs = dvs.iter().filter(|r| r.is_err()).count();
+                        if nerrs > faulted_children as usize {
+                            // Some disk must've had an unexpected error.
+                            Self::read_at_recover(inner, chunksize, data,
+                                                  usslba).await
+                        } else {
+                            Self::read_at_reconstruction(&inner.codec,
+                                chunksize, data, usslba, exbuf, dvs)
+                        }
+                    }
+                }).collect::<FuturesOrdered<_>>()
+                .try_collect::<Vec<_>>()
+                .await
+                .map(drop)
             }
         }
     }
@@ -1101,8 +1113,7 @@ impl VdevRaid {
             None
         };
 
-        let mut start_chunk_addr = start_lba / chunksize;
-        let start_cid = ChunkId::Data(start_chunk_addr);
+        let start_cid = ChunkId::Data(start_lba / chunksize);
         let end_lba_remainder = end_lba % lbas_per_stripe;
         let end_cid = if faulted_children > 0 && faulted_children < f {
             ChunkId::Parity(stripe_lba / chunksize, faulted_children)
@@ -1192,79 +1203,14 @@ impl VdevRaid {
         }).collect::<FuturesOrdered<_>>();
 
         async move {
-            let mut nerrs;
-            let mut dv = rfut.collect::<Vec<Result<()>>>().await;
+            let dv = rfut.collect::<Vec<Result<()>>>().await;
+            let nerrs = dv.iter().filter(|x| x.is_err()).count() as i16;
 
-            let mut old_nerrs = faulted_children;
-            loop {
-                nerrs = dv.iter().filter(|x| x.is_err()).count() as i16;
-                if nerrs <= old_nerrs {
-                    break;
-                }
-                debug_assert!(dv.len() - (nerrs as usize) < m);
-                // Some disk must've had an unexpected error.  Read enough
-                // parity for reconstruction.
-                if nerrs > f {
-                    // Too many errors.  No point in attempting recovery. :(
-                    break
-                }
-                if exbufs.is_none() {
-                    exbufs = Some(Vec::with_capacity(nerrs as usize));
-                }
-                let start_cid = ChunkId::Data(stripe_lba / chunksize);
-                let end_cid = if nerrs > 0 && nerrs < f {
-                    ChunkId::Parity(stripe_lba / chunksize, nerrs)
-                } else {
-                    ChunkId::Data(end_of_stripe_lba / chunksize)
-                };
-                let rfut = inner.locator.iter(start_cid, end_cid)
-                .map(|(cid, loc)| {
-                    if let ChunkId::Parity(_, pid) = cid {
-                        debug_assert!(pid < nerrs);
-                        if pid < old_nerrs {
-                            // Already read it
-                            let dvidx = m + pid as usize;
-                            Box::pin(future::ready(dv[dvidx])) as BoxVdevFut
-                        } else {
-                            let dbs = DivBufShared::uninitialized(col_len);
-                            let dbm = dbs.try_mut().unwrap();
-                            exbufs.as_mut().unwrap().push(dbs);
-                            let disk_lba = loc.offset * chunksize;
-                            Box::pin(inner.children[loc.disk as usize].read_at(dbm, disk_lba)) as BoxVdevFut
-                        }
-                    } else if cid.address() < start_chunk_addr {
-                        // Need to read this data chunk for parity
-                        // reconstruction
-                        let dbs = DivBufShared::uninitialized(col_len);
-                        let dbm = dbs.try_mut().unwrap();
-                        exbufs.as_mut().unwrap().push(dbs);
-                        let disk_lba = loc.offset * chunksize;
-                        Box::pin(inner.children[loc.disk as usize].read_at(dbm, disk_lba)) as BoxVdevFut
-                    } else if cid.address() - start_chunk_addr < dv.len() as u64
-                    {
-                        // should've already read it
-                        let dvidx = (cid.address() - start_chunk_addr) as usize;
-                        Box::pin(future::ready(dv[dvidx])) as BoxVdevFut
-                    } else {
-                        // Need to read this data chunk for parity
-                        // reconstruction
-                        let dbs = DivBufShared::uninitialized(col_len);
-                        let dbm = dbs.try_mut().unwrap();
-                        exbufs.as_mut().unwrap().push(dbs);
-                        let disk_lba = loc.offset * chunksize;
-                        Box::pin(inner.children[loc.disk as usize].read_at(dbm, disk_lba)) as BoxVdevFut
-                    }
-                }).collect::<FuturesOrdered<_>>();
-                start_chunk_addr = stripe_lba / chunksize;
-                old_nerrs = nerrs;
-                dv = rfut.collect::<Vec<Result<()>>>().await;
-            }
-
-            if nerrs > f {
-                // Reconstruction is impossible :(
-                dv.into_iter()
-                    .find(Result::is_err)
-                    .unwrap()
+            if nerrs > faulted_children {
+                // Some disk must've had an unexpected error.
+                drop(buf);
+                let data = dbi.try_mut().unwrap();
+                Self::read_at_recover(inner, chunksize, data, ulba).await
             } else if nerrs > 0 {
                 // We must reconstruct the data
                 drop(buf);
@@ -1536,6 +1482,77 @@ impl VdevRaid {
         })
     }
 
+    /// Read part of a single stripe, after an unexpected error.
+    ///
+    /// Reread the entire stripe, including parity, and use that to reconstruct
+    /// any data that still can't be read.
+    async fn read_at_recover(
+        inner: Arc<Inner>,
+        chunksize: LbaT,
+        mut data: DivBufMut,
+        // LBA that the data begins at
+        lba: LbaT
+    ) -> Result<()>
+    {
+        let f = inner.codec.protection() as usize;
+        let m = inner.codec.stripesize() as usize - f;
+        let col_len = chunksize as usize * BYTES_PER_LBA;
+        let stripe = lba / (chunksize * m as LbaT);
+
+        let start_cid = ChunkId::Data(stripe * m as u64);
+        let end_cid = ChunkId::Data((stripe + 1) * m as u64);
+        let (cols, futs) = inner.locator.iter(start_cid, end_cid)
+        .map(|(_cid, loc)| {
+            let dbs = DivBufShared::from(vec![0u8; col_len]);
+            let dbm = dbs.try_mut().unwrap();
+            let disk_lba = loc.offset * chunksize;
+            (dbs, inner.children[loc.disk as usize].read_at(dbm, disk_lba))
+        }).unzip::<_, _, Vec<_>, FuturesOrdered<_>>();
+        let dv = futs.collect::<Vec<Result<()>>>().await;
+        if dv.iter().filter(|r| r.is_err()).count() > f {
+            // Reconstruction is impossible :(
+            return dv.into_iter().find(Result::is_err).unwrap();
+        }
+
+        if dv[..m].iter().any(Result::is_err) {
+            let mut erasures = FixedBitSet::with_capacity(m + f);
+            let mut surviving = Vec::with_capacity(m);
+            let mut missing = Vec::with_capacity(f);
+            let mut dbms = cols.iter()
+                .map(|dbs| dbs.try_mut().unwrap())
+                .collect::<Vec<_>>();
+            for (i, (r, col)) in dv.iter().zip(dbms.iter_mut()).enumerate() {
+                if r.is_err() {
+                    erasures.insert(i);
+                    if i < m {
+                        missing.push(col.as_mut_ptr());
+                    }
+                } else if surviving.len() < m {
+                    surviving.push(col.as_ptr());
+                }
+            }
+            // Safe because all columns are still owned by cols, and they all
+            // have the same length.
+            unsafe {
+                inner.codec.decode(col_len, &surviving, &mut missing,
+                                   &erasures);
+            }
+        }
+
+        // Copy the part that the user wants
+        let skip = (lba % (chunksize * m as LbaT)) as usize * BYTES_PER_LBA;
+        let mut i = skip / col_len;
+        let mut ofs = skip % col_len;
+        while !data.is_empty() {
+            let col = cols[i].try_const().unwrap();
+            let len = data.len().min(col_len - ofs);
+            data.split_to(len)[..].copy_from_slice(&col[ofs..ofs + len]);
+            i += 1;
+            ofs = 0;
+        }
+        Ok(())
+    }
+
     /// Reconstruct a stripe of data, given surviving columns and parity
     fn read_at_reconstruction(
         codec: &Codec,
@@ -2296,12 +2313,19 @@ impl VdevRaidApi for VdevRaid {
                 let iovec = cursor.next(body.len()).unwrap();
                 body.split_to(iovec.len())[..].copy_from_slice(&iovec[..]);
             }
+            drop(body);
+            // Error recovery requires that we not share the buffer, so use
+            // temporary ones.
             let futs = FuturesUnordered::<BoxVdevFut>::new();
-            if !head.is_empty() {
-                futs.push(self.read_at(head, lba));
-            }
-            if !tail.is_empty() {
-                futs.push(self.read_at(tail, end));
+            for (mut part, plba) in [(head, lba), (tail, end)] {
+                if part.is_empty() {
+                    continue;
+                }
+                let dbs = DivBufShared::from(vec![0u8; part.len()]);
+                let dbm = dbs.try_mut().unwrap();
+                futs.push(Box::pin(self.read_at(dbm, plba).map_ok(move |_| {
+                    part[..].copy_from_slice(&dbs.try_const().unwrap()[..])
+                })));
             }
             return Box::pin(futs.try_collect::<Vec<_>>().map_ok(drop));
         }
-- 
2.43.0


From b38fa314ecd272f4b2fcd0332fadadb8627f00bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:30 +0000
Subject: [PATCH 22/55] fix: repair all of an open zone's flushed stripes

VdevRaid::repair_mirror_zone calculated the end of the repaired range
as if each zone began at the beginning of the layout, looked back too
few stripes to find the mirror's last chunk, and couldn't sync the
repaired mirror while another zone was partially written.
---
 bfffs-core/src/raid/vdev_raid.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 3237d57..1254e6b 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -2406,15 +2406,30 @@ impl VdevRaidApi for VdevRaid {
         if let Some(lbas) = lbas {
             let f = self.inner.codec.protection() as u64;
             let m = self.inner.codec.stripesize() as u64 - f;
-            let n = self.inner.locator.disks();
             let lbas_per_stripe = self.chunksize * m;
-            let flushed_lbas = u64::from(lbas) - u64::from(lbas) % lbas_per_stripe;
-            let flushed_chunks: u64 = flushed_lbas / self.chunksize;
+            // The first RAID LBA that hasn't been flushed, and the first disk
+            // LBA of the zone.  Usually zones don't start at the beginning of
+            // the layout.
+            let sblba = self.stripe_buffers.read().unwrap()
+                .get(&zone)
+                .map(StripeBuffer::lba);
+            let (flushed_lbas, disk_start) = match sblba {
+                Some(sblba) => {
+                    let mirror = self.inner.children[mirror_idx].as_present();
+                    (sblba, mirror.unwrap().zone_limits(zone).0)
+                },
+                None => (u64::from(lbas), 0)
+            };
+            let flushed_chunks = flushed_lbas / lbas_per_stripe * m;
             let end = ChunkId::Data(flushed_chunks);
-            let start = ChunkId::Data(flushed_chunks.saturating_sub(n.into()));
+            // The disk won't necessarily be part of every stripe
+            let lookback = self.inner.locator.datachunks();
+            let start = ChunkId::Data(flushed_chunks.saturating_sub(lookback));
             for (_id, loc) in self.inner.locator.iter(start, end) {
                 if loc.disk == mirror_idx as i16 {
-                    maxlba = NonZeroU64::new((loc.offset + 1) * self.chunksize);
+                    let end_lba = (loc.offset + 1) * self.chunksize;
+                    maxlba = maxlba.max(NonZeroU64::new(
+                        end_lba.saturating_sub(disk_start)));
                 }
             }
             if maxlba.is_none() {
@@ -2488,8 +2503,10 @@ impl VdevRaidApi for VdevRaid {
 
     fn sync_all(&self, mirror_idx: Option<usize>) -> BoxVdevFut {
         // Don't flush zones ourselves; the Cluster layer must be in charge of
-        // that, so it can update the spacemap.
+        // that, so it can update the spacemap.  But it needn't do that just to
+        // sync a mirror that's being repaired.
         debug_assert!(
+            mirror_idx.is_some() ||
             self.stripe_buffers.read().unwrap()
             .values()
             .all(StripeBuffer::is_empty),
-- 
2.43.0


From 7d63538303d128c50c9e8c4b47c1ba1bdd95552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:30 +0000
Subject: [PATCH 23/55] fix: mirror repair skipped the spacemaps and recently
 closed zones

---
 bfffs-core/src/cluster.rs | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index 25980e6..44c46db 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -848,6 +848,9 @@ pub struct RepairMirrorTask {
     /// been fully processed.
     next_txg: TxgT,
 
+    /// Every Zone that we've already repaired, with its first transaction.
+    repaired: BTreeSet<(ZoneT, TxgT)>,
+
     /// Ordered list of zones that we need to repair.  If a Zone isn't on this
     /// list, then it either:
     /// * Doesn't need repair because it's Empty or Dead
@@ -1140,7 +1143,8 @@ impl Cluster {
             mirror_idx,
             zones: zs.zones,
             next_txg,
-            min_open_txg: zs.min_open_txg
+            min_open_txg: zs.min_open_txg,
+            repaired: BTreeSet::new(),
         }
     }
 
@@ -1194,7 +1198,7 @@ impl Cluster {
         repair_open_zones: bool) -> Result<bool>
     {
         if let Some(zid) = task.zones.pop_front() {
-            let (wp, sync_txg) = {
+            let (start_txg, wp, sync_txg) = {
                 let fsm = self.fsm.read().unwrap();
                 if fsm.is_dead(zid) || fsm.is_empty(zid) {
                     // This zone was alive when self was created.  It must've
@@ -1228,7 +1232,7 @@ impl Cluster {
                         sync_txg = None;
                     }
                 }
-                (fsm.write_pointer(zid), sync_txg)
+                (start_txg, fsm.write_pointer(zid), sync_txg)
             };
             if wp == Some(0) {
                 // It's unusual but not illegal for an open zone to have zero
@@ -1237,6 +1241,7 @@ impl Cluster {
                 let lbas = wp.and_then(NonZeroU64::new);
                 self.vdev.repair_mirror_zone(task.mirror_idx, zid, lbas).await?;
             }
+            task.repaired.insert((zid, start_txg));
             if let Some(sync_txg) = sync_txg {
                 self.vdev.sync_all(Some(task.mirror_idx)).await?;
                 let lw = LabelWriter::new(0);
@@ -1253,8 +1258,20 @@ impl Cluster {
             // Generate a new list of zones, excluding all Zones that we've
             // already repaired.
             // Let the caller know whether there are more zones to repair
-            let zs = self.order_zones_for_repair(task.next_txg..,
-                                                 repair_open_zones);
+            //
+            // Some zones may have been closed in the same transaction as the
+            // last that we repaired, but after we built the last list.
+            let first_txg = TxgT::from(u32::from(task.next_txg)
+                                       .saturating_sub(2));
+            let mut zs = self.order_zones_for_repair(first_txg..,
+                                                     repair_open_zones);
+            {
+                let fsm = self.fsm.read().unwrap();
+                zs.zones.retain(|zid| {
+                    let start = fsm.zones[*zid as usize].txgs.start;
+                    !task.repaired.contains(&(*zid, start))
+                });
+            }
             task.zones = zs.zones;
             if let Some(maxtxg) = zs.max_end_txg {
                 task.next_txg = maxtxg.checked_add(TxgT::from(1))
@@ -1267,6 +1284,13 @@ impl Cluster {
 
     /// Restore a child device to the Online state
     pub fn restore(&mut self, mirror_idx: usize) -> Result<()> {
+        // The repair didn't copy the spacemaps, so the restored device needs
+        // all of both.
+        let mut fsm = self.fsm.write().unwrap();
+        for stale in fsm.stale.iter_mut() {
+            stale.insert_range(..);
+        }
+        drop(fsm);
         self.vdev.restore(mirror_idx)
     }
 
-- 
2.43.0


From a8f39fd5a10be87eaa989f34b1a04e35cd436447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:30 +0000
Subject: [PATCH 24/55] fix: don't restore a mirror while it's missing
 in-flight writes

---
 bfffs-core/src/ddml/ddml.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/ddml/ddml.rs b/bfffs-core/src/ddml/ddml.rs
index 20d525f..2593f0f 100644
--- a/bfffs-core/src/ddml/ddml.rs
+++ b/bfffs-core/src/ddml/ddml.rs
@@ -102,6 +102,9 @@ impl MirrorRepairTask {
     async fn repair_closed_zones(&mut self) -> Result<()> {
         loop {
             if let Some(pool) = self.wpool.upgrade() {
+                // Zones may be closed before they're completely written.  So
+                // wait for any writes that are already in progress.
+                drop(pool.write().await);
                 let more = pool.read().await
                     .repair_mirror_step(&mut self.pool_task, false).await?;
                 if !more {
@@ -255,7 +258,7 @@ impl DDML {
         -> impl Future<Output=Result<()>> + Send + Sync
     {
         self.pool.read()
-            .then(move |pool| pool.flush(idx))
+            .then(move |pool| async move { pool.flush(idx).await })
     }
 
     fn new(pool: Pool, cache: Arc<Mutex<Cache>>) -> Self {
@@ -433,8 +436,10 @@ impl DDML {
         let checksum = hasher.finish();
 
         // Write
+        // Hold the lock until the write is done, so a mirror can't be restored
+        // to service while it's missing this record.
         self.pool.read()
-        .then(move |pool| pool.write(compressed_db, txg))
+        .then(move |pool| async move { pool.write(compressed_db, txg).await })
         .map_ok(move |pba| {
             DRP { pba, compressed, lsize: lsize as u32, csize, checksum }
         })
-- 
2.43.0


From d1102563a0ef9af7f34bfda2cee1863e85ccdf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:35 +0000
Subject: [PATCH 25/55] fix: repair zones that were reused since a mirror
 repair began

If a zone on the task's list died and was opened again, then it got
repaired while still open, and anything written to it afterwards was
never copied.
---
 bfffs-core/src/cluster.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index 44c46db..9cf6d71 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -1205,6 +1205,11 @@ impl Cluster {
                     // subsequently died.  Nothing to do here.
                     return Ok(true) ;
                 }
+                if fsm.is_open(zid) && !repair_open_zones {
+                    // Not only did it die, it even got reused.  Repair it
+                    // later.
+                    return Ok(true);
+                }
                 // Update the vdev's label if this is the last zone that starts
                 // with this txg.
                 let start_txg = fsm.zones[zid as usize].txgs.start;
-- 
2.43.0


From dd59b519473e504331cb2291bf6f39040620e016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:35 +0000
Subject: [PATCH 26/55] fix: copy the spacemaps to a repaired disk before
 restoring it

If a disk was restored in the middle of a transaction sync, then its
label would be written even though its spacemap hadn't been.
---
 bfffs-core/src/cluster.rs   | 24 ++++++++++++++++--------
 bfffs-core/src/ddml/ddml.rs |  2 +-
 bfffs-core/src/pool.rs      |  5 +++--
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index 9cf6d71..e026076 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -1288,15 +1288,23 @@ impl Cluster {
     }
 
     /// Restore a child device to the Online state
-    pub fn restore(&mut self, mirror_idx: usize) -> Result<()> {
-        // The repair didn't copy the spacemaps, so the restored device needs
-        // all of both.
-        let mut fsm = self.fsm.write().unwrap();
-        for stale in fsm.stale.iter_mut() {
-            stale.insert_range(..);
+    pub async fn restore(&mut self, mirror_idx: usize) -> Result<()> {
+        // The repair didn't copy the spacemaps.  Do it now, because the
+        // restored device's labels may be updated at any time.
+        let blocks = (self.vdev.zones() as usize)
+            .div_ceil(SPACEMAP_ZONES_PER_LBA);
+        let mut spacemaps = Vec::with_capacity(2);
+        for idx in 0..2 {
+            let dbs = DivBufShared::from(vec![0u8; blocks * BYTES_PER_LBA]);
+            self.vdev.read_spacemap(dbs.try_mut().unwrap(), idx).await?;
+            spacemaps.push(dbs);
         }
-        drop(fsm);
-        self.vdev.restore(mirror_idx)
+        self.vdev.restore(mirror_idx)?;
+        for (idx, dbs) in spacemaps.iter().enumerate() {
+            let sglist = vec![dbs.try_const().unwrap()];
+            self.vdev.write_spacemap(sglist, idx as u32, 0).await?;
+        }
+        self.vdev.sync_all(Some(mirror_idx)).await
     }
 
     /// Return approximately the usable space of the Cluster in LBAs.
diff --git a/bfffs-core/src/ddml/ddml.rs b/bfffs-core/src/ddml/ddml.rs
index 2593f0f..bf0aee9 100644
--- a/bfffs-core/src/ddml/ddml.rs
+++ b/bfffs-core/src/ddml/ddml.rs
@@ -132,7 +132,7 @@ impl MirrorRepairTask {
                     break;
                 }
             }
-            pool_guard.restore(self.cl_idx, self.m_idx)?;
+            pool_guard.restore(self.cl_idx, self.m_idx).await?;
         } else {
             tracing::debug!(
                 "Pool got dropped with an active MirrorRebuildTask");
diff --git a/bfffs-core/src/pool.rs b/bfffs-core/src/pool.rs
index c2bf925..28d927b 100644
--- a/bfffs-core/src/pool.rs
+++ b/bfffs-core/src/pool.rs
@@ -470,8 +470,9 @@ impl Pool {
     }
 
     /// Restore the given disk or Mirror to the Online state
-    pub fn restore(&mut self, cl_idx: usize, m_idx: usize) -> Result<()> {
-        self.clusters[cl_idx].restore(m_idx)
+    pub async fn restore(&mut self, cl_idx: usize, m_idx: usize) -> Result<()>
+    {
+        self.clusters[cl_idx].restore(m_idx).await
     }
 
     /// Return approximately the Pool's usable storage space in LBAs.
-- 
2.43.0


From d97d0b142bd56e38fabd6a93caed4bf256a0dbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:30 +0000
Subject: [PATCH 27/55] fix: sync rebuilding disks before updating their labels

---
 bfffs-core/src/mirror.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/mirror.rs b/bfffs-core/src/mirror.rs
index 34aafa0..c01a570 100644
--- a/bfffs-core/src/mirror.rs
+++ b/bfffs-core/src/mirror.rs
@@ -298,7 +298,10 @@ impl Child {
     }
 
     fn sync_all(&self) -> Option<VdevBlockFut> {
-        self.as_present().map(|vb| vb.sync_all())
+        // Rebuilding disks' labels get updated too, after their data is synced
+        self.as_present()
+            .or(self.as_rebuilding())
+            .map(|vb| vb.sync_all())
     }
 
     fn uuid(&self) -> Uuid {
-- 
2.43.0


From 7351200b9f1b11a97b7da6483e48aa746c3f6808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:26 +0000
Subject: [PATCH 28/55] fix: never let a disk that's still rebuilding look
 complete

When the last zone to be repaired was closed in the most recently synced
transaction, the rebuilding disk's label got the same transaction as its
mirror's other labels.  If BFFFS was restarted before the repair
finished, then the disk would be considered complete.  The import could
also panic, because those labels are incomplete.
---
 bfffs-core/src/mirror.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/mirror.rs b/bfffs-core/src/mirror.rs
index c01a570..dc41c3e 100644
--- a/bfffs-core/src/mirror.rs
+++ b/bfffs-core/src/mirror.rs
@@ -13,6 +13,7 @@ use std::{
     pin::Pin,
     sync::{
         Arc,
+        Mutex,
         atomic::{AtomicU32, Ordering}
     }
 };
@@ -330,6 +331,10 @@ pub struct Mirror {
     /// Underlying block devices.
     children: Vec<Child>,
 
+    /// The last two distinct transactions for which labels were written to the
+    /// Present children.  The latter's might not be stable yet.
+    label_txgs: Mutex<[TxgT; 2]>,
+
     /// Wrapping index of the next child to read from during read operations
     // To eliminate the need for atomic divisions, the index is allowed to wrap
     // at 2**32.
@@ -483,6 +488,7 @@ impl Mirror {
 
         Ok(Self {
             uuid,
+            label_txgs: Mutex::new([TxgT::from(0); 2]),
             next_read_idx,
             optimum_queue_depth,
             size,
@@ -535,7 +541,9 @@ impl Mirror {
                 children.push(Child::missing(*lchild));
             }
         }
-        Ok((Mirror::new(label.uuid, children)?, reader))
+        let mirror = Mirror::new(label.uuid, children)?;
+        *mirror.label_txgs.lock().unwrap() = [highest_txg; 2];
+        Ok((mirror, reader))
     }
 
     pub fn open_zone(&self, start: LbaT) -> BoxVdevFut {
@@ -832,6 +840,20 @@ impl Mirror {
                        repairing: bool)
         -> BoxVdevFut
     {
+        let txg = {
+            let mut txgs = self.label_txgs.lock().unwrap();
+            if repairing {
+                // Until they get restored, rebuilding children must always look
+                // older than the others.  Otherwise they would be considered
+                // complete the next time that the Mirror is opened.
+                txg.min(TxgT::from(u32::from(txgs[0]).saturating_sub(1)))
+            } else {
+                if txg != txgs[1] {
+                    *txgs = [txgs[1], txg];
+                }
+                txg
+            }
+        };
         let children_uuids = self.children.iter().map(Child::uuid)
             .collect::<Vec<_>>();
         let label = Label {
-- 
2.43.0


From c524bf9cb65b08328a1b158d05022405834659db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:44 +0000
Subject: [PATCH 29/55] fix: don't assert that a node to clean hasn't been
 merged since

---
 bfffs-core/src/tree/tree/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/tree/tree/mod.rs b/bfffs-core/src/tree/tree/mod.rs
index 693154d..97f81eb 100644
--- a/bfffs-core/src/tree/tree/mod.rs
+++ b/bfffs-core/src/tree/tree/mod.rs
@@ -2530,6 +2530,10 @@ impl<D, K, V> Tree<ddml::DRP, D, K, V>
             }
             // TODO: bypass the cache for this part
             let dml2 = dml.clone();
+            // The node may have been merged with its neighbor since
+            // get_dirty_nodes found it, so don't expect it to be node.key.
+            #[cfg(debug_assertions)]
+            let child_key = guard.as_int().children[child_idx].key;
             let fut = dml.pop::<Arc<Node<ddml::DRP, K, V>>,
                                 Arc<Node<ddml::DRP, K, V>>>(
                         guard.as_int().children[child_idx].ptr.as_addr(), txg)
@@ -2537,7 +2541,7 @@ impl<D, K, V> Tree<ddml::DRP, D, K, V>
                     #[cfg(debug_assertions)]
                     {
                         if let Ok(guard) = arc.0.try_read() {
-                            assert!(node.key <= *guard.key());
+                            assert!(child_key <= *guard.key());
                         }   // LCOV_EXCL_LINE   grcov false negative
                     }
                     dml2.put(*arc, Compression::None, txg)
-- 
2.43.0


From bfd7395308e7116f1efd97f4f07bf8124d30ff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:52 +0000
Subject: [PATCH 30/55] fix: don't claim to have repaired zones that died
 uncommitted

---
 bfffs-core/src/cluster.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index e026076..1384149 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -383,6 +383,11 @@ impl<'a> FreeSpaceMap {
             ! self.open_zones.contains_key(&zone_id)
     }
 
+    /// Are there any dead zones?
+    fn has_dead_zones(&self) -> bool {
+        self.empty_zones.iter().any(|zid| self.is_dead(*zid))
+    }
+
     /// Is the Zone with the given id dead?
     fn is_dead(&self, zone_id: ZoneT) -> bool {
         zone_id < self.zones.len() as ZoneT &&
@@ -1237,6 +1242,12 @@ impl Cluster {
                         sync_txg = None;
                     }
                 }
+                // We don't repair dead zones.  But until the transaction that
+                // killed them is committed, a crash would resurrect them, so
+                // the label can't claim that they've been repaired.
+                if fsm.has_dead_zones() {
+                    sync_txg = None;
+                }
                 (start_txg, fsm.write_pointer(zid), sync_txg)
             };
             if wp == Some(0) {
-- 
2.43.0


From 2adb650b24331604fd002fd43f5e6292e97576ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:52 +0000
Subject: [PATCH 31/55] fix: recover corrupt records that don't fill their last
 LBA

---
 bfffs-core/src/ddml/ddml.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/ddml/ddml.rs b/bfffs-core/src/ddml/ddml.rs
index bf0aee9..abf9c43 100644
--- a/bfffs-core/src/ddml/ddml.rs
+++ b/bfffs-core/src/ddml/ddml.rs
@@ -340,7 +340,8 @@ impl DDML {
                     match r {
                         Ok(reconstructions) => {
                             for rdbs in reconstructions {
-                                let rdb = rdbs.try_const().unwrap();
+                                let rdb = rdbs.try_const().unwrap()
+                                    .slice_to(drp.csize as usize);
                                 let mut hasher = MetroHash64::new();
                                 checksum_iovec(&rdb, &mut hasher);
                                 let checksum = hasher.finish();
-- 
2.43.0


From 2705f8b74a12533b3e7c2a9a0368b975c64f8975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:38 +0000
Subject: [PATCH 32/55] fix: retry tree lookups that race with a writer on an
 evicted node

A reader's guard on a clean node only excludes writers while the node
remains in the cache.  If the node gets evicted, a writer can pop it and
its children while the reader is still descending through it.  With the
IDML, the reader would then fail with ENOENT.
---
 bfffs-core/src/tree/tree/mod.rs | 64 +++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/bfffs-core/src/tree/tree/mod.rs b/bfffs-core/src/tree/tree/mod.rs
index 97f81eb..fd0085f 100644
--- a/bfffs-core/src/tree/tree/mod.rs
+++ b/bfffs-core/src/tree/tree/mod.rs
@@ -1099,16 +1099,8 @@ impl<A, D, K, V> Tree<A, D, K, V>
     #[instrument(skip(self))]
     pub fn get(&self, k: K) -> impl Future<Output=Result<Option<V>>>
     {
-        let dml2 = self.dml.clone();
-        self.read()
-            .then(move |tree_guard| {
-                tree_guard.elem.rlock(&dml2)
-                     .and_then(move |guard| {
-                         drop(tree_guard);
-                         Tree::get_r(dml2, guard, k)
-
-                     })
-            }).in_current_span()
+        self.read_retry(move |dml, guard| Tree::get_r(dml, guard, k))
+            .in_current_span()
     }
 
     /// Lookup the value of key `k` in a node, which must already be locked.
@@ -1144,14 +1136,8 @@ impl<A, D, K, V> Tree<A, D, K, V>
               R: Clone + Debug + RangeBounds<T> + Send + 'static,
               T: Ord + Clone + Send + 'static
     {
-        let dml2 = self.dml.clone();
-        self.read()
-        .then(move |tree_guard| {
-            tree_guard.elem.rlock(&dml2)
-                 .and_then(move |g| {
-                     drop(tree_guard);
-                     Tree::get_range_r(dml2, g, None, range)
-                 })
+        self.read_retry(move |dml, guard| {
+            Tree::get_range_r(dml, guard, None, range.clone())
         }).in_current_span()
     }
 
@@ -1372,15 +1358,7 @@ impl<A, D, K, V> Tree<A, D, K, V>
     /// Return the highest valued key in the `Tree`
     #[instrument(skip(self))]
     pub fn last_key(&self) -> impl Future<Output=Result<Option<K>>> {
-        let dml2 = self.dml.clone();
-        self.read()
-            .then(move |tree_guard| {
-                tree_guard.elem.rlock(&dml2)
-                     .and_then(move |guard| {
-                         drop(tree_guard);
-                         Tree::last_key_r(dml2, guard)
-                     })
-            }).in_current_span()
+        self.read_retry(Tree::last_key_r).in_current_span()
     }
 
     /// Find the last key amongst a node (which must already be locked), and its
@@ -2096,6 +2074,38 @@ impl<A, D, K, V> Tree<A, D, K, V>
         self.root.read()
     }
 
+    /// Descend through the tree, beginning at the root.
+    ///
+    /// A reader excludes writers from an on-disk node only for as long as the
+    /// node stays in the cache.  If it gets evicted, then a writer may pop it
+    /// and its children, too.  So a reader that is descending through such a
+    /// node may find that its children no longer exist.  In that case, it must
+    /// start over from the root, where it will find their replacements.
+    fn read_retry<F, R>(&self, f: F)
+        -> impl Future<Output=Result<R>> + Send + use<F, R, A, D, K, V>
+        where F: Fn(Arc<D>, TreeReadGuard<A, K, V>)
+                  -> Pin<Box<dyn Future<Output=Result<R>> + Send>> + Send,
+              R: Send
+    {
+        /// ENOENT may also mean that the tree is damaged.  Don't try forever.
+        const MAX_RETRIES: usize = 16;
+
+        let root = self.root.clone();
+        let dml = self.dml.clone();
+        async move {
+            let mut retries = 0;
+            loop {
+                let tree_guard = root.read().await;
+                let guard = tree_guard.elem.rlock(&dml).await?;
+                drop(tree_guard);
+                match f(dml.clone(), guard).await {
+                    Err(Error::ENOENT) if retries < MAX_RETRIES => retries += 1,
+                    r => break r
+                }
+            }
+        }
+    }
+
     /// Remove and return the value at key `k`, if any.
     pub async fn remove(self: Arc<Self>, k: K, txg: TxgT, credit: Credit)
         -> Result<Option<V>>
-- 
2.43.0


From 878553953a841f5a49312ff569b28c562deb4ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:57 +0000
Subject: [PATCH 33/55] fix: exclude corrupt parity when reconstructing
 multi-stripe records

When considering combinations of disks that may hold corrupt data,
read_long_multi still trusted the parity chunks of the disks that it had
assumed to be bad.  So with more than one parity disk, multi-stripe reads
couldn't be recovered in many cases that read_long_one can handle.
---
 bfffs-core/src/raid/vdev_raid.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 1254e6b..8aa43a4 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -1317,11 +1317,13 @@ impl VdevRaid {
                     {
                         let disk = loc.disk as usize;
                         let args = args_per_disk[disk].as_ref().unwrap();
-                        if disk_erasures.contains(disk) && cid.is_data() {
+                        if disk_erasures.contains(disk) {
                             erasures.set(chunkpos, true);
-                            let mut dbm = sdbmi.next().unwrap();
-                            missing.push(dbm.as_mut_ptr());
-                            vdbm.push(dbm);
+                            if cid.is_data() {
+                                let mut dbm = sdbmi.next().unwrap();
+                                missing.push(dbm.as_mut_ptr());
+                                vdbm.push(dbm);
+                            }
                         } else {
                             let dbs = buffers[disk].as_mut().unwrap();
                             let mut db = dbs.try_const().unwrap();
-- 
2.43.0


From ee125f0c851d4a370f77d22de70d2172676b2aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:57 +0000
Subject: [PATCH 34/55] fix: don't panic when a spacemap is too corrupt to
 parse

Return EINTEGRITY, just like for a spacemap whose checksum mismatches.
---
 bfffs-core/src/cluster.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index 1384149..504a258 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -247,7 +247,9 @@ impl<'a> FreeSpaceMap {
         let oz_futs = FuturesUnordered::new();
         let mut zid: ZoneT = 0;
         for (i, db) in buf.into_chunks(BYTES_PER_LBA).enumerate() {
-            let sod = SpacemapOnDisk::deserialize(i as u64, &db).unwrap();
+            // If it can't even be parsed, then it must be corrupt
+            let sod = SpacemapOnDisk::deserialize(i as u64, &db)
+                .unwrap_or(Err(Error::EINTEGRITY));
             if let Err(e) = sod {
                 let fut = future::err(e);
                 return Box::pin(fut);
-- 
2.43.0


From 1bbea6f05e3ebc70ee8eb937716e7f3217b8f101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:57 +0000
Subject: [PATCH 35/55] fix: don't panic when the receiver of a block operation
 is gone

If one of several concurrent I/Os fails, then the future that combined them
gets dropped, including the receivers for the I/Os that are still running.
---
 bfffs-core/src/vdev_block.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/vdev_block.rs b/bfffs-core/src/vdev_block.rs
index 8435257..280f9b6 100644
--- a/bfffs-core/src/vdev_block.rs
+++ b/bfffs-core/src/vdev_block.rs
@@ -497,7 +497,7 @@ impl Inner {
         if self.remover.is_some() {
             // Abort the future immediately
             for sender in senders {
-                sender.send(Err(Error::ENXIO)).unwrap();
+                let _ = sender.send(Err(Error::ENXIO));
                 self.queue_depth -= 1;
             }
             return None;
@@ -522,7 +522,9 @@ impl Inner {
                 tokio::spawn( async move {
                     let r = fut.await;
                     for sender in senders{
-                        sender.send(r).unwrap();
+                        // The receiver may have lost interest, for example if
+                        // a sibling operation failed.
+                        let _ = sender.send(r);
                     }
                     inner.write().unwrap().queue_depth -= 1;
                     schfut.await
@@ -532,7 +534,7 @@ impl Inner {
                 // This normally doesn't happen, but it can happen on a
                 // heavily laden system or one with very fast storage.
                 for sender in senders {
-                    sender.send(r).unwrap();
+                    let _ = sender.send(r);
                 }
                 self.queue_depth -= 1;
             }
-- 
2.43.0


From 020d4f8bc1839ffde6d7b283c4a67f00a2aa0d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 36/55] fix: don't confuse a pool with another whose name it
 begins with

Controller::strip_pool_name took "testpoolx/a" for the dataset "x/a" of the
pool "testpool", and "testpoolx" for its dataset "x".
---
 bfffs-core/src/controller.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/controller.rs b/bfffs-core/src/controller.rs
index a10bbd1..42afba4 100644
--- a/bfffs-core/src/controller.rs
+++ b/bfffs-core/src/controller.rs
@@ -420,8 +420,9 @@ impl Controller {
     // Strip the pool name.  For now, only one pool is supported.
     fn strip_pool_name<'a>(&self, name: &'a str) -> Result<&'a str> {
         match name.strip_prefix(self.db.pool_name()) {
-            Some(s) => Ok(s.strip_prefix('/').unwrap_or(s)),
-            None => {
+            Some("") => Ok(""),
+            Some(s) if s.starts_with('/') => Ok(&s[1..]),
+            _ => {
                 tracing::debug!("pool name not provided");
                 Err(Error::ENOENT)
             },
-- 
2.43.0


From 5ded8c9f15e520254f463e63cc0171dff2576315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 37/55] fix: allow destroying a file system that is no longer
 mounted

Controller::new_fs ignores entries for file systems that have been dropped, but
destroy_fs returned EBUSY for them.
---
 bfffs-core/src/controller.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/controller.rs b/bfffs-core/src/controller.rs
index 42afba4..76f7f61 100644
--- a/bfffs-core/src/controller.rs
+++ b/bfffs-core/src/controller.rs
@@ -120,7 +120,9 @@ impl Controller {
         let (parent, tree_id) = self.db.lookup_fs(dsname).await?;
         match tree_id {
             Some(id) => {
-                if let Some(_fs) = guard.get(&id) {
+                // The entry outlives the file system, if it was dropped without
+                // unmount() being called.
+                if guard.get(&id).is_some_and(|fs| fs.strong_count() > 0) {
                     Err(Error::EBUSY)
                 } else {
                     self.db.destroy_fs(parent, id, dsname).await
-- 
2.43.0


From 845061337d247e4945a572967c56fa5afe5a8d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 38/55] fix: serialize creating and destroying file systems

Two concurrent create_fs calls could pick the same tree id, and panicked.  Two
concurrent destroy_fs calls for the same dataset panicked too, and one racing
with a create_fs could leave a child without a parent.
---
 bfffs-core/src/controller.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/controller.rs b/bfffs-core/src/controller.rs
index 76f7f61..1828422 100644
--- a/bfffs-core/src/controller.rs
+++ b/bfffs-core/src/controller.rs
@@ -91,6 +91,8 @@ impl Controller {
         -> Result<TreeID>
     {
         let fsname = self.strip_pool_name(name)?;
+        // Nobody else may create or destroy a file system in the meantime
+        let _guard = self.filesystems.write().await;
         let r = fsname.rsplit_once('/');
         if let Some((parent_name, dsname)) = r {
             let (_, parent) = self.db.lookup_fs(parent_name).await?;
@@ -116,7 +118,9 @@ impl Controller {
     pub async fn destroy_fs(&self, name: &str) -> Result<()>
     {
         let dsname = self.strip_pool_name(name)?;
-        let guard = self.filesystems.read().await;
+        // Nobody else may create, destroy, or mount a file system in the
+        // meantime
+        let guard = self.filesystems.write().await;
         let (parent, tree_id) = self.db.lookup_fs(dsname).await?;
         match tree_id {
             Some(id) => {
-- 
2.43.0


From f87c7e9126aacae73fdf789c06d2e2f90bde737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:39 +0000
Subject: [PATCH 39/55] fix: check whether a file system exists before creating
 it

Creating a pool's root file system for a second time succeeded, and created an
inaccessible tree.  Creating any other file system for a second time leaked the
root node of the new tree.
---
 bfffs-core/src/controller.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bfffs-core/src/controller.rs b/bfffs-core/src/controller.rs
index 1828422..d12b359 100644
--- a/bfffs-core/src/controller.rs
+++ b/bfffs-core/src/controller.rs
@@ -93,6 +93,12 @@ impl Controller {
         let fsname = self.strip_pool_name(name)?;
         // Nobody else may create or destroy a file system in the meantime
         let _guard = self.filesystems.write().await;
+        // Check this before writing anything: Database::create_fs doesn't
+        // delete the new tree's root node again, nor does it check whether the
+        // root file system exists.
+        if let (_, Some(_)) = self.db.lookup_fs(fsname).await? {
+            return Err(Error::EEXIST);
+        }
         let r = fsname.rsplit_once('/');
         if let Some((parent_name, dsname)) = r {
             let (_, parent) = self.db.lookup_fs(parent_name).await?;
-- 
2.43.0


From 02b62aac060af08a80ac75bb7ebdbe8bb619f98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:51 +0000
Subject: [PATCH 40/55] fix: reject file system names with empty components

Creating "pool/foo/" made a nameless child of "pool/foo", listed by its
parent's name, and "pool//foo" created "pool/foo".
---
 bfffs-core/src/controller.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bfffs-core/src/controller.rs b/bfffs-core/src/controller.rs
index d12b359..9964350 100644
--- a/bfffs-core/src/controller.rs
+++ b/bfffs-core/src/controller.rs
@@ -91,6 +91,10 @@ impl Controller {
         -> Result<TreeID>
     {
         let fsname = self.strip_pool_name(name)?;
+        if !fsname.is_empty() && fsname.split('/').any(str::is_empty) {
+            // Such a file system couldn't be told from its parent
+            return Err(Error::EINVAL);
+        }
         // Nobody else may create or destroy a file system in the meantime
         let _guard = self.filesystems.write().await;
         // Check this before writing anything: Database::create_fs doesn't
-- 
2.43.0


From 2f0cdf80f1d55b07e5cbd333095a838104c8b2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:13 +0000
Subject: [PATCH 41/55] fix: don't let the last zone extend past the end of the
 disk

The size of a disk isn't necessarily a multiple of its zone size.  Using all of
the last zone would panic, and erasing it could fail.
---
 bfffs-core/src/mirror.rs         |  4 +++-
 bfffs-core/src/raid/vdev_raid.rs | 13 ++++++++++---
 bfffs-core/src/vdev_block.rs     |  4 ++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/bfffs-core/src/mirror.rs b/bfffs-core/src/mirror.rs
index dc41c3e..17676e0 100644
--- a/bfffs-core/src/mirror.rs
+++ b/bfffs-core/src/mirror.rs
@@ -909,7 +909,9 @@ impl Vdev for Mirror {
     }
 
     fn zone_limits(&self, zone: ZoneT) -> (LbaT, LbaT) {
-        self.first_present_child().zone_limits(zone)
+        let (start, end) = self.first_present_child().zone_limits(zone);
+        // The disk's size might not be a multiple of its zone size
+        (start.min(self.size), end.min(self.size))
     }
 
     fn zones(&self) -> ZoneT {
diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 8aa43a4..f1ea9ff 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -2060,7 +2060,8 @@ impl Vdev for VdevRaid {
         //    the zone_limits call once.
         let (disk_lba_b, disk_lba_e) = self.first_healthy_child().zone_limits(zone);
         let disk_chunk_b = disk_lba_b.div_ceil(self.chunksize);
-        let disk_chunk_e = disk_lba_e / self.chunksize - 1; //inclusive endpoint
+        //inclusive endpoint
+        let disk_chunk_e = (disk_lba_e / self.chunksize).saturating_sub(1);
 
         let endpoint_lba = |boundary_chunk, is_highend| {
             // 2) Find the lowest and highest stripe
@@ -2102,8 +2103,14 @@ impl Vdev for VdevRaid {
         };
 
         // 5)
-        (endpoint_lba(disk_chunk_b, false),
-         endpoint_lba(disk_chunk_e, true))
+        let start = endpoint_lba(disk_chunk_b, false);
+        // The disk's last zone might be too short to contain any whole stripe
+        let end = if disk_chunk_e >= disk_chunk_b {
+            start.max(endpoint_lba(disk_chunk_e, true))
+        } else {
+            start
+        };
+        (start, end)
     }
 
     // The RAID transform does not increase the number of zones; it just makes
diff --git a/bfffs-core/src/vdev_block.rs b/bfffs-core/src/vdev_block.rs
index 280f9b6..cce6679 100644
--- a/bfffs-core/src/vdev_block.rs
+++ b/bfffs-core/src/vdev_block.rs
@@ -878,7 +878,7 @@ impl VdevBlock {
                 inner.leaf.lba2zone(start).unwrap());
             // The LBA must be the end of a zone
             debug_assert_eq!(start, limits.0);
-            debug_assert_eq!(end, limits.1 - 1);
+            debug_assert_eq!(end, limits.1.min(self.size) - 1);
         }
 
         self.new_fut(block_op, receiver, None)
@@ -903,7 +903,7 @@ impl VdevBlock {
             // The LBA must be the end of a zone to ensure that the operation
             // will be sorted correctly
             debug_assert_eq!(start, limits.0);
-            debug_assert_eq!(end, limits.1 - 1);
+            debug_assert_eq!(end, limits.1.min(self.size) - 1);
         }
 
         self.new_fut(block_op, receiver, None)
-- 
2.43.0


From 7eb3ab96ea64912459051fefbf501f4ad0b80332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:47 +0000
Subject: [PATCH 42/55] fix: attribute read errors to the right disks during
 reconstruction

VdevRaid::read_long_multi confused disks' positions among those that it read
from with their positions in the array.
---
 bfffs-core/src/raid/vdev_raid.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index f1ea9ff..6091bab 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -1273,13 +1273,15 @@ impl VdevRaid {
             let dbm = dbs.try_mut().unwrap();
             buffers[disk_idx] = Some(dbs);
             self.inner.children[disk_idx].read_at(dbm, disk_lba)
+                .map(move |r| (disk_idx, r))
         }).collect::<FuturesOrdered<_>>()
-        .collect::<Vec<Result<()>>>()
+        .collect::<Vec<(usize, Result<()>)>>()
         .map(move |dv| {
+            // NB: not every disk is necessarily part of the stripes of interest
             let mut failures = FixedBitSet::with_capacity(n);
-            for (i, v) in dv.iter().enumerate() {
+            for (disk_idx, v) in dv.iter() {
                 if v.is_err() {
-                    failures.set(i, true);
+                    failures.set(*disk_idx, true);
                 }
             }
             // Now iterate over all combinations of disk failures
-- 
2.43.0


From 032772b2885314bf364d5831cd942bbeba43846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:10 +0000
Subject: [PATCH 43/55] fix: wait for every disk to finish erasing a zone, even
 after an error

Otherwise the zone might be reused while some other disk is still erasing it,
destroying new data.
---
 bfffs-core/src/cluster.rs        | 6 ++++--
 bfffs-core/src/mirror.rs         | 6 ++++--
 bfffs-core/src/pool.rs           | 8 ++++----
 bfffs-core/src/raid/vdev_raid.rs | 6 ++++--
 4 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index 504a258..9c22e8c 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -13,6 +13,7 @@ use fixedbitset::FixedBitSet;
 use futures::{
     Future,
     FutureExt,
+    StreamExt,
     TryFutureExt,
     TryStreamExt,
     future,
@@ -1048,8 +1049,9 @@ impl Cluster {
             .into_iter()
             .map(|zid| self.vdev.erase_zone(zid))
             .collect::<FuturesUnordered<BoxVdevFut>>()
-            .try_collect::<Vec<_>>()
-            .map_ok(drop)
+            // Even after an error, wait for all of the erasures to finish
+            .collect::<Vec<Result<()>>>()
+            .map(|v| v.into_iter().collect())
     }
 
     /// Mark `length` LBAs beginning at LBA `lba` as unused, and possibly delete
diff --git a/bfffs-core/src/mirror.rs b/bfffs-core/src/mirror.rs
index 17676e0..8e76d5d 100644
--- a/bfffs-core/src/mirror.rs
+++ b/bfffs-core/src/mirror.rs
@@ -411,8 +411,10 @@ impl Mirror {
         let fut = self.children.iter().filter_map(|blockdev| {
             blockdev.erase_zone(start, end)
         }).collect::<FuturesUnordered<_>>()
-        .try_collect::<Vec<_>>()
-        .map_ok(drop);
+        // Even after an error, don't return while any child might still be
+        // erasing.  The zone might soon be reused.
+        .collect::<Vec<Result<()>>>()
+        .map(|v| v.into_iter().collect());
         Box::pin(fut)
     }
 
diff --git a/bfffs-core/src/pool.rs b/bfffs-core/src/pool.rs
index 28d927b..a414348 100644
--- a/bfffs-core/src/pool.rs
+++ b/bfffs-core/src/pool.rs
@@ -11,13 +11,12 @@ use divbuf::DivBufShared;
 use futures::{
     Future,
     FutureExt,
+    StreamExt,
     TryFutureExt,
     TryStreamExt,
     stream::FuturesUnordered,
     task::{Context, Poll}
 };
-#[cfg(not(test))]
-use futures::StreamExt;
 use pin_project::pin_project;
 #[cfg(test)] use mockall::automock;
 use speedy::{Readable, Writable};
@@ -209,8 +208,9 @@ impl Pool {
         self.clusters.iter()
         .map(|cl| cl.advance_transaction(txg))
         .collect::<FuturesUnordered<_>>()
-        .try_collect::<Vec<_>>()
-        .map_ok(drop)
+        // Even after an error, wait for all of the clusters
+        .collect::<Vec<Result<()>>>()
+        .map(|v| v.into_iter().collect())
     }
 
     /// Assert that the given zone was clean as of the given transaction
diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 6091bab..e6426ab 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -2144,8 +2144,10 @@ impl VdevRaidApi for VdevRaid {
         let fut = self.inner.children.iter().filter_map(|mirrordev| {
             mirrordev.erase_zone(start, end - 1)
         }).collect::<FuturesUnordered<_>>()
-        .try_collect::<Vec<_>>()
-        .map_ok(drop);
+        // Even after an error, don't return while any child might still be
+        // erasing.  The zone might soon be reused.
+        .collect::<Vec<Result<()>>>()
+        .map(|v| v.into_iter().collect());
         Box::pin(fut)
     }
 
-- 
2.43.0


From 72af4be57a4d071bc1ff213464a1c03af2924b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:24 +0000
Subject: [PATCH 44/55] fix: don't erase a zone whose erasure was cancelled

VdevBlock::remove drops unissued operations.  But VdevFile::erase_zone
started the erasure before its future was polled, so it would happen
anyway, possibly after the file descriptor had been closed.
---
 bfffs-core/src/vdev_file.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/bfffs-core/src/vdev_file.rs b/bfffs-core/src/vdev_file.rs
index 6752156..816a113 100644
--- a/bfffs-core/src/vdev_file.rs
+++ b/bfffs-core/src/vdev_file.rs
@@ -221,13 +221,17 @@ impl<'fd> VdevFile<'fd> {
             EraseMethod::None => Box::pin(future::ok(())),
             EraseMethod::Diocgdelete => {
                 let fd = self.fd.as_raw_fd();
-                let t = task::spawn_blocking(move || {
-                    let args = [off, len];
-                    unsafe {
-                        diocgdelete(fd, &args)
-                    }.map(drop)
-                }).map(std::result::Result::unwrap)
-                .map_err(Error::from);
+                // Don't start until polled.  VdevBlock may drop it unpolled.
+                let t = async move {
+                    task::spawn_blocking(move || {
+                        let args = [off, len];
+                        unsafe {
+                            diocgdelete(fd, &args)
+                        }.map(drop)
+                    }).await
+                    .unwrap()
+                    .map_err(Error::from)
+                };
                 Box::pin(t)
             },
             #[cfg(have_fspacectl)]
@@ -263,10 +267,14 @@ impl<'fd> VdevFile<'fd> {
                 use nix::fcntl::fspacectl_all;
 
                 let fd = self.fd.as_raw_fd();
-                let t = task::spawn_blocking(move || {
-                    fspacectl_all(fd, off, len)
-                }).map(std::result::Result::unwrap)
-                .map_err(Error::from);
+                // Don't start until polled.  VdevBlock may drop it unpolled.
+                let t = async move {
+                    task::spawn_blocking(move || {
+                        fspacectl_all(fd, off, len)
+                    }).await
+                    .unwrap()
+                    .map_err(Error::from)
+                };
                 Box::pin(t)
             }
         }
-- 
2.43.0


From e25768c699a3652e18452a8b7acfb27456c890d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:24 +0000
Subject: [PATCH 45/55] fix: survive EAGAIN from aio_fsync

VdevBlock polls an operation again after it returns EAGAIN.  VdevFile's
other operations tolerate that, but sync_all would panic.
---
 bfffs-core/src/vdev_file.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/bfffs-core/src/vdev_file.rs b/bfffs-core/src/vdev_file.rs
index 816a113..90376be 100644
--- a/bfffs-core/src/vdev_file.rs
+++ b/bfffs-core/src/vdev_file.rs
@@ -10,8 +10,6 @@ use atomic_enum::atomic_enum;
 use divbuf::DivBuf;
 use futures::{
     Future,
-    FutureExt,
-    TryFutureExt,
     future,
     task::{Context, Poll}
 };
@@ -458,10 +456,8 @@ impl<'fd> VdevFile<'fd> {
     /// storage.
     pub fn sync_all(&self) -> VdevFileFut<'_>
     {
-        let fut = AioFileExt::sync_all(&self.fd).unwrap()
-            .map_ok(drop)
-            .map_err(Error::from);
-        Box::pin(fut)
+        let fut = AioFileExt::sync_all(&self.fd).unwrap();
+        Box::pin(SyncAll { fut })
     }
 
     /// Asynchronously write a contiguous portion of the vdev.
@@ -586,6 +582,28 @@ impl Future for ReadAt<'_> {
     }
 }
 
+#[pin_project]
+struct SyncAll<F> {
+    #[pin]
+    fut: F,
+}
+
+impl<F, T> Future for SyncAll<F>
+    where F: Future<Output=io::Result<T>>
+{
+    type Output = Result<()>;
+
+    // Like the other operations, aio_fsync can return EAGAIN synchronously, and
+    // VdevBlock will poll again after that.
+    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
+        match self.project().fut.poll(cx) {
+            Poll::Ready(Ok(_aio_result)) => Poll::Ready(Ok(())),
+            Poll::Ready(Err(e)) => Poll::Ready(Err(Error::from(e))),
+            Poll::Pending => Poll::Pending
+        }
+    }
+}
+
 #[pin_project]
 struct WriteAt<'fd> {
     #[pin]
-- 
2.43.0


From 285e7059c513728bd6a541fe12c59807860d5e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:24 +0000
Subject: [PATCH 46/55] fix: don't miscount cancelled operations when removing
 a VdevBlock

An accumulated operation has several senders, but only counts once.
Also, don't panic if the device is removed while waiting for resources.
---
 bfffs-core/src/vdev_block.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/vdev_block.rs b/bfffs-core/src/vdev_block.rs
index cce6679..165cbf7 100644
--- a/bfffs-core/src/vdev_block.rs
+++ b/bfffs-core/src/vdev_block.rs
@@ -464,9 +464,16 @@ impl Inner {
                     // only thing we can do is sleep and try again later.
                     tracing::warn!("No disk resources available");
                     let duration = time::Duration::from_millis(10);
-                    let schfut = self.reschedule();
+                    let weakself = self.weakself.clone();
                     let delay_fut = tokio::time::sleep(duration)
-                    .then(move |_| schfut);
+                    .then(move |_| async move {
+                        // The VdevBlock may have been removed meanwhile, in
+                        // which case there's nothing left to issue.
+                        if let Some(inner) = weakself.upgrade() {
+                            let schfut = inner.read().unwrap().reschedule();
+                            schfut.await
+                        }
+                    });
                     tokio::spawn(delay_fut);
                 }
                 break;
@@ -498,8 +505,8 @@ impl Inner {
             // Abort the future immediately
             for sender in senders {
                 let _ = sender.send(Err(Error::ENXIO));
-                self.queue_depth -= 1;
             }
+            self.queue_depth -= 1;
             return None;
         }
 
-- 
2.43.0


From c224740706903417046d33e03f3d42891bf19ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:24 +0000
Subject: [PATCH 47/55] fix: retry if there are insufficient resources to read
 a label

Otherwise, an older label may be used instead.
---
 bfffs-core/src/vdev_block.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/vdev_block.rs b/bfffs-core/src/vdev_block.rs
index 165cbf7..5c09123 100644
--- a/bfffs-core/src/vdev_block.rs
+++ b/bfffs-core/src/vdev_block.rs
@@ -1229,8 +1229,19 @@ impl Manager {
             let offset = lba * BYTES_PER_LBA as u64;
             // TODO: figure out how to use mem::MaybeUninit with File::read_at
             let mut rbuf = vec![0; LABEL_SIZE];
-            match f.read_at(&mut rbuf[..], offset).unwrap().await {
-                Ok(_aio_result) => {
+            // Don't mistake a temporary lack of resources for an unreadable
+            // label, because the other label may be older.
+            let r0 = loop {
+                let r0 = f.read_at(&mut rbuf[..], offset).unwrap().await
+                    .map(drop)
+                    .map_err(Error::from);
+                if r0 != Err(Error::EAGAIN) {
+                    break r0;
+                }
+                tokio::time::sleep(time::Duration::from_millis(10)).await;
+            };
+            match r0 {
+                Ok(()) => {
                     match LabelReader::new(rbuf) {
                         Ok(mut lr) => {
                             let vblabel: Label = lr.deserialize().unwrap();
@@ -1244,7 +1255,7 @@ impl Manager {
                         Err(e) => r = r.or(Err(e))
                     }
                 },
-                Err(e) => r = r.or(Err(Error::from(e)))
+                Err(e) => r = r.or(Err(e))
             }
         }
         r
-- 
2.43.0


From b99069669ea112e6c0de599e4cbb48bd57c595c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:47 +0000
Subject: [PATCH 48/55] fix: don't sleep forever in WriteBack::borrow if credit
 is repaid meanwhile

A borrower checked for credit that became available before it locked the
list of sleepers, but only then set the flag that tells others that somebody
sleeps.  Whoever repaid between those two steps didn't awaken the new sleeper,
who would sleep until the next time that anybody repaid credit while the flag
was set; forever, if it was the last.  The credit that borrowers temporarily
deduct could have the same effect, by making awaken() believe that there
wasn't enough.
---
 bfffs-core/src/writeback/writeback.rs | 56 +++++++++++----------------
 1 file changed, 23 insertions(+), 33 deletions(-)

diff --git a/bfffs-core/src/writeback/writeback.rs b/bfffs-core/src/writeback/writeback.rs
index 938b7e7..9edcaa0 100644
--- a/bfffs-core/src/writeback/writeback.rs
+++ b/bfffs-core/src/writeback/writeback.rs
@@ -223,41 +223,31 @@ impl WriteBack {
         debug_assert!(self.capacity >= wants.try_into().unwrap());
         let iwants = isize::try_from(wants).unwrap();
 
-        loop {
-            // NB: To be strictly correct, we ought to use Acquire here in order
-            // to pick up any prior stores.  Using Relaxed means that we might
-            // overdraw the bank's credit supply.  And that's not so bad!
-            // Slightly exceeding the credit limit is permissible.
-            let old_supply = self.supply.fetch_sub(iwants, Relaxed);
-            if old_supply < iwants || (old_supply & 0x1 == 0x1) {
-                // We need to sleep if the supply is depleted.  For fairness'
-                // sake, we must also sleep if there are already any other
-                // sleepers, even if there is sufficient credit left for us.
-                // Otherwise a large write could be delayed indefinitely by
-                // smaller ones.
+        // NB: To be strictly correct, we ought to use Acquire here in order to
+        // pick up any prior stores.  Using Relaxed means that we might overdraw
+        // the bank's credit supply.  And that's not so bad!  Slightly exceeding
+        // the credit limit is permissible.
+        let old_supply = self.supply.fetch_sub(iwants, Relaxed);
+        if old_supply < iwants || (old_supply & 0x1 == 0x1) {
+            // We need to sleep if the supply is depleted.  For fairness' sake,
+            // we must also sleep if there are already any other sleepers, even
+            // if there is sufficient credit left for us.  Otherwise a large
+            // write could be delayed indefinitely by smaller ones.
+            let (tx, rx) = oneshot::channel::<()>();
+            {
                 let mut guard = self.sleepers.lock().unwrap();
-                // NB: to be strictly correct, we ought to use Acquire here in
-                // order to pick up any credit that's just been repayed.  But
-                // since the total supply will always be much greater than the
-                // maximum credit used by any one operation, the consequence of
-                // using Relaxed here is just that we may fail to use all of the
-                // memory we're allowed.  That's not so bad!  We won't sleep
-                // unboundedly.
-                let locked_supply = self.supply.fetch_add(iwants, Relaxed);
-                if locked_supply != old_supply - iwants {
-                    // Race! New credit became available before we locked the
-                    // sleepers.  We must try again.
-                    continue;
-                } else {
-                    let (tx, rx) = oneshot::channel::<()>();
-                    let sleeper = Sleeper { tx, wants: iwants };
-                    guard.push_back(sleeper);
-                    self.supply.fetch_or(1, Release);
-                    break rx.map(move |_| Credit(AtomicIsize::new(iwants)));
-                }
-            } else {
-                break future::ready(Credit(AtomicIsize::new(iwants)));
+                guard.push_back(Sleeper { tx, wants: iwants });
+                self.supply.fetch_or(1, Release);
             }
+            self.supply.fetch_add(iwants, Relaxed);
+            // Credit may have been repaid before its owner could see that
+            // anybody was sleeping, or somebody else may have failed to wake a
+            // sleeper just because of the credit that we temporarily deducted.
+            // So now that we're in line, check for available credit again.
+            self.awaken();
+            rx.map(move |_| Credit(AtomicIsize::new(iwants)))
+        } else {
+            future::ready(Credit(AtomicIsize::new(iwants)))
         }
     }
 
-- 
2.43.0


From c83ab03ea70ded86303e0872c7e5ab3295014861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:16 +0000
Subject: [PATCH 49/55] fix: don't skip entries of other hash buckets when
 resuming readdir

---
 bfffs-core/src/fs.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index 6f0e64c..c30db7c 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -1898,7 +1898,9 @@ impl Fs {
         }
 
         struct ReaddirStream {
-            /// Number of entries to skip from the first bucket
+            /// Offset of the FSKey where the listing begins
+            offset: u64,
+            /// Number of entries to skip from the bucket at `offset`, if any
             bucket_idx: u8,
             rq: RangeQuery<FSKey, FSKey, FSValue>,
             /// If the stream is currently positioned in the middle of a bucket,
@@ -1945,13 +1947,18 @@ impl Fs {
                             Poll::Ready(Some(Ok(de)))
                         },
                         FSValue::DirEntries(mut bucket) => {
-                            let returned = self.bucket_idx;
+                            // If the original bucket is gone, don't skip
+                            // entries from some other bucket.
+                            let returned = if k.offset() == self.offset {
+                                self.bucket_idx
+                            } else {
+                                0
+                            };
                             for _ in 0..returned {
                                 // Ignore errors.  They indicate that the bucket
                                 // has shrunk since the Cursor was created
                                 let _ = bucket.pop();
                             }
-                            self.bucket_idx = 0;
                             if !bucket.is_empty() {
                                 self.bucketing = Some(Bucketing {
                                     bucket,
@@ -1975,11 +1982,11 @@ impl Fs {
         let ino = fd.ino;
         self.db.fsreads(self.tree, move |dataset| {
             let cursor = Cursor::from(soffs);
-            let offs = cursor.offset();
-            let rq = dataset.range(FSKey::dirent_range(ino, offs));
+            let offset = cursor.offset();
+            let rq = dataset.range(FSKey::dirent_range(ino, offset));
             let bucketing = None;
             let bucket_idx = cursor.bucket_idx();
-            ReaddirStream{bucket_idx, bucketing, rq}
+            ReaddirStream{offset, bucket_idx, bucketing, rq}
         }).map_err(Error::into)
     }
 
-- 
2.43.0


From 3035ded7109a7d833ef12b789f3a7c69a13a1d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:34 +0000
Subject: [PATCH 50/55] fix: report the FUSE block count in units of 512 bytes

---
 bfffs/src/bin/bfffsd/fs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfffs/src/bin/bfffsd/fs.rs b/bfffs/src/bin/bfffsd/fs.rs
index 9ef0d88..71b0467 100644
--- a/bfffs/src/bin/bfffsd/fs.rs
+++ b/bfffs/src/bin/bfffsd/fs.rs
@@ -153,7 +153,7 @@ impl FuseFs {
                 let reply_attr = FileAttr {
                     ino: attr.ino,
                     size: attr.size,
-                    blocks: attr.bytes << 9,
+                    blocks: attr.bytes.div_ceil(512),
                     atime: Timestamp::new(attr.atime.sec, attr.atime.nsec),
                     mtime: Timestamp::new(attr.mtime.sec, attr.mtime.nsec),
                     ctime: Timestamp::new(attr.ctime.sec, attr.ctime.nsec),
-- 
2.43.0


From 7be603066c76b363d11ef427e6e45d86ae398bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:34 +0000
Subject: [PATCH 51/55] fix: don't panic in FUSE_LOOKUP if another lookup
 cached the inode or name

---
 bfffs/src/bin/bfffsd/fs.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/bfffs/src/bin/bfffsd/fs.rs b/bfffs/src/bin/bfffsd/fs.rs
index 71b0467..7b6584f 100644
--- a/bfffs/src/bin/bfffsd/fs.rs
+++ b/bfffs/src/bin/bfffsd/fs.rs
@@ -100,13 +100,12 @@ impl FuseFs {
         let name_key = (parent_ino, name.to_owned());
         let old_ino = self.names.lock().unwrap().insert(name_key, fd.ino());
         if let Some(oino) = old_ino {
-            // XXX Can reach this panic after a FORGET when NFS looks up "."
-            panic!(
-                "Create of an existing file: {}/{:?} was {} now {}",
-                parent_ino,
-                name,
+            // The name may still be cached after a FORGET, when the NFS server
+            // looks up ".".
+            assert_eq!(
                 oino,
-                fd.ino()
+                fd.ino(),
+                "Create of an existing file: {parent_ino}/{name:?}"
             );
         }
         let mut files_guard = self.files.lock().unwrap();
@@ -529,12 +528,18 @@ impl Filesystem for FuseFs {
                                     match self.do_getattr(&fd.handle()).await {
                                         Ok(file_attr) => {
                                             let ino = fd.ino();
-                                            let mut g =
-                                                self.files.lock().unwrap();
-                                            assert!(
-                                                g.insert(ino, fd).is_none(),
-                                                "Inode number reuse detected"
-                                            );
+                                            // The inode may have been cached
+                                            // meanwhile, by a lookup of
+                                            // another link or of "."
+                                            self.files
+                                                .lock()
+                                                .unwrap()
+                                                .entry(ino)
+                                                .and_modify(|ofd| {
+                                                    ofd.lookup_count +=
+                                                        fd.lookup_count
+                                                })
+                                                .or_insert(fd);
                                             Ok(file_attr)
                                         }
                                         Err(e) => {
-- 
2.43.0


From 9403ecd2e35a6b04506a630c6960ee8326317a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:51 +0000
Subject: [PATCH 52/55] fix: NFS-style lookups of ".." after a rename, or with
 an uncached parent

---
 bfffs/src/bin/bfffsd/fs.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bfffs/src/bin/bfffsd/fs.rs b/bfffs/src/bin/bfffsd/fs.rs
index 7b6584f..689c0cb 100644
--- a/bfffs/src/bin/bfffsd/fs.rs
+++ b/bfffs/src/bin/bfffsd/fs.rs
@@ -473,7 +473,7 @@ impl Filesystem for FuseFs {
         parent: u64,
         name: &OsStr,
     ) -> fuse3::Result<ReplyEntry> {
-        let (oparent_fd, grandparent_fd, oino) = {
+        let (oparent_fd, mut grandparent_fd, oino) = {
             let files_guard = self.files.lock().unwrap();
             let oparent_fd = files_guard.get(&parent);
             if oparent_fd.is_none() {
@@ -494,6 +494,13 @@ impl Filesystem for FuseFs {
             let oino = names_guard.get(&(parent, name.to_owned())).cloned();
             (oparent_fd.map(FileDataMut::handle), grandparent_fd, oino)
         };
+        if name == r".." && grandparent_fd.is_none() {
+            // An NFS-style lookup of "..", when the parent of `parent` isn't
+            // cached either
+            if let Some(gino) = oparent_fd.as_ref().and_then(FileData::parent) {
+                grandparent_fd = Some(self.fs.ilookup(gino).await?.handle());
+            }
+        }
         match (oparent_fd, oino) {
             (Some(parent_fd), Some(ino)) => {
                 let ofd = self
@@ -934,6 +941,8 @@ impl Filesystem for FuseFs {
                     // And cache it in the new location
                     names_guard.insert(newname_key, cache_ino);
                 }
+                // Its ".." changes, too
+                self.uncache_name(ino, OsStr::new(".."));
                 // Reparent the moved file
                 if let Some(fd) = self.files.lock().unwrap().get_mut(&ino) {
                     fd.reparent(newparent);
-- 
2.43.0


From 1e5d712e6e88e1c3f29cb050f43c257e6e437cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:02 +0000
Subject: [PATCH 53/55] fix: don't panic in FUSE_RENAME if an ancestor of the
 destination isn't cached

---
 bfffs/src/bin/bfffsd/fs.rs | 43 +++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/bfffs/src/bin/bfffsd/fs.rs b/bfffs/src/bin/bfffsd/fs.rs
index 689c0cb..3f57b94 100644
--- a/bfffs/src/bin/bfffsd/fs.rs
+++ b/bfffs/src/bin/bfffsd/fs.rs
@@ -894,35 +894,34 @@ impl Filesystem for FuseFs {
                 .handle();
             let newname_key = (newparent, newname.to_owned());
 
-            // Dirloop check
             let src_fd = files_guard
                 .get(&src_ino)
                 .expect("rename before lookup or after forget of source")
                 .handle();
-            let mut fd = files_guard
-                .get(&newparent)
-                .expect("Uncached destination directory");
-            loop {
-                match fd.parent() {
-                    None => {
-                        // Root directory, or not a directory
-                        break;
-                    }
-                    Some(ino) if src_ino == ino => {
-                        // Dirloop detected!
-                        return Err(libc::EINVAL.into());
-                    }
-                    // Keep recursing
-                    _ => {
-                        fd = files_guard
-                            .get(&fd.parent().unwrap())
-                            .expect("Uncached parent directory");
-                    }
-                }
-            }
             (parent_fd, newparent_fd, newname_key, src_fd)
         };
 
+        // Dirloop check
+        let mut oancestor = newparent_fd.parent();
+        while let Some(ancestor) = oancestor {
+            if ancestor == src_ino {
+                // Dirloop detected!
+                return Err(libc::EINVAL.into());
+            }
+            let cached = self
+                .files
+                .lock()
+                .unwrap()
+                .get(&ancestor)
+                .map(FileDataMut::parent);
+            oancestor = match cached {
+                Some(oparent) => oparent,
+                // The NFS server may find a directory without ever looking up
+                // its ancestors
+                None => self.fs.ilookup(ancestor).await?.parent(),
+            };
+        }
+
         match self
             .fs
             .rename(&parent_fd, &src_fd, name, &newparent_fd, new_ino, newname)
-- 
2.43.0


From a0a0816c1fce2cf2f8d1d1167596b43487149a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:00 +0000
Subject: [PATCH 54/55] fix: PRIME-S arithmetic overflowed with many disks

The depth of a repetition, stripe numbers, and offsets were i16, which is not
enough for layouts of more than about 180 disks.
---
 bfffs-core/src/raid/prime_s.rs | 43 +++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/bfffs-core/src/raid/prime_s.rs b/bfffs-core/src/raid/prime_s.rs
index b9edf3d..e63f233 100644
--- a/bfffs-core/src/raid/prime_s.rs
+++ b/bfffs-core/src/raid/prime_s.rs
@@ -81,7 +81,7 @@ struct ChunklocInt {
     /// Repetition of the layout
     r: u64,
     /// Stripe within its repetition.  Valid range is [0, n * (n-1))
-    s: i16,
+    s: i32,
     /// Stride.  Valid range is [0, n]
     y: i16,
     /// Iteration.  Valid range is is [0, n-1)
@@ -151,7 +151,7 @@ pub struct PrimeS {
     /// Number of stripes in one repetition.  Valid range is [1, 46010]
     stripes: u16,
     /// Number of rows in a single repetition.  Valid range is [1, 46010]
-    depth: i16
+    depth: u16
 }
 
 impl PrimeS {
@@ -170,7 +170,7 @@ impl PrimeS {
         assert!(num_disks <= 215);
         assert!(disks_per_stripe > 1 && disks_per_stripe <= num_disks);
         assert!(redundancy > 0 && redundancy < disks_per_stripe);
-        let depth = disks_per_stripe * (num_disks - 1);
+        let depth = disks_per_stripe as u16 * (num_disks as u16 - 1);
         let disks_per_stripe = disks_per_stripe as u8;
         let redundancy = redundancy as u8;
         let m = disks_per_stripe - redundancy;
@@ -192,10 +192,9 @@ impl PrimeS {
         let (r, z) = self.id2rep_and_iter(chunkid);
         // The stripe
         let s = a / i32::from(self.m);
-        debug_assert!(s <= i32::from(i16::MAX));
         // The stride
         let y = (z.rem_euclid(i16::from(self.n - 1))) + 1;
-        ChunklocInt{a, r, s: s as i16, y, z}
+        ChunklocInt{a, r, s, y, z}
     }
 
     /// Return the repetition and iteration numbers where a given Chunk is
@@ -222,7 +221,7 @@ impl PrimeS {
                                disk: i16) -> i32 {
         // We must loop to calculate the offset.  That's PRIME-S's disadvantage
         // vis-a-vis PRIME
-        let s = i32::from(cli.s);
+        let s = cli.s;
         let y_inv = i32::from(invmod(cli.y, i16::from(self.n)));
         // Contribution to offset from data chunks in this repetition
         let o0 = (s * i32::from(self.m) + b) / i32::from(self.n);
@@ -246,10 +245,10 @@ impl PrimeS {
     /// - `a`:      Index of data chunk within its repetition
     /// - `s`:      Stripe within its repetition
     /// - `m`:      Number of data disks per stripe
-    fn offset_within_stripe(id: ChunkId, a: i32, s: i16, m: u8) -> u8
+    fn offset_within_stripe(id: ChunkId, a: i32, s: i32, m: u8) -> u8
     {
         let b = match id {
-            ChunkId::Data(_) => a - i32::from(s * i16::from(m)),
+            ChunkId::Data(_) => a - s * i32::from(m),
             ChunkId::Parity(_, i) => i32::from(m) + i32::from(i)
         };
         debug_assert!(b < i32::from(u8::MAX));
@@ -279,7 +278,7 @@ impl Locator for PrimeS {
         let b = PrimeS::offset_within_stripe(chunkid, cli.a, cli.s, self.m);
         let b = i32::from(b);
         debug_assert!(b < i32::from(self.k));
-        let s = i32::from(cli.s);
+        let s = cli.s;
         let m = i32::from(self.m);
         let y = i32::from(cli.y);
         let disk = ((s * m + b) * y).rem_euclid(i32::from(self.n));
@@ -326,9 +325,9 @@ impl Locator for PrimeS {
         // stripe
         let s = stripes.ones()
             .nth(offset_in_iter as usize)
-            .unwrap() as i16 + i16::from(self.n) * z;
+            .unwrap() as i32 + i32::from(self.n) * i32::from(z);
         // position of stripe unit within stripe
-        let b = (disk * y_inv - i32::from(s) * i32::from(self.m))
+        let b = (disk * y_inv - s * i32::from(self.m))
             .rem_euclid(i32::from(self.n)) as u8;
         // number of data chunks preceding this repetition
         let o = r * self.datachunks();
@@ -365,14 +364,14 @@ impl Locator for PrimeS {
 pub struct PrimeSIter {
     a: i32,             // Index of a data chunk within its repetition
     f: u8,              // Number of parity disks per stripe
-    depth: i16,         // Number of rows in a single repetition
+    depth: u16,         // Number of rows in a single repetition
     end: ChunkId,       // Id of the first chunk beyond the end
     id: ChunkId,        // Id of next chunk
     m: u8,              // Number of data chunks per stripe
     n: u8,              // Number of disks in the layout
-    o: Vec<i16>,        // Offsets within an iteration for each disk
+    o: Vec<i32>,        // Offsets within an iteration for each disk
     r: u64,             // Repetition number
-    stripe: i16,        // Stripe within its repetition
+    stripe: i32,        // Stripe within its repetition
     stripe_iter: u8,    // Stripe within its iteration
     y: u8,              // Stride
     z: u8,              // Iteration number
@@ -387,14 +386,14 @@ impl PrimeSIter {
     /// iterator should return.
     fn new(layout: &PrimeS, start: ChunkId, end: ChunkId) -> Self {
         let cli = layout.id2loc_int(&start);
-        let s_z = cli.s.rem_euclid(i16::from(layout.stripes_per_iteration()));
+        let s_z = cli.s.rem_euclid(i32::from(layout.stripes_per_iteration()));
         let b = PrimeS::offset_within_stripe(start, cli.a, cli.s, layout.m);
         debug_assert!(b < layout.k);
         // Start with offset contributions from previous iterations
-        let o0 = i16::from(layout.k) * cli.z;
-        let mut o: Vec<i16> = vec![o0; layout.n as usize];
-        for s in 0..=i32::from(s_z) {
-            let end = if s == i32::from(s_z) { b } else { layout.k };
+        let o0 = i32::from(layout.k) * i32::from(cli.z);
+        let mut o: Vec<i32> = vec![o0; layout.n as usize];
+        for s in 0..=s_z {
+            let end = if s == s_z { b } else { layout.k };
             // Add contributions from other chunks in this iteration
             for b in 0..end {
                 let disk = ((s * i32::from(layout.m) + i32::from(b))
@@ -421,7 +420,7 @@ impl PrimeSIter {
     fn next_elem(&self) -> (i16, u64) {
         let b = PrimeS::offset_within_stripe(self.id, self.a, self.stripe,
                                              self.m);
-        let disk = ((i32::from(self.stripe) * i32::from(self.m) + i32::from(b))
+        let disk = ((self.stripe * i32::from(self.m) + i32::from(b))
                     * i32::from(self.y)).rem_euclid(i32::from(self.n));
         let disk = disk as i16;
         let o3 = self.r * self.depth as u64;
@@ -462,11 +461,11 @@ impl Iterator for PrimeSIter {
         self.id = match self.id {
         ChunkId::Data(i) => {
             self.o[disk as usize] += 1;
-            if self.a < i32::from(self.stripe + 1) * i32::from(self.m) - 1 {
+            if self.a < (self.stripe + 1) * i32::from(self.m) - 1 {
                 self.a += 1;
                 ChunkId::Data(i + 1)
             } else {
-                self.a = i32::from(self.stripe) * i32::from(self.m);
+                self.a = self.stripe * i32::from(self.m);
                 ChunkId::Parity(i - u64::from(self.m - 1), 0)
             }
         },
-- 
2.43.0


From 18446ec473a1ebc802c4b41ff51fdd07d53a86d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:15 +0000
Subject: [PATCH 55/55] fix: an open range with equal bounds is empty

Tree::range_delete relies on it, and panicked if both ends of the range were
excluded and equal.
---
 bfffs-core/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfffs-core/src/util.rs b/bfffs-core/src/util.rs
index 5278279..4637630 100644
--- a/bfffs-core/src/util.rs
+++ b/bfffs-core/src/util.rs
@@ -158,7 +158,7 @@ pub trait RangeBoundsExt<T>: RangeBounds<T>
             (Bound::Included(s), Bound::Included(e)) => s > e,
             (Bound::Included(s), Bound::Excluded(e)) => s >= e,
             (Bound::Excluded(s), Bound::Included(e)) => s >= e,
-            (Bound::Excluded(s), Bound::Excluded(e)) => s > e,
+            (Bound::Excluded(s), Bound::Excluded(e)) => s >= e,
             _ => false
         }
     }
-- 
2.43.0

