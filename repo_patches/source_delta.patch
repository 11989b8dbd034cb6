From 144ef623940fc21e9d7b7343444f80aeb54ca0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:48 +0000
Subject: [PATCH 01/12] fix: store only the volumes that are present in a
 backup set

The volume paths were kept in a vector indexed by the volume number read
from the file name: a large number overflowed or exhausted the memory, and
the number of volumes was off by one, because volumes count from one.
---
 src/collections/mod.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/collections/mod.rs b/src/collections/mod.rs
index 2e8ad86..b6a5c7c 100644
--- a/src/collections/mod.rs
+++ b/src/collections/mod.rs
@@ -5,6 +5,7 @@
 
 mod file_naming;
 
+use std::collections::BTreeMap;
 use std::fmt::{Display, Error, Formatter};
 use std::path::Path;
 use std::slice;
@@ -56,7 +57,7 @@ pub struct BackupSet {
     encrypted: bool,
     partial: bool,
     manifest_path: String,
-    volumes_paths: Vec<Option<String>>,
+    volumes_paths: BTreeMap<usize, String>,
 }
 
 /// Information about a signature file.
@@ -142,9 +143,7 @@ impl BackupSet {
 
     /// Returns the path of the given volume.
     pub fn volume_path(&self, volume_num: usize) -> Option<&str> {
-        self.volumes_paths
-            .get(volume_num)
-            .and_then(|v| v.as_ref().map(AsRef::as_ref))
+        self.volumes_paths.get(&volume_num).map(AsRef::as_ref)
     }
 
     /// Returns the number of volumes in the set.
@@ -238,7 +237,7 @@ impl BackupSet {
             compressed: fname.info.compressed,
             encrypted: fname.info.encrypted,
             manifest_path: String::new(),
-            volumes_paths: Vec::new(),
+            volumes_paths: BTreeMap::new(),
         };
         result.add_filename(fname);
         result
@@ -259,14 +258,7 @@ impl BackupSet {
             // update info
             match pr.tp {
                 fnm::Type::Full { volume_number, .. } | fnm::Type::Inc { volume_number, .. } => {
-                    // resize volumes if necessary
-                    if volume_number >= self.volumes_paths.len() {
-                        self.volumes_paths.reserve(volume_number + 1);
-                        for _ in self.volumes_paths.len()..volume_number + 1 {
-                            self.volumes_paths.push(None);
-                        }
-                    }
-                    self.volumes_paths[volume_number] = Some(fname.to_owned());
+                    self.volumes_paths.insert(volume_number, fname.to_owned());
                 }
                 fnm::Type::FullManifest { .. } | fnm::Type::IncManifest { .. } => {
                     self.manifest_path = fname.to_owned();
-- 
2.43.0


From bc7aa05427a6792c676ba374bf1cf37721af1b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 02/12] fix: make the flags of a backup set independent of the
 listing order

Whether a set is compressed, encrypted or partial was taken from the first
listed file only: a set whose manifest came first was not compressed, even
if all its volumes were.
---
 src/collections/mod.rs | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/collections/mod.rs b/src/collections/mod.rs
index b6a5c7c..daf406c 100644
--- a/src/collections/mod.rs
+++ b/src/collections/mod.rs
@@ -220,22 +220,12 @@ impl BackupSet {
                 end_time: end_time,
             },
         };
-        // set partial
-        let partial = {
-            match fname.info.tp {
-                fnm::Type::FullManifest { partial, .. }
-                | fnm::Type::IncManifest { partial, .. }
-                | fnm::Type::FullSig { partial, .. }
-                | fnm::Type::NewSig { partial, .. } => partial,
-                _ => false,
-            }
-        };
 
         let mut result = BackupSet {
             tp: tp,
-            partial: partial,
-            compressed: fname.info.compressed,
-            encrypted: fname.info.encrypted,
+            partial: false,
+            compressed: false,
+            encrypted: false,
             manifest_path: String::new(),
             volumes_paths: BTreeMap::new(),
         };
@@ -246,8 +236,7 @@ impl BackupSet {
     /// Adds a filename to given set. Return true if it fits.
     ///
     /// The filename will match the given set if it has the right
-    /// times and is of the right type. The information will be set
-    /// from the first filename given.
+    /// times and is of the right type.
     fn add_filename(&mut self, file_info: &FileNameInfo) -> bool {
         let pr = &file_info.info;
         let fname = file_info.file_name;
@@ -265,16 +254,20 @@ impl BackupSet {
                 }
                 _ => (),
             }
-            self.fix_encrypted(pr.encrypted);
+            // any file can determine the flags, because only some of the files in a set are
+            // compressed, and the files can be listed in any order
+            self.compressed |= pr.compressed;
+            self.encrypted |= pr.encrypted;
+            self.partial |= match pr.tp {
+                fnm::Type::FullManifest { partial, .. }
+                | fnm::Type::IncManifest { partial, .. }
+                | fnm::Type::FullSig { partial, .. }
+                | fnm::Type::NewSig { partial, .. } => partial,
+                _ => false,
+            };
             true
         }
     }
-
-    fn fix_encrypted(&mut self, pr_encrypted: bool) {
-        if self.encrypted != pr_encrypted && self.partial && pr_encrypted {
-            self.encrypted = pr_encrypted;
-        }
-    }
 }
 
 impl Display for BackupSet {
-- 
2.43.0


From 1b21dce37f4b8f263fc84d51ae7eb20091992fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:28 +0000
Subject: [PATCH 03/12] fix: search the volumes of a path by comparing path
 components

Duplicity sorts the paths by components, and RawPath does the same, but the
search compared the raw bytes, so it missed volumes when a path contained
a byte smaller than the separator.
---
 src/manifest.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/manifest.rs b/src/manifest.rs
index 48276eb..09dfa8c 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -103,10 +103,12 @@ impl Manifest {
     /// * duplicity supports non-UTF8 paths;
     /// * under Windows `Path` is not allowed to contain non-UTF8 sequences.
     pub fn first_volume_of_path(&self, path: &[u8]) -> Option<usize> {
+        // volumes are sorted by path components, not by bytes
+        let path = RawPath::from_bytes(path.to_owned());
         self.volumes
-            .binary_search_by(|v| match path.cmp(v.start_path_bytes()) {
+            .binary_search_by(|v| match path.cmp(&v.start_path.path) {
                 Ordering::Less => Ordering::Greater,
-                Ordering::Greater => match path.cmp(v.end_path_bytes()) {
+                Ordering::Greater => match path.cmp(&v.end_path.path) {
                     Ordering::Less | Ordering::Equal => Ordering::Equal,
                     Ordering::Greater => Ordering::Less,
                 },
@@ -126,10 +128,12 @@ impl Manifest {
     /// * duplicity supports non-UTF8 paths;
     /// * under Windows `Path` is not allowed to contain non-UTF8 sequences.
     pub fn last_volume_of_path(&self, path: &[u8]) -> Option<usize> {
+        // volumes are sorted by path components, not by bytes
+        let path = RawPath::from_bytes(path.to_owned());
         self.volumes
-            .binary_search_by(|v| match path.cmp(v.end_path_bytes()) {
+            .binary_search_by(|v| match path.cmp(&v.end_path.path) {
                 Ordering::Greater => Ordering::Less,
-                Ordering::Less => match path.cmp(v.start_path_bytes()) {
+                Ordering::Less => match path.cmp(&v.start_path.path) {
                     Ordering::Greater | Ordering::Equal => Ordering::Equal,
                     Ordering::Less => Ordering::Greater,
                 },
-- 
2.43.0


From 8761283e04382b353d3a218a182004526b36f925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 04/12] fix: support chains of more than 254 signatures

The snapshots of a signature chain were counted with a u8: the 256th
signature overflowed the counter, and the 256th snapshot was unreachable.
---
 src/signatures.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 152c5ce..e949305 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -24,7 +24,7 @@ use crate::timefmt::TimeDisplay;
 /// The information is reused among different snapshots if possible.
 #[derive(Debug)]
 pub struct Chain {
-    num_snapshots: u8,
+    num_snapshots: usize,
     files: Vec<PathSnapshots>,
     ug_map: UserGroupMap,
 }
@@ -33,20 +33,20 @@ pub struct Chain {
 #[derive(Debug)]
 pub struct Snapshots<'a> {
     chain: &'a Chain,
-    snapshot_id: u8,
+    snapshot_id: usize,
 }
 
 /// A signature for a backup snapshot.
 #[derive(Debug)]
 pub struct Snapshot<'a> {
     chain: &'a Chain,
-    index: u8,
+    index: usize,
 }
 
 /// Files and directories inside a backup snapshot.
 #[derive(Clone)]
 pub struct SnapshotEntries<'a> {
-    index: u8,
+    index: usize,
     iter: slice::Iter<'a, PathSnapshots>,
     chain: &'a Chain,
 }
@@ -105,7 +105,7 @@ struct PathSnapshot {
     // info are None if the snapshot has deleted this path
     info: Option<PathInfo>,
     // the index of the snapshot in the chain
-    index: u8,
+    index: usize,
 }
 
 #[derive(Debug)]
@@ -187,7 +187,7 @@ impl Chain {
     fn add_sigtar_to_snapshots<R: Read>(
         &mut self,
         mut tar: tar::Archive<R>,
-        snapshot_id: u8,
+        snapshot_id: usize,
     ) -> io::Result<()> {
         let mut new_files: Vec<PathSnapshots> = Vec::new();
         {
@@ -297,13 +297,8 @@ impl<'a> Iterator for Snapshots<'a> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Snapshot<'a>> {
-        use std::u8;
-
-        // check for u8 overflow to be fool-proof
-        if n + self.snapshot_id as usize >= u8::MAX as usize {
-            return None;
-        }
-        let id = self.snapshot_id + n as u8;
+        // check for overflow to be fool-proof
+        let id = self.snapshot_id.saturating_add(n);
         if id < self.chain.num_snapshots {
             self.snapshot_id = id + 1;
             Some(Snapshot {
@@ -318,7 +313,7 @@ impl<'a> Iterator for Snapshots<'a> {
 
 impl<'a> ExactSizeIterator for Snapshots<'a> {
     fn len(&self) -> usize {
-        (self.chain.num_snapshots - self.snapshot_id) as usize
+        self.chain.num_snapshots - self.snapshot_id
     }
 }
 
-- 
2.43.0


From d06ce005ab514b788335cb90fc6d33404b863d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 05/12] fix: make the snapshots iterator consistent with its
 length

Skipping past the end with nth did not exhaust the iterator, and the size
hint was not exact, as ExactSizeIterator requires.
---
 src/signatures.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/signatures.rs b/src/signatures.rs
index e949305..4b70be9 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -306,9 +306,16 @@ impl<'a> Iterator for Snapshots<'a> {
                 index: id,
             })
         } else {
+            // all the remaining snapshots have been skipped
+            self.snapshot_id = self.chain.num_snapshots;
             None
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a> ExactSizeIterator for Snapshots<'a> {
-- 
2.43.0


From 40677cb6ec0dd0523a3d317bc1e039f24e7a645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 06/12] fix: check the arithmetic of the size hint of a
 signature

A malformed signature overflowed or underflowed the computation; the header
of a signature is 12 bytes, not 8.
---
 src/signatures.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 4b70be9..548f991 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -623,12 +623,12 @@ fn compute_size_hint_signature<R: Read>(file: &mut tar::Entry<R>) -> Option<(usi
         // read the header
         let file_block_len_bytes = file.read_u32::<BigEndian>().ok()? as usize;
         let ss_len = file.read_u32::<BigEndian>().ok()? as usize;
-        let sign_block_len_bytes = 4 + ss_len;
+        let sign_block_len_bytes = ss_len.checked_add(4)?;
         // the remaining part of the file are blocks
         let file_size = file.header().size().ok()? as usize;
-        let num_blocks = (file_size - 8) / sign_block_len_bytes;
+        let num_blocks = file_size.checked_sub(12)? / sign_block_len_bytes;
 
-        let max_file_len = file_block_len_bytes * num_blocks;
+        let max_file_len = file_block_len_bytes.checked_mul(num_blocks)?;
         if max_file_len > file_block_len_bytes {
             Some((max_file_len - file_block_len_bytes + 1, max_file_len))
         } else {
-- 
2.43.0


From 985d97339c082984cb23773e7c4a59838966e76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 07/12] fix: merge the signatures by comparing path components

The known paths are sorted by components, as duplicity does, but they were
matched by comparing the raw bytes: a change of an already known path was
missed when its name contained a byte smaller than the separator.
---
 src/signatures.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 548f991..90eaa2f 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -200,6 +200,7 @@ impl Chain {
                 let size_hint = compute_size_hint(&mut tarfile);
                 let path = &tarfile.path_bytes();
                 let (difftype, path) = unwrap_opt_or_continue!(parse_snapshot_path(&path));
+                let path = RawPath::from_bytes(path.to_owned());
                 let info = match difftype {
                     DiffType::Signature | DiffType::Snapshot => {
                         let header = tarfile.header();
@@ -236,11 +237,11 @@ impl Chain {
                     loop {
                         let mut found = false;
                         if let Some(path_snapshots) = old_snapshots.peek() {
-                            let old_path = path_snapshots.path.as_bytes();
-                            if old_path == path {
+                            let old_path = &path_snapshots.path;
+                            if *old_path == path {
                                 // this path is already present in old snapshots: update them
                                 found = true;
-                            } else if old_path > path {
+                            } else if *old_path > path {
                                 // we've already reached the first item next to the current path
                                 // so, the path is not present in old snapshots
                                 break;
@@ -263,7 +264,7 @@ impl Chain {
                 } else {
                     // the path is not present in the old snapshots: add to new list
                     new_files.push(PathSnapshots {
-                        path: RawPath::from_bytes(path.to_owned()),
+                        path: path,
                         snapshots: vec![new_snapshot],
                     });
                 }
-- 
2.43.0


From 17170458861bd1f5cee003affae22221e5aa2fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 08/12] fix: return a linked path only for symbolic links

---
 src/signatures.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 90eaa2f..4857d09 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -457,7 +457,10 @@ impl<'a> Entry<'a> {
     ///
     /// This will return some path only if this entry is a symbolic link.
     pub fn linked_path(&self) -> Option<&'a Path> {
-        self.info.link.as_ref().and_then(|p| p.as_path())
+        match self.entry_type() {
+            EntryType::SymLink => self.info.link.as_ref().and_then(|p| p.as_path()),
+            _ => None,
+        }
     }
 }
 
-- 
2.43.0


From baeb4e294659ac38c11da51745eaac49ba468580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 09/12] fix: allow to hold entries and manifests while asking
 for them again

The cached value was always borrowed mutably first: asking for the entries
of a snapshot panicked if the entries of another snapshot of the same chain
were still in use.
---
 src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2a3eafc..e7da05c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -346,12 +346,13 @@ impl<B: Backend> ResourceCache for Backup<B> {
     fn _signature_chain(&self, chain_id: usize) -> io::Result<Ref<Option<Chain>>> {
         {
             // check if there is a cached value
-            let mut sig = self.signatures[chain_id].borrow_mut();
-            if sig.is_none() {
+            // do not borrow mutably otherwise: the caller can still hold the value
+            let sig = &self.signatures[chain_id];
+            if sig.borrow().is_none() {
                 // compute signatures now
                 if let Some(sigchain) = self.collections.signature_chains().nth(chain_id) {
                     let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;
-                    *sig = Some(new_sig);
+                    *sig.borrow_mut() = Some(new_sig);
                 } else {
                     return Err(not_found(
                         "The given backup snapshot does not have a \
@@ -373,11 +374,12 @@ impl<B: Backend> ResourceCache for Backup<B> {
     ) -> Result<Ref<Option<Manifest>>, manifest::ParseError> {
         {
             // check if there is a cached value
-            let mut sig = self.manifests[id].borrow_mut();
-            if sig.is_none() {
+            // do not borrow mutably otherwise: the caller can still hold the value
+            let sig = &self.manifests[id];
+            if sig.borrow().is_none() {
                 // compute manifest now
                 let mut file = io::BufReader::new(self.backend.open_file(Path::new(path))?);
-                *sig = Some(Manifest::parse(&mut file)?);
+                *sig.borrow_mut() = Some(Manifest::parse(&mut file)?);
             }
         }
 
-- 
2.43.0


From 69b3c7cb2e8ede4dec53742bd2ce8349f45f8850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:49 +0000
Subject: [PATCH 10/12] fix: match the signatures of a snapshot by time

Signature chains were matched to backup chains by position: when the
signatures of a chain were missing, opening the entries of a snapshot
panicked or returned the files of another snapshot.
---
 src/collections/mod.rs |  8 ++++----
 src/lib.rs             | 30 ++++++++++++++++++++++++++----
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/collections/mod.rs b/src/collections/mod.rs
index daf406c..9f1c847 100644
--- a/src/collections/mod.rs
+++ b/src/collections/mod.rs
@@ -527,16 +527,16 @@ impl Collections {
 
     /// Returns the backup chains.
     ///
-    /// Each backup chain should be coupled with a signature chain. They can be matched because
-    /// they are both in chronological order.
+    /// Each backup chain should be coupled with a signature chain. They can be matched by their
+    /// start time.
     pub fn backup_chains(&self) -> ChainIter<BackupChain> {
         self.backup_chains.iter()
     }
 
     /// Returns the signature chains.
     ///
-    /// Each signature chain should be coupled with a backup chain. They can be matched because
-    /// they are both in chronological order.
+    /// Each signature chain should be coupled with a backup chain. They can be matched by their
+    /// start time.
     pub fn signature_chains(&self) -> ChainIter<SignatureChain> {
         self.sig_chains.iter()
     }
diff --git a/src/lib.rs b/src/lib.rs
index e7da05c..6f0ae1e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -66,7 +66,7 @@ use std::path::Path;
 use time::Timespec;
 
 pub use backend::Backend;
-use collections::{BackupChain, BackupSet, Collections};
+use collections::{BackupChain, BackupSet, Collections, SignatureChain};
 use manifest::Manifest;
 use signatures::Chain;
 
@@ -154,7 +154,7 @@ impl<B: Backend> Backup<B> {
         let files = backend.file_names()?;
         let collections = Collections::from_filenames(files);
         let signatures = collections
-            .signature_chains()
+            .backup_chains()
             .map(|_| RefCell::new(None))
             .collect();
         let manifests = (0..collections.num_snapshots())
@@ -288,7 +288,7 @@ impl<'a> Snapshot<'a> {
     /// provided by the backend and the signatures size.
     pub fn entries(&self) -> io::Result<SnapshotEntries> {
         let sig = self.backup._signature_chain(self.chain_id)?;
-        if self.sig_id < sig.as_ref().unwrap().snapshots().len() {
+        if self.sig_id < sig.as_ref().unwrap().snapshots().len() && self.has_signature() {
             Ok(SnapshotEntries {
                 chain: sig,
                 sig_id: self.sig_id,
@@ -298,6 +298,18 @@ impl<'a> Snapshot<'a> {
         }
     }
 
+    /// Returns whether the signature at the position of this snapshot has its same time.
+    fn has_signature(&self) -> bool {
+        match find_signature_chain(self.backup._collections(), self.chain_id) {
+            Some(chain) if self.sig_id == 0 => chain.start_time() == self.time(),
+            Some(chain) => chain
+                .inc_signatures()
+                .nth(self.sig_id - 1)
+                .map_or(false, |sig| sig.time == self.time()),
+            None => false,
+        }
+    }
+
     /// Returns the manifest for this snapshot.
     ///
     /// The relative manifest file is read on demand and cached for subsequent uses.
@@ -350,7 +362,7 @@ impl<B: Backend> ResourceCache for Backup<B> {
             let sig = &self.signatures[chain_id];
             if sig.borrow().is_none() {
                 // compute signatures now
-                if let Some(sigchain) = self.collections.signature_chains().nth(chain_id) {
+                if let Some(sigchain) = find_signature_chain(&self.collections, chain_id) {
                     let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;
                     *sig.borrow_mut() = Some(new_sig);
                 } else {
@@ -389,6 +401,16 @@ impl<B: Backend> ResourceCache for Backup<B> {
     }
 }
 
+/// Returns the signature chain of the given backup chain.
+///
+/// They are matched by time, because the signatures of some chains could be missing.
+fn find_signature_chain(collections: &Collections, chain_id: usize) -> Option<&SignatureChain> {
+    let start_time = collections.backup_chains().nth(chain_id)?.start_time();
+    collections
+        .signature_chains()
+        .find(|chain| chain.start_time() == start_time)
+}
+
 fn not_found(msg: &str) -> io::Error {
     io::Error::new(io::ErrorKind::NotFound, msg)
 }
-- 
2.43.0


From da04d3e903359c028dac4aa83563f3a8fe40f5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:32 +0000
Subject: [PATCH 11/12] fix: make the signature chains independent of the
 listing order

Two incremental signatures that start at the same time were added to the chain
in the order of the listing: the second one was lost, whichever it was.
---
 src/collections/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/collections/mod.rs b/src/collections/mod.rs
index 9f1c847..a550af5 100644
--- a/src/collections/mod.rs
+++ b/src/collections/mod.rs
@@ -621,13 +621,18 @@ fn compute_signature_chains(fname_infos: &[FileNameInfo]) -> Vec<SignatureChain>
         .map(SignatureChain::from_filename_info)
         .collect::<Vec<_>>();
     sig_chains.sort_by(|a, b| a.start_time().cmp(&b.start_time()));
-    // collect inc signatures and sort them by start time
+    // collect inc signatures and sort them by start time; prefer the latest one when some of them
+    // start at the same time, like in the backup chains
     let inc_sigs = {
         let mut is = fname_infos
             .iter()
             .filter(|f| matches!(f.info.tp, fnm::Type::NewSig{..}))
             .collect::<Vec<_>>();
-        is.sort_by(|a, b| a.start_time().cmp(&b.start_time()));
+        is.sort_by(|a, b| {
+            let (a_start, a_end) = a.info.tp.time_range();
+            let (b_start, b_end) = b.info.tp.time_range();
+            a_start.cmp(&b_start).then(b_end.cmp(&a_end))
+        });
         is
     };
     // add inc signatures to chains
-- 
2.43.0


From d2d258d218c488168216d956a26a72d584382c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:32 +0000
Subject: [PATCH 12/12] fix: refuse a timestamp with a missing digit or
 followed by other text

Such a text was accepted, since strptime takes it: a file name with anything
between the time and the volume number was taken as part of a backup.
---
 src/timefmt.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/timefmt.rs b/src/timefmt.rs
index 0074ad2..8dfd721 100644
--- a/src/timefmt.rs
+++ b/src/timefmt.rs
@@ -44,11 +44,25 @@ pub struct PrettyDisplay(Tm);
 /// An example of such a timestamp is "19881211t152000z" which represents the date
 /// `1988-12-11T15:20:00Z` in the UTC time zone.
 pub fn parse_time_str(s: &str) -> Option<Timespec> {
+    if !has_timestamp_shape(s) {
+        return None;
+    }
     time::strptime(s, "%Y%m%dt%H%M%S%Z")
         .ok()
         .map(|tm| tm.to_timespec())
 }
 
+/// Returns whether the string has the shape of a timestamp, because `strptime` also accepts missing
+/// digits and ignores everything after the seconds.
+fn has_timestamp_shape(s: &str) -> bool {
+    s.len() == 16
+        && s.bytes().enumerate().all(|(i, b)| match i {
+            8 => b == b't',
+            15 => b == b'z' || b == b'Z',
+            _ => b >= b'0' && b <= b'9',
+        })
+}
+
 impl TimeDisplay for Timespec {
     type D = PrettyDisplay;
 
-- 
2.43.0

