From db170b944e3fe91c0c1e9c22324ef7d0c2c76742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 01/13] fix: do not panic on a leaf file block without filesize

---
 src/file/reader.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index f23f419..a3ba05f 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -130,15 +130,17 @@ impl<'a> FileReader<'a> {
                 .into());
             }
 
+            let file_size = match inner.data.filesize {
+                Some(filesize) => filesize,
+                // can default because `data` is all of the data
+                None if inner.links.is_empty() => data.len() as u64,
+                None => return Err(FileError::IntermediateNodeWithoutFileSize.into()),
+            };
+
             let end = if inner.links.is_empty() {
-                // can unwrap because `data` is all of the data
-                let filesize = inner.data.filesize.unwrap_or(data.len() as u64);
-                Ending::Chunk(offset + filesize)
+                Ending::Chunk(offset + file_size)
             } else {
-                match inner.data.filesize {
-                    Some(filesize) => Ending::TreeCoverage(offset + filesize),
-                    None => return Err(FileError::IntermediateNodeWithoutFileSize.into()),
-                }
+                Ending::TreeCoverage(offset + file_size)
             };
 
             Ok(Self {
@@ -148,7 +150,7 @@ impl<'a> FileReader<'a> {
                 data,
                 blocksizes: inner.data.blocksizes,
                 metadata,
-                file_size: inner.data.filesize.unwrap(),
+                file_size,
             })
         }
     }
-- 
2.43.0


From 8aba69e2c3908729ffd0cbe3ba29a325fe108b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 02/13] fix: do not overflow on untrusted filesize or
 blocksizes

---
 src/file/reader.rs | 9 +++++++--
 src/pb.rs          | 5 +++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index a3ba05f..87f98d2 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -137,10 +137,15 @@ impl<'a> FileReader<'a> {
                 None => return Err(FileError::IntermediateNodeWithoutFileSize.into()),
             };
 
+            // filesize is untrusted, it cannot extend past the addressable range
+            let end = offset
+                .checked_add(file_size)
+                .ok_or(FileError::TreeExpandsOnLinks)?;
+
             let end = if inner.links.is_empty() {
-                Ending::Chunk(offset + file_size)
+                Ending::Chunk(end)
             } else {
-                Ending::TreeCoverage(offset + file_size)
+                Ending::TreeCoverage(end)
             };
 
             Ok(Self {
diff --git a/src/pb.rs b/src/pb.rs
index 1206990..5354cfc 100644
--- a/src/pb.rs
+++ b/src/pb.rs
@@ -189,8 +189,9 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|(link, blocksize)| {
             let returned_base = self.base;
-            self.base += blocksize;
-            (link, returned_base..(returned_base + blocksize))
+            // blocksizes are untrusted, their sum might not be addressable
+            self.base = returned_base.saturating_add(blocksize);
+            (link, returned_base..self.base)
         })
     }
 
-- 
2.43.0


From 62a1a971e72ba57c6c515e179de46241e0b85e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 03/13] fix: do not slice past the end of a file block shorter
 than its blocksize

---
 src/file/visit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file/visit.rs b/src/file/visit.rs
index 4d96275..1aa3f59 100644
--- a/src/file/visit.rs
+++ b/src/file/visit.rs
@@ -273,6 +273,10 @@ fn target_slice<'a>(content: &'a [u8], block: &Range<u64>, target: &Range<u64>)
             end = start + (target.end - target.start) as usize;
         }
 
+        // the link is untrusted: the content might be shorter than what the link claimed
+        let end = min(end, content.len());
+        let start = min(start, end);
+
         &content[start..end]
     }
 }
-- 
2.43.0


From d6d55004991a4af0cfe146168ee6fc8b020f6c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 04/13] fix: end the file visit when no links remain in the
 target range

---
 src/file/visit.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/file/visit.rs b/src/file/visit.rs
index 1aa3f59..691f8ad 100644
--- a/src/file/visit.rs
+++ b/src/file/visit.rs
@@ -189,8 +189,14 @@ impl FileVisit {
                 // reverse to keep the next link we need to traverse as last, where pop() operates.
                 (&mut self.pending[before..]).reverse();
 
-                self.state = traversal;
-                Ok((&[][..], Some(self)))
+                if !self.pending.is_empty() {
+                    self.state = traversal;
+                    Ok((&[][..], Some(self)))
+                } else {
+                    // none of the links were in the target range
+                    *cache = Some(self.pending.into());
+                    Ok((&[][..], None))
+                }
             }
         }
     }
-- 
2.43.0


From 622c6b45cbc96f7d1e0dc6b5c07687e4a6c0f4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 05/13] fix: keep the total file size when continuing a file
 visit

---
 src/file/reader.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index 87f98d2..afb7f57 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -74,13 +74,12 @@ impl<'a> FileReader<'a> {
     /// Method for starting the file traversal. `data` is the raw data from unixfs block.
     pub fn from_block(data: &'a [u8]) -> Result<Self, FileReadFailed> {
         let inner = FlatUnixFs::try_from(data)?;
-        let metadata = Metadata::from(&inner.data);
-        Self::from_parts(inner, 0, metadata)
+        Self::from_parsed(inner)
     }
 
     pub(crate) fn from_parsed(inner: FlatUnixFs<'a>) -> Result<Self, FileReadFailed> {
         let metadata = Metadata::from(&inner.data);
-        Self::from_parts(inner, 0, metadata)
+        Self::from_parts(inner, 0, metadata, None)
     }
 
     /// Called by Traversal to continue traversing a file tree traversal.
@@ -96,13 +95,14 @@ impl<'a> FileReader<'a> {
             return Err(FileError::NonRootDefinesMetadata(metadata).into());
         }
 
-        Self::from_parts(inner, offset, traversal.metadata)
+        Self::from_parts(inner, offset, traversal.metadata, Some(traversal.file_size))
     }
 
     fn from_parts(
         inner: FlatUnixFs<'a>,
         offset: u64,
         metadata: Metadata,
+        total_size: Option<u64>,
     ) -> Result<Self, FileReadFailed> {
         let empty_or_no_content = inner
             .data
@@ -155,7 +155,8 @@ impl<'a> FileReader<'a> {
                 data,
                 blocksizes: inner.data.blocksizes,
                 metadata,
-                file_size,
+                // the root block knows the total size of the file
+                file_size: total_size.unwrap_or(file_size),
             })
         }
     }
-- 
2.43.0


From d4a66f7293dc2103074588f9436b320b1bedaa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 06/13] fix: do not panic on an unparseable block inside a
 walked file

---
 src/walk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/walk.rs b/src/walk.rs
index a3daa93..aff5f36 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -689,7 +689,8 @@ impl From<FileReadFailed> for Error {
         match e {
             File(e) => Error::File(e),
             UnexpectedType(ut) => Error::UnexpectedType(ut),
-            Read(_) => unreachable!("FileVisit does not parse any blocks"),
+            Read(Some(e)) => Error::DagPbParsingFailed(e),
+            Read(None) => Error::EmptyDagPbNode,
             InvalidCid(l) => Error::InvalidCid(l),
         }
     }
-- 
2.43.0


From fa5b3c9a852a344c11df92412bad60a650e31e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 07/13] fix: do not panic on empty data at the end of a dag-pb
 block

---
 src/dagpb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dagpb.rs b/src/dagpb.rs
index 6d24139..4671ef0 100644
--- a/src/dagpb.rs
+++ b/src/dagpb.rs
@@ -50,7 +50,7 @@ fn subslice_to_range(full: &[u8], sub: &[u8]) -> Option<Range<usize>> {
         //
         // if there are two slices of a continuous chunk, [A|B] we need to make sure B will not be
         // calculated as subslice of A
-        .and_then(|start| if start >= max { None } else { Some(start) })
+        .and_then(|start| if start > max - amt { None } else { Some(start) })
         .map(|start| start..(start + amt))
 }
 
-- 
2.43.0


From 69455c1160c205c5afc9ad2f0e92f3bd0175de86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 08/13] fix: do not panic on a non-ascii HAMT link prefix in
 lookup

---
 src/dir/sharded_lookup.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dir/sharded_lookup.rs b/src/dir/sharded_lookup.rs
index 57aceb1..fd4c924 100644
--- a/src/dir/sharded_lookup.rs
+++ b/src/dir/sharded_lookup.rs
@@ -169,7 +169,8 @@ impl<'needle> ShardedLookup<'needle> {
         for (i, link) in iter.enumerate() {
             let name = link.Name.as_deref().unwrap_or_default();
 
-            if name.len() > 2 && &name[2..] == needle {
+            // the name is untrusted: the prefix might not end at a char boundary
+            if name.len() > 2 && name.get(2..) == Some(needle) {
                 if let Some(first) = found.take() {
                     return Err(MultipleMatchingLinks::from((first, (i, link))).into());
                 } else {
-- 
2.43.0


From 0034d3577586d1c53eb1d9185a3b43e83d1aee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 09/13] fix: reject invalid directory entry names while walking

---
 src/walk.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index aff5f36..215bdad 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -28,23 +28,27 @@ pub struct Walker {
     should_continue: bool,
 }
 
+/// Link names are untrusted. As they are used as components of the entry's path, accept only names
+/// which are a single normal path component.
+fn is_valid_entry_name(name: &str) -> bool {
+    !name.is_empty() && name != "." && name != ".." && !name.contains('/')
+}
+
 /// Converts a link of specifically a Directory (and not a link of a HAMTShard).
 fn convert_link(
     nested_depth: usize,
     nth: usize,
     link: PBLink<'_>,
-) -> Result<(Cid, String, usize), InvalidCidInLink> {
+) -> Result<(Cid, String, usize), Error> {
     let hash = link.Hash.as_deref().unwrap_or_default();
     let cid = match Cid::try_from(hash) {
         Ok(cid) => cid,
-        Err(e) => return Err(InvalidCidInLink::from((nth, link, e))),
+        Err(e) => return Err(InvalidCidInLink::from((nth, link, e)).into()),
     };
     let name = match link.Name {
-        Some(Cow::Borrowed(s)) if !s.is_empty() => s.to_owned(),
-        None | Some(Cow::Borrowed(_)) => todo!("link cannot be empty"),
-        Some(Cow::Owned(_s)) => unreachable!("FlatUnixFs is never transformed to owned"),
+        Some(Cow::Borrowed(s)) if is_valid_entry_name(s) => s.to_owned(),
+        name => return Err(Error::InvalidLinkName(nth, name.unwrap_or_default().into_owned())),
     };
-    assert!(!name.contains('/'));
     Ok((cid, name, nested_depth))
 }
 
@@ -54,19 +58,19 @@ fn convert_sharded_link(
     sibling_depth: usize,
     nth: usize,
     link: PBLink<'_>,
-) -> Result<(Cid, String, usize), InvalidCidInLink> {
+) -> Result<(Cid, String, usize), Error> {
     let hash = link.Hash.as_deref().unwrap_or_default();
     let cid = match Cid::try_from(hash) {
         Ok(cid) => cid,
-        Err(e) => return Err(InvalidCidInLink::from((nth, link, e))),
+        Err(e) => return Err(InvalidCidInLink::from((nth, link, e)).into()),
     };
     let (depth, name) = match link.Name {
-        Some(Cow::Borrowed(s)) if s.len() > 2 => (nested_depth, s[2..].to_owned()),
         Some(Cow::Borrowed(s)) if s.len() == 2 => (sibling_depth, String::from("")),
-        None | Some(Cow::Borrowed(_)) => todo!("link cannot be empty"),
-        Some(Cow::Owned(_s)) => unreachable!("FlatUnixFs is never transformed to owned"),
+        Some(Cow::Borrowed(s)) if s.get(2..).map_or(false, is_valid_entry_name) => {
+            (nested_depth, s[2..].to_owned())
+        }
+        name => return Err(Error::InvalidLinkName(nth, name.unwrap_or_default().into_owned())),
     };
-    assert!(!name.contains('/'));
     Ok((cid, name, depth))
 }
 
@@ -656,6 +660,9 @@ pub enum Error {
     /// dag-pb link could not be converted to a Cid
     InvalidCid(InvalidCidInLink),
 
+    /// dag-pb link at the index has a name which cannot be used as a name of a directory entry
+    InvalidLinkName(usize, String),
+
     /// A File has an invalid structure
     File(FileError),
 
@@ -719,6 +726,9 @@ impl fmt::Display for Error {
             UnixFsParsingFailed(e) => write!(fmt, "failed to parse the inner UnixFs: {}", e),
             EmptyDagPbNode => write!(fmt, "failed to parse the inner UnixFs: no data"),
             InvalidCid(e) => write!(fmt, "link contained an invalid Cid: {}", e),
+            InvalidLinkName(nth, name) => {
+                write!(fmt, "link #{} has an invalid entry name: {:?}", nth, name)
+            }
             File(e) => write!(fmt, "invalid file: {}", e),
             UnsupportedDirectory(udp) => write!(fmt, "unsupported directory: {}", udp),
             UnsupportedHAMTShard(se) => write!(fmt, "unsupported hamtshard: {}", se),
-- 
2.43.0


From 5507d99bed44b01869207140fe80359979049c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 10/13] fix: report a HAMT bucket with its own cid and allow it
 to follow any entry

---
 src/walk.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index 215bdad..b2e5224 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -469,10 +469,13 @@ impl InnerEntry {
     fn as_bucket(&mut self, cid: Cid, name: &str, depth: usize) {
         use InnerKind::*;
         match self.kind {
-            BucketAtRoot => {
-                assert_eq!(self.depth, depth, "{:?}", self.path);
-            }
-            RootBucket | Bucket | File(None, _) | Symlink => {
+            RootDirectory
+            | BucketAtRoot
+            | Bucket
+            | RootBucket
+            | Directory
+            | File(None, _)
+            | Symlink => {
                 self.cid = cid;
                 self.kind = Bucket;
 
-- 
2.43.0


From 07584a3cffaaabc138b2efb41cd937e3188cf8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 11/13] fix: reject HAMT bucket links to anything but a
 HAMTShard while walking

---
 src/walk.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/walk.rs b/src/walk.rs
index b2e5224..eb2acb4 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -157,6 +157,12 @@ impl Walker {
         let flat = FlatUnixFs::try_from(bytes)?;
         let metadata = Metadata::from(&flat.data);
 
+        // below the root only the HAMTShard buckets are linked without an entry name
+        let unnamed = matches!(next, Some((_, name, _)) if name.is_empty());
+        if current.is_some() && unnamed && flat.data.Type != UnixFsType::HAMTShard {
+            return Err(Error::UnexpectedType(flat.data.Type.into()));
+        }
+
         match flat.data.Type {
             UnixFsType::Directory => {
                 let flat = crate::dir::check_directory_supported(flat)?;
-- 
2.43.0


From 46f349f7bb86fe2d34da0e14dd3410dc1c5a05a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 12/13] fix: end the directory tree iteration on failure
 instead of panicking

---
 src/dir/builder/iter.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dir/builder/iter.rs b/src/dir/builder/iter.rs
index ee18b25..1e52d1f 100644
--- a/src/dir/builder/iter.rs
+++ b/src/dir/builder/iter.rs
@@ -235,7 +235,11 @@ impl PostOrderIterator {
                         &self.opts.block_size_limit,
                     ) {
                         Ok(leaf) => leaf,
-                        Err(e) => return Some(Err(e)),
+                        Err(e) => {
+                            // the ancestors cannot be rendered without this directory
+                            self.pending.clear();
+                            return Some(Err(e));
+                        }
                     };
 
                     self.cid = Some(leaf.link);
@@ -282,7 +286,11 @@ impl PostOrderIterator {
                         &self.opts.block_size_limit,
                     ) {
                         Ok(leaf) => leaf,
-                        Err(e) => return Some(Err(e)),
+                        Err(e) => {
+                            // the ancestors cannot be rendered without this directory
+                            self.pending.clear();
+                            return Some(Err(e));
+                        }
                     };
 
                     self.cid = Some(leaf.link);
-- 
2.43.0


From 7d858c849e2002d91d4fab5d3ef7ffeb60f54c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 13/13] fix: write the metadata set for a directory in the tree
 builder

---
 src/dir/builder/dir_builder.rs |  2 +-
 src/dir/builder/iter.rs        | 15 ++++++++++++++-
 src/walk.rs                    | 14 ++++++++++++--
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/dir/builder/dir_builder.rs b/src/dir/builder/dir_builder.rs
index 406b74e..12b7910 100644
--- a/src/dir/builder/dir_builder.rs
+++ b/src/dir/builder/dir_builder.rs
@@ -12,7 +12,7 @@ pub(super) struct DirBuilder {
     /// Immediate files, symlinks or directories in this directory
     pub nodes: BTreeMap<String, Entry>,
     /// Metadata for this directory
-    metadata: Metadata,
+    pub metadata: Metadata,
     /// Id of the parent; None for the root node
     pub parent_id: Option<u64>,
     /// Internal id, used for propagating Cids back from children during post order visit.
diff --git a/src/dir/builder/iter.rs b/src/dir/builder/iter.rs
index 1e52d1f..b95a236 100644
--- a/src/dir/builder/iter.rs
+++ b/src/dir/builder/iter.rs
@@ -3,6 +3,7 @@ use crate::pb::DAG_PB;
 use super::{
     CustomFlatUnixFs, DirBuilder, Entry, Leaf, NamedLeaf, TreeConstructionFailed, TreeOptions,
 };
+use crate::Metadata;
 use core::fmt;
 use libipld::multihash::{Code, MultihashDigest};
 use libipld::Cid;
@@ -55,6 +56,7 @@ enum Visited {
         depth: usize,
         name: String,
         index: usize,
+        metadata: Metadata,
         /// Leaves will be stored directly in this field when there are no DirBuilder descendants,
         /// in the `PostOrderIterator::persisted_cids` otherwise.
         leaves: LeafStorage,
@@ -82,10 +84,11 @@ impl PostOrderIterator {
 
     fn render_directory(
         links: &[Option<NamedLeaf>],
+        metadata: &Metadata,
         buffer: &mut Vec<u8>,
         block_size_limit: &Option<u64>,
     ) -> Result<Leaf, TreeConstructionFailed> {
-        use crate::pb::{UnixFs, UnixFsType};
+        use crate::pb::{unixfs::UnixTime, UnixFs, UnixFsType};
         use quick_protobuf::{BytesWriter, MessageWrite, Writer};
 
         // FIXME: ideas on how to turn this into a HAMT sharding on some heuristic. we probably
@@ -106,6 +109,11 @@ impl PostOrderIterator {
             links,
             data: UnixFs {
                 Type: UnixFsType::Directory,
+                mode: metadata.mode(),
+                mtime: metadata.mtime().map(|(seconds, nanos)| UnixTime {
+                    Seconds: seconds,
+                    FractionalNanoseconds: Some(nanos).filter(|&nanos| nanos != 0),
+                }),
                 ..Default::default()
             },
         };
@@ -200,6 +208,7 @@ impl PostOrderIterator {
                     let children = &mut self.reused_children;
                     let leaves = partition_children_leaves(depth, node.nodes.into_iter(), children);
                     let any_children = !children.is_empty();
+                    let metadata = node.metadata;
                     let parent_id = node.parent_id.expect("only roots parent_id is None");
 
                     let leaves = if any_children {
@@ -215,6 +224,7 @@ impl PostOrderIterator {
                         depth,
                         leaves,
                         index,
+                        metadata,
                     });
 
                     self.pending.append(children);
@@ -224,6 +234,7 @@ impl PostOrderIterator {
                     name,
                     leaves,
                     index,
+                    metadata,
                     ..
                 } => {
                     let leaves = leaves.into_inner(&mut self.persisted_cids);
@@ -231,6 +242,7 @@ impl PostOrderIterator {
 
                     let leaf = match Self::render_directory(
                         &leaves,
+                        &metadata,
                         buffer,
                         &self.opts.block_size_limit,
                     ) {
@@ -282,6 +294,7 @@ impl PostOrderIterator {
 
                     let leaf = match Self::render_directory(
                         &leaves,
+                        &Metadata::default(),
                         buffer,
                         &self.opts.block_size_limit,
                     ) {
diff --git a/src/walk.rs b/src/walk.rs
index eb2acb4..2c2eac0 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -47,7 +47,12 @@ fn convert_link(
     };
     let name = match link.Name {
         Some(Cow::Borrowed(s)) if is_valid_entry_name(s) => s.to_owned(),
-        name => return Err(Error::InvalidLinkName(nth, name.unwrap_or_default().into_owned())),
+        name => {
+            return Err(Error::InvalidLinkName(
+                nth,
+                name.unwrap_or_default().into_owned(),
+            ))
+        }
     };
     Ok((cid, name, nested_depth))
 }
@@ -69,7 +74,12 @@ fn convert_sharded_link(
         Some(Cow::Borrowed(s)) if s.get(2..).map_or(false, is_valid_entry_name) => {
             (nested_depth, s[2..].to_owned())
         }
-        name => return Err(Error::InvalidLinkName(nth, name.unwrap_or_default().into_owned())),
+        name => {
+            return Err(Error::InvalidLinkName(
+                nth,
+                name.unwrap_or_default().into_owned(),
+            ))
+        }
     };
     Ok((cid, name, depth))
 }
-- 
2.43.0

