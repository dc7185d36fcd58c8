From 07e04e726b0155e1be80920a5412ce7c6bdc2afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:26 +0000
Subject: [PATCH 01/16] fix: IOWindow::read_exact rejected reads that fit and
 allowed reads past the window

---
 src/window.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/window.rs b/src/window.rs
index 9f15e14..77cf45c 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -62,7 +62,7 @@ where
 
     fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
         if let Some(bytes_left) = self.bytes_left() {
-            if bytes_left > buf.len() {
+            if bytes_left < buf.len() {
                 return Err(io::ErrorKind::UnexpectedEof.into());
             }
         }
-- 
2.43.0


From 09971072e43350de7c7aaf5cc0bfc7e564814b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:26 +0000
Subject: [PATCH 02/16] fix: IOWindow::seek(Current) must be relative to the
 window position

---
 src/window.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/window.rs b/src/window.rs
index 77cf45c..d90b92f 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -113,7 +113,9 @@ where
 {
     fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
         let position = self.source.seek(match pos {
-            SeekFrom::Current(_) => pos,
+            SeekFrom::Current(off) => {
+                SeekFrom::Start((self.start + self.pos).saturating_add_signed(off))
+            }
             SeekFrom::End(off) => {
                 if let Some(length) = self.length {
                     SeekFrom::Start((self.start + length).saturating_add_signed(off))
-- 
2.43.0


From 4b82e9fee900e39c70b728d45fe6a013843a2501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:26 +0000
Subject: [PATCH 03/16] fix: do not list a partition whose addition failed

---
 src/builder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 18798ea..26cf6d5 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -115,10 +115,6 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         progress_cb(0);
         let part_data_off = self.current_data_offset;
         let mut partition_window = IOWindow::new(&mut self.file, part_data_off, None);
-        self.partitions.push(WiiPartTableEntry {
-            part_data_off: part_data_off.into(),
-            part_type,
-        });
         // placeholder header
         let mut part_header = WiiPartitionHeader {
             ticket,
@@ -289,6 +285,11 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         // write partition header
         partition_window.seek(SeekFrom::Start(0))?;
         partition_window.write_be(&part_header)?;
+        // only list the partition once it's complete
+        self.partitions.push(WiiPartTableEntry {
+            part_data_off: part_data_off.into(),
+            part_type,
+        });
         Ok(())
     }
 
-- 
2.43.0


From 21fc2b63b1423f4facd8ad9bb12e405dba074b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:27 +0000
Subject: [PATCH 04/16] fix: write the empty partition table groups explicitly

---
 src/builder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 26cf6d5..1293f20 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -305,6 +305,8 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         // we keep everything in one group, first write count then offset
         self.file.write_be(&(self.partitions.len() as u32))?;
         self.file.write_be(&(0x40020u32 >> 2))?;
+        // the other 3 groups are empty
+        self.file.write_all(&[0; 3 * 8])?;
         // write entries
         self.file.seek(SeekFrom::Start(0x40020))?;
         for partition in self.partitions.iter() {
-- 
2.43.0


From 90cc72700ae2f7aba06246b557bb128977caf2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:28 +0000
Subject: [PATCH 05/16] fix: reject files whose size does not fit the file
 system table

---
 src/builder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 1293f20..40bea59 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -201,7 +201,10 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
             *offset = crypto_writer.stream_position()?;
             let (data, padding) = partition_def.get_file_data(path)?;
             let mut remaining_data = data.as_ref();
-            *size = remaining_data.len() as u32;
+            *size = remaining_data
+                .len()
+                .try_into()
+                .map_err(|_| io::Error::new(io::ErrorKind::InvalidInput, "file is too large"))?;
             while remaining_data.len() > 0 {
                 let bytes_to_write = remaining_data.len().min(0x1_000_000);
                 let batch;
-- 
2.43.0


From 1a4653a9abf853293f893bd4aa4b3409c1996fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:10 +0000
Subject: [PATCH 06/16] fix: do not reserve memory for node counts taken from
 the image

---
 src/fst.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fst.rs b/src/fst.rs
index a2ffa68..42c60e8 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -318,7 +318,7 @@ impl Fst {
             });
         }
         let total_node_count = root_node.length - 1;
-        let mut nodes = Vec::with_capacity(total_node_count as usize);
+        let mut nodes = Vec::new();
         nodes.push(root_node);
         for _ in 0..total_node_count {
             nodes.push(rs.read_be::<RawFstNode>()?);
@@ -337,7 +337,7 @@ impl Fst {
         children_end: u32,
         cur_idx: &mut u32,
     ) -> binrw::BinResult<Vec<FstNode>> {
-        let mut nodes = Vec::with_capacity(raw_nodes.len());
+        let mut nodes = Vec::new();
         while *cur_idx < children_end {
             let node = &raw_nodes[*cur_idx as usize];
             let name = read_shiftjs(rs, str_offset + node.name_offset as u64)?;
-- 
2.43.0


From 0eb4771f27cf36bde3347c6b9c7dac9de247ea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:10 +0000
Subject: [PATCH 07/16] fix: report malformed FST directory ranges as errors
 instead of panicking

---
 src/fst.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fst.rs b/src/fst.rs
index 42c60e8..5d1eb9a 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -142,6 +142,13 @@ fn read_shiftjs<RS: Read + Seek>(rs: &mut RS, offset: u64) -> binrw::BinResult<S
     Ok(res.into())
 }
 
+fn invalid_fst(pos: u64) -> binrw::Error {
+    binrw::Error::Custom {
+        pos,
+        err: Box::new("invalid directory structure in FST"),
+    }
+}
+
 /// Implements the file system table
 #[derive(Default, Clone)]
 pub struct Fst {
@@ -339,7 +346,9 @@ impl Fst {
     ) -> binrw::BinResult<Vec<FstNode>> {
         let mut nodes = Vec::new();
         while *cur_idx < children_end {
-            let node = &raw_nodes[*cur_idx as usize];
+            let Some(node) = raw_nodes.get(*cur_idx as usize) else {
+                return Err(invalid_fst(str_offset));
+            };
             let name = read_shiftjs(rs, str_offset + node.name_offset as u64)?;
             *cur_idx += 1;
             if node.is_directory {
@@ -354,7 +363,9 @@ impl Fst {
                 });
             }
         }
-        assert_eq!(*cur_idx, children_end);
+        if *cur_idx != children_end {
+            return Err(invalid_fst(str_offset));
+        }
         Ok(nodes)
     }
 
-- 
2.43.0


From cac5c0d429da65be5d9c222ac98614e70900e14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:10 +0000
Subject: [PATCH 08/16] fix: limit the directory depth accepted from an image

---
 src/fst.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/fst.rs b/src/fst.rs
index 5d1eb9a..c24b3d1 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -142,6 +142,9 @@ fn read_shiftjs<RS: Read + Seek>(rs: &mut RS, offset: u64) -> binrw::BinResult<S
     Ok(res.into())
 }
 
+/// directories nested deeper than this are rejected, to not overflow the stack
+const MAX_FST_DEPTH: usize = 256;
+
 fn invalid_fst(pos: u64) -> binrw::Error {
     binrw::Error::Custom {
         pos,
@@ -333,7 +336,7 @@ impl Fst {
         let str_offset = rs.stream_position()?;
 
         let fst_nodes =
-            Self::transform_fst_rec(rs, str_offset, &nodes, total_node_count + 1, &mut 1)?;
+            Self::transform_fst_rec(rs, str_offset, &nodes, total_node_count + 1, &mut 1, 0)?;
         Ok(Self { entries: fst_nodes })
     }
 
@@ -343,7 +346,11 @@ impl Fst {
         raw_nodes: &Vec<RawFstNode>,
         children_end: u32,
         cur_idx: &mut u32,
+        depth: usize,
     ) -> binrw::BinResult<Vec<FstNode>> {
+        if depth > MAX_FST_DEPTH {
+            return Err(invalid_fst(str_offset));
+        }
         let mut nodes = Vec::new();
         while *cur_idx < children_end {
             let Some(node) = raw_nodes.get(*cur_idx as usize) else {
@@ -352,8 +359,14 @@ impl Fst {
             let name = read_shiftjs(rs, str_offset + node.name_offset as u64)?;
             *cur_idx += 1;
             if node.is_directory {
-                let files =
-                    Self::transform_fst_rec(rs, str_offset, raw_nodes, node.length, cur_idx)?;
+                let files = Self::transform_fst_rec(
+                    rs,
+                    str_offset,
+                    raw_nodes,
+                    node.length,
+                    cur_idx,
+                    depth + 1,
+                )?;
                 nodes.push(FstNode::Directory { name, files });
             } else {
                 nodes.push(FstNode::File {
-- 
2.43.0


From 66884e6c2359aacaf8da9ec763795a8f583a4fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:11 +0000
Subject: [PATCH 09/16] fix: reject tickets with an unknown common key index

---
 src/structs.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/structs.rs b/src/structs.rs
index df8a7d5..3509275 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -139,6 +139,7 @@ pub struct Ticket {
     pub permitted_titles_mask: u32,
     pub permit_mask: u32,
     pub title_export_allowed: u8,
+    #[br(assert((common_key_idx as usize) < COMMON_KEYS.len(), "invalid common key index"))]
     pub common_key_idx: u8,
     #[brw(pad_before = 48)]
     pub content_access_permissions: [u8; 0x40],
-- 
2.43.0


From 1180394287fbddffaa4ed6153ac196057f36bee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:11 +0000
Subject: [PATCH 10/16] fix: apploader sizes from the image could overflow

---
 src/new_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index 9071f98..012322c 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -295,9 +295,9 @@ impl WiiPartitionReadInfo {
         let mut crypt_part_reader = self.get_crypto_reader(reader);
         crypt_part_reader.seek(SeekFrom::Start(0x2440))?;
         let apploader_header: ApploaderHeader = crypt_part_reader.read_be()?;
-        let fullsize = 32 + apploader_header.size1 + apploader_header.size2;
+        let fullsize = 32 + apploader_header.size1 as u64 + apploader_header.size2 as u64;
         let mut buf = Vec::new();
-        crypt_part_reader.read_into_vec(0x2440, fullsize as u64, &mut buf)?;
+        crypt_part_reader.read_into_vec(0x2440, fullsize, &mut buf)?;
         Ok(buf)
     }
 
-- 
2.43.0


From 7d78ea3a7632034aabe3b79ba936c795da321ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:12 +0000
Subject: [PATCH 11/16] fix: read_into_vec returned fewer bytes than requested
 without an error

---
 src/new_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index 012322c..f7ef49a 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -99,7 +99,7 @@ impl EncryptedPartState {
         let mut offset_in_block_data = offset % BLOCK_DATA_SIZE;
         while buffer.len() < length as usize {
             if offset >= self.data_size {
-                break;
+                return Err(io::ErrorKind::UnexpectedEof.into());
             }
             // we either copy the entire block or what's needed to fill the vec
             let count_to_copy =
-- 
2.43.0


From 6dc7b72c17dafff45766782bb31255bbf05e27c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:12 +0000
Subject: [PATCH 12/16] fix: lengths taken from the image must not abort on
 allocation

---
 src/new_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index f7ef49a..b187eec 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -93,7 +93,7 @@ impl EncryptedPartState {
         buffer: &mut Vec<u8>,
     ) -> io::Result<()> {
         buffer.clear();
-        buffer.reserve(length as usize);
+        buffer.try_reserve(length as usize)?;
         let mut group = offset / GROUP_DATA_SIZE;
         let mut block = (offset % GROUP_DATA_SIZE) / BLOCK_DATA_SIZE;
         let mut offset_in_block_data = offset % BLOCK_DATA_SIZE;
-- 
2.43.0


From fc91931a3e17fd6462115e985a6cfd8e5e946a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:12 +0000
Subject: [PATCH 13/16] fix: extraction silently truncated files lying beyond
 the partition data

---
 disc-riider-py/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/disc-riider-py/src/lib.rs b/disc-riider-py/src/lib.rs
index e7611b8..f15b195 100644
--- a/disc-riider-py/src/lib.rs
+++ b/disc-riider-py/src/lib.rs
@@ -261,6 +261,9 @@ impl WiiIsoExtractor {
                                 let _ = callback.call1(py, (done_percent,));
                             });
                         }
+                        if bytes_left != 0 {
+                            return Err(std::io::ErrorKind::UnexpectedEof.into());
+                        }
                     }
 
                     Ok(())
-- 
2.43.0


From 15e39deed0e5db988bbd11ae02b61b1c2e0c6615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:13 +0000
Subject: [PATCH 14/16] fix: extraction could write outside of the destination
 directory

---
 disc-riider-py/src/lib.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/disc-riider-py/src/lib.rs b/disc-riider-py/src/lib.rs
index f15b195..4e98649 100644
--- a/disc-riider-py/src/lib.rs
+++ b/disc-riider-py/src/lib.rs
@@ -2,7 +2,7 @@ use std::{
     convert::Infallible,
     fs::{self, create_dir_all, OpenOptions},
     io::{Read, Seek, SeekFrom, Write},
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
 };
 
 use binrw::{BinWrite, BinWriterExt};
@@ -82,6 +82,15 @@ pub fn binrw_write_file(p: &Path, value: &impl for<'a> BinWrite<Args<'a> = ()>)
     Ok(())
 }
 
+/// names in the image must not be able to leave the destination directory
+fn is_plain_filename(name: &str) -> bool {
+    let mut components = Path::new(name).components();
+    matches!(
+        (components.next(), components.next()),
+        (Some(Component::Normal(n)), None) if n == name
+    )
+}
+
 #[pymethods]
 impl WiiIsoExtractor {
     #[new]
@@ -234,6 +243,12 @@ impl WiiIsoExtractor {
                     if let FstNode::File { offset, length, .. } = node {
                         let mut filepath = section_path.join("files");
                         for name in names {
+                            if !is_plain_filename(name) {
+                                return Err(std::io::Error::new(
+                                    std::io::ErrorKind::InvalidData,
+                                    format!("invalid file name in image: {name:?}"),
+                                ));
+                            }
                             filepath.push(name);
                         }
                         // println!("{filepath:?}");
-- 
2.43.0


From 3ded57531dfa98be5462b18b57b37d032fbcf95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:13 +0000
Subject: [PATCH 15/16] fix: a failed group load left the cache marked as valid

---
 src/reader_writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reader_writer.rs b/src/reader_writer.rs
index 3479d93..2a57308 100644
--- a/src/reader_writer.rs
+++ b/src/reader_writer.rs
@@ -241,6 +241,7 @@ impl<'a, RS: Read + Seek> WiiEncryptedReadWriteStream<'a, RS> {
     // loads an entire group into cache and decrypts it
     fn do_load_group(&mut self, group: u64) -> io::Result<()> {
         self.inner.is_dirty = false;
+        self.inner.current_group = None;
         self.file
             .seek(SeekFrom::Start(self.inner.data_offset + group * GROUP_SIZE))?;
         self.file.read_exact(self.inner.group_cache.as_mut())?;
-- 
2.43.0


From 4b5fc6479fe6ff07f9e128118f25d96b2462acea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:27 +0000
Subject: [PATCH 16/16] fix: writes to an existing group that is not cached
 must load it first

---
 src/reader_writer.rs | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/reader_writer.rs b/src/reader_writer.rs
index 2a57308..1e89f10 100644
--- a/src/reader_writer.rs
+++ b/src/reader_writer.rs
@@ -51,7 +51,7 @@ pub struct WiiEncryptedReadWriteStreamInner {
     is_dirty: bool,
     // position where data is read from and written to
     current_position: u64,
-    // highest group that exists currently, in write mode this can increase
+    // number of groups that exist currently, in write mode this can increase
     // as more groups are written
     filled_groups: u64,
 }
@@ -391,8 +391,8 @@ impl<'a, WS: Write + Read + Seek> Write for WiiEncryptedReadWriteStream<'a, WS>
                         break;
                     }
                     // if we're not in the current group of the buffer anymore, load that group
-                    if let Some(current_group) = self.inner.current_group {
-                        if current_group != group {
+                    if self.inner.current_group != Some(group) {
+                        if let Some(current_group) = self.inner.current_group {
                             if self.inner.is_dirty {
                                 hash_encrypt_block(
                                     &mut self.inner.group_cache,
@@ -409,22 +409,21 @@ impl<'a, WS: Write + Read + Seek> Write for WiiEncryptedReadWriteStream<'a, WS>
                                 ))?;
                                 self.file.write_all(self.inner.group_cache.as_ref())?;
                                 self.inner.filled_groups =
-                                    self.inner.filled_groups.max(current_group);
-                            }
-                            // we can skip loading the previous data if
-                            // - we are at the start of a group and would completely overwrite it
-                            // - or if this is a block that didn't exist previously
-                            if !((block == 0
-                                && offset_in_block == 0x400
-                                && buf.len() >= GROUP_DATA_SIZE as usize)
-                                || group > self.inner.filled_groups)
-                            {
-                                // TODO: you *could* seek an entire block ahead, in that case there
-                                // would be a completely empty block, but I guess that's fine?
-                                self.inner.filled_groups = self.inner.filled_groups.max(group);
-                                self.do_load_group(group)?;
+                                    self.inner.filled_groups.max(current_group + 1);
                             }
                         }
+                        // we can skip loading the previous data if
+                        // - we are at the start of a group and would completely overwrite it
+                        // - or if this is a block that didn't exist previously
+                        if !((block == 0
+                            && offset_in_block == 0x400
+                            && buf.len() >= GROUP_DATA_SIZE as usize)
+                            || group >= self.inner.filled_groups)
+                        {
+                            // TODO: you *could* seek an entire block ahead, in that case there
+                            // would be a completely empty block, but I guess that's fine?
+                            self.do_load_group(group)?;
+                        }
                     }
                     self.inner.current_group = Some(group);
                     self.inner.is_dirty = true;
@@ -467,7 +466,7 @@ impl<'a, WS: Write + Read + Seek> Write for WiiEncryptedReadWriteStream<'a, WS>
                             self.inner.data_offset + GROUP_SIZE * current_group,
                         ))?;
                         self.file.write_all(self.inner.group_cache.as_ref())?;
-                        self.inner.filled_groups = self.inner.filled_groups.max(current_group);
+                        self.inner.filled_groups = self.inner.filled_groups.max(current_group + 1);
                         self.file.flush()?;
                         self.inner.current_group = None;
                     }
-- 
2.43.0

