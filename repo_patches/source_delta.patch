From 729e956295f67bd3db49896c0dc05a0224cc6d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 01/33] fix: keep the entry-offset table of a basket large
 enough after a large item

---
 oxyroot/src/rtree/wbasket.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oxyroot/src/rtree/wbasket.rs b/oxyroot/src/rtree/wbasket.rs
index b2266ce..2bfe9e8 100644
--- a/oxyroot/src/rtree/wbasket.rs
+++ b/oxyroot/src/rtree/wbasket.rs
@@ -46,6 +46,10 @@ impl WBasket {
                     b.offsets.push(0);
                 }
             }
+            // nev_size may have been raised by a large item without growing the table
+            if b.offsets.len() <= b.nev_buf as usize {
+                b.offsets.resize(b.nev_buf as usize + 1, 0);
+            }
             b.offsets[b.nev_buf as usize] = offset as i32;
         }
         self.basket.nev_buf += 1;
-- 
2.43.0


From 746b7177e3ba4f11047b3bb0d4de49577816a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 02/33] fix: recognise the byte count of objects of 16 MB and
 more

---
 oxyroot/src/rbytes/rbuffer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index 955617e..099a081 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -521,7 +521,15 @@ impl<'a> RBuffer<'a> {
                 self.read_array_u8_into(&mut hdr)?;
                 self.rewind(1)?;
 
-                if hdr != [64] {
+                // objects of 16 MB and more use the low bits of the first byte too
+                let large = self.len() > 0x0100_0000 && {
+                    let len = self.len() - 4;
+                    let bcnt = self.read_u32()? as i64;
+                    self.rewind(4)?;
+                    bcnt & kByteCountMask != 0 && bcnt & !kByteCountMask == len
+                };
+
+                if hdr != [64] && !large {
                     return Ok(());
                 }
             }
-- 
2.43.0


From b0596444ad5a58a278bec340e58f3a414a72d2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 03/33] fix: open files whose path needs a long directory
 record

---
 oxyroot/src/riofs/dir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index 6e8a0ca..870533e 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -173,11 +173,11 @@ impl TDirectoryFile {
         dir.dir.named.name = r.read_string()?.to_string();
         dir.dir.named.title = r.read_string()?.to_string();
 
-        if dir.n_bytes_name < 10 || dir.n_bytes_name > 1000 {
+        if dir.n_bytes_name < 10 || dir.n_bytes_name > 10000 {
             return Err(crate::riofs::error::Error::CantReadDirectoryInfo {
                 n_bytes_name_read: dir.n_bytes_name,
                 n_bytes_name_min_allowed: 10,
-                n_bytes_name_max_allowed: 1000,
+                n_bytes_name_max_allowed: 10000,
             });
         }
 
-- 
2.43.0


From f39ab668ab9bc8fe03552bb4bad9441aaa1c66f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 04/33] fix: flush the writer before close reports success

---
 oxyroot/src/riofs/file.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 9fb9554..9346694 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -129,6 +129,11 @@ impl RootFileWriter {
         self.writer.as_mut().expect("ERROR").write_all(buf)?;
         Ok(())
     }
+
+    pub(crate) fn flush(&mut self) -> Result<()> {
+        self.writer.as_mut().expect("ERROR").flush()?;
+        Ok(())
+    }
 }
 
 // impl Clone for RootFileWriter {
@@ -357,6 +362,7 @@ impl RootFile {
         self.write_streamer_info()?;
         self.write_free_segments()?;
         self.write_header()?;
+        self.writer()?.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From e3a3e6e374b8a5d72c430df92b7e21fd4ad47854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:39 +0000
Subject: [PATCH 05/33] fix: refuse a file without the ROOT magic with an error
 instead of a panic

---
 oxyroot/src/riofs/error.rs | 1 +
 oxyroot/src/riofs/file.rs  | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/riofs/error.rs b/oxyroot/src/riofs/error.rs
index 821c6c7..13521be 100644
--- a/oxyroot/src/riofs/error.rs
+++ b/oxyroot/src/riofs/error.rs
@@ -5,6 +5,7 @@ pub enum Error {
     TryFromSlice,
     Io(std::io::Error),
     FileHasAnIncorrectHeaderLength,
+    NotARootFile,
     CantReadDirectoryInfo {
         n_bytes_name_read: i32,
         n_bytes_name_min_allowed: i32,
diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 9346694..5b20a02 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -402,7 +402,9 @@ impl RootFile {
 
         trace!("magic = {:?}", magic);
 
-        assert_eq!(magic, ROOT_MAGIC.as_bytes());
+        if magic != ROOT_MAGIC.as_bytes() {
+            return Err(Error::NotARootFile);
+        }
 
         let version = r.read_i32()?;
         trace!("version = {}", version);
-- 
2.43.0


From b8292f13c6f7c693524141d97219b2671e3fcf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 06/33] fix: report reads beyond the end of a buffer as errors
 instead of panicking

---
 oxyroot/src/rbytes/rbuffer.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index 099a081..9707f35 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -27,19 +27,19 @@ impl<'a> Rbuff<'a> {
     // }
 
     fn extract_const_n<const N: usize>(&mut self) -> Result<&[u8]> {
-        let buf = &self.p[self.c..(self.c + N)];
-        self.c += N;
-        Ok(buf)
+        self.extract_n(N)
     }
 
     fn extract_as_array<const N: usize>(&mut self) -> Result<[u8; N]> {
-        let buf: [u8; N] = self.p[self.c..(self.c + N)].as_ref().try_into()?;
-        self.c += N;
-        Ok(buf)
+        Ok(self.extract_n(N)?.try_into()?)
     }
 
     fn extract_n(&mut self, n: usize) -> Result<&[u8]> {
-        let buf = &self.p[self.c..(self.c + n)];
+        let buf = self
+            .p
+            .get(self.c..)
+            .and_then(|b| b.get(..n))
+            .ok_or_else(|| Misc(format!("{n} bytes wanted beyond the end of the buffer")))?;
         self.c += n;
         Ok(buf)
     }
@@ -48,8 +48,8 @@ impl<'a> Rbuff<'a> {
     where
         F: FnMut(&u8) -> bool,
     {
-        let m = min(self.c + n, self.p.len());
-        let buf = &self.p[self.c..m];
+        let buf = self.p.get(self.c..).unwrap_or_default();
+        let buf = &buf[..min(n, buf.len())];
         let mut iter = buf.split(pred);
         if let Some(buf) = iter.next() {
             self.c += buf.len() + 1;
-- 
2.43.0


From 38b107957ef7b57c97fdb9fe38d314dc76849c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 07/33] fix: read through the file opened once instead of
 reopening its path

---
 oxyroot/src/riofs/file.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 5b20a02..5805979 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -8,6 +8,7 @@ use std::io::{BufReader, BufWriter, Read, Seek, SeekFrom, Write};
 use std::path::{Path, PathBuf};
 use std::ptr::addr_of;
 use std::rc::Rc;
+use std::sync::{Arc, Mutex};
 
 use crate::rbytes::rbuffer::RBuffer;
 use crate::rbytes::wbuffer::WBuffer;
@@ -57,10 +58,11 @@ impl RootFileHeader {
     }
 }
 
-#[derive(Default, Debug)]
+/// Clones share the file opened by [RootFileReader::new]: it is opened only once
+#[derive(Default, Debug, Clone)]
 pub(crate) struct RootFileReader {
     path: PathBuf,
-    reader: Option<BufReader<File>>,
+    reader: Option<Arc<Mutex<BufReader<File>>>>,
 }
 
 impl Display for RootFileReader {
@@ -79,28 +81,21 @@ impl RootFileReader {
         let buf_reader = BufReader::new(f);
         let reader = Self {
             path: path.as_ref().to_path_buf(),
-            reader: Some(buf_reader),
+            reader: Some(Arc::new(Mutex::new(buf_reader))),
         };
         Ok(reader)
     }
 
     pub(crate) fn read_at(&mut self, start: u64, len: u64) -> Result<Vec<u8>> {
-        self.reader
-            .as_mut()
-            .expect("ERROR")
-            .seek(SeekFrom::Start(start))?;
+        let reader = self.reader.as_ref().expect("ERROR");
+        let mut reader = reader.lock().unwrap_or_else(|e| e.into_inner());
+        reader.seek(SeekFrom::Start(start))?;
         let mut buf = vec![0; len as usize];
-        self.reader.as_mut().expect("ERROR").read_exact(&mut buf)?;
+        reader.read_exact(&mut buf)?;
         Ok(buf)
     }
 }
 
-impl Clone for RootFileReader {
-    fn clone(&self) -> Self {
-        RootFileReader::new(&self.path).unwrap()
-    }
-}
-
 #[derive(Default, Debug)]
 pub(crate) struct RootFileWriter {
     path: PathBuf,
-- 
2.43.0


From ba0d9897a869176dd405e85aafd47b5d2e8cc7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 08/33] fix: do not allocate a buffer larger than the file a
 record is read from

---
 oxyroot/src/riofs/file.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 5805979..f6c74f6 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -90,8 +90,12 @@ impl RootFileReader {
         let reader = self.reader.as_ref().expect("ERROR");
         let mut reader = reader.lock().unwrap_or_else(|e| e.into_inner());
         reader.seek(SeekFrom::Start(start))?;
-        let mut buf = vec![0; len as usize];
-        reader.read_exact(&mut buf)?;
+        // len comes from the file: do not allocate more than there is to read
+        let mut buf = Vec::with_capacity(len.min(1 << 20) as usize);
+        (&mut *reader).take(len).read_to_end(&mut buf)?;
+        if buf.len() as u64 != len {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
         Ok(buf)
     }
 }
-- 
2.43.0


From 8408dcf910d95192c3acbf659a1558f2a7bba331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:27 +0000
Subject: [PATCH 09/33] fix: report malformed objects and unknown compression
 as errors instead of panicking

---
 oxyroot/src/rbytes/rbuffer.rs |  6 +++---
 oxyroot/src/rcompress.rs      | 29 +++++++++++++----------------
 oxyroot/src/rcont/list.rs     |  8 ++++++--
 oxyroot/src/rdict/mod.rs      |  8 ++++++--
 4 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index 9707f35..3418f50 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -408,9 +408,9 @@ impl<'a> RBuffer<'a> {
 
             // trace!(";rbuffer.ReadObjectAny.default.{}.uref: {}", tag64, uref);
 
-            let fct = self.refs.get(&uref);
-            assert!(fct.is_some());
-            let fct = fct.unwrap();
+            let fct = self.refs.get(&uref).ok_or_else(|| {
+                Misc(format!("rbytes: reference to an unknown class (tag {tag64})"))
+            })?;
 
             // let fct = if let Func(fct) = fct {
             //     fct
diff --git a/oxyroot/src/rcompress.rs b/oxyroot/src/rcompress.rs
index 44a6ab9..8465cbc 100644
--- a/oxyroot/src/rcompress.rs
+++ b/oxyroot/src/rcompress.rs
@@ -74,13 +74,6 @@ pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
         end += tgtsz;
 
         match kind_of(hdr.as_ref()) {
-            Kind::Inherit => {
-                unimplemented!()
-            }
-            Kind::UseGlobal => {
-                unimplemented!()
-            }
-
             Kind::Zlib => {
                 let mut d = ZlibDecoder::new(src);
                 d.read_exact(dst.as_mut())?;
@@ -90,20 +83,24 @@ pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
                 let mut d = XzDecoder::new(src);
                 d.read_exact(dst.as_mut())?;
             }
-            Kind::OldCompression => {
-                unimplemented!()
-            }
             Kind::LZ4 => {
-                LZ4_decompress_to_buffer(&src[8..], Some(dst.len() as i32), dst)?;
+                let src = src.get(8..).ok_or_else(|| {
+                    std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "LZ4 block too short")
+                })?;
+                LZ4_decompress_to_buffer(src, Some(dst.len() as i32), dst)?;
                 return Ok(0);
                 // let mut d = LZ4Decoder::new(src)?;
                 // d.read_exact(dst.as_mut())?;
             }
-            Kind::Zstd => {
-                unimplemented!()
-            }
-            Kind::UndefinedCompression => {
-                unimplemented!()
+            Kind::Inherit
+            | Kind::UseGlobal
+            | Kind::OldCompression
+            | Kind::Zstd
+            | Kind::UndefinedCompression => {
+                return Err(Error::Io(std::io::Error::new(
+                    std::io::ErrorKind::InvalidData,
+                    "unknown or unsupported compression algorithm",
+                )));
             }
         }
     }
diff --git a/oxyroot/src/rcont/list.rs b/oxyroot/src/rcont/list.rs
index 1c26e21..3e00818 100644
--- a/oxyroot/src/rcont/list.rs
+++ b/oxyroot/src/rcont/list.rs
@@ -96,13 +96,17 @@ impl Unmarshaler for ReaderList {
         let size = r.read_i32()?;
 
         for _ in 0..size {
-            let obj = r.read_object_any_into()?.expect("something is wrong");
+            let obj = r.read_object_any_into()?.ok_or_else(|| {
+                crate::rbytes::Error::Misc("TList: null object in the list".to_string())
+            })?;
             self.objs.push(obj);
 
             let n = r.read_u8()?;
 
             if n > 0 {
-                unimplemented!()
+                return Err(crate::rbytes::Error::Misc(
+                    "TList: options of objects are not supported".to_string(),
+                ));
             }
 
             // todo!()
diff --git a/oxyroot/src/rdict/mod.rs b/oxyroot/src/rdict/mod.rs
index d594cd1..efc72fd 100644
--- a/oxyroot/src/rdict/mod.rs
+++ b/oxyroot/src/rdict/mod.rs
@@ -299,9 +299,13 @@ impl Unmarshaler for StreamerInfo {
         self.chksum = r.read_u32()?;
         self.clsver = r.read_i32()?;
 
-        let objs: Box<dyn FactoryItemRead> = r.read_object_any_into()?.expect("something is wrong");
+        let objs: Box<dyn FactoryItemRead> = r
+            .read_object_any_into()?
+            .ok_or_else(|| Misc("TStreamerInfo without its elements".to_string()))?;
 
-        let objarr = *objs.downcast::<rcont::objarray::ReaderObjArray>().unwrap();
+        let objarr = *objs
+            .downcast::<rcont::objarray::ReaderObjArray>()
+            .map_err(|_| Misc("TStreamerInfo: elements are not a TObjArray".to_string()))?;
         //
         // let objarr = r.read_object_into::<rcont::objarray::ObjArray>()?;
 
-- 
2.43.0


From 16701c0488d24a1f611bb5263b58bd7a757bf063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 10/33] fix: fetch trees by cycle, and trees whose name holds a
 semicolon, instead of panicking

---
 oxyroot/src/riofs/dir.rs   | 18 +++++++-----------
 oxyroot/src/riofs/utils.rs |  8 ++++----
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index 870533e..53092ee 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -299,23 +299,19 @@ impl TDirectoryFile {
     ) -> Result<Box<dyn FactoryItemRead>> {
         trace!("get_object, namecycle = {}", namecycle);
 
-        let (name, cycle) = decode_name_cycle(namecycle)?;
+        // a name may itself contain the separator of name and cycle
+        let (name, cycle) = if self.keys.iter().any(|k| k.name() == namecycle) {
+            (namecycle, 9999)
+        } else {
+            decode_name_cycle(namecycle)?
+        };
         trace!("get_object, name = {}", name);
         trace!("self.keys.len = {}", self.keys.len());
 
         let mut keys = self
             .keys
             .iter()
-            .filter(|k| {
-                if k.name() == name {
-                    if cycle != 9999 {
-                        todo!();
-                    }
-                    true
-                } else {
-                    false
-                }
-            })
+            .filter(|k| k.name() == name && (cycle == 9999 || k.cycle() == cycle as i32))
             .collect::<Vec<_>>();
 
         let key = match keys.len() {
diff --git a/oxyroot/src/riofs/utils.rs b/oxyroot/src/riofs/utils.rs
index 3c8c819..2ab0343 100644
--- a/oxyroot/src/riofs/utils.rs
+++ b/oxyroot/src/riofs/utils.rs
@@ -6,10 +6,10 @@ pub fn decode_name_cycle(namecycle: &str) -> Result<(&str, u16), Error> {
 
     match toks.len() {
         1 => Ok((toks[0], 9999)),
-        2 => {
-            unimplemented!()
-        }
-
+        2 => match toks[1].parse() {
+            Ok(cycle) => Ok((toks[0], cycle)),
+            Err(_) => Err(Error::CantDecodeNameCycle(namecycle.to_string())),
+        },
         _ => Err(Error::CantDecodeNameCycle(namecycle.to_string())),
     }
 }
-- 
2.43.0


From 917cc35e6c01465fec9b1e870617e812ca4f2475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:39 +0000
Subject: [PATCH 11/33] fix: hand each row to the derived writer before its
 nested structs

A struct of nested structs only wrote an empty tree: the callbacks of the
nested structs ran before the one they get their values from, so the first
row had nothing to write and writing ended.
---
 oxyroot_derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oxyroot_derive/src/lib.rs b/oxyroot_derive/src/lib.rs
index 5d125ac..0470445 100644
--- a/oxyroot_derive/src/lib.rs
+++ b/oxyroot_derive/src/lib.rs
@@ -827,8 +827,9 @@ pub fn derive_write_to_tree(input: proc_macro::TokenStream) -> proc_macro::Token
                     }
                 };
 
-                #new_branch
+                // before the callbacks of nested structs: these pass on what they get here
                 tree.add_callback(Box::new(func));
+                #new_branch
 
                 Ok(())
 
-- 
2.43.0


From 3af77a801f4a064f56e9f138cc531a6003cedf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 12/33] fix: keep files over 2 GB readable: 64-bit seeks in the
 directory record, keys and free list

---
 oxyroot/src/riofs/dir.rs  |  9 +++++++--
 oxyroot/src/riofs/file.rs | 20 +++++++++++++++-----
 oxyroot/src/riofs/key.rs  |  7 ++++---
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index 53092ee..9ce3243 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -3,6 +3,7 @@ use crate::riofs::file::{RootFile, RootFileReader};
 use crate::rbase::named::Named as ObjNamed;
 use crate::rbytes::rbuffer::RBuffer;
 use crate::rbytes::{Marshaler, StreamerInfoContext, Unmarshaler};
+use crate::riofs::consts::kStartBigFile;
 use crate::riofs::key::Key;
 use crate::riofs::utils::{datetime_to_u32, decode_name_cycle};
 use crate::root::traits::Named;
@@ -432,7 +433,11 @@ impl Unmarshaler for TDirectoryFile {
 impl Marshaler for TDirectoryFile {
     fn marshal(&self, w: &mut WBuffer) -> crate::rbytes::Result<i64> {
         let beg = w.pos();
-        let version = self.dir().rvers;
+        let mut version = self.dir().rvers;
+        let is_big_file = self.is_big_file() || self.seek_keys > kStartBigFile;
+        if is_big_file && version <= 1000 {
+            version += 1000;
+        }
         trace!(";TDirectoryFile.marshal.beg:{:?}", beg);
         trace!(";TDirectoryFile.marshal.version:{:?}", version);
         w.write_i16(version)?;
@@ -453,7 +458,7 @@ impl Marshaler for TDirectoryFile {
         );
         w.write_i32(self.n_bytes_name)?;
 
-        if self.is_big_file() {
+        if is_big_file {
             w.write_i64(self.seek_dir)?;
             w.write_i64(self.seek_parent)?;
             w.write_i64(self.seek_keys)?;
diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index f6c74f6..86a1763 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -474,10 +474,11 @@ impl RootFile {
             panic!("self.spans.len()")
         }
         let blk = self.spans.vec().last_mut().unwrap();
-        if blk.last != kStartBigFile {
-            panic!("blk.last")
-        }
         blk.first = pos;
+        // the last segment reaches beyond the end of the file, which may be big
+        while blk.first > blk.last {
+            blk.last += 1_000_000_000;
+        }
         Ok(())
     }
 
@@ -720,8 +721,17 @@ impl RootFile {
 
         assert_ne!(key.seek_key(), 0);
 
-        if !self.is_big_file() && self.end() > kStartBigFile {
-            unimplemented!("!self.is_big_file() && self.end() > kStartBigFile")
+        let nbytes_now = self.spans.vec().iter().map(FreeSegments::size_of).sum();
+        if nbytes_now != nbytes {
+            // this record took the file beyond the limit, which made the segments larger
+            self.set_end(key.seek_key())?;
+            key = Key::new(
+                self.dir.dir().named().name.clone(),
+                self.dir.dir().named().title.clone(),
+                "TFile".to_string(),
+                nbytes_now,
+                self,
+            )?;
         }
 
         let nbytes = key.obj_len();
diff --git a/oxyroot/src/riofs/key.rs b/oxyroot/src/riofs/key.rs
index 3e12c81..02311a0 100644
--- a/oxyroot/src/riofs/key.rs
+++ b/oxyroot/src/riofs/key.rs
@@ -227,14 +227,15 @@ impl Key {
             ..Default::default()
         };
         key.n_bytes = key.obj_len + key.key_len;
+        // as key_len_for: what counts is the end of the file before this key
+        if f.is_big_file() {
+            key.rvers += 1000
+        }
         let eof = f.end();
         if obj_len > 0 {
             key.seek_key = eof;
             f.set_end(key.seek_key + key.n_bytes as i64)?;
         }
-        if f.is_big_file() {
-            key.rvers += 1000
-        }
 
         key.seek_pdir = f.dir().seek_dir;
 
-- 
2.43.0


From bac515fc4ca559999ff5f2ae9a47235eaff4e8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 13/33] fix: refuse names whose key length does not fit the
 format instead of truncating it

---
 oxyroot/src/riofs/key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oxyroot/src/riofs/key.rs b/oxyroot/src/riofs/key.rs
index 02311a0..0e65e4d 100644
--- a/oxyroot/src/riofs/key.rs
+++ b/oxyroot/src/riofs/key.rs
@@ -163,7 +163,7 @@ impl Marshaler for Key {
         w.write_i32(self.obj_len)?;
         w.write_u32(datetime_to_u32(self.datetime))?;
         trace!(";KEY.marshal.{beg}.key_len:{:?}", self.key_len);
-        w.write_i16(self.key_len as i16)?;
+        w.write_i16(self.key_len.try_into()?)?;
         trace!(";KEY.marshal.{beg}.cycle:{:?}", self.cycle);
         w.write_i16(self.cycle)?;
 
-- 
2.43.0


From 149d8c93f2f075bd7d7c2563dc6490362ed2c06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 14/33] fix: refuse objects whose size does not fit the format
 instead of writing a truncated byte count

---
 oxyroot/src/rbytes/wbuffer.rs       | 15 ++++++++++++---
 oxyroot/src/riofs/key.rs            | 10 ++++++++--
 oxyroot/src/rtree/branch/wbranch.rs |  2 +-
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/oxyroot/src/rbytes/wbuffer.rs b/oxyroot/src/rbytes/wbuffer.rs
index 6343587..8c8ef31 100644
--- a/oxyroot/src/rbytes/wbuffer.rs
+++ b/oxyroot/src/rbytes/wbuffer.rs
@@ -1,5 +1,5 @@
 use crate::rbytes::consts::{kByteCountMask, kClassMask, kMapOffset, kNewClassTag};
-use crate::rbytes::{Header, Result};
+use crate::rbytes::{Error, Header, Result};
 use crate::rtypes::factory::FactoryItemWrite;
 use crate::Marshaler;
 use log::trace;
@@ -33,6 +33,14 @@ pub struct WBuffer {
     refs_s: HashMap<String, i64>, // refs: HashMap<i64, crate::rbytes::rbuffer::RBufferRefsItem>,
 }
 
+/// the byte count of an object has 30 bits
+fn byte_count(cnt: i64) -> Result<u32> {
+    if cnt >= kByteCountMask {
+        return Err(Error::Misc(format!("object of {cnt} bytes is too large")));
+    }
+    Ok((cnt | kByteCountMask) as u32)
+}
+
 impl WBuffer {
     pub(crate) fn write_array_u8(&mut self, p0: &[u8]) -> Result<()> {
         self.w.write_array_u8(p0)
@@ -170,7 +178,7 @@ impl WBuffer {
 
         // trace!(";WBuffer.set_header.{cur}.hdr.pos:{:?}", hdr.pos);
         let cnt = cur - hdr.pos - 4;
-        let w = (cnt | kByteCountMask) as u32;
+        let w = byte_count(cnt)?;
         let w = w.to_be_bytes();
         self.write_in_place(&w, hdr.pos as usize)?;
         // trace!(";WBuffer.set_header.{cur}.buf:{:?}", self.p());
@@ -210,7 +218,8 @@ impl WBuffer {
         let end = self.pos();
         trace!(";WBuffer.write_object_any.a{beg}.end:{:?}", end);
         trace!(";WBuffer.write_object_any.a{beg}.wpos:{:?}", pos);
-        self.write_in_place(&(bcnt as u32).to_be_bytes(), pos as usize)?;
+        let bcnt = byte_count(end - pos - 4)?;
+        self.write_in_place(&bcnt.to_be_bytes(), pos as usize)?;
         trace!(
             ";WBuffer.write_object_any.a{beg}.buf.value:{:?}",
             &self.p()[len..]
diff --git a/oxyroot/src/riofs/key.rs b/oxyroot/src/riofs/key.rs
index 0e65e4d..653c0fc 100644
--- a/oxyroot/src/riofs/key.rs
+++ b/oxyroot/src/riofs/key.rs
@@ -254,7 +254,7 @@ impl Key {
         trace!(";KEY.new_from_buffer.{indent}.f.end:{:?}", f.end());
         // trace!(";KEY.new_from_buffer.{indent}.buf.value:{:?}", &buf);
         let key_len = key_len_for(&name, &title, &class, f);
-        let obj_len = buf.len() as i32;
+        let obj_len = object_len(buf.len(), key_len)?;
         let mut key = Key {
             key_len,
             name,
@@ -343,7 +343,7 @@ impl Key {
 
         let mut buf = WBuffer::new(key_len as u32);
         obj.marshal(&mut buf)?;
-        let obj_len = buf.len() as i32;
+        let obj_len = object_len(buf.len(), key_len)?;
         trace!(";KEY.new_from_object.obj_len:{:?}", obj_len);
 
         let mut key = Key {
@@ -511,6 +511,12 @@ impl Key {
     }
 }
 
+/// The length of an object, whose record (with the key) has to stay below 2 GB
+fn object_len(len: usize, key_len: i32) -> Result<i32> {
+    let n_bytes = i32::try_from(len as i64 + key_len as i64).map_err(crate::rbytes::Error::from)?;
+    Ok(n_bytes - key_len)
+}
+
 fn key_len_for(name: &str, title: &str, class: &str, f: &RootFile) -> i32 {
     let mut nbytes = 22;
 
diff --git a/oxyroot/src/rtree/branch/wbranch.rs b/oxyroot/src/rtree/branch/wbranch.rs
index 2b3204b..88c5028 100644
--- a/oxyroot/src/rtree/branch/wbranch.rs
+++ b/oxyroot/src/rtree/branch/wbranch.rs
@@ -144,7 +144,7 @@ where
                 // basket.wbuf.write_object(&item).unwrap();
                 let sz_new = basket.wbuf.len();
                 trace!(";WBranch.write.{ident}.sz_new:{:?}", sz_new);
-                let n = (sz_new - sz_old) as i32;
+                let n = i32::try_from(sz_new - sz_old).map_err(crate::rbytes::Error::from)?;
                 if n > basket.basket.nev_size {
                     basket.basket.nev_size = n;
                 }
-- 
2.43.0


From c1f87ea317373f486fa206b173ce78f146acc018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 15/33] fix: decompress records made of several blocks, and
 check the block sizes

---
 oxyroot/src/rcompress.rs | 58 ++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/oxyroot/src/rcompress.rs b/oxyroot/src/rcompress.rs
index 8465cbc..a75fb48 100644
--- a/oxyroot/src/rcompress.rs
+++ b/oxyroot/src/rcompress.rs
@@ -55,57 +55,57 @@ fn kind_of(buf: &[u8]) -> Kind {
 }
 
 pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
-    let _beg = 0;
     let mut end = 0;
-    let buflen = dst.len() as i64;
     let mut hdr = [0_u8; HEADER_SIZE];
 
-    // let mut v =
-
-    while end < buflen {
-        // let src = src.as_mut();
+    while end < dst.len() {
         src.read_exact(&mut hdr)?;
-        // let _ = src.read_exact(dst)?;
-        // let _ = src.read_exact(dst)?;
 
-        let _srcsz = hdr[3] as i64 | (hdr[4] as i64) << 8 | (hdr[5] as i64) << 16;
-        let tgtsz = hdr[6] as i64 | (hdr[7] as i64) << 8 | (hdr[8] as i64) << 16;
-        // let tgtsz = hdr[6]) | int64(hdr[7])<<8 | int64(hdr[8])<<16
-        end += tgtsz;
+        let srcsz = hdr[3] as usize | (hdr[4] as usize) << 8 | (hdr[5] as usize) << 16;
+        let tgtsz = hdr[6] as usize | (hdr[7] as usize) << 8 | (hdr[8] as usize) << 16;
+
+        if srcsz > src.len() || tgtsz == 0 || tgtsz > dst.len() - end {
+            return Err(invalid_data("inconsistent size of a compressed block"));
+        }
+        let (block, next) = src.split_at(srcsz);
+        let out = &mut dst[end..end + tgtsz];
 
         match kind_of(hdr.as_ref()) {
             Kind::Zlib => {
-                let mut d = ZlibDecoder::new(src);
-                d.read_exact(dst.as_mut())?;
-                return Ok(0);
+                let mut d = ZlibDecoder::new(block);
+                d.read_exact(out)?;
             }
             Kind::Lzma => {
-                let mut d = XzDecoder::new(src);
-                d.read_exact(dst.as_mut())?;
+                let mut d = XzDecoder::new(block);
+                d.read_exact(out)?;
             }
             Kind::LZ4 => {
-                let src = src.get(8..).ok_or_else(|| {
-                    std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "LZ4 block too short")
-                })?;
-                LZ4_decompress_to_buffer(src, Some(dst.len() as i32), dst)?;
-                return Ok(0);
-                // let mut d = LZ4Decoder::new(src)?;
-                // d.read_exact(dst.as_mut())?;
+                // the block starts with a checksum of 8 bytes
+                let block = block
+                    .get(8..)
+                    .ok_or_else(|| invalid_data("LZ4 block too short"))?;
+                if LZ4_decompress_to_buffer(block, Some(tgtsz as i32), out)? != tgtsz {
+                    return Err(invalid_data("LZ4 block of the wrong size"));
+                }
             }
             Kind::Inherit
             | Kind::UseGlobal
             | Kind::OldCompression
             | Kind::Zstd
             | Kind::UndefinedCompression => {
-                return Err(Error::Io(std::io::Error::new(
-                    std::io::ErrorKind::InvalidData,
-                    "unknown or unsupported compression algorithm",
-                )));
+                return Err(invalid_data("unknown or unsupported compression algorithm"));
             }
         }
+
+        src = next;
+        end += tgtsz;
     }
 
-    Ok(0)
+    Ok(end)
+}
+
+fn invalid_data(msg: &str) -> Error {
+    Error::Io(std::io::Error::new(std::io::ErrorKind::InvalidData, msg))
 }
 
 fn root_compress_algo_level(algo: i32) -> (Kind, i32) {
-- 
2.43.0


From 32c138332a1e0491175f67cea1e1420b8a6e309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 16/33] fix: verify the checksums of compressed blocks

---
 oxyroot/src/rcompress.rs | 87 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 79 insertions(+), 8 deletions(-)

diff --git a/oxyroot/src/rcompress.rs b/oxyroot/src/rcompress.rs
index a75fb48..c03cf57 100644
--- a/oxyroot/src/rcompress.rs
+++ b/oxyroot/src/rcompress.rs
@@ -72,18 +72,20 @@ pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
 
         match kind_of(hdr.as_ref()) {
             Kind::Zlib => {
-                let mut d = ZlibDecoder::new(block);
-                d.read_exact(out)?;
+                read_whole(ZlibDecoder::new(block), out)?;
             }
             Kind::Lzma => {
-                let mut d = XzDecoder::new(block);
-                d.read_exact(out)?;
+                read_whole(XzDecoder::new(block), out)?;
             }
             Kind::LZ4 => {
-                // the block starts with a checksum of 8 bytes
-                let block = block
-                    .get(8..)
-                    .ok_or_else(|| invalid_data("LZ4 block too short"))?;
+                // the block starts with its checksum
+                if block.len() < 8 {
+                    return Err(invalid_data("LZ4 block too short"));
+                }
+                let (sum, block) = block.split_at(8);
+                if sum != xxh64(block).to_be_bytes() {
+                    return Err(invalid_data("wrong checksum of an LZ4 block"));
+                }
                 if LZ4_decompress_to_buffer(block, Some(tgtsz as i32), out)? != tgtsz {
                     return Err(invalid_data("LZ4 block of the wrong size"));
                 }
@@ -104,6 +106,75 @@ pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
     Ok(end)
 }
 
+/// Fills `out` with the whole stream. Reading up to its end has the decoder verify the checksum.
+fn read_whole(mut d: impl Read, out: &mut [u8]) -> Result<()> {
+    d.read_exact(out)?;
+    if d.read(&mut [0])? != 0 {
+        return Err(invalid_data("compressed block longer than announced"));
+    }
+    Ok(())
+}
+
+/// XXH64 with seed 0
+fn xxh64(data: &[u8]) -> u64 {
+    const P1: u64 = 0x9e37_79b1_85eb_ca87;
+    const P2: u64 = 0xc2b2_ae3d_27d4_eb4f;
+    const P3: u64 = 0x1656_67b1_9e37_79f9;
+    const P4: u64 = 0x85eb_ca77_c2b2_ae63;
+    const P5: u64 = 0x27d4_eb2f_1656_67c5;
+
+    fn round(acc: u64, input: u64) -> u64 {
+        acc.wrapping_add(input.wrapping_mul(P2))
+            .rotate_left(31)
+            .wrapping_mul(P1)
+    }
+    fn word(b: &[u8]) -> u64 {
+        b.iter().rev().fold(0, |w, x| w << 8 | *x as u64)
+    }
+
+    let mut rest = data;
+    let mut h = P5;
+    if data.len() >= 32 {
+        let mut acc = [P1.wrapping_add(P2), P2, 0, 0_u64.wrapping_sub(P1)];
+        while rest.len() >= 32 {
+            for (i, acc) in acc.iter_mut().enumerate() {
+                *acc = round(*acc, word(&rest[i * 8..i * 8 + 8]));
+            }
+            rest = &rest[32..];
+        }
+        h = [1, 7, 12, 18]
+            .iter()
+            .zip(acc)
+            .fold(0_u64, |h, (n, acc)| h.wrapping_add(acc.rotate_left(*n)));
+        for acc in acc {
+            h = (h ^ round(0, acc)).wrapping_mul(P1).wrapping_add(P4);
+        }
+    }
+    h = h.wrapping_add(data.len() as u64);
+    while rest.len() >= 8 {
+        h = (h ^ round(0, word(&rest[..8])))
+            .rotate_left(27)
+            .wrapping_mul(P1)
+            .wrapping_add(P4);
+        rest = &rest[8..];
+    }
+    if rest.len() >= 4 {
+        h = (h ^ word(&rest[..4]).wrapping_mul(P1))
+            .rotate_left(23)
+            .wrapping_mul(P2)
+            .wrapping_add(P3);
+        rest = &rest[4..];
+    }
+    for b in rest {
+        h = (h ^ (*b as u64).wrapping_mul(P5))
+            .rotate_left(11)
+            .wrapping_mul(P1);
+    }
+    h = (h ^ (h >> 33)).wrapping_mul(P2);
+    h = (h ^ (h >> 29)).wrapping_mul(P3);
+    h ^ (h >> 32)
+}
+
 fn invalid_data(msg: &str) -> Error {
     Error::Io(std::io::Error::new(std::io::ErrorKind::InvalidData, msg))
 }
-- 
2.43.0


From 325a24b256405ed57b9bc93d7270a95a6272a42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 17/33] fix: refuse keys whose lengths contradict each other
 instead of panicking

---
 oxyroot/src/riofs/key.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/oxyroot/src/riofs/key.rs b/oxyroot/src/riofs/key.rs
index 653c0fc..66003df 100644
--- a/oxyroot/src/riofs/key.rs
+++ b/oxyroot/src/riofs/key.rs
@@ -399,19 +399,20 @@ impl Key {
     }
 
     fn load(&self, file: &mut RootFileReader) -> Result<Vec<u8>> {
-        if self.is_compressed() {
-            let mut buf = vec![0; self.obj_len as usize];
-            let start = self.seek_key as u64 + self.key_len as u64;
-            let sr = file.read_at(start, (self.n_bytes as u64) - (self.key_len as u64))?;
+        // the lengths come from the file
+        let obj_len = usize::try_from(self.obj_len).map_err(crate::rbytes::Error::from)?;
+        let len = self.n_bytes as i64 - self.key_len as i64;
+        let len = u64::try_from(len).map_err(crate::rbytes::Error::from)?;
+        let start = self.seek_key as u64 + self.key_len as u64;
 
-            rcompress::decompress(&mut buf, &sr)?;
+        let buf = file.read_at(start, len)?;
 
-            return Ok(buf);
+        if self.is_compressed() {
+            let mut dst = vec![0; obj_len];
+            rcompress::decompress(&mut dst, &buf)?;
+            return Ok(dst);
         }
 
-        let start = self.seek_key as u64 + self.key_len as u64;
-
-        let buf = file.read_at(start, self.obj_len as u64)?;
         Ok(buf)
     }
 
-- 
2.43.0


From d7539a2bb5b2905f6367cfa1d4dfea24f87a6803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 18/33] fix: any branch could be read as a HashMap, and a
 HashSet of strings was refused

---
 oxyroot/src/rbytes/mod.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/rbytes/mod.rs b/oxyroot/src/rbytes/mod.rs
index 4eba0b7..5e9c72f 100644
--- a/oxyroot/src/rbytes/mod.rs
+++ b/oxyroot/src/rbytes/mod.rs
@@ -382,7 +382,11 @@ where
     {
         match T::classe_name() {
             None => None,
-            Some(tys) => vec![format!("set<{}>", tys.first().unwrap())].into(),
+            Some(tys) => tys
+                .iter()
+                .map(|t| format!("set<{}>", t))
+                .collect::<Vec<String>>()
+                .into(),
         }
     }
 }
@@ -423,6 +427,22 @@ where
 
         Ok(())
     }
+
+    fn class_name() -> Option<Vec<String>>
+    where
+        Self: Sized,
+    {
+        let (keys, values) = (K::classe_name()?, V::classe_name()?);
+        let mut tys = Vec::new();
+        for k in &keys {
+            for v in &values {
+                for map in ["map", "unordered_map"] {
+                    tys.push(format!("{map}<{k},{v}>"));
+                }
+            }
+        }
+        Some(tys)
+    }
 }
 
 impl<T, const N: usize> Unmarshaler for [T; N]
-- 
2.43.0


From 2261cf37082276684e09b225265d7f46dbc1b1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 19/33] fix: oxyroot-dump silently skipped branches of 64-bit
 integer lists

---
 oxyroot-dump/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oxyroot-dump/src/main.rs b/oxyroot-dump/src/main.rs
index bdc43c7..c414c16 100644
--- a/oxyroot-dump/src/main.rs
+++ b/oxyroot-dump/src/main.rs
@@ -148,7 +148,13 @@ impl<'a> ZipperDumperItem<'a> {
             "Slice<i32>" => make_box_branch_for_type::<Slice<i32>>(branch),
             "u32" => make_box_branch_for_type::<u32>(branch),
             "u64" => make_box_branch_for_type::<u64>(branch),
+            "Vec<u64>" => make_box_branch_for_type::<Vec<u64>>(branch),
+            "Vec<Vec<u64>>" => make_box_branch_for_type::<Vec<Vec<u64>>>(branch),
+            "Slice<u64>" => make_box_branch_for_type::<Slice<u64>>(branch),
             "i64" => make_box_branch_for_type::<i64>(branch),
+            "Vec<i64>" => make_box_branch_for_type::<Vec<i64>>(branch),
+            "Vec<Vec<i64>>" => make_box_branch_for_type::<Vec<Vec<i64>>>(branch),
+            "Slice<i64>" => make_box_branch_for_type::<Slice<i64>>(branch),
             "Vec<u32>" => make_box_branch_for_type::<Vec<u32>>(branch),
             "Vec<Vec<u32>>" => make_box_branch_for_type::<Vec<Vec<u32>>>(branch),
             "Slice<u32>" => make_box_branch_for_type::<Slice<u32>>(branch),
-- 
2.43.0


From c9bc5148cd85c5db5d4d4eb24c299633dc480824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:46 +0000
Subject: [PATCH 20/33] fix: writing a tree a second time damaged the file

---
 oxyroot/src/riofs/error.rs       |  1 +
 oxyroot/src/rtree/tree/writer.rs | 24 ++++++++++++++++++------
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/oxyroot/src/riofs/error.rs b/oxyroot/src/riofs/error.rs
index 13521be..b2b1dc1 100644
--- a/oxyroot/src/riofs/error.rs
+++ b/oxyroot/src/riofs/error.rs
@@ -38,6 +38,7 @@ pub enum Error {
     FileIsNotOpened,
     // Writer Errors
     NameContainsSlash(String),
+    TreeAlreadyWritten(String),
     KeyClassMismatch {
         key: String,
         key_class: String,
diff --git a/oxyroot/src/rtree/tree/writer.rs b/oxyroot/src/rtree/tree/writer.rs
index 1429660..3cfb4f7 100644
--- a/oxyroot/src/rtree/tree/writer.rs
+++ b/oxyroot/src/rtree/tree/writer.rs
@@ -2,6 +2,7 @@ use crate::rbytes::{RVersioner, WBuffer};
 use crate::rcont::objarray::WriterObjArray;
 use crate::rdict::StreamerInfo;
 use crate::riofs::file::RootFileStreamerInfoContext;
+use crate::riofs::Error;
 use crate::rtree::branch::wbranch::WBranch;
 use crate::rtree::tree::base::Tree;
 use crate::rtree::tree::tio_features::TioFeatures;
@@ -83,8 +84,10 @@ impl WriterTree {
     }
 
     pub(crate) fn add_streamer(&mut self, si: StreamerInfo) {
-        let sis = self.tree.sinfos.as_mut().unwrap();
-        sis.push(si);
+        // none after the tree was written
+        if let Some(sis) = self.tree.sinfos.as_mut() {
+            sis.push(si);
+        }
     }
 
     /// Add a new branch to the tree.
@@ -112,7 +115,14 @@ impl WriterTree {
     /// registered with [add_callback](#method.add_callback) are called for each new entry:
     /// - Before writing branches with the argument [StateCallBack::Before](enum.StateCallBack.html)
     /// - Before writing each branch with the argument [StateCallBack::Branch](enum.StateCallBack.html)
+    ///
+    /// A tree can be written only once, as the iterators are consumed even if writing fails.
     pub fn write(&mut self, file: &mut RootFile) -> crate::riofs::Result<()> {
+        let sis = match self.tree.sinfos.take() {
+            Some(sis) => sis,
+            None => return Err(Error::TreeAlreadyWritten(self.name().to_string())),
+        };
+
         let mut branchs_done = self
             .tree
             .branches
@@ -149,7 +159,7 @@ impl WriterTree {
 
         trace!(";WriterTree.write_all.entries:{:?}", self.tree.entries);
 
-        self.close(file)
+        self.close(file, sis)
     }
 
     fn flush(&mut self, file: &mut RootFile) -> crate::riofs::Result<()> {
@@ -161,7 +171,11 @@ impl WriterTree {
     }
 
     /// Called by file close method.
-    fn close(&mut self, file: &mut RootFile) -> crate::riofs::Result<()> {
+    fn close(
+        &mut self,
+        file: &mut RootFile,
+        sis: RootFileStreamerInfoContext,
+    ) -> crate::riofs::Result<()> {
         trace!(";WriterTree.close:{:?}", true);
         self.flush(file)?;
 
@@ -169,8 +183,6 @@ impl WriterTree {
 
         file.put(self.tree.named.name(), self)?;
 
-        let sis = self.tree.sinfos.take().unwrap();
-
         for si in sis.list().iter() {
             file.add_streamer_info(si.clone());
         }
-- 
2.43.0


From cb7cfbe5b1c44304f12a60afc37fccaf0eedfb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:46 +0000
Subject: [PATCH 21/33] fix: trees written to a closed file were lost, and
 closing it again panicked

---
 oxyroot/src/riofs/file.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 86a1763..5bc205c 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -355,6 +355,11 @@ impl RootFile {
     }
 
     pub fn close(&mut self) -> Result<()> {
+        self.writer()?;
+        // a close that failed half way is done over
+        self.header.seek_info = 0;
+        self.header.seek_free = 0;
+
         let mut dir = self.dir().clone();
         dir.close(self)?;
         let _ = std::mem::replace(&mut self.dir, dir);
@@ -363,6 +368,9 @@ impl RootFile {
         self.write_header()?;
         self.writer()?.flush()?;
 
+        // nothing can be added to a finished file
+        self.inner = RootFileInner::None;
+
         Ok(())
     }
 
-- 
2.43.0


From 6475e7c904b96bc33595dbb792a27c79dbd26aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:46 +0000
Subject: [PATCH 22/33] fix: version numbers of a name wrapped around after
 32767

---
 oxyroot/src/riofs/file.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 5bc205c..6ba6ea2 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -319,7 +319,7 @@ impl RootFile {
             }
         }
 
-        cycle += 1;
+        let cycle = i16::try_from(cycle + 1).map_err(crate::rbytes::Error::from)?;
         let typename = obj.class();
         trace!(";TDirectoryFile.put.typename:{:?}", typename);
         trace!(
@@ -336,7 +336,7 @@ impl RootFile {
         // trace!(";TDirectoryFile.put.file.sinfos:{:?}", self.sinfos);
 
         let mut key = Key::new_from_object(name, title, obj.class(), obj, self)?;
-        key.set_cycle(cycle as i16);
+        key.set_cycle(cycle);
         key.write_to_file(self.writer()?)?;
         self.dir.keys.push(key);
         Ok(())
-- 
2.43.0


From 1dc4a07d6cfcda085e439c236a5b7dfe9a5cb80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:46 +0000
Subject: [PATCH 23/33] fix: get_tree panicked when the name is that of another
 object

---
 oxyroot/src/riofs/file.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 6ba6ea2..f947755 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -918,7 +918,15 @@ impl RootFile {
 
     pub fn get_tree(&mut self, name: &str) -> Result<ReaderTree> {
         let objet = self.get_object(name)?;
-        let mut objet: ReaderTree = *objet.downcast::<ReaderTree>().expect("");
+        let class = objet.class().to_string();
+        let mut objet: ReaderTree =
+            *objet
+                .downcast::<ReaderTree>()
+                .map_err(|_| Error::KeyClassMismatch {
+                    key: name.to_string(),
+                    key_class: class,
+                    obj_class: "TTree".to_string(),
+                })?;
 
         objet.set_reader(Some(self.reader()?.clone()));
         objet.set_streamer_info(self.sinfos.clone());
-- 
2.43.0


From 9e4752602f952c82963ddcfaf8f93db5a8c1086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:46 +0000
Subject: [PATCH 24/33] fix: negative lengths in the record of keys

---
 oxyroot/src/riofs/dir.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index 9ce3243..9f67257 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -104,10 +104,10 @@ impl TDirectoryFile {
 
         trace!("read_keys: hdr = {:?}", hdr);
 
-        let data = file.read_at(
-            self.seek_keys as u64 + hdr.key_len() as u64,
-            hdr.obj_len() as u64,
-        )?;
+        // the lengths come from the file
+        let key_len = u64::try_from(hdr.key_len()).map_err(crate::rbytes::Error::from)?;
+        let obj_len = u64::try_from(hdr.obj_len()).map_err(crate::rbytes::Error::from)?;
+        let data = file.read_at(self.seek_keys as u64 + key_len, obj_len)?;
 
         let mut r = RBuffer::new(&data, 0);
         let nkeys = r.read_i32()?;
-- 
2.43.0


From a48cad424ac3961eb427df1877c4c5cacf4f4386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:46 +0000
Subject: [PATCH 25/33] fix: arrays of variable length were mistaken for single
 values

---
 oxyroot/src/rtree/branch/tbranch.rs | 51 +++++++++++++----------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 29f69c5..cceb307 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -236,34 +236,7 @@ impl TBranch {
                         Leaf::Element(_) => {
                             panic!("I dont want to be here (Element should be in TBranchElement)");
                         }
-                        _ => {
-                            let n_elements_in_buffer = buf.len() / chunk_size as usize;
-                            // trial and error...
-                            if n_elements_in_buffer == self.entries as usize {
-                                // assert_eq!(n, self.entries as usize);
-                                trace!("send ({n},{chunk_size},{:?})", buf);
-                                BranchChunks::RegularSized((
-                                    n_elements_in_buffer as i32,
-                                    chunk_size,
-                                    buf,
-                                ))
-                            } else {
-                                let byte_offsets =
-                                    byte_offsets.iter().zip(byte_offsets.iter().skip(1));
-                                let data: Vec<_> = byte_offsets
-                                    .map(|(start, stop)| {
-                                        let b = &buf[*start as usize..*stop as usize];
-                                        b.to_vec()
-                                    })
-                                    .collect();
-                                BranchChunks::IrregularSized((n, data, 0))
-                            }
-                        } // _ => {
-                          //     trace!("leave = {:?}", leave);
-                          //     let n = buf.len() / chunk_size as usize;
-                          //     trace!("send ({n},{chunk_size},{:?})", buf);
-                          //     BranchChunks::RegularSized((n as i32, chunk_size, buf))
-                          // }
+                        _ => self.chunk_with_offsets(n, chunk_size, buf, &byte_offsets),
                     },
                 }
             });
@@ -273,6 +246,28 @@ impl TBranch {
         }
     }
 
+    /// Entries of a basket that comes with the offsets of its entries.
+    fn chunk_with_offsets(
+        &self,
+        n: i32,
+        chunk_size: i32,
+        buf: Vec<u8>,
+        byte_offsets: &[i32],
+    ) -> BranchChunks {
+        let mut sizes = byte_offsets.windows(2).map(|w| w[1] - w[0]);
+
+        // single values, which need no offsets
+        if sizes.all(|s| s == chunk_size) && !self.item_type_name().ends_with(']') {
+            return BranchChunks::RegularSized((n, chunk_size, buf));
+        }
+
+        let data = byte_offsets
+            .windows(2)
+            .map(|w| buf[w[0] as usize..w[1] as usize].to_vec())
+            .collect();
+        BranchChunks::IrregularSized((n, data, 0))
+    }
+
     pub fn entries(&self) -> i64 {
         self.entries
     }
-- 
2.43.0


From 5128d6ef3532537e2a5e782b010a09f389b96652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:46 +0000
Subject: [PATCH 26/33] fix: baskets kept inside the tree came first, and
 without their offsets

---
 oxyroot/src/rtree/branch/tbranch.rs         | 24 +++++++++++++++------
 oxyroot/src/rtree/branch/tbranch_element.rs |  8 ++++++-
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index cceb307..ed2b3ff 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -14,6 +14,7 @@ use itertools::izip;
 use lazy_static::lazy_static;
 use log::trace;
 use regex::Regex;
+use std::iter::once;
 
 pub(crate) const DEFAULT_BASKET_SIZE: i32 = 32 * 1024;
 // pub(crate) const DEFAULT_SPLIT_LEVEL: i32 = 99;
@@ -181,19 +182,29 @@ impl TBranch {
         let embedded_basket = if !self.baskets.is_empty() {
             assert_eq!(self.baskets.len(), 1);
 
-            Some(self.baskets.iter().map(|b| {
-                let key_lenght = b.key().key_len() as usize;
+            Some(self.baskets.iter().map(move |b| {
+                let key_lenght = b.key().key_len();
                 let buf = b
                     .key()
                     .buffer()
                     .iter()
-                    .skip(key_lenght)
+                    .skip(key_lenght as usize)
                     .cloned()
                     .collect::<Vec<_>>();
                 let n = b.nev_buf();
-                let chunk_size = 1;
 
-                BranchChunks::RegularSized((n, chunk_size, buf))
+                match self.leaves.first() {
+                    Some(leave) if !matches!(leave, Leaf::C(_)) && !b.offsets().is_empty() => {
+                        let byte_offsets = b
+                            .offsets()
+                            .iter()
+                            .map(|o| o - key_lenght)
+                            .chain(once(buf.len() as i32))
+                            .collect::<Vec<_>>();
+                        self.chunk_with_offsets(n, leave.etype(), buf, &byte_offsets)
+                    }
+                    _ => BranchChunks::RegularSized((n, 1, buf)),
+                }
             }))
         } else {
             None
@@ -242,7 +253,8 @@ impl TBranch {
             });
         match embedded_basket {
             None => Box::new(ret),
-            Some(before) => Box::new(before.chain(ret)),
+            // the basket inside the tree is the last one
+            Some(last) => Box::new(ret.chain(last)),
         }
     }
 
diff --git a/oxyroot/src/rtree/branch/tbranch_element.rs b/oxyroot/src/rtree/branch/tbranch_element.rs
index be4fe6f..6b779a9 100644
--- a/oxyroot/src/rtree/branch/tbranch_element.rs
+++ b/oxyroot/src/rtree/branch/tbranch_element.rs
@@ -270,6 +270,11 @@ impl TBranchElement {
                 let key_lenght = b.key().key_len();
                 let buf = b.key().buffer();
 
+                if b.offsets().is_empty() {
+                    let data = buf[key_lenght as usize..].to_vec();
+                    return BranchChunks::RegularSized((b.nev_buf(), b.entry_size(), data));
+                }
+
                 let n = buf.len() as i32;
 
                 let offsets = b.offsets().iter().chain(once(&n));
@@ -437,7 +442,8 @@ impl TBranchElement {
         });
         match embedded_basket {
             None => Box::new(ret),
-            Some(before) => Box::new(before.chain(ret)),
+            // the basket inside the tree is the last one
+            Some(last) => Box::new(ret.chain(last)),
         }
     }
 }
-- 
2.43.0


From 790522df3b8bb005a5709a0fabdea8edcc585497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:46 +0000
Subject: [PATCH 27/33] fix: arrays of several dimensions were read by one of
 them

---
 oxyroot/src/rbytes/mod.rs                   |  3 +-
 oxyroot/src/rtree/branch/tbranch.rs         | 37 +-----------
 oxyroot/src/rtree/branch/tbranch_element.rs | 36 +----------
 oxyroot/src/rtree/streamer_type.rs          | 67 +++++++++++++--------
 oxyroot/src/rusty/containers.rs             |  3 +-
 5 files changed, 50 insertions(+), 96 deletions(-)

diff --git a/oxyroot/src/rbytes/mod.rs b/oxyroot/src/rbytes/mod.rs
index 5e9c72f..f8826a0 100644
--- a/oxyroot/src/rbytes/mod.rs
+++ b/oxyroot/src/rbytes/mod.rs
@@ -1,5 +1,6 @@
 use crate::rdict::StreamerInfo;
 use crate::root;
+use crate::rtree::streamer_type::array_of;
 pub use error::Error;
 pub use error::Result;
 use rbuffer::RBuffer;
@@ -468,7 +469,7 @@ where
             None => None,
             Some(tys) => tys
                 .iter()
-                .map(|t| format!("{}[{N}]", t))
+                .map(|t| array_of(t, &format!("[{N}]")))
                 .collect::<Vec<String>>()
                 .into(),
         }
diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index ed2b3ff..3d80ff8 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -8,12 +8,11 @@ use crate::rtree::basket::{Basket, BasketData};
 use crate::rtree::branch::tbranch_props::TBranchProps;
 use crate::rtree::branch::BranchChunks;
 use crate::rtree::leaf::Leaf;
+use crate::rtree::streamer_type::dims_of_title;
 use crate::rtree::tree::tio_features::TioFeatures;
 use crate::{factory_fn_register_impl, rbase, rvers, Branch, Marshaler, RBuffer, Unmarshaler};
 use itertools::izip;
-use lazy_static::lazy_static;
 use log::trace;
-use regex::Regex;
 use std::iter::once;
 
 pub(crate) const DEFAULT_BASKET_SIZE: i32 = 32 * 1024;
@@ -293,40 +292,8 @@ impl TBranch {
             let leave = self.leaves.first().unwrap();
             trace!("leave = {:?}", leave);
 
-            lazy_static! {
-                static ref RE_TITLE_HAS_DIMS: Regex =
-                    Regex::new(r"^([^\[\]]*)(\[[^\[\]]+\])+").unwrap();
-                static ref RE_ITEM_DIM_PATTERN: Regex = Regex::new(r"\[([1-9][0-9]*)\]").unwrap();
-            }
-
-            let m = RE_TITLE_HAS_DIMS.captures(leave.title());
-            trace!("RE_TITLE_HAS_DIMS = {:?}", m);
-
-            let dim = if m.is_some() {
-                if let Some(m) = RE_ITEM_DIM_PATTERN.captures(leave.title()) {
-                    trace!("m = {:?}", m);
-                    let dim: &str = m.get(1).unwrap().as_str();
-                    Some(dim.parse::<i32>().unwrap())
-                } else {
-                    Some(0)
-                }
-            } else {
-                None
-            };
-
             match leave.type_name() {
-                Some(s) => match dim {
-                    None => {
-                        return s.to_string();
-                    }
-                    Some(dim) => {
-                        if dim > 0 {
-                            return format!("{}[{}]", s, dim);
-                        } else {
-                            return format!("{}[]", s);
-                        }
-                    }
-                },
+                Some(s) => return format!("{}{}", s, dims_of_title(leave.title())),
                 None => panic!("can not be here"),
             };
         }
diff --git a/oxyroot/src/rtree/branch/tbranch_element.rs b/oxyroot/src/rtree/branch/tbranch_element.rs
index 6b779a9..61b86c7 100644
--- a/oxyroot/src/rtree/branch/tbranch_element.rs
+++ b/oxyroot/src/rtree/branch/tbranch_element.rs
@@ -9,7 +9,7 @@ use crate::rtree::branch::tbranch_props::TBranchProps;
 use crate::rtree::branch::{BranchChunks, TBranch};
 use crate::rtree::leaf::Leaf;
 use crate::rtree::streamer_type;
-use crate::rtree::streamer_type::{_from_leaftype_to_str, clean_type_name};
+use crate::rtree::streamer_type::{_from_leaftype_to_str, clean_type_name, dims_of_title};
 use crate::{factory_fn_register_impl, Marshaler, RBuffer, Unmarshaler};
 use itertools::izip;
 use lazy_static::lazy_static;
@@ -128,26 +128,7 @@ impl TBranchElement {
         } else if self.branch.leaves.len() == 1 {
             let leave = self.branch.leaves.first().unwrap();
             trace!("leave = {:?}", leave);
-            lazy_static! {
-                static ref RE_TITLE_HAS_DIMS: Regex =
-                    Regex::new(r"^([^\[\]]*)(\[[^\[\]]+\])+").unwrap();
-                static ref RE_ITEM_DIM_PATTERN: Regex = Regex::new(r"\[([1-9][0-9]*)\]").unwrap();
-            }
-
-            let m = RE_TITLE_HAS_DIMS.captures(leave.title());
-            trace!("RE_TITLE_HAS_DIMS = {:?}", m);
-
-            let dim = if m.is_some() {
-                if let Some(m) = RE_ITEM_DIM_PATTERN.captures(leave.title()) {
-                    trace!("m = {:?}", m);
-                    let dim: &str = m.get(1).unwrap().as_str();
-                    Some(dim.parse::<i32>().unwrap())
-                } else {
-                    Some(0)
-                }
-            } else {
-                None
-            };
+            let dims = dims_of_title(leave.title());
 
             return match leave.type_name() {
                 Some(t) => t.into(),
@@ -158,18 +139,7 @@ impl TBranchElement {
                     Leaf::Element(leave) => {
                         let leaftype = leave.ltype;
                         if let Some(s) = _from_leaftype_to_str(leaftype) {
-                            trace!("dim = {:?}", dim);
-                            match dim {
-                                None => {}
-                                Some(dim) => {
-                                    if dim > 0 {
-                                        return format!("{}[{}]", s, dim);
-                                    } else {
-                                        return format!("{}[]", s);
-                                    }
-                                }
-                            }
-                            return s.into();
+                            return format!("{}{}", s, dims);
                         }
 
                         if self.streamer_type() == EReadWrite::TString.to_i32() {
diff --git a/oxyroot/src/rtree/streamer_type.rs b/oxyroot/src/rtree/streamer_type.rs
index 05f793c..f63cde3 100644
--- a/oxyroot/src/rtree/streamer_type.rs
+++ b/oxyroot/src/rtree/streamer_type.rs
@@ -2,7 +2,7 @@ use crate::rdict::Streamer;
 use crate::rmeta::{EReadWrite, Enum, EnumNamed};
 use lazy_static::lazy_static;
 use log::trace;
-use regex::Regex;
+use regex::{Captures, Regex};
 
 lazy_static! {
     static ref RE: Regex =
@@ -301,37 +301,52 @@ pub(crate) fn type_name_cpp_to_rust(ty: &str) -> String {
 
     for (cpp, rust) in replaces.iter() {
         ret = ret.replace(cpp, rust);
+    }
 
-        //i32[] -> Slice<i32>
-        let cpp_s = format!("{}[]", rust);
-        let rust_s = format!("Slice<{}>", rust);
-        ret = ret.replace(cpp_s.as_str(), rust_s.as_str());
-
-        let start = &format!("{}[", rust);
-        let end = "]";
-        // trace!("ty = {} -> ret = {}", ty, ret);
-        if let Some(start) = ret.find(start) {
-            let start = start + rust.len() + 1;
-            // trace!("\tstart = {}", start);
-
-            let right = ret.get(start..).unwrap();
-            // trace!("\tright = {}", right);
-            if !right.starts_with(']') {
-                let end = right.find(end).unwrap();
-                // trace!("\t\tend = {}", end);
-                let inner = ret.get(start..(end + start)).unwrap();
-                // trace!("\t\tinner = {}", inner);
-                let rust_s = format!("{}[{}]", rust, inner);
-                let rust_o = format!("[{};{}]", rust, inner);
-                // trace!("\t\trust_s = {}", rust_s);
-                ret = ret.replace(rust_s.as_str(), rust_o.as_str());
-            }
-        }
+    lazy_static! {
+        static ref RE_ARRAY: Regex =
+            Regex::new(r"\b(u64|i64|u32|i32|u16|i16|u8|i8|f32|f64|bool)((?:\[[^\[\]]*\])+)")
+                .unwrap();
     }
 
+    // i32[] -> Slice<i32>, i32[3] -> [i32;3], i32[2][3] -> [[i32;3];2]
+    let ret = RE_ARRAY.replace_all(&ret, |m: &Captures| {
+        let dims = &m[2][1..m[2].len() - 1];
+        dims.rsplit("][")
+            .fold(m[1].to_string(), |item, dim| match dim {
+                "" => format!("Slice<{item}>"),
+                _ => format!("[{item};{dim}]"),
+            })
+    });
+
     ret.replace("char*", "String")
 }
 
+/// Dimensions announced by the title of a leaf, the ones given by a number of the form `[N]`
+/// and the ones which change with entries of the form `[]`
+pub(crate) fn dims_of_title(title: &str) -> String {
+    lazy_static! {
+        static ref RE_DIM: Regex = Regex::new(r"\[([^\[\]]+)\]").unwrap();
+    }
+
+    RE_DIM
+        .captures_iter(title)
+        .map(|dim| match dim[1].parse::<u32>() {
+            Ok(n) if n > 0 => format!("[{n}]"),
+            _ => "[]".to_string(),
+        })
+        .collect()
+}
+
+/// Name of an array of `item`, the outermost dimension being `dim` (`[N]` or `[]`)
+pub(crate) fn array_of(item: &str, dim: &str) -> String {
+    let mut ty = item;
+    while let Some(start) = ty.strip_suffix(']').and_then(|ty| ty.rfind('[')) {
+        ty = &ty[..start];
+    }
+    format!("{ty}{dim}{}", &item[ty.len()..])
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/oxyroot/src/rusty/containers.rs b/oxyroot/src/rusty/containers.rs
index 1073a2e..ffd07ca 100644
--- a/oxyroot/src/rusty/containers.rs
+++ b/oxyroot/src/rusty/containers.rs
@@ -1,4 +1,5 @@
 use crate::rbytes::{Unmarshaler, UnmarshalerInto};
+use crate::rtree::streamer_type::array_of;
 use crate::RBuffer;
 use log::trace;
 use std::fmt::Debug;
@@ -82,7 +83,7 @@ where
             None => None,
             Some(tys) => tys
                 .iter()
-                .map(|t| format!("{}[]", t))
+                .map(|t| array_of(t, "[]"))
                 .collect::<Vec<String>>()
                 .into(),
         }
-- 
2.43.0


From 290716ab54baded3d58b6b9482abd81d0da78ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:46 +0000
Subject: [PATCH 28/33] fix: structures of split branches were cut wrong for
 arrays and baskets inside the tree

---
 oxyroot/src/rtree/branch/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/rtree/branch/mod.rs b/oxyroot/src/rtree/branch/mod.rs
index fc1e4f4..5d61e2a 100644
--- a/oxyroot/src/rtree/branch/mod.rs
+++ b/oxyroot/src/rtree/branch/mod.rs
@@ -345,10 +345,24 @@ impl<'a, T> ZiperBranches<'a, T> {
     }
 }
 
+/// Next chunk which has entries, with the size these have in this chunk (all elements of an array).
+fn next_chunk(it: &mut dyn Iterator<Item = BranchChunks>) -> Option<BranchChunks> {
+    it.map(|chunk| match chunk {
+        BranchChunks::RegularSized((n, _, buf)) if n > 0 => {
+            BranchChunks::RegularSized((n, buf.len() as i32 / n, buf))
+        }
+        chunk => chunk,
+    })
+    .find(|chunk| match chunk {
+        BranchChunks::RegularSized((n, _, _)) => *n > 0,
+        BranchChunks::IrregularSized((_, data, _)) => !data.is_empty(),
+    })
+}
+
 impl<'a, T> ZiperBranches<'a, T> {
     fn fill_output(&mut self) {
         for it_branch in &mut self.iterators {
-            if let Some(chunk) = it_branch.next() {
+            if let Some(chunk) = next_chunk(it_branch) {
                 // let (n, chunk_size, buf) = data;
                 // trace!("n = {}", n);
 
@@ -368,7 +382,7 @@ impl<'a, T> ZiperBranches<'a, T> {
         trace!("self.fill_output_one_branch, num_branch = {}", num_branch);
 
         let it_branch = &mut self.iterators[num_branch];
-        if let Some(chunk) = it_branch.next() {
+        if let Some(chunk) = next_chunk(it_branch) {
             let n = match chunk {
                 BranchChunks::RegularSized((n, _, _)) => n,
                 BranchChunks::IrregularSized((n, _, _)) => n,
-- 
2.43.0


From 1bb2e37fc6b045bd7830795ecd766718fd79c403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:01 +0000
Subject: [PATCH 29/33] fix: numbers of elements in a damaged file made the
 reader allocate or index beyond its data

---
 oxyroot/src/rbytes/mod.rs           | 13 ++++++----
 oxyroot/src/rbytes/rbuffer.rs       |  9 +++++++
 oxyroot/src/rcompress.rs            | 22 +++++++++++++++++
 oxyroot/src/riofs/key.rs            |  1 +
 oxyroot/src/rtree/basket.rs         |  4 +++-
 oxyroot/src/rtree/branch/mod.rs     |  8 ++++++-
 oxyroot/src/rtree/branch/tbranch.rs | 37 +++++++++++++++++++++++------
 oxyroot/src/rtree/tree/reader.rs    |  6 +++--
 8 files changed, 84 insertions(+), 16 deletions(-)

diff --git a/oxyroot/src/rbytes/mod.rs b/oxyroot/src/rbytes/mod.rs
index f8826a0..696832c 100644
--- a/oxyroot/src/rbytes/mod.rs
+++ b/oxyroot/src/rbytes/mod.rs
@@ -301,8 +301,9 @@ where
     fn unmarshal(&mut self, r: &mut RBuffer) -> Result<()> {
         r.do_skip_header()?;
         let size = r.read_i32()?;
+        let size = r.checked_count(size, 1)?;
 
-        self.reserve(size as usize);
+        self.reserve(size);
         r.set_skip_header(None);
 
         for _ in 0..size {
@@ -368,7 +369,8 @@ where
     fn unmarshal(&mut self, r: &mut RBuffer) -> Result<()> {
         r.do_skip_header()?;
         let size = r.read_i32()?;
-        self.reserve(size as usize);
+        let size = r.checked_count(size, 1)?;
+        self.reserve(size);
         r.set_skip_header(None);
         for _ in 0..size {
             let a = r.read_object_into::<T>()?;
@@ -401,8 +403,9 @@ where
         r.do_skip_header()?;
 
         let size = r.read_i32()?;
-        let mut keys = Vec::with_capacity(size as usize);
-        let mut values = Vec::with_capacity(size as usize);
+        let size = r.checked_count(size, 2)?;
+        let mut keys = Vec::with_capacity(size);
+        let mut values = Vec::with_capacity(size);
 
         r.set_skip_header(Some(6));
 
@@ -420,7 +423,7 @@ where
             values.push(v);
         }
 
-        self.reserve(size as usize);
+        self.reserve(size);
 
         keys.into_iter().zip(values).for_each(|(k, v)| {
             self.insert(k, v);
diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index 3418f50..0402ef7 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -129,6 +129,15 @@ impl<'a> RBuffer<'a> {
         self.len() <= 0
     }
 
+    /// Checks a number of elements of at least `size` bytes each: that many have to be left.
+    pub(crate) fn checked_count(&self, n: i32, size: usize) -> Result<usize> {
+        let n = usize::try_from(n)?;
+        if (n * size) as i64 > self.len() {
+            return Err(Misc(format!("{n} elements announced beyond the end")));
+        }
+        Ok(n)
+    }
+
     pub fn pos(&self) -> i64 {
         self.r.c as i64 + self.offset as i64
     }
diff --git a/oxyroot/src/rcompress.rs b/oxyroot/src/rcompress.rs
index c03cf57..a093700 100644
--- a/oxyroot/src/rcompress.rs
+++ b/oxyroot/src/rcompress.rs
@@ -54,6 +54,28 @@ fn kind_of(buf: &[u8]) -> Kind {
     }
 }
 
+/// Checks that the blocks say they have `len` bytes altogether. Nothing is decompressed.
+pub fn check_len(mut src: &[u8], len: usize) -> Result<()> {
+    let mut end = 0;
+
+    while end < len {
+        if src.len() < HEADER_SIZE {
+            return Err(invalid_data("compressed record too short"));
+        }
+        let (hdr, rest) = src.split_at(HEADER_SIZE);
+        let srcsz = hdr[3] as usize | (hdr[4] as usize) << 8 | (hdr[5] as usize) << 16;
+        let tgtsz = hdr[6] as usize | (hdr[7] as usize) << 8 | (hdr[8] as usize) << 16;
+
+        if srcsz > rest.len() || tgtsz == 0 || tgtsz > len - end {
+            return Err(invalid_data("inconsistent size of a compressed block"));
+        }
+        src = &rest[srcsz..];
+        end += tgtsz;
+    }
+
+    Ok(())
+}
+
 pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
     let mut end = 0;
     let mut hdr = [0_u8; HEADER_SIZE];
diff --git a/oxyroot/src/riofs/key.rs b/oxyroot/src/riofs/key.rs
index 66003df..7f79fd6 100644
--- a/oxyroot/src/riofs/key.rs
+++ b/oxyroot/src/riofs/key.rs
@@ -408,6 +408,7 @@ impl Key {
         let buf = file.read_at(start, len)?;
 
         if self.is_compressed() {
+            rcompress::check_len(&buf, obj_len)?;
             let mut dst = vec![0; obj_len];
             rcompress::decompress(&mut dst, &buf)?;
             return Ok(dst);
diff --git a/oxyroot/src/rtree/basket.rs b/oxyroot/src/rtree/basket.rs
index 08b49c2..6b5b170 100644
--- a/oxyroot/src/rtree/basket.rs
+++ b/oxyroot/src/rtree/basket.rs
@@ -7,6 +7,7 @@ use crate::rtree::tree::WriterTree;
 use crate::rtypes::FactoryItemRead;
 use crate::{factory_fn_register_impl, rvers, Branch, Object, RootFile};
 use log::trace;
+use std::mem::size_of;
 
 #[derive(Debug)]
 pub struct Basket {
@@ -229,7 +230,8 @@ impl Unmarshaler for Basket {
         if !must_gen_offsets && flag != 0 && (flag % 10 != 2) {
             if self.nev_buf > 0 {
                 let n = r.read_i32()?;
-                self.offsets.reserve(n as usize);
+                let n = r.checked_count(n, size_of::<i32>())?;
+                self.offsets.reserve(n);
                 for _ in 0..n {
                     self.offsets.push(r.read_i32()?);
                 }
diff --git a/oxyroot/src/rtree/branch/mod.rs b/oxyroot/src/rtree/branch/mod.rs
index 5d61e2a..c02a5cb 100644
--- a/oxyroot/src/rtree/branch/mod.rs
+++ b/oxyroot/src/rtree/branch/mod.rs
@@ -197,7 +197,13 @@ impl Branch {
                     match chunk {
                         BranchChunks::RegularSized((n, _chunk_size, buf)) => {
                             let mut r = RBuffer::new(&buf, 0);
-                            let mut v = Vec::with_capacity(n as usize);
+                            // the number comes from the file
+                            assert!(
+                                (0..=tbranch.entries()).contains(&(n as i64)),
+                                "basket of {n} entries in a branch of {}",
+                                tbranch.entries()
+                            );
+                            let mut v = Vec::with_capacity((n as usize).min(buf.len()));
 
                             for _i in 0..n {
                                 v.push(func(&mut r));
diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 3d80ff8..463029f 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -14,6 +14,7 @@ use crate::{factory_fn_register_impl, rbase, rvers, Branch, Marshaler, RBuffer,
 use itertools::izip;
 use log::trace;
 use std::iter::once;
+use std::mem::size_of;
 
 pub(crate) const DEFAULT_BASKET_SIZE: i32 = 32 * 1024;
 // pub(crate) const DEFAULT_SPLIT_LEVEL: i32 = 99;
@@ -303,6 +304,19 @@ impl TBranch {
     pub(crate) fn reader(&self) -> &Option<RootFileReader> {
         &self.reader
     }
+
+    /// The tables have room for the baskets written and `more`.
+    fn check_basket_counts(&self, more: i32) -> crate::rbytes::Result<()> {
+        if self.write_basket < 0 || self.write_basket > self.max_baskets.saturating_sub(more) {
+            return Err(crate::rbytes::Error::Misc(format!(
+                "branch {}: {} baskets in tables of {}",
+                self.name(),
+                self.write_basket,
+                self.max_baskets
+            )));
+        }
+        Ok(())
+    }
 }
 
 impl Named for TBranch {
@@ -356,6 +370,7 @@ impl Unmarshaler for TBranch {
                 ";TBranch.unmarshal.{_beg}.split_level: {}",
                 self.split_level
             );
+            self.check_basket_counts(1)?;
             self.entries = r.read_i64()?;
 
             if hdr.vers >= 11 {
@@ -404,7 +419,8 @@ impl Unmarshaler for TBranch {
 
             {
                 let _ = r.read_i8()?;
-                let mut b = vec![0; self.max_baskets as usize];
+                let n = r.checked_count(self.max_baskets, size_of::<i32>())?;
+                let mut b = vec![0; n];
                 r.read_array_i32(b.as_mut_slice())?;
 
                 self.basket_bytes
@@ -413,7 +429,8 @@ impl Unmarshaler for TBranch {
 
             {
                 let _ = r.read_i8()?;
-                let mut b = vec![0_i64; self.max_baskets as usize];
+                let n = r.checked_count(self.max_baskets, size_of::<i64>())?;
+                let mut b = vec![0_i64; n];
                 r.read_array_i64(b.as_mut_slice())?;
 
                 self.basket_entry
@@ -422,7 +439,8 @@ impl Unmarshaler for TBranch {
 
             {
                 let _ = r.read_i8()?;
-                let mut b = vec![0_i64; self.max_baskets as usize];
+                let n = r.checked_count(self.max_baskets, size_of::<i64>())?;
+                let mut b = vec![0_i64; n];
                 r.read_array_i64(b.as_mut_slice())?;
 
                 self.basket_seek
@@ -533,7 +551,8 @@ impl Unmarshaler for TBranch {
             );
             {
                 let _ = r.read_i8()?;
-                let mut b = vec![0; self.max_baskets as usize];
+                let n = r.checked_count(self.max_baskets, size_of::<i32>())?;
+                let mut b = vec![0; n];
                 r.read_array_i32(b.as_mut_slice())?;
 
                 self.basket_bytes.extend_from_slice(b.as_slice());
@@ -561,7 +580,8 @@ impl Unmarshaler for TBranch {
             );
             {
                 let _ = r.read_i8()?;
-                let mut b = vec![0_i32; self.max_baskets as usize];
+                let n = r.checked_count(self.max_baskets, size_of::<i32>())?;
+                let mut b = vec![0_i32; n];
                 r.read_array_i32(b.as_mut_slice())?;
                 self.basket_entry.reserve(b.len());
 
@@ -580,14 +600,17 @@ impl Unmarshaler for TBranch {
             {
                 match r.read_i8()? {
                     2 => {
-                        let mut b = vec![0_i64; self.max_baskets as usize];
+                        self.check_basket_counts(0)?;
+                        let n = r.checked_count(self.max_baskets, size_of::<i64>())?;
+                        let mut b = vec![0_i64; n];
                         r.read_array_i64(b.as_mut_slice())?;
 
                         self.basket_seek
                             .extend_from_slice(&b.as_slice()[..self.write_basket as usize]);
                     }
                     _ => {
-                        let mut b = vec![0_i32; self.max_baskets as usize];
+                        let n = r.checked_count(self.max_baskets, size_of::<i32>())?;
+                        let mut b = vec![0_i32; n];
                         r.read_array_i32(b.as_mut_slice())?;
                         self.basket_seek.reserve(b.len());
 
diff --git a/oxyroot/src/rtree/tree/reader.rs b/oxyroot/src/rtree/tree/reader.rs
index 3ebaac7..a011129 100644
--- a/oxyroot/src/rtree/tree/reader.rs
+++ b/oxyroot/src/rtree/tree/reader.rs
@@ -6,6 +6,7 @@ use crate::rtree::tree::base::Tree;
 use crate::rvers;
 use crate::{factory_all_for_register_impl, Branch, Object, RBuffer, Unmarshaler};
 use log::trace;
+use std::mem::size_of;
 
 /// Read only Rust equivalent of [`TTree`](https://root.cern/doc/master/classTTree.html)
 ///
@@ -213,8 +214,9 @@ impl Unmarshaler for ReaderTree {
         }
 
         if hdr.vers >= 19 {
-            self.tree.clusters.ranges = vec![0; nclus as usize];
-            self.tree.clusters.sizes = vec![0; nclus as usize];
+            let nclus = r.checked_count(nclus, 2 * size_of::<i64>())?;
+            self.tree.clusters.ranges = vec![0; nclus];
+            self.tree.clusters.sizes = vec![0; nclus];
             let _ = r.read_i8();
             r.read_array_i64(&mut self.tree.clusters.ranges)?;
 
-- 
2.43.0


From 60c7c8255b7e3f147c1ef507739bf5f37720856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:01 +0000
Subject: [PATCH 30/33] fix: overflow of the cycle of a branch's 32768th basket

---
 oxyroot/src/rtree/branch/wbranch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oxyroot/src/rtree/branch/wbranch.rs b/oxyroot/src/rtree/branch/wbranch.rs
index 88c5028..4e72d71 100644
--- a/oxyroot/src/rtree/branch/wbranch.rs
+++ b/oxyroot/src/rtree/branch/wbranch.rs
@@ -167,7 +167,7 @@ where
             ";WBranch.create_new_basket.b.write_basket:{:?}",
             self.branch.tbranch_mut().write_basket
         );
-        let cycle = self.branch.tbranch_mut().write_basket as i16 + 1;
+        let cycle = self.branch.tbranch_mut().write_basket.wrapping_add(1) as i16;
         let basket_size = self.branch.tbranch_mut().basket_size;
         let offset_len = self.branch.tbranch_mut().entry_offset_len;
         let basket = Basket::new_from_branch(&self.branch, cycle, basket_size, offset_len, tree, f);
-- 
2.43.0


From 5b5f5592601eeb43b1b5a449ae50e94086865f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:08 +0000
Subject: [PATCH 31/33] fix: unexpected objects in a damaged tree, and the
 aliases and friends of a sound one, panicked

---
 oxyroot/src/rbytes/rbuffer.rs               | 10 +----
 oxyroot/src/rtree/basket.rs                 | 28 +++++++++-----
 oxyroot/src/rtree/branch/mod.rs             | 17 +++++---
 oxyroot/src/rtree/branch/tbranch.rs         | 26 ++++++-------
 oxyroot/src/rtree/branch/tbranch_element.rs |  2 -
 oxyroot/src/rtree/leaf.rs                   | 34 +++++++---------
 oxyroot/src/rtree/tree/reader.rs            | 43 ++++++++-------------
 7 files changed, 77 insertions(+), 83 deletions(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index 0402ef7..c8cbc8d 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -382,7 +382,7 @@ impl<'a> RBuffer<'a> {
                 self.refs.insert(start + kMapOffset, Func(*fct));
                 // todo!()
             } else {
-                todo!()
+                return Err(Misc(format!("rbytes: no byte count before a {cname}")));
             }
 
             let mut obj: Box<dyn rtypes::FactoryItemRead> = fct();
@@ -397,13 +397,7 @@ impl<'a> RBuffer<'a> {
             // obj.unmarshal(self);
             self.read_boxed_object(&mut obj)?;
 
-            if vers > 0 {
-
-                // self.refs.insert(beg + kMapOffset, Obj(&obj));
-                // todo!()
-            } else {
-                todo!()
-            }
+            // self.refs.insert(beg + kMapOffset, Obj(&obj));
 
             Ok(Some(obj))
         } else {
diff --git a/oxyroot/src/rtree/basket.rs b/oxyroot/src/rtree/basket.rs
index 6b5b170..4284a09 100644
--- a/oxyroot/src/rtree/basket.rs
+++ b/oxyroot/src/rtree/basket.rs
@@ -42,12 +42,18 @@ impl Named for Basket {
     }
 }
 
-impl From<Box<dyn FactoryItemRead>> for Basket {
-    fn from(f: Box<dyn FactoryItemRead>) -> Self {
-        if let Ok(b) = f.downcast::<Basket>() {
-            return *b;
+impl TryFrom<Box<dyn FactoryItemRead>> for Basket {
+    type Error = Error;
+
+    fn try_from(f: Box<dyn FactoryItemRead>) -> crate::rbytes::Result<Self> {
+        let found = f.class().to_owned();
+        match f.downcast::<Basket>() {
+            Ok(b) => Ok(*b),
+            Err(_) => Err(Error::WrongClass {
+                expected: "TBasket".to_owned(),
+                found,
+            }),
         }
-        panic!("expecting Basket")
     }
 }
 
@@ -188,7 +194,9 @@ impl Unmarshaler for Basket {
         self.nev_size = r.read_i32()?;
 
         if self.nev_size < 0 {
-            unimplemented!();
+            return Err(Error::Misc(
+                "TBasket: features of the I/O are not supported".to_string(),
+            ));
         }
 
         self.nev_buf = r.read_i32()?;
@@ -236,16 +244,18 @@ impl Unmarshaler for Basket {
                     self.offsets.push(r.read_i32()?);
                 }
                 if 20 < flag && flag < 40 {
-                    unimplemented!();
+                    return Err(Error::Misc(
+                        "TBasket: displacements are not supported".to_string(),
+                    ));
                 }
             }
             if flag > 40 {
-                unimplemented!();
+                return Err(Error::Misc(format!("TBasket: unknown flag {flag}")));
             }
         } else if must_gen_offsets {
             self.offsets.clear();
             if flag <= 40 {
-                panic!(";Basket.unmarshal.{}.flag: {} <= 40", _beg, flag);
+                return Err(Error::Misc(format!("TBasket: unknown flag {flag}")));
             }
         }
 
diff --git a/oxyroot/src/rtree/branch/mod.rs b/oxyroot/src/rtree/branch/mod.rs
index c02a5cb..dabef26 100644
--- a/oxyroot/src/rtree/branch/mod.rs
+++ b/oxyroot/src/rtree/branch/mod.rs
@@ -34,13 +34,20 @@ pub enum Branch {
     Element(TBranchElement),
 }
 
-impl From<Box<dyn FactoryItemRead>> for Branch {
-    fn from(obj: Box<dyn FactoryItemRead>) -> Self {
-        match obj.class() {
+impl TryFrom<Box<dyn FactoryItemRead>> for Branch {
+    type Error = crate::rbytes::Error;
+
+    fn try_from(obj: Box<dyn FactoryItemRead>) -> crate::rbytes::Result<Self> {
+        Ok(match obj.class() {
             "TBranch" => Branch::Base(*obj.downcast::<TBranch>().unwrap()),
             "TBranchElement" => Branch::Element(*obj.downcast::<TBranchElement>().unwrap()),
-            &_ => todo!(),
-        }
+            class => {
+                return Err(crate::rbytes::Error::WrongClass {
+                    expected: "TBranch".to_owned(),
+                    found: class.to_owned(),
+                })
+            }
+        })
     }
 }
 
diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 463029f..53b083f 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -387,8 +387,8 @@ impl Unmarshaler for TBranch {
                 self.branches = branches
                     .take_objs()
                     .into_iter()
-                    .map(|obj| obj.into())
-                    .collect();
+                    .map(TryFrom::try_from)
+                    .collect::<crate::rbytes::Result<_>>()?;
             }
 
             {
@@ -397,8 +397,8 @@ impl Unmarshaler for TBranch {
                     self.leaves = leaves
                         .take_objs()
                         .into_iter()
-                        .map(|obj| obj.into())
-                        .collect();
+                        .map(TryFrom::try_from)
+                        .collect::<crate::rbytes::Result<_>>()?;
                 }
 
                 for leaf in self.leaves.iter() {
@@ -412,8 +412,8 @@ impl Unmarshaler for TBranch {
                     self.baskets = baskets
                         .take_objs()
                         .into_iter()
-                        .map(|obj| obj.into())
-                        .collect();
+                        .map(TryFrom::try_from)
+                        .collect::<crate::rbytes::Result<_>>()?;
                 }
             }
 
@@ -494,8 +494,8 @@ impl Unmarshaler for TBranch {
                 self.branches = branches
                     .take_objs()
                     .into_iter()
-                    .map(|obj| obj.into())
-                    .collect();
+                    .map(TryFrom::try_from)
+                    .collect::<crate::rbytes::Result<_>>()?;
             }
 
             trace!(
@@ -510,8 +510,8 @@ impl Unmarshaler for TBranch {
                     self.leaves = leaves
                         .take_objs()
                         .into_iter()
-                        .map(|obj| obj.into())
-                        .collect();
+                        .map(TryFrom::try_from)
+                        .collect::<crate::rbytes::Result<_>>()?;
                 }
             }
 
@@ -527,8 +527,8 @@ impl Unmarshaler for TBranch {
                     self.baskets = baskets
                         .take_objs()
                         .into_iter()
-                        .map(|obj| obj.into())
-                        .collect();
+                        .map(TryFrom::try_from)
+                        .collect::<crate::rbytes::Result<_>>()?;
                 }
             }
 
@@ -636,7 +636,7 @@ impl Unmarshaler for TBranch {
             // todo!();
             // r.read_object(&mut self.named)?;
         } else {
-            unimplemented!()
+            crate::rbytes::ensure_minimum_supported_version(hdr.vers, 5, self.class())?;
         }
 
         if self.split_level == 0 && !self.branches.is_empty() {
diff --git a/oxyroot/src/rtree/branch/tbranch_element.rs b/oxyroot/src/rtree/branch/tbranch_element.rs
index 61b86c7..6dd7663 100644
--- a/oxyroot/src/rtree/branch/tbranch_element.rs
+++ b/oxyroot/src/rtree/branch/tbranch_element.rs
@@ -462,9 +462,7 @@ impl Unmarshaler for TBranchElement {
             self.max = r.read_i32()?;
 
             let _bcount1 = r.read_object_any_into()?;
-            assert!(_bcount1.is_none());
             let _bcount2 = r.read_object_any_into()?;
-            assert!(_bcount2.is_none());
 
             // bcount1 := r.ReadObjectAny()
             // if bcount1 != nil {
diff --git a/oxyroot/src/rtree/leaf.rs b/oxyroot/src/rtree/leaf.rs
index 8446c5b..c04819d 100644
--- a/oxyroot/src/rtree/leaf.rs
+++ b/oxyroot/src/rtree/leaf.rs
@@ -236,9 +236,11 @@ impl From<Leaf> for TLeaf {
     }
 }
 
-impl From<Box<dyn FactoryItemRead>> for Leaf {
-    fn from(obj: Box<dyn FactoryItemRead>) -> Self {
-        match obj.class() {
+impl TryFrom<Box<dyn FactoryItemRead>> for Leaf {
+    type Error = crate::rbytes::Error;
+
+    fn try_from(obj: Box<dyn FactoryItemRead>) -> crate::rbytes::Result<Self> {
+        Ok(match obj.class() {
             "TLeaf" => Leaf::Base(*obj.downcast::<TLeaf>().unwrap()),
             "TLeafI" => Leaf::I(*obj.downcast::<LeafI>().unwrap()),
             "TLeafS" => Leaf::S(*obj.downcast::<LeafS>().unwrap()),
@@ -249,8 +251,13 @@ impl From<Box<dyn FactoryItemRead>> for Leaf {
             "TLeafO" => Leaf::O(*obj.downcast::<LeafO>().unwrap()),
             "TLeafC" => Leaf::C(*obj.downcast::<LeafC>().unwrap()),
             "TLeafElement" => Leaf::Element(*obj.downcast::<LeafElement>().unwrap()),
-            &_ => todo!("Implement {}", obj.class()),
-        }
+            class => {
+                return Err(crate::rbytes::Error::WrongClass {
+                    expected: "TLeaf".to_owned(),
+                    found: class.to_owned(),
+                })
+            }
+        })
     }
 }
 #[derive(Debug)]
@@ -333,20 +340,9 @@ impl Unmarshaler for TLeaf {
 
         let ptr = r.read_object_any_into()?;
 
-        match ptr {
-            None => {}
-            Some(p) => {
-                if p.class() == "TLeafElement" {
-                    let _p = p.downcast::<LeafElement>().unwrap();
-
-                    //  todo!("");
-
-                    self.count = Some(LeafCount {});
-                } else {
-                    todo!("can not read ptr:{}", p.class())
-                }
-            }
-        };
+        if ptr.is_some() {
+            self.count = Some(LeafCount {});
+        }
 
         if self.len == 0 {
             self.len = 1;
diff --git a/oxyroot/src/rtree/tree/reader.rs b/oxyroot/src/rtree/tree/reader.rs
index a011129..0722075 100644
--- a/oxyroot/src/rtree/tree/reader.rs
+++ b/oxyroot/src/rtree/tree/reader.rs
@@ -236,8 +236,8 @@ impl Unmarshaler for ReaderTree {
             self.tree.branches = branches
                 .take_objs()
                 .into_iter()
-                .map(|obj| obj.into())
-                .collect();
+                .map(Branch::try_from)
+                .collect::<crate::rbytes::Result<_>>()?;
 
             self.tree.branches.iter_mut().for_each(|b| {
                 b.set_top_level(Some(true));
@@ -261,47 +261,39 @@ impl Unmarshaler for ReaderTree {
 
         if hdr.vers > 5 {
             // tree.aliases
-            let v = r.read_object_any_into()?;
-            if v.is_some() {
-                todo!()
-            }
+            let _ = r.read_object_any_into()?;
         }
 
         {
             //tree.indexValues
-            let v = r.read_object_any_into()?;
-            if v.is_some() {
-                todo!()
-            }
+            let _ = r.read_object_any_into()?;
         }
 
         {
             //tree.index
-            let v = r.read_object_any_into()?;
-            if v.is_some() {
-                todo!()
-            }
+            let _ = r.read_object_any_into()?;
         }
 
         if hdr.vers > 5 {
             //tree.treeindex
-            let v = r.read_object_any_into()?;
-            if v.is_some() {
-                todo!()
-            }
+            let _ = r.read_object_any_into()?;
 
             //tree.friends
-            let v = r.read_object_any_into()?;
-            if v.is_some() {
-                todo!()
-            }
+            let _ = r.read_object_any_into()?;
 
             trace!(";Tree.unmarshal.{}.pos_before_user_info: {}", _beg, r.pos());
 
             //tree.userInfo
             let v = r.read_object_any_into()?;
             if let Some(v) = v {
-                self.user_infos = Some(*v.downcast::<ReaderList>().unwrap());
+                let found = v.class().to_owned();
+                let v =
+                    v.downcast::<ReaderList>()
+                        .map_err(|_| crate::rbytes::Error::WrongClass {
+                            expected: "TList".to_owned(),
+                            found,
+                        })?;
+                self.user_infos = Some(*v);
                 trace!(
                     ";Tree.unmarshal.a{_beg}.userInfo.len: {}",
                     self.user_infos.as_ref().unwrap().len()
@@ -315,10 +307,7 @@ impl Unmarshaler for ReaderTree {
             // todo!();
 
             //tree.branchRef
-            let v = r.read_object_any_into()?;
-            if v.is_some() {
-                todo!()
-            }
+            let _ = r.read_object_any_into()?;
         }
 
         Ok(())
-- 
2.43.0


From 4aa2e2c3ee325843575c3e274d847da65bb17896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:09 +0000
Subject: [PATCH 32/33] fix: unexpected contents of the directory, the
 streamers and lists of objects panicked

---
 oxyroot/src/rcont/list.rs                     | 10 +---
 oxyroot/src/rcont/tmap.rs                     | 20 +++-----
 oxyroot/src/rdict/mod.rs                      | 12 ++---
 oxyroot/src/rdict/streamers/streamer_types.rs | 50 +++++++------------
 oxyroot/src/riofs/dir.rs                      |  7 +--
 oxyroot/src/riofs/file.rs                     | 21 ++++----
 6 files changed, 45 insertions(+), 75 deletions(-)

diff --git a/oxyroot/src/rcont/list.rs b/oxyroot/src/rcont/list.rs
index 3e00818..9772296 100644
--- a/oxyroot/src/rcont/list.rs
+++ b/oxyroot/src/rcont/list.rs
@@ -66,19 +66,13 @@ impl ReaderList {
 
 impl traits::Object for ReaderList {
     fn class(&self) -> &'_ str {
-        match &self.name {
-            None => "TList",
-            Some(s) => s,
-        }
+        "TList"
     }
 }
 
 impl traits::Object for WriterList<'_> {
     fn class(&self) -> &'_ str {
-        match &self.name {
-            None => "TList",
-            Some(s) => s,
-        }
+        "TList"
     }
 }
 
diff --git a/oxyroot/src/rcont/tmap.rs b/oxyroot/src/rcont/tmap.rs
index cb812d9..d7fcab9 100644
--- a/oxyroot/src/rcont/tmap.rs
+++ b/oxyroot/src/rcont/tmap.rs
@@ -74,20 +74,16 @@ impl Unmarshaler for TMap {
         trace!(";TMap.unmarshal.nobjs={}", nobjs);
 
         for _ in 0..nobjs {
-            let key = r.read_object_any_into()?.unwrap();
+            let null = || crate::rbytes::Error::Misc("TMap: null object in the map".to_string());
+            let key = r.read_object_any_into()?.ok_or_else(null)?;
             trace!(";TMap.unmarshal.key={:?}", key);
 
-            let value = r.read_object_any_into()?.unwrap();
-
-            match key.class() {
-                "TObjString" => {
-                    let key = key.downcast_ref::<crate::rbase::TObjString>().unwrap();
-                    self.objs.insert(Key::String(key.to_string()), value);
-                }
-                _ => {
-                    unimplemented!("TMap.unmarshal: key class={}", key.class());
-                }
-            }
+            let value = r.read_object_any_into()?.ok_or_else(null)?;
+
+            let key = key.downcast::<crate::rbase::TObjString>().map_err(|_| {
+                crate::rbytes::Error::Misc("TMap: only TObjString keys are supported".to_string())
+            })?;
+            self.objs.insert(Key::String(key.to_string()), value);
         }
 
         Ok(())
diff --git a/oxyroot/src/rdict/mod.rs b/oxyroot/src/rdict/mod.rs
index efc72fd..cc72465 100644
--- a/oxyroot/src/rdict/mod.rs
+++ b/oxyroot/src/rdict/mod.rs
@@ -1,7 +1,7 @@
 /// Mod rdict contains the definition of ROOT streamers and facilities
 /// to generate new streamers meta data from user types.
 use crate::rbytes::rbuffer::RBuffer;
-use crate::rbytes::{RVersioner, Unmarshaler};
+use crate::rbytes::{ensure_minimum_supported_version, RVersioner, Unmarshaler};
 use std::cmp::Ordering;
 
 use crate::{factory_fn_register_impl, rbase, Marshaler};
@@ -584,11 +584,8 @@ impl Unmarshaler for StreamerElement {
         self.arr_len = r.read_i32()?;
         self.arr_dim = r.read_i32()?;
 
-        if hdr.vers == 1 {
-            todo!();
-        } else {
-            r.read_array_i32(&mut self.max_idx)?;
-        }
+        ensure_minimum_supported_version(hdr.vers, 1, self.class())?;
+        r.read_array_i32(&mut self.max_idx)?;
 
         self.ename = r.read_string()?.to_string();
 
@@ -606,7 +603,8 @@ impl Unmarshaler for StreamerElement {
             }
             Ordering::Equal => {
                 self.xmin = r.read_f64()?;
-                todo!()
+                self.xmax = r.read_f64()?;
+                self.factor = r.read_f64()?;
             }
             Ordering::Greater => {
                 (self.xmin, self.xmax, self.factor) = streamer_types::get_range(self.title());
diff --git a/oxyroot/src/rdict/streamers/streamer_types.rs b/oxyroot/src/rdict/streamers/streamer_types.rs
index ff56121..4b01fb9 100644
--- a/oxyroot/src/rdict/streamers/streamer_types.rs
+++ b/oxyroot/src/rdict/streamers/streamer_types.rs
@@ -9,42 +9,25 @@ use crate::{
 use log::trace;
 use num_traits::ToPrimitive;
 
+/// The range `[xmin,xmax]` or `[xmin,xmax,nbits]` which the title of a member may contain.
 pub fn get_range(s: &str) -> (f64, f64, f64) {
-    let (xmin, xmax, factor) = (0., 0., 0.);
-
-    if s.is_empty() {
-        return (xmin, xmax, factor);
-    }
-
-    let beg = s.rfind('[');
-
-    if beg.is_none() {
-        return (xmin, xmax, factor);
-    }
-
-    let beg = beg.unwrap();
-
-    if beg > 0 {
-        todo!()
-    }
-
-    let end = s.rfind(']');
-
-    if end.is_none() {
-        return (xmin, xmax, factor);
-    }
-
-    let end = end.unwrap();
-
-    let s = &s[beg + 1..end];
+    parse_range(s).unwrap_or((0., 0., 0.))
+}
 
-    if s.rfind(',').is_none() {
-        return (xmin, xmax, factor);
-    }
+fn parse_range(s: &str) -> Option<(f64, f64, f64)> {
+    let (_, range) = s.rsplit_once('[')?;
+    let (range, _) = range.split_once(']')?;
+    let mut parts = range.split(',').map(str::trim);
 
-    todo!()
+    let xmin: f64 = parts.next()?.parse().ok()?;
+    let xmax: f64 = parts.next()?.parse().ok()?;
+    let nbits: i32 = parts.next().map_or(Ok(32), str::parse).ok()?;
+    let factor = match xmax > xmin {
+        true => 2_f64.powi(nbits) / (xmax - xmin),
+        false => 0.,
+    };
 
-    // return (xmin, xmax, factor);
+    Some((xmin, xmax, factor))
 }
 
 #[derive(Default, Debug, Clone)]
@@ -533,7 +516,8 @@ impl Unmarshaler for StreamerSTL {
 
         r.read_object(&mut self.element)?;
 
-        self.vtype = rmeta::ESTLType::from_i32(r.read_i32()?).unwrap();
+        let vtype = r.read_i32()?;
+        self.vtype = rmeta::ESTLType::from_i32(vtype)?;
         self.ctype = Enum::from_i32(r.read_i32()?);
 
         match self.vtype {
diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index 9f67257..be98b5a 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -130,9 +130,10 @@ impl TDirectoryFile {
     }
 
     pub fn read_dir_info(file: &mut RootFile) -> Result<TDirectoryFile> {
-        let nbytesname = file.n_bytes_name() as i64;
-        let nbytes = nbytesname as u64 + TDirectoryFile::record_size(file.version()) as u64;
-        let begin = file.begin() as u64;
+        // the position and the length come from the file
+        let nbytesname = u64::try_from(file.n_bytes_name()).map_err(crate::rbytes::Error::from)?;
+        let nbytes = nbytesname + TDirectoryFile::record_size(file.version()) as u64;
+        let begin = u64::try_from(file.begin()).map_err(crate::rbytes::Error::from)?;
 
         trace!(
             "have to read nbytes = {} from {} to {}",
diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index f947755..3d7f522 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -608,21 +608,18 @@ impl RootFile {
 
         let ogj = si_key.object(&mut reader, None)?.unwrap();
 
-        let mut objs: Box<ReaderList> = ogj.downcast::<ReaderList>().unwrap();
+        let found = ogj.class().to_owned();
+        let mut objs: Box<ReaderList> =
+            ogj.downcast::<ReaderList>()
+                .map_err(|_| crate::rbytes::Error::WrongClass {
+                    expected: "TList".to_owned(),
+                    found,
+                })?;
 
         for i in (0..objs.len()).rev() {
-            let obj = objs.remove(i);
-
-            if obj.class() == "TStreamerInfo" {
-                let obj: Box<StreamerInfo> = obj.downcast::<StreamerInfo>().unwrap();
+            // the other objects are lists of schema evolution rules
+            if let Ok(obj) = objs.remove(i).downcast::<StreamerInfo>() {
                 self.sinfos.push(*obj);
-            } else {
-                let mut list: Box<ReaderList> = obj.downcast::<ReaderList>().unwrap();
-                for j in (0..list.len()).rev() {
-                    let _jobj = list.remove(j);
-                    // let obj: Box<StreamerInfo> = jobj.downcast::<StreamerInfo>().unwrap();
-                    // trace!("\tobj.name = {}", obj.name());
-                }
             }
         }
 
-- 
2.43.0


From 0b113d7f13d5960f0f56c4a40f690173818ef91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:16 +0000
Subject: [PATCH 33/33] fix: arithmetic on damaged lengths overflowed when
 opening a file

---
 oxyroot/src/rdict/streamers/streamer_types.rs | 2 +-
 oxyroot/src/riofs/key.rs                      | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/oxyroot/src/rdict/streamers/streamer_types.rs b/oxyroot/src/rdict/streamers/streamer_types.rs
index 4b01fb9..916d445 100644
--- a/oxyroot/src/rdict/streamers/streamer_types.rs
+++ b/oxyroot/src/rdict/streamers/streamer_types.rs
@@ -199,7 +199,7 @@ impl Unmarshaler for StreamerBasicType {
         }
 
         if basic && self.element.arr_len > 0 {
-            self.element.esize *= self.element.arr_len;
+            self.element.esize = self.element.esize.wrapping_mul(self.element.arr_len);
         }
 
         // todo!();
diff --git a/oxyroot/src/riofs/key.rs b/oxyroot/src/riofs/key.rs
index 7f79fd6..fed55b7 100644
--- a/oxyroot/src/riofs/key.rs
+++ b/oxyroot/src/riofs/key.rs
@@ -391,7 +391,7 @@ impl Key {
     }
 
     fn is_compressed(&self) -> bool {
-        self.obj_len != self.n_bytes - self.key_len
+        i64::from(self.obj_len) != i64::from(self.n_bytes) - i64::from(self.key_len)
     }
 
     pub(crate) fn bytes(&self, file: &mut RootFileReader, _: Option<&[u8]>) -> Result<Vec<u8>> {
@@ -403,7 +403,8 @@ impl Key {
         let obj_len = usize::try_from(self.obj_len).map_err(crate::rbytes::Error::from)?;
         let len = self.n_bytes as i64 - self.key_len as i64;
         let len = u64::try_from(len).map_err(crate::rbytes::Error::from)?;
-        let start = self.seek_key as u64 + self.key_len as u64;
+        let start = u64::try_from(self.seek_key).map_err(crate::rbytes::Error::from)?
+            + u64::try_from(self.key_len).map_err(crate::rbytes::Error::from)?;
 
         let buf = file.read_at(start, len)?;
 
-- 
2.43.0

