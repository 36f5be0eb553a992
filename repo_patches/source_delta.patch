From ca9eade513f42aa9ba04b5b08ff0a53ebfa597ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 01/48] fix: do not write a substream CRC for a single-entry
 group whose CRC is zero

---
 src/writer/unpack_info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer/unpack_info.rs b/src/writer/unpack_info.rs
index 9a327f6..fc4e028 100644
--- a/src/writer/unpack_info.rs
+++ b/src/writer/unpack_info.rs
@@ -81,7 +81,7 @@ impl UnpackInfo {
         header.write_u8(K_CRC)?;
         header.write_u8(1)?; // all crc defined
         for f in &self.folders {
-            if f.sub_stream_crcs.len() <= 1 && f.crc != 0 {
+            if f.sub_stream_crcs.len() <= 1 {
                 continue;
             }
             for i in 0..f.sub_stream_crcs.len() {
-- 
2.43.0


From 569aac87d526c5f8be5150047188bcfb99e511d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 02/48] fix: write the defined packed stream CRCs when not all
 of them are defined

---
 src/writer/pack_info.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/writer/pack_info.rs b/src/writer/pack_info.rs
index 48a0d0c..28c45b8 100644
--- a/src/writer/pack_info.rs
+++ b/src/writer/pack_info.rs
@@ -35,6 +35,9 @@ impl PackInfo {
             let mut temp = Vec::with_capacity(self.len());
             write_bit_set(&mut temp, &crc_define_bits)?;
             header.write_all(&temp)?;
+            for crc in self.crcs.iter().filter(|c| **c != 0) {
+                header.write_u32::<LittleEndian>(*crc)?;
+            }
         }
 
         header.write_u8(K_END)?;
-- 
2.43.0


From 7c1fcdccbf68dca4288d63cbd885d9909fe95977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:35 +0000
Subject: [PATCH 03/48] fix: write empty-file and anti-item bit vectors at
 their full length

---
 src/writer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index c727b30..7244dc3 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -514,10 +514,15 @@ impl<W: Write + Seek> SevenZWriter<W> {
         }
         Ok(())
     }
+    /// An empty bit set with room for one bit per entry without a stream
+    fn empty_stream_bit_set(&self) -> BitSet {
+        BitSet::with_capacity(self.files.iter().filter(|f| !f.has_stream).count())
+    }
+
     fn write_file_empty_files<H: Write>(&self, header: &mut H) -> std::io::Result<()> {
         let mut has_empty = false;
         let mut empty_stream_counter = 0;
-        let mut bitset = BitSet::new();
+        let mut bitset = self.empty_stream_bit_set();
         for entry in self.files.iter() {
             if !entry.has_stream {
                 let is_dir = entry.is_directory();
@@ -542,7 +547,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
     fn write_file_anti_items<H: Write>(&self, header: &mut H) -> std::io::Result<()> {
         let mut has_anti = false;
         let mut counter = 0;
-        let mut bitset = BitSet::new();
+        let mut bitset = self.empty_stream_bit_set();
         for entry in self.files.iter() {
             if !entry.has_stream {
                 let is_anti = entry.is_anti_item();
-- 
2.43.0


From 213eac1c10a5f148d81f9531b2557b74be219f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:35 +0000
Subject: [PATCH 04/48] fix: mark anti-items, not all other empty entries, as
 anti-items

---
 src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 7244dc3..5c3cb26 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -551,8 +551,8 @@ impl<W: Write + Seek> SevenZWriter<W> {
         for entry in self.files.iter() {
             if !entry.has_stream {
                 let is_anti = entry.is_anti_item();
-                has_anti |= !is_anti;
-                if !is_anti {
+                has_anti |= is_anti;
+                if is_anti {
                     bitset.insert(counter);
                 }
                 counter += 1;
-- 
2.43.0


From 09eacef025492f3262c821771c6bf921fd0fb4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:35 +0000
Subject: [PATCH 05/48] fix: entries of a solid group always have a stream

---
 src/writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/writer.rs b/src/writer.rs
index 5c3cb26..75b3f7e 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -316,6 +316,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
             entry.size = ri.read_count() as u64;
             sub_stream_crcs.push(entry.crc as u32);
             sub_stream_sizes.push(entry.size);
+            entry.has_stream = true;
             entry.has_crc = true;
         }
 
-- 
2.43.0


From 988b49a87d465edbce18598807ff9527d9680e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:17 +0000
Subject: [PATCH 06/48] fix: round the LZMA2 dictionary size property up, not
 down

---
 src/encoders.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/encoders.rs b/src/encoders.rs
index fc20119..c4f73ba 100644
--- a/src/encoders.rs
+++ b/src/encoders.rs
@@ -82,10 +82,9 @@ pub(crate) fn get_options_as_properties<'a>(
             let dict_size = options
                 .map(|o| o.get_lzma2_dict_size())
                 .unwrap_or(LZMA2Options::DICT_SIZE_DEFAULT);
-            let lead = dict_size.leading_zeros();
-            let second_bit = (dict_size >> (30u32.wrapping_sub(lead))).wrapping_sub(2);
-            let prop = (19u32.wrapping_sub(lead) * 2 + second_bit) as u8;
-            out[0] = prop;
+            // the smallest encodable dictionary size which is not below `dict_size`
+            let prop = (0..40u32).find(|p| (2 | (p & 1)) << (p / 2 + 11) >= dict_size);
+            out[0] = prop.unwrap_or(40) as u8;
             &out[0..1]
         }
         SevenZMethod::ID_LZMA => {
-- 
2.43.0


From f73ec01a8e89b61e3ccea5bf3de2e87ea18734a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 07/48] fix: visit every entry of a block that has empty
 entries between its files

---
 src/reader.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 78fc81f..546a453 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1412,13 +1412,22 @@ impl<'a, R: Read + Seek> BlockDecoder<'a, R> {
     }
 
     pub fn entries(&self) -> &[SevenZArchiveEntry] {
-        let start = self.archive.stream_map.folder_first_file_index[self.folder_index];
-        let file_count = self.archive.folders[self.folder_index].num_unpack_sub_streams;
-        &self.archive.files[start..(file_count + start)]
+        &self.archive.files[Self::file_range(self.archive, self.folder_index)]
     }
 
     pub fn entry_count(&self) -> usize {
-        self.archive.folders[self.folder_index].num_unpack_sub_streams
+        Self::file_range(self.archive, self.folder_index).len()
+    }
+
+    /// Indices of the files in a block: those with data, and the empty ones listed between them.
+    fn file_range(archive: &Archive, folder_index: usize) -> std::ops::Range<usize> {
+        let map = &archive.stream_map;
+        let start = map.folder_first_file_index[folder_index];
+        let file_count = map.file_folder_index[start..]
+            .iter()
+            .take_while(|f| **f == Some(folder_index))
+            .count();
+        start..start + file_count
     }
 
     /// Takes a closure to decode each files in this block.
@@ -1443,10 +1452,7 @@ impl<'a, R: Read + Seek> BlockDecoder<'a, R> {
         } = self;
         let (mut folder_reader, _size) =
             SevenZReader::build_decode_stack(source, archive, folder_index, password)?;
-        let start = archive.stream_map.folder_first_file_index[folder_index];
-        let file_count = archive.folders[folder_index].num_unpack_sub_streams;
-
-        for file_index in start..(file_count + start) {
+        for file_index in Self::file_range(archive, folder_index) {
             let file = &archive.files[file_index];
             if file.has_stream && file.size > 0 {
                 let mut decoder: Box<dyn Read> =
-- 
2.43.0


From cc65a6d26d231cef67919022e4624d1793f5b5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 08/48] fix: stop the iteration when the callback returns false

---
 src/reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 546a453..0d72523 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1367,7 +1367,9 @@ impl<R: Read + Seek> SevenZReader<R> {
                 &self.password,
                 &mut self.source,
             );
-            forder_dec.for_each_entries(&mut each)?;
+            if !forder_dec.for_each_entries(&mut each)? {
+                return Ok(());
+            }
         }
         // decode empty files
         for file_index in 0..self.archive.files.len() {
-- 
2.43.0


From 4e648cf2cb6330b8df8ccd2d176464a78624441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 09/48] fix: use the folder CRC of single-file blocks when no
 substream CRCs are stored

---
 src/reader.rs | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 0d72523..a4aaafb 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -844,36 +844,36 @@ impl Archive {
             }
         }
 
+        let mut has_missing_crc = BitSet::new();
+        let mut missing_crcs = vec![0; num_digests];
         if nid == K_CRC {
-            let has_missing_crc = read_all_or_bits(header, num_digests)?;
-            let mut missing_crcs = vec![0; num_digests];
+            has_missing_crc = read_all_or_bits(header, num_digests)?;
             for i in 0..num_digests {
                 if has_missing_crc.contains(i) {
                     missing_crcs[i] = read_u32(header)? as u64;
                 }
             }
-            let mut next_crc = 0;
-            let mut next_missing_crc = 0;
-            for folder in archive.folders.iter() {
-                if folder.num_unpack_sub_streams == 1 && folder.has_crc {
-                    sub_streams_info.has_crc.insert(next_crc);
-                    sub_streams_info.crcs[next_crc] = folder.crc;
-                    next_crc += 1;
-                } else {
-                    for _i in 0..folder.num_unpack_sub_streams {
-                        if has_missing_crc.contains(next_missing_crc) {
-                            sub_streams_info.has_crc.insert(next_crc);
-                        } else {
-                            sub_streams_info.has_crc.remove(next_crc);
-                        }
-                        sub_streams_info.crcs[next_crc] = missing_crcs[next_missing_crc];
-                        next_crc += 1;
-                        next_missing_crc += 1;
+            nid = read_u8(header)?;
+        }
+        let mut next_crc = 0;
+        let mut next_missing_crc = 0;
+        for folder in archive.folders.iter() {
+            if folder.num_unpack_sub_streams == 1 && folder.has_crc {
+                sub_streams_info.has_crc.insert(next_crc);
+                sub_streams_info.crcs[next_crc] = folder.crc;
+                next_crc += 1;
+            } else {
+                for _i in 0..folder.num_unpack_sub_streams {
+                    if has_missing_crc.contains(next_missing_crc) {
+                        sub_streams_info.has_crc.insert(next_crc);
+                    } else {
+                        sub_streams_info.has_crc.remove(next_crc);
                     }
+                    sub_streams_info.crcs[next_crc] = missing_crcs[next_missing_crc];
+                    next_crc += 1;
+                    next_missing_crc += 1;
                 }
             }
-
-            nid = read_u8(header)?;
         }
 
         if nid != K_END {
-- 
2.43.0


From cb76b0ae08a1ae05fe1f5f70d1a703f5cc5a9770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 10/48] fix: read archives without substreams info

---
 src/reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index a4aaafb..05fd6d8 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -446,6 +446,9 @@ impl Archive {
         if nid == K_SUB_STREAMS_INFO {
             Self::read_sub_streams_info(header, archive)?;
             nid = read_u8(header)?;
+        } else {
+            // without this part every block holds one file
+            Self::read_sub_streams_info(&mut [K_END].as_slice(), archive)?;
         }
         if nid != K_END {
             return Err(Error::BadTerminatedStreamsInfo(nid));
-- 
2.43.0


From d56bd43756e23d4adce521ec5101afe0c38e4902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 11/48] fix: open archives without a header as empty ones

---
 src/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 05fd6d8..4a21c7e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -219,6 +219,10 @@ impl Archive {
         };
         if header_valid {
             let start_header = Self::read_start_header(reader, start_header_crc)?;
+            if start_header.next_header_size == 0 {
+                // an archive without a header has no entries
+                return Ok(Archive::default());
+            }
             Self::init_archive(reader, start_header, password, true)
         } else {
             Self::try_to_locale_end_header(reader, reader_len, password)
-- 
2.43.0


From e88e54a82c52ce4cb4d3f5d2589499f2a0bd6046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 12/48] fix: do not pass the padding of encrypted data on to
 the next coder

---
 src/decoders.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/decoders.rs b/src/decoders.rs
index 8c6a31b..2f341f2 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -14,6 +14,8 @@ use crate::{
     folder::Coder,
     lzma::{lzma2_get_memery_usage, LZMA2Reader, LZMAReader},
 };
+#[cfg(feature = "aes256")]
+use crate::reader::BoundedReader;
 
 pub enum Decoder<R: Read> {
     COPY(R),
@@ -26,7 +28,7 @@ pub enum Decoder<R: Read> {
     #[cfg(feature = "bzip2")]
     BZip2(BzDecoder<R>),
     #[cfg(feature = "aes256")]
-    AES256SHA256(Aes256Sha256Decoder<R>),
+    AES256SHA256(BoundedReader<Aes256Sha256Decoder<R>>),
 }
 
 // impl<R: Read> Decoder<R> {
@@ -142,7 +144,11 @@ pub fn add_decoder<I: Read>(
                 return Err(Error::PasswordRequired);
             }
             let de = Aes256Sha256Decoder::new(input, &coder.properties, password)?;
-            Ok(Decoder::AES256SHA256(de))
+            // the last block may be padded
+            Ok(Decoder::AES256SHA256(BoundedReader::new(
+                de,
+                uncompressed_len,
+            )))
         }
         _ => Err(Error::UnsupportedCompressionMethod(
             method.name().to_string(),
-- 
2.43.0


From 0020d414b4ba5087503d674e15a231a13446528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:12 +0000
Subject: [PATCH 13/48] fix: read LZMA2 stored chunks of 65536 bytes

The 16-bit size field holds the size minus one; adding one overflowed
for a chunk of the full 64 KiB.
---
 lzma-rust/src/lzma2_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma-rust/src/lzma2_reader.rs b/lzma-rust/src/lzma2_reader.rs
index 8fd1daa..db827c7 100644
--- a/lzma-rust/src/lzma2_reader.rs
+++ b/lzma-rust/src/lzma2_reader.rs
@@ -119,7 +119,7 @@ impl<R: Read> LZMA2Reader<R> {
             ));
         } else {
             self.is_lzma_chunk = false;
-            self.uncompressed_size = (self.inner.read_u16::<BigEndian>()? + 1) as _;
+            self.uncompressed_size = self.inner.read_u16::<BigEndian>()? as usize + 1;
         }
         Ok(())
     }
-- 
2.43.0


From fbd790568d37d25f0a317f65393994a1d3274615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:12 +0000
Subject: [PATCH 14/48] fix: keep the whole preset dictionary when LZMA data is
 short

The dictionary was shrunk to the uncompressed size even when matches may
refer to a longer preset dictionary.
---
 lzma-rust/src/lzma_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lzma-rust/src/lzma_reader.rs b/lzma-rust/src/lzma_reader.rs
index 653dd97..6e8bdf1 100644
--- a/lzma-rust/src/lzma_reader.rs
+++ b/lzma-rust/src/lzma_reader.rs
@@ -111,7 +111,8 @@ impl<R: Read> LZMAReader<R> {
             ));
         }
         let mut dict_size = get_dict_size(dict_size)?;
-        if uncomp_size <= u64::MAX / 2 && dict_size as u64 > uncomp_size {
+        let has_preset = preset_dict.map(|d| !d.is_empty()).unwrap_or(false);
+        if uncomp_size <= u64::MAX / 2 && dict_size as u64 > uncomp_size && !has_preset {
             dict_size = get_dict_size(uncomp_size as u32)?;
         }
         let rc = RangeDecoder::new_stream(reader);
-- 
2.43.0


From b0d292b0b4d64b66b001a7348ad56a1a43ea05dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:12 +0000
Subject: [PATCH 15/48] fix: do not truncate LZMA sizes to 32 bits

Reading hung when the remaining size reached a multiple of 4 GiB.
---
 lzma-rust/src/lzma_reader.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lzma-rust/src/lzma_reader.rs b/lzma-rust/src/lzma_reader.rs
index 6e8bdf1..6747a9e 100644
--- a/lzma-rust/src/lzma_reader.rs
+++ b/lzma-rust/src/lzma_reader.rs
@@ -205,14 +205,14 @@ impl<R: Read> LZMAReader<R> {
             return Ok(0);
         }
         let mut size = 0;
-        let mut len = buf.len() as u32;
-        let mut off = 0u32;
+        let mut len = buf.len();
+        let mut off = 0;
         while len > 0 {
-            let mut copy_size_max = len as u32;
-            if self.remaining_size <= u64::MAX / 2 && (self.remaining_size as u32) < len {
-                copy_size_max = self.remaining_size as u32;
+            let mut copy_size_max = len;
+            if self.remaining_size <= u64::MAX / 2 && self.remaining_size < len as u64 {
+                copy_size_max = self.remaining_size as usize;
             }
-            self.lz.set_limit(copy_size_max as usize);
+            self.lz.set_limit(copy_size_max);
 
             match self.lzma.decode(&mut self.lz, &mut self.rc) {
                 Ok(_) => {}
@@ -225,7 +225,7 @@ impl<R: Read> LZMAReader<R> {
                 }
             }
 
-            let copied_size = self.lz.flush(buf, off as _) as u32;
+            let copied_size = self.lz.flush(buf, off);
             off += copied_size;
             len -= copied_size;
             size += copied_size;
@@ -245,10 +245,10 @@ impl<R: Read> LZMAReader<R> {
                         "end reached but not decoder finished",
                     ));
                 }
-                return Ok(size as _);
+                return Ok(size);
             }
         }
-        Ok(size as _)
+        Ok(size)
     }
 }
 
-- 
2.43.0


From d9a1d9c883abf3a2c031344325ae7758c540c21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:02 +0000
Subject: [PATCH 16/48] Verification hook: start of the match finder position
 counter (cfg sevenz_verif)

---
 lzma-rust/src/lib.rs    |  2 ++
 lzma-rust/src/lz/bt4.rs |  3 +++
 lzma-rust/src/lz/hc4.rs |  3 +++
 lzma-rust/src/verif.rs  | 17 +++++++++++++++++
 4 files changed, 25 insertions(+)
 create mode 100644 lzma-rust/src/verif.rs

diff --git a/lzma-rust/src/lib.rs b/lzma-rust/src/lib.rs
index 4457c93..dfbbc9f 100644
--- a/lzma-rust/src/lib.rs
+++ b/lzma-rust/src/lib.rs
@@ -4,6 +4,8 @@ mod lzma2_reader;
 mod lzma_reader;
 mod range_dec;
 mod state;
+#[cfg(sevenz_verif)]
+pub mod verif;
 
 pub use lzma2_reader::get_memery_usage as lzma2_get_memery_usage;
 pub use lzma2_reader::LZMA2Reader;
diff --git a/lzma-rust/src/lz/bt4.rs b/lzma-rust/src/lz/bt4.rs
index de49006..2c9d889 100644
--- a/lzma-rust/src/lz/bt4.rs
+++ b/lzma-rust/src/lz/bt4.rs
@@ -28,7 +28,10 @@ impl BT4 {
             },
             cyclic_size,
             cyclic_pos: -1,
+            #[cfg(not(sevenz_verif))]
             lz_pos: cyclic_size,
+            #[cfg(sevenz_verif)]
+            lz_pos: crate::verif::lz_pos_start(cyclic_size),
         }
     }
 
diff --git a/lzma-rust/src/lz/hc4.rs b/lzma-rust/src/lz/hc4.rs
index 08dbb81..6e39be1 100644
--- a/lzma-rust/src/lz/hc4.rs
+++ b/lzma-rust/src/lz/hc4.rs
@@ -33,7 +33,10 @@ impl HC4 {
             },
             cyclic_size: dict_size as i32 + 1,
             cyclic_pos: -1,
+            #[cfg(not(sevenz_verif))]
             lz_pos: dict_size as i32 + 1,
+            #[cfg(sevenz_verif)]
+            lz_pos: crate::verif::lz_pos_start(dict_size as i32 + 1),
         }
     }
 
diff --git a/lzma-rust/src/verif.rs b/lzma-rust/src/verif.rs
new file mode 100644
index 0000000..3d41f02
--- /dev/null
+++ b/lzma-rust/src/verif.rs
@@ -0,0 +1,17 @@
+//! Hooks for the verification harness; compiled only with `--cfg sevenz_verif`.
+use std::cell::Cell;
+
+thread_local! {
+    static LZ_POS_START: Cell<i32> = const { Cell::new(0) };
+}
+
+/// Makes the match finders created from now on by this thread start counting
+/// positions at `pos` (if that is after their normal start), so that the
+/// normalization of positions is reached without gigabytes of input.
+pub fn set_lz_pos_start(pos: i32) {
+    LZ_POS_START.with(|p| p.set(pos));
+}
+
+pub(crate) fn lz_pos_start(normal: i32) -> i32 {
+    LZ_POS_START.with(|p| p.get()).max(normal)
+}
-- 
2.43.0


From a2f36af8243277dfbb924e9277866f6767f10b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 17/48] fix: allow flushes after every few bytes in the LZMA2
 writer

With fewer bytes than the match finder needs all of them stay pending,
which tripped an assertion on the second flush.
---
 lzma-rust/src/lz/lz_encoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lzma-rust/src/lz/lz_encoder.rs b/lzma-rust/src/lz/lz_encoder.rs
index 93d410c..b8b0fd5 100644
--- a/lzma-rust/src/lz/lz_encoder.rs
+++ b/lzma-rust/src/lz/lz_encoder.rs
@@ -287,7 +287,8 @@ impl LZEncoderData {
             let old_pending = self.pending_size;
             self.pending_size = 0;
             match_finder.skip(self, old_pending as _);
-            assert!(self.pending_size < old_pending)
+            // too few bytes in total leave all of them pending
+            assert!(self.pending_size <= old_pending)
         }
     }
 
-- 
2.43.0


From e9833faeb29820a49cadf1f6de9fc6e468d669e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 18/48] fix: keep a whole LZMA2 chunk in the window of the
 encoder

With a dictionary smaller than 64 KiB an incompressible chunk could slide
out of the window before it was copied as a stored chunk.
---
 lzma-rust/src/enc/encoder.rs      | 5 +++--
 lzma-rust/src/enc/lzma2_writer.rs | 1 +
 lzma-rust/src/enc/lzma_writer.rs  | 1 +
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lzma-rust/src/enc/encoder.rs b/lzma-rust/src/enc/encoder.rs
index 4b97e6d..3fb11d4 100644
--- a/lzma-rust/src/enc/encoder.rs
+++ b/lzma-rust/src/enc/encoder.rs
@@ -133,6 +133,7 @@ impl LZMAEncoder {
         depth_limit: i32,
         dict_size: u32,
         nice_len: usize,
+        extra_size_before: u32,
     ) -> (Self, LZMAEncoderModes) {
         let fast_mode = mode == EncodeMode::Fast;
         let mut mode: LZMAEncoderModes = if fast_mode {
@@ -142,12 +143,12 @@ impl LZMAEncoder {
         };
         let (extra_size_before, extra_size_after) = if fast_mode {
             (
-                FashEncoderMode::EXTRA_SIZE_BEFORE,
+                extra_size_before.max(FashEncoderMode::EXTRA_SIZE_BEFORE),
                 FashEncoderMode::EXTRA_SIZE_AFTER,
             )
         } else {
             (
-                NormalEncoderMode::EXTRA_SIZE_BEFORE,
+                extra_size_before.max(NormalEncoderMode::EXTRA_SIZE_BEFORE),
                 NormalEncoderMode::EXTRA_SIZE_AFTER,
             )
         };
diff --git a/lzma-rust/src/enc/lzma2_writer.rs b/lzma-rust/src/enc/lzma2_writer.rs
index 2121da8..96197dd 100644
--- a/lzma-rust/src/enc/lzma2_writer.rs
+++ b/lzma-rust/src/enc/lzma2_writer.rs
@@ -174,6 +174,7 @@ impl<W: Write> LZMA2Writer<W> {
             options.depth_limit,
             options.dict_size,
             options.nice_len as usize,
+            get_extra_size_before(dict_size),
         );
 
         let props = options.get_props();
diff --git a/lzma-rust/src/enc/lzma_writer.rs b/lzma-rust/src/enc/lzma_writer.rs
index 9aa7aa5..b03f155 100644
--- a/lzma-rust/src/enc/lzma_writer.rs
+++ b/lzma-rust/src/enc/lzma_writer.rs
@@ -50,6 +50,7 @@ impl<W: Write> LZMAWriter<W> {
             options.depth_limit,
             options.dict_size,
             options.nice_len as usize,
+            0,
         );
         if let Some(preset_dict) = &options.preset_dict {
             if use_header {
-- 
2.43.0


From fb09697ba5c59b91cf4c082ebb14f539b3d2bc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 19/48] fix: treat an empty preset dictionary as none in the
 LZMA2 writer

The first chunk lacked the dictionary reset that decoders require.
---
 lzma-rust/src/enc/lzma2_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma-rust/src/enc/lzma2_writer.rs b/lzma-rust/src/enc/lzma2_writer.rs
index 96197dd..c00ed0f 100644
--- a/lzma-rust/src/enc/lzma2_writer.rs
+++ b/lzma-rust/src/enc/lzma2_writer.rs
@@ -179,7 +179,7 @@ impl<W: Write> LZMA2Writer<W> {
 
         let props = options.get_props();
         let mut dict_reset_needed = true;
-        if let Some(preset_dict) = &options.preset_dict {
+        if let Some(preset_dict) = options.preset_dict.as_ref().filter(|d| !d.is_empty()) {
             lzma.lz.set_preset_dict(dict_size, preset_dict);
             dict_reset_needed = false;
         }
-- 
2.43.0


From dc6fc0df33ad94425ec430374c633afea9e260e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:23 +0000
Subject: [PATCH 20/48] fix: wrap branch addresses beyond 2 GiB instead of
 overflowing

---
 src/bcj/arm.rs   | 10 +++++++---
 src/bcj/ppc.rs   |  6 +++++-
 src/bcj/sparc.rs |  6 +++++-
 src/bcj/x86.rs   |  4 ++--
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/bcj/arm.rs b/src/bcj/arm.rs
index 861e683..74a36a7 100644
--- a/src/bcj/arm.rs
+++ b/src/bcj/arm.rs
@@ -36,7 +36,11 @@ impl BCJFilter {
 
                 let src = ((b2 << 16) | (b1 << 8) | (b0)) << 2;
                 let p = (self.pos + i) as i32;
-                let dest = if self.is_encoder { src + p } else { src - p };
+                let dest = if self.is_encoder {
+                    src.wrapping_add(p)
+                } else {
+                    src.wrapping_sub(p)
+                };
                 let dest = dest >> 2;
                 buf[i + 2] = ((dest >> 16) & 0xff) as u8;
                 buf[i + 1] = ((dest >> 8) & 0xff) as u8;
@@ -70,9 +74,9 @@ impl BCJFilter {
                 let src = src << 1;
 
                 let dest = if self.is_encoder {
-                    src + (self.pos + i) as i32
+                    src.wrapping_add((self.pos + i) as i32)
                 } else {
-                    src - (self.pos + i) as i32
+                    src.wrapping_sub((self.pos + i) as i32)
                 };
                 let dest = dest >> 1;
                 buf[i + 1] = (0xF0 | ((dest >> 19) & 0x07)) as u8;
diff --git a/src/bcj/ppc.rs b/src/bcj/ppc.rs
index 4ab002f..6fc8a89 100644
--- a/src/bcj/ppc.rs
+++ b/src/bcj/ppc.rs
@@ -29,7 +29,11 @@ impl BCJFilter {
                     ((b0 & 0x03) << 24) | ((b1 & 0xff) << 16) | ((b2 & 0xff) << 8) | (b3 & 0xFC);
 
                 let p = (self.pos + i) as i32;
-                let dest = if self.is_encoder { src + p } else { src - p };
+                let dest = if self.is_encoder {
+                    src.wrapping_add(p)
+                } else {
+                    src.wrapping_sub(p)
+                };
 
                 buf[i] = (0x48 | ((dest >> 24) & 0x03)) as u8;
                 buf[i + 1] = (dest >> 16) as u8;
diff --git a/src/bcj/sparc.rs b/src/bcj/sparc.rs
index 11bc78c..1f0fda0 100644
--- a/src/bcj/sparc.rs
+++ b/src/bcj/sparc.rs
@@ -28,7 +28,11 @@ impl BCJFilter {
                     ((b0 & 0xFF) << 24) | ((b1 & 0xFF) << 16) | ((b2 & 0xFF) << 8) | (b3 & 0xFF);
                 let src = src << 2;
                 let p = (self.pos + i) as i32;
-                let dest = if self.is_encoder { src + p } else { src - p };
+                let dest = if self.is_encoder {
+                    src.wrapping_add(p)
+                } else {
+                    src.wrapping_sub(p)
+                };
                 let dest = dest >> 2;
                 let dest = (((0 - ((dest >> 22) & 1)) << 22) & 0x3FFFFFFF)
                     | (dest & 0x3FFFFF)
diff --git a/src/bcj/x86.rs b/src/bcj/x86.rs
index 9e47b03..9d9a7ba 100644
--- a/src/bcj/x86.rs
+++ b/src/bcj/x86.rs
@@ -56,9 +56,9 @@ impl BCJFilter {
                 let mut dest: i32;
                 loop {
                     if self.is_encoder {
-                        dest = src + (self.pos + i) as i32;
+                        dest = src.wrapping_add((self.pos + i) as i32);
                     } else {
-                        dest = src - (self.pos + i) as i32;
+                        dest = src.wrapping_sub((self.pos + i) as i32);
                     }
 
                     if prev_mask == 0 {
-- 
2.43.0


From 279c52c460625659916062ad20d9d2a251a92fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 21/48] fix: report data that ends early as an error

---
 src/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 4a21c7e..b313432 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -39,6 +39,10 @@ impl<R: Read> Read for BoundedReader<R> {
             &mut buf[..remain]
         };
         match self.inner.read(buf2) {
+            Ok(0) if !buf2.is_empty() => Err(std::io::Error::new(
+                ErrorKind::UnexpectedEof,
+                "data ends early",
+            )),
             Ok(size) => {
                 if self.remain < size {
                     self.remain = 0;
-- 
2.43.0


From bbffee7e3248daa84fd360da02e249d14b41e982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:34 +0000
Subject: [PATCH 22/48] fix: decrypt data that arrives in pieces of less than a
 block

---
 src/aes256sha256.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aes256sha256.rs b/src/aes256sha256.rs
index 9f44bcb..1c06d8c 100644
--- a/src/aes256sha256.rs
+++ b/src/aes256sha256.rs
@@ -180,9 +180,12 @@ impl Cipher {
         let mut n = 0;
         if !self.buf.is_empty() {
             assert!(self.buf.len() < 16);
-            let end = 16 - self.buf.len();
+            let end = (16 - self.buf.len()).min(data.len());
             self.buf.extend_from_slice(&data[..end]);
             data = &mut data[end..];
+            if self.buf.len() < 16 {
+                return Ok(0);
+            }
             let block = GenericArray::from_mut_slice(&mut self.buf);
             self.dec.decrypt_block_mut(block);
             let out = block.as_slice();
-- 
2.43.0


From 732435bb8f9cf1b6684c6290d66570efd97bf258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:34 +0000
Subject: [PATCH 23/48] fix: derive AES keys without hashing from a salt
 shorter than the key

---
 src/aes256sha256.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aes256sha256.rs b/src/aes256sha256.rs
index 1c06d8c..bffe1cd 100644
--- a/src/aes256sha256.rs
+++ b/src/aes256sha256.rs
@@ -135,7 +135,7 @@ fn get_aes_key(properties: &[u8], password: &[u8]) -> Result<([u8; 32], [u8; 16]
     }
     let aes_key = if num_cycles_power == 0x3f {
         let mut aes_key = [0u8; 32];
-        aes_key.copy_from_slice(&salt[..salt_size]);
+        aes_key[..salt_size].copy_from_slice(&salt);
         let n = password.len().min(aes_key.len() - salt_size);
         aes_key[salt_size..n + salt_size].copy_from_slice(&password[0..n]);
         aes_key
-- 
2.43.0


From 06f19daaeb7bc8204a9022fa6276111e4c70ff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:55 +0000
Subject: [PATCH 24/48] fix: accept AES properties without salt and IV

---
 src/aes256sha256.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/aes256sha256.rs b/src/aes256sha256.rs
index bffe1cd..f929afb 100644
--- a/src/aes256sha256.rs
+++ b/src/aes256sha256.rs
@@ -115,21 +115,27 @@ impl<R: Read + Seek> Seek for Aes256Sha256Decoder<R> {
 }
 
 fn get_aes_key(properties: &[u8], password: &[u8]) -> Result<([u8; 32], [u8; 16]), crate::Error> {
-    if properties.len() < 2 {
+    if properties.is_empty() {
         return Err(crate::Error::other("AES256 properties too shart"));
     }
     let b0 = properties[0];
     let num_cycles_power = b0 & 63;
-    let b1 = properties[1];
+    // the second byte is absent when there is neither a salt nor an IV
+    let b1 = match properties.get(1) {
+        Some(b) => *b,
+        None if b0 & 0xc0 == 0 => 0,
+        None => return Err(crate::Error::other("AES256 properties too shart")),
+    };
     let iv_size = ((b0 >> 6 & 1) + (b1 & 15)) as usize;
     let salt_size = ((b0 >> 7 & 1) + (b1 >> 4)) as usize;
-    if 2 + salt_size + iv_size > properties.len() {
+    let data = properties.get(2..).unwrap_or_default();
+    if salt_size + iv_size > data.len() {
         return Err(crate::Error::other("Salt size + IV size too long"));
     }
     let mut salt = vec![0u8; salt_size];
-    salt.copy_from_slice(&properties[2..(2 + salt_size)]);
+    salt.copy_from_slice(&data[..salt_size]);
     let mut iv = [0u8; 16];
-    iv[0..iv_size].copy_from_slice(&properties[(2 + salt_size)..(2 + salt_size + iv_size)]);
+    iv[0..iv_size].copy_from_slice(&data[salt_size..(salt_size + iv_size)]);
     if password.is_empty() {
         return Err(crate::Error::PasswordRequired);
     }
-- 
2.43.0


From 9d5036d085d71d0ab269c85bfee1c8e8469fb050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:30 +0000
Subject: [PATCH 25/48] fix: reading into an empty buffer is no error

---
 src/reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index b313432..09f5b65 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -29,7 +29,7 @@ impl<R: Read> BoundedReader<R> {
 
 impl<R: Read> Read for BoundedReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
-        if self.remain == 0 {
+        if self.remain == 0 || buf.is_empty() {
             return Ok(0);
         }
         let remain = self.remain;
@@ -39,7 +39,7 @@ impl<R: Read> Read for BoundedReader<R> {
             &mut buf[..remain]
         };
         match self.inner.read(buf2) {
-            Ok(0) if !buf2.is_empty() => Err(std::io::Error::new(
+            Ok(0) => Err(std::io::Error::new(
                 ErrorKind::UnexpectedEof,
                 "data ends early",
             )),
-- 
2.43.0


From ba8a5b838c2931a522f61ec14ac38408c1156933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:30 +0000
Subject: [PATCH 26/48] fix: repeat interrupted reads of packed data

---
 src/reader.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 09f5b65..5aa9f88 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -27,6 +27,16 @@ impl<R: Read> BoundedReader<R> {
     }
 }
 
+/// Reads from `inner`, again if it is interrupted: the decoders could not resume.
+fn read_uninterrupted<R: Read>(inner: &mut R, buf: &mut [u8]) -> std::io::Result<usize> {
+    loop {
+        match inner.read(buf) {
+            Err(e) if e.kind() == ErrorKind::Interrupted => {}
+            r => return r,
+        }
+    }
+}
+
 impl<R: Read> Read for BoundedReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         if self.remain == 0 || buf.is_empty() {
@@ -38,7 +48,7 @@ impl<R: Read> Read for BoundedReader<R> {
         } else {
             &mut buf[..remain]
         };
-        match self.inner.read(buf2) {
+        match read_uninterrupted(&mut self.inner, buf2) {
             Ok(0) => Err(std::io::Error::new(
                 ErrorKind::UnexpectedEof,
                 "data ends early",
@@ -93,7 +103,7 @@ impl<R: Read + Seek> Read for SeekableBoundedReader<R> {
         } else {
             &mut buf[..(self.bounds.1 - self.cur) as usize]
         };
-        let size = self.inner.read(buf2)?;
+        let size = read_uninterrupted(&mut self.inner, buf2)?;
         self.cur += size as u64;
         Ok(size)
     }
-- 
2.43.0


From b44717ce66d353b9fabdd8a5c79f185821331e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:30 +0000
Subject: [PATCH 27/48] fix: repeat interrupted reads of the data to be added

---
 src/writer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index 75b3f7e..1ce1f80 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -196,6 +196,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
                                     Error::io_msg(e, format!("Encode entry:{}", entry.name()))
                                 })?;
                             }
+                            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                             Err(e) => {
                                 return Err(Error::io_msg(
                                     e,
@@ -281,6 +282,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
                             Error::io_msg(e, format!("Encode entries:{}", entries_names(&entries)))
                         })?;
                     }
+                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                     Err(e) => {
                         return Err(Error::io_msg(
                             e,
-- 
2.43.0


From 6fe905d4bd3d97d5a1120438532fde963dafdd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:33 +0000
Subject: [PATCH 28/48] fix: refuse coder graphs that do not fit together

---
 src/reader.rs | 66 +++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 10 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 5aa9f88..cb86beb 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -10,6 +10,8 @@ use crc::Crc;
 use crate::{archive::*, decoders::add_decoder, error::Error, folder::*, password::Password};
 pub(crate) const CRC32: Crc<u32> = Crc::<u32>::new(&crc::CRC_32_ISO_HDLC);
 const MAX_MEM_LIMIT_KB: usize = usize::MAX / 1024;
+/// Most coders, input streams and output streams a folder may have.
+const MAX_FOLDER_STREAMS: usize = 64;
 
 pub(crate) trait SeedRead: Read + Seek {}
 
@@ -909,9 +911,12 @@ impl Archive {
         let mut folder = Folder::default();
 
         let num_coders = read_usize(header, "num coders")?;
+        if num_coders > MAX_FOLDER_STREAMS {
+            return Err(Error::other(format!("Too many coders: {}", num_coders)));
+        }
         let mut coders = Vec::with_capacity(num_coders);
-        let mut total_in_streams = 0;
-        let mut total_out_streams = 0;
+        let mut total_in_streams = 0u64;
+        let mut total_out_streams = 0u64;
         for _i in 0..num_coders {
             let mut coder = Coder::default();
             let bits = read_u8(header)?;
@@ -923,7 +928,7 @@ impl Archive {
             coder.id_size = id_size as usize;
 
             header
-                .read(coder.decompression_method_id_mut())
+                .read_exact(coder.decompression_method_id_mut())
                 .map_err(Error::io)?;
             if is_simple {
                 coder.num_in_streams = 1;
@@ -932,13 +937,11 @@ impl Archive {
                 coder.num_in_streams = read_u64(header)?;
                 coder.num_out_streams = read_u64(header)?;
             }
-            total_in_streams += coder.num_in_streams;
-            total_out_streams += coder.num_out_streams;
+            total_in_streams = total_in_streams.saturating_add(coder.num_in_streams);
+            total_out_streams = total_out_streams.saturating_add(coder.num_out_streams);
             if has_attributes {
-                let properties_size = read_usize(header, "properties size")?;
-                let mut props = vec![0u8; properties_size];
-                header.read(&mut props).map_err(Error::io)?;
-                coder.properties = props;
+                let properties_size = read_u64(header)?;
+                coder.properties = read_vec(header, properties_size)?;
             }
             coders.push(coder);
             // would need to keep looping as above:
@@ -955,6 +958,9 @@ impl Archive {
         if total_out_streams == 0 {
             return Err(Error::other("Total output streams can't be 0"));
         }
+        if total_in_streams > MAX_FOLDER_STREAMS || total_out_streams > MAX_FOLDER_STREAMS {
+            return Err(Error::other("Too many streams in a folder"));
+        }
         let num_bind_pairs = total_out_streams - 1;
         let mut bind_pairs = Vec::with_capacity(num_bind_pairs);
         for _ in 0..num_bind_pairs {
@@ -962,6 +968,14 @@ impl Archive {
                 in_index: read_u64(header)?,
                 out_index: read_u64(header)?,
             };
+            if bp.in_index >= total_in_streams as u64
+                || bp.out_index >= total_out_streams as u64
+                || bind_pairs
+                    .iter()
+                    .any(|b: &BindPair| b.in_index == bp.in_index || b.out_index == bp.out_index)
+            {
+                return Err(Error::other("Invalid bind pair"));
+            }
             bind_pairs.push(bp);
         }
         folder.bind_pairs = bind_pairs;
@@ -987,7 +1001,14 @@ impl Archive {
             packed_streams[0] = index;
         } else {
             for i in 0..num_packed_streams {
-                packed_streams[i] = read_u64(header)?;
+                let index = read_u64(header)?;
+                if index >= total_in_streams as u64
+                    || packed_streams[..i].contains(&index)
+                    || folder.find_bind_pair_for_in_stream(index as usize).is_some()
+                {
+                    return Err(Error::other("Invalid packed stream index"));
+                }
+                packed_streams[i] = index;
             }
         }
         folder.packed_streams = packed_streams;
@@ -1051,6 +1072,19 @@ fn read_u8<R: Read>(reader: &mut R) -> Result<u8, Error> {
     Ok(buf[0])
 }
 
+/// Reads `size` bytes; the space for them is not taken before they are there.
+fn read_vec<R: Read>(reader: &mut R, size: u64) -> Result<Vec<u8>, Error> {
+    let mut buf = Vec::new();
+    reader
+        .take(size)
+        .read_to_end(&mut buf)
+        .map_err(Error::io)?;
+    if (buf.len() as u64) < size {
+        return Err(Error::io(ErrorKind::UnexpectedEof.into()));
+    }
+    Ok(buf)
+}
+
 fn read_all_or_bits<R: Read>(header: &mut R, size: usize) -> Result<BitSet, Error> {
     let all = read_u8(header)?;
     if all != 0 {
@@ -1178,6 +1212,9 @@ impl<R: Read + Seek> SevenZReader<R> {
         if folder.total_input_streams > folder.total_output_streams {
             return Self::build_decode_stack2(source, archive, folder_index, password);
         }
+        if folder.packed_streams.len() != 1 {
+            return Err(Error::unsupported("Folder without one packed stream"));
+        }
         let first_pack_stream_index =
             archive.stream_map.folder_first_pack_stream_index[folder_index];
         let folder_offset = SIGNATURE_HEADER_SIZE
@@ -1232,6 +1269,12 @@ impl<R: Read + Seek> SevenZReader<R> {
             )));
         }
 
+        if folder.coders.iter().any(|c| c.num_out_streams != 1) {
+            return Err(Error::unsupported(
+                "Multi output stream coders are not supported",
+            ));
+        }
+
         assert!(folder.total_input_streams > folder.total_output_streams);
         let source = ReaderPtr::new(source);
         let first_pack_stream_index =
@@ -1277,6 +1320,9 @@ impl<R: Read + Seek> SevenZReader<R> {
         }
 
         let num_in_streams = folder.coders[main_coder_index].num_in_streams as usize;
+        if num_in_streams != 4 {
+            return Err(Error::unsupported("BCJ2 needs four input streams"));
+        }
         let mut inputs: Vec<Box<dyn Read>> = Vec::with_capacity(num_in_streams);
         let start_i = coder_to_stream_map[main_coder_index];
         for i in start_i..num_in_streams + start_i {
-- 
2.43.0


From 75ad79526a3a6b487fa5e29468f121d7b5849060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:29 +0000
Subject: [PATCH 29/48] fix: reject headers whose counts and sizes do not fit
 together

---
 src/reader.rs | 136 ++++++++++++++++++++++++++++----------------------
 1 file changed, 75 insertions(+), 61 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index cb86beb..6aa1b81 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -267,7 +267,7 @@ impl Archive {
         })
     }
 
-    fn read_header<R: Read + Seek>(header: &mut R, archive: &mut Archive) -> Result<(), Error> {
+    fn read_header(header: &mut &[u8], archive: &mut Archive) -> Result<(), Error> {
         let mut nid = read_u8(header)?;
         if nid == K_ARCHIVE_PROPERTIES {
             Self::read_archive_properties(header)?;
@@ -289,16 +289,14 @@ impl Archive {
             return Err(Error::BadTerminatedheader(nid));
         }
 
-        Ok(())
+        Self::calculate_stream_map(archive)
     }
 
-    fn read_archive_properties<R: Read + Seek>(header: &mut R) -> Result<(), Error> {
+    fn read_archive_properties(header: &mut &[u8]) -> Result<(), Error> {
         let mut nid = read_u8(header)?;
         while nid != K_END {
-            let property_size = read_usize(header, "propertySize")?;
-            header
-                .seek(SeekFrom::Current(property_size as i64))
-                .map_err(Error::io)?;
+            let property_size = read_u64(header)?;
+            skip(header, property_size)?;
             nid = read_u8(header)?;
         }
         Ok(())
@@ -356,16 +354,14 @@ impl Archive {
             )));
         }
 
-        let next_header_size_int = start_header.next_header_size as usize;
-
+        let header_position = SIGNATURE_HEADER_SIZE
+            .checked_add(start_header.next_header_offset)
+            .ok_or_else(|| Error::other("Invalid next_header_offset"))?;
         reader
-            .seek(SeekFrom::Start(
-                SIGNATURE_HEADER_SIZE + start_header.next_header_offset,
-            ))
+            .seek(SeekFrom::Start(header_position))
             .map_err(Error::io)?;
 
-        let mut buf = vec![0; next_header_size_int];
-        reader.read_exact(&mut buf).map_err(Error::io)?;
+        let mut buf = read_vec(reader, start_header.next_header_size)?;
         if verify_crc && crc32_cksum(&buf) as u64 != start_header.next_header_crc {
             return Err(Error::NextHeaderCrcMismatch);
         }
@@ -373,14 +369,11 @@ impl Archive {
         let mut archive = Archive::default();
         let mut buf_reader = buf.as_slice();
         let mut nid = read_u8(&mut buf_reader)?;
-        let mut header = if nid == K_ENCODED_HEADER {
+        let mut header: &[u8] = if nid == K_ENCODED_HEADER {
             let (mut out_reader, buf_size) =
                 Self::read_encoded_header(&mut buf_reader, reader, &mut archive, password)?;
-            buf.clear();
-            buf.resize(buf_size, 0);
-            out_reader
-                .read_exact(&mut buf)
-                .map_err(|e| Error::bad_password(e, !password.is_empty()))?;
+            buf = read_vec(&mut out_reader, buf_size as u64)
+                .map_err(|e| e.maybe_bad_password(!password.is_empty()))?;
             archive = Archive::default();
             buf_reader = buf.as_slice();
             nid = read_u8(&mut buf_reader)?;
@@ -388,7 +381,6 @@ impl Archive {
         } else {
             buf_reader
         };
-        let mut header = std::io::Cursor::new(&mut header);
         if nid == K_HEADER {
             Self::read_header(&mut header, &mut archive)?;
         } else {
@@ -473,12 +465,24 @@ impl Archive {
         if nid != K_END {
             return Err(Error::BadTerminatedStreamsInfo(nid));
         }
+        let needed: usize = archive.folders.iter().map(|f| f.packed_streams.len()).sum();
+        if needed > archive.pack_sizes.len() {
+            return Err(Error::other("Too few packed streams in archive"));
+        }
 
         Ok(())
     }
 
-    fn read_files_info<R: Read + Seek>(header: &mut R, archive: &mut Archive) -> Result<(), Error> {
+    fn read_files_info(header: &mut &[u8], archive: &mut Archive) -> Result<(), Error> {
         let num_files = read_usize(header, "num files")?;
+        // every file has a stream, or a bit in this header which says that it has none
+        let num_streams = archive
+            .sub_streams_info
+            .as_ref()
+            .map_or(0, |s| s.unpack_sizes.len());
+        if num_files.saturating_sub(num_streams) / 8 > header.len() {
+            return Err(Error::other(format!("Too many files: {}", num_files)));
+        }
         let mut files: Vec<SevenZArchiveEntry> = vec![Default::default(); num_files];
 
         let mut is_empty_stream: Option<BitSet> = None;
@@ -519,7 +523,7 @@ impl Archive {
                     if external != 0 {
                         return Err(Error::other("Not implemented:external != 0"));
                     }
-                    if (size - 1) & 1 != 0 {
+                    if size & 1 == 0 {
                         return Err(Error::other("file names length invalid"));
                     }
 
@@ -530,6 +534,9 @@ impl Archive {
 
                     let mut next_file = 0;
                     for s in names_reader {
+                        if next_file == files.len() {
+                            return Err(Error::other("Error parsing file names"));
+                        }
                         files[next_file].name = s?;
                         next_file += 1;
                     }
@@ -604,14 +611,10 @@ impl Archive {
                 }
                 K_START_POS => return Err(Error::other("kStartPos is unsupported, please report")),
                 K_DUMMY => {
-                    header
-                        .seek(SeekFrom::Current(size as i64))
-                        .map_err(Error::io)?;
+                    skip(header, size)?;
                 }
                 _ => {
-                    header
-                        .seek(SeekFrom::Current(size as i64))
-                        .map_err(Error::io)?;
+                    skip(header, size)?;
                 }
             };
         }
@@ -632,6 +635,9 @@ impl Archive {
                         "Archive contains file with streams but no subStreamsInfo",
                     ));
                 };
+                if non_empty_file_counter >= sub_stream_info.unpack_sizes.len() {
+                    return Err(Error::other("Archive contains more files than streams"));
+                }
                 file.is_directory = false;
                 file.is_anti_item = false;
                 file.has_crc = sub_stream_info.has_crc.contains(non_empty_file_counter);
@@ -654,8 +660,6 @@ impl Archive {
             }
         }
         archive.files = files;
-
-        Self::calculate_stream_map(archive)?;
         Ok(())
     }
 
@@ -708,7 +712,11 @@ impl Archive {
             if stream_map.folder_first_file_index[next_folder_index] == i {
                 let first_pack_stream_index =
                     stream_map.folder_first_pack_stream_index[next_folder_index];
-                let pack_size = archive.pack_sizes[first_pack_stream_index];
+                let pack_size = archive
+                    .pack_sizes
+                    .get(first_pack_stream_index)
+                    .copied()
+                    .unwrap_or_default();
 
                 archive.files[i].compressed_size = pack_size;
             }
@@ -731,11 +739,20 @@ impl Archive {
         let num_pack_streams = read_usize(header, "num pack streams")?;
         let mut nid = read_u8(header)?;
         if nid == K_SIZE {
-            archive.pack_sizes = vec![0u64; num_pack_streams];
-            for i in 0..archive.pack_sizes.len() {
-                archive.pack_sizes[i] = read_u64(header)?;
+            archive.pack_sizes = Vec::new();
+            for _ in 0..num_pack_streams {
+                archive.pack_sizes.push(read_u64(header)?);
             }
             nid = read_u8(header)?;
+        } else if num_pack_streams != 0 {
+            return Err(Error::BadTerminatedPackInfo(nid));
+        }
+        let mut end = SIGNATURE_HEADER_SIZE.checked_add(archive.pack_pos);
+        for size in archive.pack_sizes.iter() {
+            end = end.and_then(|end| end.checked_add(*size));
+        }
+        if end.is_none() {
+            return Err(Error::other("Packed streams are too large"));
         }
 
         if nid == K_CRC {
@@ -762,7 +779,6 @@ impl Archive {
         }
         let num_folders = read_usize(header, "num folders")?;
 
-        archive.folders.reserve_exact(num_folders);
         let external = read_u8(header)?;
         if external != 0 {
             return Err(Error::ExternalUnsupported);
@@ -812,50 +828,39 @@ impl Archive {
         for folder in archive.folders.iter_mut() {
             folder.num_unpack_sub_streams = 1;
         }
-        let mut total_unpack_streams = archive.folders.len();
 
         let mut nid = read_u8(header)?;
         if nid == K_NUM_UNPACK_STREAM {
-            total_unpack_streams = 0;
             for folder in archive.folders.iter_mut() {
-                let num_streams = read_usize(header, "numStreams")?;
-                folder.num_unpack_sub_streams = num_streams;
-                total_unpack_streams += num_streams;
+                folder.num_unpack_sub_streams = read_usize(header, "numStreams")?;
             }
             nid = read_u8(header)?;
         }
 
         let mut sub_streams_info = SubStreamsInfo::default();
-        sub_streams_info
-            .unpack_sizes
-            .resize(total_unpack_streams, Default::default());
-        sub_streams_info
-            .has_crc
-            .reserve_len_exact(total_unpack_streams);
-        sub_streams_info.crcs = vec![0; total_unpack_streams];
-
-        let mut next_unpack_stream = 0;
         for folder in archive.folders.iter() {
             if folder.num_unpack_sub_streams == 0 {
                 continue;
             }
-            let mut sum = 0;
+            let mut rest = folder.get_unpack_size();
             if nid == K_SIZE {
                 for _i in 0..folder.num_unpack_sub_streams - 1 {
                     let size = read_u64(header)?;
-                    sub_streams_info.unpack_sizes[next_unpack_stream] = size;
-                    next_unpack_stream += 1;
-                    sum += size;
+                    sub_streams_info.unpack_sizes.push(size);
+                    rest = rest.checked_sub(size).ok_or_else(|| {
+                        Error::other("sum of unpack sizes of folder exceeds total unpack size")
+                    })?;
                 }
+            } else if folder.num_unpack_sub_streams > 1 {
+                return Err(Error::other("sizes of the files in a folder are missing"));
             }
-            if sum > folder.get_unpack_size() {
-                return Err(Error::other(
-                    "sum of unpack sizes of folder exceeds total unpack size",
-                ));
-            }
-            sub_streams_info.unpack_sizes[next_unpack_stream] = folder.get_unpack_size() - sum;
-            next_unpack_stream += 1;
+            sub_streams_info.unpack_sizes.push(rest);
         }
+        let total_unpack_streams = sub_streams_info.unpack_sizes.len();
+        sub_streams_info
+            .has_crc
+            .reserve_len_exact(total_unpack_streams);
+        sub_streams_info.crcs = vec![0; total_unpack_streams];
         if nid == K_SIZE {
             nid = read_u8(header)?;
         }
@@ -1072,6 +1077,15 @@ fn read_u8<R: Read>(reader: &mut R) -> Result<u8, Error> {
     Ok(buf[0])
 }
 
+#[inline]
+fn skip(header: &mut &[u8], size: u64) -> Result<(), Error> {
+    if size > header.len() as u64 {
+        return Err(Error::io(ErrorKind::UnexpectedEof.into()));
+    }
+    *header = &header[size as usize..];
+    Ok(())
+}
+
 /// Reads `size` bytes; the space for them is not taken before they are there.
 fn read_vec<R: Read>(reader: &mut R, size: u64) -> Result<Vec<u8>, Error> {
     let mut buf = Vec::new();
-- 
2.43.0


From 68151b98d924d3b6a8317e15b7ba2638c2897add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:00 +0000
Subject: [PATCH 30/48] fix: refuse LZMA properties that are too short

---
 src/decoders.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoders.rs b/src/decoders.rs
index 2f341f2..689b641 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -82,10 +82,10 @@ pub fn add_decoder<I: Read>(
             Ok(Decoder::ZSTD(zs))
         }
         SevenZMethod::ID_LZMA => {
-            let dict_size = get_lzma_dic_size(coder)?;
-            if coder.properties.is_empty() {
+            if coder.properties.len() < 5 {
                 return Err(Error::Other("LZMA properties too short".into()));
             }
+            let dict_size = get_lzma_dic_size(coder)?;
             let props = coder.properties[0];
             let lz =
                 LZMAReader::new_with_props(input, uncompressed_len as _, props, dict_size, None)
-- 
2.43.0


From 142da1f668413c87f370a59b512ce6fc4c5dfeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:16 +0000
Subject: [PATCH 31/48] fix: bound the dictionary size of the LZMA2 reader

---
 lzma-rust/src/lzma2_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma-rust/src/lzma2_reader.rs b/lzma-rust/src/lzma2_reader.rs
index db827c7..9cee952 100644
--- a/lzma-rust/src/lzma2_reader.rs
+++ b/lzma-rust/src/lzma2_reader.rs
@@ -39,7 +39,7 @@ pub fn get_memery_usage(dict_size: u32) -> u32 {
 
 #[inline]
 fn get_dict_size(dict_size: u32) -> u32 {
-    dict_size + 15 & !15
+    (dict_size.clamp(4096, super::DICT_SIZE_MAX) + 15) & !15
 }
 
 impl<R> LZMA2Reader<R> {
-- 
2.43.0


From 5ec265630f498f0c5d6bf167b33fca872dd4ad46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 32/48] fix: find the end header behind a blank start header

---
 src/reader.rs | 156 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 111 insertions(+), 45 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 6aa1b81..6d5dc57 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -10,6 +10,8 @@ use crc::Crc;
 use crate::{archive::*, decoders::add_decoder, error::Error, folder::*, password::Password};
 pub(crate) const CRC32: Crc<u32> = Crc::<u32>::new(&crc::CRC_32_ISO_HDLC);
 const MAX_MEM_LIMIT_KB: usize = usize::MAX / 1024;
+/// What decoding a header counts for, in the search for the end header, in bytes parsed.
+const DECODE_EFFORT: usize = 4 * 1024 * 1024;
 /// Most coders, input streams and output streams a folder may have.
 const MAX_FOLDER_STREAMS: usize = 64;
 
@@ -239,7 +241,7 @@ impl Archive {
                 // an archive without a header has no entries
                 return Ok(Archive::default());
             }
-            Self::init_archive(reader, start_header, password, true)
+            Self::init_archive(reader, start_header, password)
         } else {
             Self::try_to_locale_end_header(reader, reader_len, password)
         }
@@ -307,45 +309,82 @@ impl Archive {
         reader_len: u64,
         password: &[u8],
     ) -> Result<Self, Error> {
-        let search_limit = 1024 * 1024;
-        let prev_data_size = reader.stream_position().map_err(Error::io)? + 20;
-        let size = reader_len;
-        let min_pos = if reader.stream_position().map_err(Error::io)? + search_limit > size {
-            reader.stream_position().map_err(Error::io)?
-        } else {
-            size - search_limit
-        };
-        let mut pos = reader_len - 1;
-        while pos > min_pos {
-            pos -= 1;
-
-            reader
-                .seek(std::io::SeekFrom::Start(pos))
-                .map_err(Error::io)?;
-            let nid = read_u8(reader)?;
-            if nid == K_ENCODED_HEADER || nid == K_HEADER {
-                let start_header = StartHeader {
-                    next_header_offset: pos - prev_data_size,
-                    next_header_size: reader_len - pos,
-                    next_header_crc: 0,
-                };
-                let result = Self::init_archive(reader, start_header, password, false)?;
-
-                if !result.files.is_empty() {
-                    return Ok(result);
+        const SEARCH_LIMIT: u64 = 1024 * 1024;
+        // bounds the time spent on data that resembles headers
+        let mut effort = 16 * DECODE_EFFORT;
+
+        let min_pos = reader_len
+            .saturating_sub(SEARCH_LIMIT)
+            .max(SIGNATURE_HEADER_SIZE);
+        reader.seek(SeekFrom::Start(min_pos)).map_err(Error::io)?;
+        let tail = read_vec(reader, reader_len.saturating_sub(min_pos))?;
+
+        let mut password_error = None;
+        for index in (0..tail.len()).rev() {
+            let nid = tail[index];
+            if nid != K_ENCODED_HEADER && nid != K_HEADER {
+                continue;
+            }
+            let candidate = &tail[index..];
+            match Self::read_located_header(
+                reader,
+                candidate,
+                min_pos + index as u64,
+                password,
+                &mut effort,
+            ) {
+                Ok(archive) => return Ok(archive),
+                Err(e @ (Error::PasswordRequired | Error::MaybeBadPassword(_))) => {
+                    password_error.get_or_insert(e);
                 }
+                Err(_) => {}
+            }
+            if effort == 0 {
+                break;
             }
         }
-        Err(Error::other(
-            "Start header corrupt and unable to guess end header",
-        ))
+        Err(password_error.unwrap_or_else(|| {
+            Error::other("Start header corrupt and unable to guess end header")
+        }))
+    }
+
+    /// Position behind the packed streams.
+    fn packed_end(&self) -> u64 {
+        SIGNATURE_HEADER_SIZE + self.pack_pos + self.pack_sizes.iter().sum::<u64>()
+    }
+
+    /// Reads what may be the end header. The one of this archive follows the packed streams
+    /// it describes and extends to the end of the file.
+    fn read_located_header<R: Read + Seek>(
+        reader: &mut R,
+        candidate: &[u8],
+        pos: u64,
+        password: &[u8],
+        effort: &mut usize,
+    ) -> Result<Self, Error> {
+        let mut archive = Archive::default();
+        let mut header = &candidate[1..];
+        let result = if candidate[0] == K_ENCODED_HEADER {
+            Self::read_streams_info(&mut header, &mut archive)
+        } else {
+            Self::read_header(&mut header, &mut archive)
+        };
+        *effort = effort.saturating_sub(candidate.len() - header.len() + 32 * archive.files.len());
+        result?;
+        if !header.is_empty() || archive.packed_end() != pos {
+            return Err(Error::other("Not the end header of this archive"));
+        }
+        if candidate[0] == K_HEADER {
+            return Ok(archive);
+        }
+        *effort = effort.saturating_sub(DECODE_EFFORT);
+        Self::parse_header(reader, candidate, password)
     }
 
     fn init_archive<R: Read + Seek>(
         reader: &mut R,
         start_header: StartHeader,
         password: &[u8],
-        verify_crc: bool,
     ) -> Result<Self, Error> {
         if start_header.next_header_size > usize::MAX as u64 {
             return Err(Error::other(format!(
@@ -361,13 +400,22 @@ impl Archive {
             .seek(SeekFrom::Start(header_position))
             .map_err(Error::io)?;
 
-        let mut buf = read_vec(reader, start_header.next_header_size)?;
-        if verify_crc && crc32_cksum(&buf) as u64 != start_header.next_header_crc {
+        let buf = read_vec(reader, start_header.next_header_size)?;
+        if crc32_cksum(&buf) as u64 != start_header.next_header_crc {
             return Err(Error::NextHeaderCrcMismatch);
         }
 
+        Self::parse_header(reader, &buf, password)
+    }
+
+    fn parse_header<R: Read + Seek>(
+        reader: &mut R,
+        header: &[u8],
+        password: &[u8],
+    ) -> Result<Self, Error> {
         let mut archive = Archive::default();
-        let mut buf_reader = buf.as_slice();
+        let buf;
+        let mut buf_reader = header;
         let mut nid = read_u8(&mut buf_reader)?;
         let mut header: &[u8] = if nid == K_ENCODED_HEADER {
             let (mut out_reader, buf_size) =
@@ -483,7 +531,8 @@ impl Archive {
         if num_files.saturating_sub(num_streams) / 8 > header.len() {
             return Err(Error::other(format!("Too many files: {}", num_files)));
         }
-        let mut files: Vec<SevenZArchiveEntry> = vec![Default::default(); num_files];
+        // grows with the data about the files
+        let files = &mut archive.files;
 
         let mut is_empty_stream: Option<BitSet> = None;
         let mut is_empty_file: Option<BitSet> = None;
@@ -534,19 +583,22 @@ impl Archive {
 
                     let mut next_file = 0;
                     for s in names_reader {
-                        if next_file == files.len() {
+                        if next_file == num_files {
                             return Err(Error::other("Error parsing file names"));
                         }
+                        if next_file == files.len() {
+                            files.push(Default::default());
+                        }
                         files[next_file].name = s?;
                         next_file += 1;
                     }
 
-                    if next_file != files.len() {
+                    if next_file != num_files {
                         return Err(Error::other("Error parsing file names"));
                     }
                 }
                 K_C_TIME => {
-                    let times_defined = read_all_or_bits(header, num_files)?;
+                    let times_defined = read_defined(header, num_files, 8)?;
                     let external = read_u8(header)?;
                     if external != 0 {
                         return Err(Error::other(format!(
@@ -554,6 +606,7 @@ impl Archive {
                             external
                         )));
                     }
+                    files.resize(num_files, Default::default());
                     for i in 0..num_files {
                         files[i].has_creation_date = times_defined.contains(i);
                         if files[i].has_creation_date {
@@ -562,7 +615,7 @@ impl Archive {
                     }
                 }
                 K_A_TIME => {
-                    let times_defined = read_all_or_bits(header, num_files)?;
+                    let times_defined = read_defined(header, num_files, 8)?;
                     let external = read_u8(header)?;
                     if external != 0 {
                         return Err(Error::other(format!(
@@ -570,6 +623,7 @@ impl Archive {
                             external
                         )));
                     }
+                    files.resize(num_files, Default::default());
                     for i in 0..num_files {
                         files[i].has_access_date = times_defined.contains(i);
                         if files[i].has_access_date {
@@ -578,7 +632,7 @@ impl Archive {
                     }
                 }
                 K_M_TIME => {
-                    let times_defined = read_all_or_bits(header, num_files)?;
+                    let times_defined = read_defined(header, num_files, 8)?;
                     let external = read_u8(header)?;
                     if external != 0 {
                         return Err(Error::other(format!(
@@ -586,6 +640,7 @@ impl Archive {
                             external
                         )));
                     }
+                    files.resize(num_files, Default::default());
                     for i in 0..num_files {
                         files[i].has_last_modified_date = times_defined.contains(i);
                         if files[i].has_last_modified_date {
@@ -594,7 +649,7 @@ impl Archive {
                     }
                 }
                 K_WIN_ATTRIBUTES => {
-                    let times_defined = read_all_or_bits(header, num_files)?;
+                    let times_defined = read_defined(header, num_files, 4)?;
                     let external = read_u8(header)?;
                     if external != 0 {
                         return Err(Error::other(format!(
@@ -602,6 +657,7 @@ impl Archive {
                             external
                         )));
                     }
+                    files.resize(num_files, Default::default());
                     for i in 0..num_files {
                         files[i].has_windows_attributes = times_defined.contains(i);
                         if files[i].has_windows_attributes {
@@ -619,6 +675,12 @@ impl Archive {
             };
         }
 
+        let num_empty = is_empty_stream.as_ref().map_or(0, |s| s.len());
+        if num_files - num_empty > num_streams {
+            return Err(Error::other("Archive contains more files than streams"));
+        }
+        files.resize(num_files, Default::default());
+
         let mut non_empty_file_counter = 0;
         let mut empty_file_counter = 0;
         for i in 0..files.len() {
@@ -635,9 +697,6 @@ impl Archive {
                         "Archive contains file with streams but no subStreamsInfo",
                     ));
                 };
-                if non_empty_file_counter >= sub_stream_info.unpack_sizes.len() {
-                    return Err(Error::other("Archive contains more files than streams"));
-                }
                 file.is_directory = false;
                 file.is_anti_item = false;
                 file.has_crc = sub_stream_info.has_crc.contains(non_empty_file_counter);
@@ -659,7 +718,6 @@ impl Archive {
                 empty_file_counter += 1;
             }
         }
-        archive.files = files;
         Ok(())
     }
 
@@ -1112,6 +1170,14 @@ fn read_all_or_bits<R: Read>(header: &mut R, size: usize) -> Result<BitSet, Erro
     }
 }
 
+/// Reads which of `num_files` files have a value of `size` bytes behind this.
+fn read_defined(header: &mut &[u8], num_files: usize, size: usize) -> Result<BitSet, Error> {
+    if header.first() != Some(&0) && header.len() / size < num_files {
+        return Err(Error::io(ErrorKind::UnexpectedEof.into()));
+    }
+    read_all_or_bits(header, num_files)
+}
+
 fn read_bits<R: Read>(header: &mut R, size: usize) -> Result<BitSet, Error> {
     let mut bits = BitSet::with_capacity(size);
     let mut mask = 0u32;
-- 
2.43.0


From f4bc86629876a548685ea29320becf7a7b78f9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 33/48] fix: report an LZMA2 chunk whose data ends early

---
 lzma-rust/src/range_dec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma-rust/src/range_dec.rs b/lzma-rust/src/range_dec.rs
index 47a312c..2254e98 100644
--- a/lzma-rust/src/range_dec.rs
+++ b/lzma-rust/src/range_dec.rs
@@ -177,7 +177,7 @@ impl RangeDecoderBuffer {
 }
 impl RangeSource for RangeDecoderBuffer {
     fn next_byte(&mut self) -> Result<u8> {
-        let b = self.buf[self.pos];
+        let b = *self.buf.get(self.pos).ok_or(ErrorKind::UnexpectedEof)?;
         self.pos += 1;
         Ok(b)
     }
-- 
2.43.0


From cca745af15e1a0a9de615ac0a50bf85da88ccef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 34/48] fix: write over what a failed add left in the output

---
 src/writer.rs           | 21 +++++++++++++++++++++
 src/writer/pack_info.rs |  4 ++++
 2 files changed, 25 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index 1ce1f80..712759a 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -71,6 +71,8 @@ pub struct SevenZWriter<W: Write> {
     pack_info: PackInfo,
     unpack_info: UnpackInfo,
     encrypt_header: bool,
+    /// adding a stream has begun, but it did not get to its end
+    incomplete_stream: bool,
 }
 
 #[cfg(not(target_arch = "wasm32"))]
@@ -98,9 +100,21 @@ impl<W: Write + Seek> SevenZWriter<W> {
             pack_info: Default::default(),
             unpack_info: Default::default(),
             encrypt_header: true,
+            incomplete_stream: false,
         })
     }
 
+    /// Continues behind the streams that were added completely.
+    fn discard_incomplete_stream(&mut self) -> std::io::Result<()> {
+        if self.incomplete_stream {
+            self.output.seek(std::io::SeekFrom::Start(
+                crate::archive::SIGNATURE_HEADER_SIZE + self.pack_info.total_size(),
+            ))?;
+            self.incomplete_stream = false;
+        }
+        Ok(())
+    }
+
     /// Sets the default compression methods to use for entry contents.
     /// The default is LZMA2.
     /// And currently only support LZMA2
@@ -170,6 +184,8 @@ impl<W: Write + Seek> SevenZWriter<W> {
     ) -> Result<&SevenZArchiveEntry> {
         if !entry.is_directory {
             if let Some(mut r) = reader {
+                self.discard_incomplete_stream().map_err(Error::io)?;
+                self.incomplete_stream = true;
                 let mut compressed_len = 0;
                 let mut compressed = CompressWrapWriter::new(&mut self.output, &mut compressed_len);
                 let content_methods = if entry.content_methods.is_empty() {
@@ -228,6 +244,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
 
                 self.unpack_info.add(content_methods.clone(), sizes, crc);
 
+                self.incomplete_stream = false;
                 self.files.push(entry);
                 return Ok(self.files.last().unwrap());
             }
@@ -251,6 +268,8 @@ impl<W: Write + Seek> SevenZWriter<W> {
     ) -> Result<&mut Self> {
         let mut r = reader;
         assert_eq!(r.reader_len(), entries.len());
+        self.discard_incomplete_stream().map_err(Error::io)?;
+        self.incomplete_stream = true;
         let mut compressed_len = 0;
         let mut compressed = CompressWrapWriter::new(&mut self.output, &mut compressed_len);
         let content_methods = &self.content_methods;
@@ -338,6 +357,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
             sub_stream_crcs,
         );
 
+        self.incomplete_stream = false;
         self.files.extend(entries);
         Ok(self)
     }
@@ -365,6 +385,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
 
     /// Finishes the compression.
     pub fn finish(mut self) -> std::io::Result<W> {
+        self.discard_incomplete_stream()?;
         let mut header: Vec<u8> = Vec::with_capacity(64 * 1024);
         self.write_encoded_header(&mut header)?;
         let header_pos = self.output.stream_position()?;
diff --git a/src/writer/pack_info.rs b/src/writer/pack_info.rs
index 28c45b8..110a4e6 100644
--- a/src/writer/pack_info.rs
+++ b/src/writer/pack_info.rs
@@ -8,6 +8,10 @@ pub struct PackInfo {
 }
 
 impl PackInfo {
+    pub fn total_size(&self) -> u64 {
+        self.sizes.iter().sum()
+    }
+
     pub fn write_to<H: Write>(&mut self, header: &mut H) -> std::io::Result<()> {
         header.write_u8(K_PACK_INFO)?;
         write_u64(header, self.pos)?;
-- 
2.43.0


From b0e907b7d99e65866fdf987da7cd5be73d0258da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 35/48] fix: report the same error again when LZMA data is read
 on after it

---
 lzma-rust/src/lzma_reader.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lzma-rust/src/lzma_reader.rs b/lzma-rust/src/lzma_reader.rs
index 6747a9e..dedbedd 100644
--- a/lzma-rust/src/lzma_reader.rs
+++ b/lzma-rust/src/lzma_reader.rs
@@ -58,6 +58,7 @@ pub struct LZMAReader<R> {
     end_reached: bool,
     relaxed_end_cond: bool,
     remaining_size: u64,
+    error: Option<Error>,
 }
 
 impl<R> Drop for LZMAReader<R> {
@@ -132,6 +133,7 @@ impl<R: Read> LZMAReader<R> {
             end_reached: false,
             relaxed_end_cond: true,
             remaining_size: uncomp_size,
+            error: None,
         })
     }
 
@@ -254,6 +256,12 @@ impl<R: Read> LZMAReader<R> {
 
 impl<R: Read> Read for LZMAReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
-        self.read_decode(buf)
+        if let Some(e) = &self.error {
+            return Err(Error::new(e.kind(), e.to_string()));
+        }
+        self.read_decode(buf).map_err(|e| {
+            self.error = Some(Error::new(e.kind(), e.to_string()));
+            e
+        })
     }
 }
-- 
2.43.0


From 164cf974f26a72005596e8834a890f71a95f19b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 36/48] fix: refuse AES key derivations of more than 2^24
 cycles

---
 src/aes256sha256.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aes256sha256.rs b/src/aes256sha256.rs
index f929afb..0aa1628 100644
--- a/src/aes256sha256.rs
+++ b/src/aes256sha256.rs
@@ -139,12 +139,18 @@ fn get_aes_key(properties: &[u8], password: &[u8]) -> Result<([u8; 32], [u8; 16]
     if password.is_empty() {
         return Err(crate::Error::PasswordRequired);
     }
+    // 7-Zip does not go beyond this either
+    const MAX_CYCLES_POWER: u8 = 24;
     let aes_key = if num_cycles_power == 0x3f {
         let mut aes_key = [0u8; 32];
         aes_key[..salt_size].copy_from_slice(&salt);
         let n = password.len().min(aes_key.len() - salt_size);
         aes_key[salt_size..n + salt_size].copy_from_slice(&password[0..n]);
         aes_key
+    } else if num_cycles_power > MAX_CYCLES_POWER {
+        return Err(crate::Error::unsupported(format!(
+            "AES256 num cycles power {num_cycles_power}"
+        )));
     } else {
         let mut sha = sha2::Sha256::default();
         let mut extra = [0u8; 8];
-- 
2.43.0


From 6232b40d5af04f0a8d7eba23a37cbb23b95e8ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 37/48] fix: only an empty archive has no header

---
 src/reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 6d5dc57..ae60463 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -239,6 +239,9 @@ impl Archive {
             let start_header = Self::read_start_header(reader, start_header_crc)?;
             if start_header.next_header_size == 0 {
                 // an archive without a header has no entries
+                if start_header.next_header_offset != 0 || start_header.next_header_crc != 0 {
+                    return Err(Error::other("Start header of a missing header"));
+                }
                 return Ok(Archive::default());
             }
             Self::init_archive(reader, start_header, password)
-- 
2.43.0


From 3724721fdeacf9d9aa10ed02a277a34234b29a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:28 +0000
Subject: [PATCH 38/48] fix: encrypt the header whenever contents are
 encrypted, however small it is

---
 src/writer.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 712759a..2a2aa68 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -424,6 +424,14 @@ impl<W: Write + Seek> SevenZWriter<W> {
         Ok(())
     }
 
+    /// The encryption in use now, or else the one that was used last
+    fn encryption_method(&self) -> Option<&SevenZMethodConfiguration> {
+        std::iter::once(&self.content_methods)
+            .chain(self.unpack_info.folders.iter().rev().map(|f| &f.methods))
+            .flat_map(|methods| methods.iter())
+            .find(|conf| conf.method.id() == SevenZMethod::AES256SHA256.id())
+    }
+
     fn write_encoded_header<H: Write>(&mut self, header: &mut H) -> std::io::Result<()> {
         let mut raw_header = Vec::with_capacity(64 * 1024);
         self.write_header(&mut raw_header)?;
@@ -439,13 +447,9 @@ impl<W: Write + Seek> SevenZWriter<W> {
         let mut methods = vec![];
 
         if self.encrypt_header {
-            for conf in self.content_methods.iter() {
-                if conf.method.id() == SevenZMethod::AES256SHA256.id() {
-                    methods.push(conf.clone());
-                    break;
-                }
-            }
+            methods.extend(self.encryption_method().cloned());
         }
+        let encrypted = !methods.is_empty();
         methods.push(SevenZMethodConfiguration::new(SevenZMethod::LZMA));
 
         let methods = Arc::new(methods);
@@ -463,7 +467,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
 
         let compress_crc = compressed.crc_value();
         let compress_size = *compressed.bytes_written;
-        if compress_size as u64 + 20 >= size {
+        if !encrypted && compress_size as u64 + 20 >= size {
             // compression made it worse. Write raw data
             header.write_all(&raw_header)?;
             return Ok(());
-- 
2.43.0


From cb2db11ce14185683d6ae396d16553ee3b8e7b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 39/48] fix: refuse entry names that lead out of the
 destination directory

---
 src/de_funcs.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/de_funcs.rs b/src/de_funcs.rs
index 468cce7..3d36515 100644
--- a/src/de_funcs.rs
+++ b/src/de_funcs.rs
@@ -99,13 +99,31 @@ fn decompress_impl<R: Read + Seek>(
         std::fs::create_dir_all(&dest).map_err(Error::io)?;
     }
     seven.for_each_entries(|entry, reader| {
-        let dest_path = dest.join(entry.name());
+        let dest_path = entry_dest_path(&dest, entry.name())?;
         extract_fn(entry, reader, &dest_path)
     })?;
 
     Ok(())
 }
 
+/// The path of an entry below `dest`. Names that could lead out of it are refused.
+#[cfg(not(target_arch = "wasm32"))]
+fn entry_dest_path(dest: &Path, name: &str) -> Result<PathBuf, Error> {
+    use std::path::Component;
+
+    let mut path = dest.to_path_buf();
+    for component in Path::new(name).components() {
+        match component {
+            Component::Normal(part) => path.push(part),
+            Component::CurDir => {}
+            Component::ParentDir | Component::RootDir | Component::Prefix(_) => {
+                return Err(Error::other(format!("unsafe entry name: {name:?}")));
+            }
+        }
+    }
+    Ok(path)
+}
+
 #[cfg(not(target_arch = "wasm32"))]
 pub fn default_entry_extract_fn(
     entry: &SevenZArchiveEntry,
-- 
2.43.0


From a11587d808e59941bf640b09eff5b6dfbf908033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 40/48] fix: give extracted files the stored times, also small
 and empty ones

---
 src/de_funcs.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/de_funcs.rs b/src/de_funcs.rs
index 3d36515..ed8542c 100644
--- a/src/de_funcs.rs
+++ b/src/de_funcs.rs
@@ -148,19 +148,22 @@ pub fn default_entry_extract_fn(
         });
         let file = File::create(path)
             .map_err(|e| Error::file_open(e, path.to_string_lossy().to_string()))?;
+        let mut writer = BufWriter::new(file);
         if entry.size() > 0 {
-            let mut writer = BufWriter::new(file);
             std::io::copy(reader, &mut writer).map_err(Error::io)?;
-            ft::set_file_handle_times(
-                writer.get_ref(),
-                Some(ft::FileTime::from_system_time(entry.access_date().into())),
-                Some(ft::FileTime::from_system_time(
-                    entry.last_modified_date().into(),
-                )),
-                Some(ft::FileTime::from_system_time(entry.creation_date().into())),
-            )
-            .unwrap_or_default();
         }
+        // data written later would change the modification time again
+        let file = writer.into_inner().map_err(|e| Error::io(e.into_error()))?;
+        let time = |has: bool, date: nt_time::FileTime| {
+            has.then(|| ft::FileTime::from_system_time(date.into()))
+        };
+        ft::set_file_handle_times(
+            &file,
+            time(entry.has_access_date, entry.access_date()),
+            time(entry.has_last_modified_date, entry.last_modified_date()),
+            time(entry.has_creation_date, entry.creation_date()),
+        )
+        .unwrap_or_default();
     }
     Ok(true)
 }
-- 
2.43.0


From 94a652bc01bb66853ed8f1f5740f73aedc68b2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 41/48] fix: store a single source file under its own name

---
 src/en_funcs.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/en_funcs.rs b/src/en_funcs.rs
index 24ac8c5..9d8b699 100644
--- a/src/en_funcs.rs
+++ b/src/en_funcs.rs
@@ -168,6 +168,16 @@ fn collect_file_paths(
     Ok(())
 }
 
+/// The name for the file `path` found below `src`, or for `src` itself if it is a file.
+fn entry_name(path: &Path, src: &Path) -> String {
+    match path.strip_prefix(src) {
+        Ok(name) if !name.as_os_str().is_empty() => name,
+        _ => path.file_name().map(Path::new).unwrap_or(path),
+    }
+    .to_string_lossy()
+    .to_string()
+}
+
 const MAX_BLOCK_SIZE: u64 = 4 * 1024 * 1024 * 1024; //4G
 fn encode_path<W: Write + Seek>(
     solid: bool,
@@ -185,11 +195,7 @@ fn encode_path<W: Write + Seek>(
     })?;
     if !solid {
         for ele in paths.into_iter() {
-            let name = ele
-                .strip_prefix(&src)
-                .unwrap()
-                .to_string_lossy()
-                .to_string();
+            let name = entry_name(&ele, src.as_ref());
             zip.push_archive_entry(
                 SevenZArchiveEntry::from_path(ele.as_path(), name),
                 Some(File::open(ele.as_path()).map_err(crate::Error::io)?),
@@ -201,11 +207,7 @@ fn encode_path<W: Write + Seek>(
     let mut file_size = 0;
     for ele in paths.into_iter() {
         let size = ele.metadata()?.len();
-        let name = ele
-            .strip_prefix(&src)
-            .unwrap()
-            .to_string_lossy()
-            .to_string();
+        let name = entry_name(&ele, src.as_ref());
         if size >= MAX_BLOCK_SIZE {
             zip.push_archive_entry(
                 SevenZArchiveEntry::from_path(ele.as_path(), name),
-- 
2.43.0


From fc0404f15e8001337afe173ff35ce768974ec8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 42/48] Verification hook: block size limit of the path helpers
 that small trees reach (cfg sevenz_verif)

---
 src/en_funcs.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/en_funcs.rs b/src/en_funcs.rs
index 9d8b699..fc8be65 100644
--- a/src/en_funcs.rs
+++ b/src/en_funcs.rs
@@ -178,6 +178,10 @@ fn entry_name(path: &Path, src: &Path) -> String {
     .to_string()
 }
 
+// verification hook: a size that small trees reach
+#[cfg(sevenz_verif)]
+const MAX_BLOCK_SIZE: u64 = 8 * 1024;
+#[cfg(not(sevenz_verif))]
 const MAX_BLOCK_SIZE: u64 = 4 * 1024 * 1024 * 1024; //4G
 fn encode_path<W: Write + Seek>(
     solid: bool,
-- 
2.43.0


From 4902fc31795dedcd5ce46bf1c38554b3dd2984a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 43/48] fix: refuse entry names with a NUL, which made the
 whole archive unreadable

---
 src/writer.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index 2a2aa68..243bad5 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -63,6 +63,17 @@ macro_rules! write_times {
 
 type Result<T> = std::result::Result<T, crate::Error>;
 
+/// A NUL ends a name in the header, so it cannot be a part of one.
+fn check_name(entry: &SevenZArchiveEntry) -> Result<()> {
+    if entry.name.contains('\0') {
+        return Err(Error::other(format!(
+            "NUL in the entry name {:?}",
+            entry.name
+        )));
+    }
+    Ok(())
+}
+
 /// Writes a 7z file
 pub struct SevenZWriter<W: Write> {
     output: W,
@@ -182,6 +193,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
         mut entry: SevenZArchiveEntry,
         reader: Option<R>,
     ) -> Result<&SevenZArchiveEntry> {
+        check_name(&entry)?;
         if !entry.is_directory {
             if let Some(mut r) = reader {
                 self.discard_incomplete_stream().map_err(Error::io)?;
@@ -268,6 +280,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
     ) -> Result<&mut Self> {
         let mut r = reader;
         assert_eq!(r.reader_len(), entries.len());
+        entries.iter().try_for_each(check_name)?;
         self.discard_incomplete_stream().map_err(Error::io)?;
         self.incomplete_stream = true;
         let mut compressed_len = 0;
-- 
2.43.0


From c3ddf51033364922833e05ca66c0bc4b9c7ff2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 44/48] fix: let the BCJ2 decoder's 32-bit address wrap beyond
 4 GiB

---
 src/bcj2/bcj2_decode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bcj2/bcj2_decode.rs b/src/bcj2/bcj2_decode.rs
index 4c58bfa..4046501 100644
--- a/src/bcj2/bcj2_decode.rs
+++ b/src/bcj2/bcj2_decode.rs
@@ -158,7 +158,7 @@ impl Bcj2Decoder {
                     if src == src_lim {
                         self.temp[3] = src_bufs[src - 1];
                         self.bufs[BCJ2_STREAM_MAIN] = src;
-                        self.ip += num as u32;
+                        self.ip = self.ip.wrapping_add(num as u32);
                         self.dest += num;
                         self.state = if self.bufs[BCJ2_STREAM_MAIN] == self.lims[BCJ2_STREAM_MAIN] {
                             BCJ2_STREAM_MAIN
@@ -179,7 +179,7 @@ impl Bcj2Decoder {
                         self.temp[3] = b;
                         self.bufs[BCJ2_STREAM_MAIN] = src + 1;
                         num += 1;
-                        self.ip += num as u32;
+                        self.ip = self.ip.wrapping_add(num as u32);
                         self.dest += num;
 
                         let prob = &mut self.probs[if b == 0xE8 {
@@ -227,7 +227,7 @@ impl Bcj2Decoder {
                 };
                 self.bufs[cj] = cur + 4;
 
-                self.ip += 4;
+                self.ip = self.ip.wrapping_add(4);
                 val = val.wrapping_sub(self.ip);
                 let dest = self.dest;
                 let rem = dest_lim - dest;
-- 
2.43.0


From bf72fb22c1986189aeb8cb301fbdb354efd03e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 45/48] fix: count more than 4 GiB in the AES encoder

---
 src/aes256sha256.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aes256sha256.rs b/src/aes256sha256.rs
index 0aa1628..7855c93 100644
--- a/src/aes256sha256.rs
+++ b/src/aes256sha256.rs
@@ -241,7 +241,7 @@ mod enc {
         enc: Aes256CbcEnc,
         buffer: Vec<u8>,
         done: bool,
-        write_size: u32,
+        write_size: u64,
     }
     #[derive(Debug, Clone)]
     pub struct AesEncoderOptions {
@@ -309,7 +309,7 @@ mod enc {
             let block2 = GenericArray::from_mut_slice(block);
             self.enc.encrypt_block_mut(block2);
             self.output.write_all(block)?;
-            self.write_size += block.len() as u32;
+            self.write_size += block.len() as u64;
             Ok(())
         }
     }
-- 
2.43.0


From b30cfc93dc553ad6fa41c84fdb684741506ef467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 46/48] fix: let the LZMA encoder's chunk counter wrap in
 streams beyond 4 GiB

---
 lzma-rust/src/enc/encoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lzma-rust/src/enc/encoder.rs b/lzma-rust/src/enc/encoder.rs
index 3fb11d4..160d65f 100644
--- a/lzma-rust/src/enc/encoder.rs
+++ b/lzma-rust/src/enc/encoder.rs
@@ -319,7 +319,8 @@ impl LZMAEncoder {
             }
         }
         self.data.read_ahead -= len as i32;
-        self.data.uncompressed_size += len;
+        // only LZMA2 uses it, and starts anew with every chunk
+        self.data.uncompressed_size = self.data.uncompressed_size.wrapping_add(len);
         Ok(true)
     }
 
-- 
2.43.0


From 3c3d3f2dfa36dfd5f119ac95c148c931d3ffa266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:46 +0000
Subject: [PATCH 47/48] fix: count all packed streams of a block in the
 compressed size of its first entry

---
 src/reader.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index ae60463..09efe42 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -773,13 +773,14 @@ impl Archive {
             if stream_map.folder_first_file_index[next_folder_index] == i {
                 let first_pack_stream_index =
                     stream_map.folder_first_pack_stream_index[next_folder_index];
-                let pack_size = archive
-                    .pack_sizes
-                    .get(first_pack_stream_index)
-                    .copied()
-                    .unwrap_or_default();
+                let num_pack_streams = archive.folders[next_folder_index].packed_streams.len();
 
-                archive.files[i].compressed_size = pack_size;
+                archive.files[i].compressed_size = archive
+                    .pack_sizes
+                    .iter()
+                    .skip(first_pack_stream_index)
+                    .take(num_pack_streams)
+                    .sum();
             }
 
             next_folder_unpack_stream_index += 1;
-- 
2.43.0


From 4b9bd608bc5f561d45e9f491711d59cecd4eccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:46 +0000
Subject: [PATCH 48/48] fix: count the compressor's memory in KiB throughout

---
 lzma-rust/src/lz/hash234.rs    | 2 +-
 lzma-rust/src/lz/lz_encoder.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/lzma-rust/src/lz/hash234.rs b/lzma-rust/src/lz/hash234.rs
index cc98df0..da307e2 100644
--- a/lzma-rust/src/lz/hash234.rs
+++ b/lzma-rust/src/lz/hash234.rs
@@ -32,7 +32,7 @@ impl Hash234 {
     }
 
     pub fn get_mem_usage(dict_size: u32) -> u32 {
-        (HASH2_MASK + HASH2_SIZE + Self::get_hash4_size(dict_size)) / (1024 / 4) + 4
+        (HASH2_SIZE + HASH3_SIZE + Self::get_hash4_size(dict_size)) / (1024 / 4) + 4
     }
 
     pub fn new(dict_size: u32) -> Self {
diff --git a/lzma-rust/src/lz/lz_encoder.rs b/lzma-rust/src/lz/lz_encoder.rs
index b8b0fd5..f92f096 100644
--- a/lzma-rust/src/lz/lz_encoder.rs
+++ b/lzma-rust/src/lz/lz_encoder.rs
@@ -97,7 +97,8 @@ impl LZEncoder {
             extra_size_before,
             extra_size_after,
             match_len_max,
-        ) + mf.get_memery_usage(dict_size);
+        ) / 1024
+            + mf.get_memery_usage(dict_size);
 
         m
     }
-- 
2.43.0

