From e9f41c4f3092a03a8b6329060641840d7e5ecd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 01/47] fix: write the anti-item mark for anti items, not for
 all the others

---
 src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index c727b30..2c053de 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -546,8 +546,8 @@ impl<W: Write + Seek> SevenZWriter<W> {
         for entry in self.files.iter() {
             if !entry.has_stream {
                 let is_anti = entry.is_anti_item();
-                has_anti |= !is_anti;
-                if !is_anti {
+                has_anti |= is_anti;
+                if is_anti {
                     bitset.insert(counter);
                 }
                 counter += 1;
-- 
2.43.0


From 6f6d3391cbcad485a0805dad3625c0be966b3e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 02/47] fix: write empty-file and anti bit vectors over all
 entries without a stream

---
 src/writer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 2c053de..398300c 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -514,10 +514,15 @@ impl<W: Write + Seek> SevenZWriter<W> {
         }
         Ok(())
     }
+
+    fn count_empty_streams(&self) -> usize {
+        self.files.iter().filter(|f| !f.has_stream).count()
+    }
+
     fn write_file_empty_files<H: Write>(&self, header: &mut H) -> std::io::Result<()> {
         let mut has_empty = false;
         let mut empty_stream_counter = 0;
-        let mut bitset = BitSet::new();
+        let mut bitset = BitSet::with_capacity(self.count_empty_streams());
         for entry in self.files.iter() {
             if !entry.has_stream {
                 let is_dir = entry.is_directory();
@@ -542,7 +547,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
     fn write_file_anti_items<H: Write>(&self, header: &mut H) -> std::io::Result<()> {
         let mut has_anti = false;
         let mut counter = 0;
-        let mut bitset = BitSet::new();
+        let mut bitset = BitSet::with_capacity(self.count_empty_streams());
         for entry in self.files.iter() {
             if !entry.has_stream {
                 let is_anti = entry.is_anti_item();
-- 
2.43.0


From fd718f8a66dd4249094eed77196f4069800fcc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 03/47] fix: write the defined pack checksums when some are not
 defined

---
 src/writer/pack_info.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/writer/pack_info.rs b/src/writer/pack_info.rs
index 48a0d0c..d43c05d 100644
--- a/src/writer/pack_info.rs
+++ b/src/writer/pack_info.rs
@@ -35,6 +35,9 @@ impl PackInfo {
             let mut temp = Vec::with_capacity(self.len());
             write_bit_set(&mut temp, &crc_define_bits)?;
             header.write_all(&temp)?;
+            for crc in self.crcs.iter().filter(|f| **f != 0) {
+                header.write_u32::<LittleEndian>(*crc)?;
+            }
         }
 
         header.write_u8(K_END)?;
-- 
2.43.0


From d6063eefe63fa703ab7c8a49bbbe0a7976e7cf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 04/47] fix: do not repeat the checksum of a folder with a
 single stream

---
 src/writer/unpack_info.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/writer/unpack_info.rs b/src/writer/unpack_info.rs
index 9a327f6..b43c7cd 100644
--- a/src/writer/unpack_info.rs
+++ b/src/writer/unpack_info.rs
@@ -81,7 +81,8 @@ impl UnpackInfo {
         header.write_u8(K_CRC)?;
         header.write_u8(1)?; // all crc defined
         for f in &self.folders {
-            if f.sub_stream_crcs.len() <= 1 && f.crc != 0 {
+            // the checksum of a folder with a single stream is in the folder's own record
+            if f.num_sub_unpack_streams == 1 {
                 continue;
             }
             for i in 0..f.sub_stream_crcs.len() {
-- 
2.43.0


From e75a8f3213007b97617ad3597e85522142919b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 05/47] fix: mark the entries of a solid group as having a
 stream, except directories

---
 src/writer.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 398300c..4ee2567 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -314,8 +314,21 @@ impl<W: Write + Seek> SevenZWriter<W> {
             let ri = &r[i];
             entry.crc = ri.crc_value() as u64;
             entry.size = ri.read_count() as u64;
+            if entry.is_directory {
+                // a directory has no stream
+                if entry.size > 0 {
+                    return Err(Error::other(format!(
+                        "Directory entry with data:{}",
+                        entry.name()
+                    )));
+                }
+                entry.has_stream = false;
+                entry.has_crc = false;
+                continue;
+            }
             sub_stream_crcs.push(entry.crc as u32);
             sub_stream_sizes.push(entry.size);
+            entry.has_stream = true;
             entry.has_crc = true;
         }
 
@@ -330,7 +343,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
             content_methods.clone(),
             sizes,
             crc,
-            entries.len() as u64,
+            sub_stream_sizes.len() as u64,
             sub_stream_sizes,
             sub_stream_crcs,
         );
-- 
2.43.0


From 1d201da8f012eedf3e7cecb3e0e66271892e8685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 06/47] fix: overwrite the partial output of a failed add

---
 src/writer.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index 4ee2567..1d7793c 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -146,6 +146,15 @@ impl<W: Write + Seek> SevenZWriter<W> {
         entry
     }
 
+    /// Moves to the end of the packed streams: an add that failed leaves its partial output there.
+    fn seek_to_pack_end(&mut self) -> std::io::Result<()> {
+        let pos = SIGNATURE_HEADER_SIZE + self.pack_info.sizes.iter().sum::<u64>();
+        if self.output.stream_position()? != pos {
+            self.output.seek(std::io::SeekFrom::Start(pos))?;
+        }
+        Ok(())
+    }
+
     /// Adds an archive `entry` with data from `reader`
     /// # Examples
     /// ```no_run
@@ -170,6 +179,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
     ) -> Result<&SevenZArchiveEntry> {
         if !entry.is_directory {
             if let Some(mut r) = reader {
+                self.seek_to_pack_end().map_err(Error::io)?;
                 let mut compressed_len = 0;
                 let mut compressed = CompressWrapWriter::new(&mut self.output, &mut compressed_len);
                 let content_methods = if entry.content_methods.is_empty() {
@@ -250,6 +260,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
     ) -> Result<&mut Self> {
         let mut r = reader;
         assert_eq!(r.reader_len(), entries.len());
+        self.seek_to_pack_end().map_err(Error::io)?;
         let mut compressed_len = 0;
         let mut compressed = CompressWrapWriter::new(&mut self.output, &mut compressed_len);
         let content_methods = &self.content_methods;
@@ -376,6 +387,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
     /// Finishes the compression.
     pub fn finish(mut self) -> std::io::Result<W> {
         let mut header: Vec<u8> = Vec::with_capacity(64 * 1024);
+        self.seek_to_pack_end()?;
         self.write_encoded_header(&mut header)?;
         let header_pos = self.output.stream_position()?;
         self.output.write_all(&header)?;
-- 
2.43.0


From eddaf4bd527592cdad221480e7477f472a576bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 07/47] fix: never fall back to a plain header when the header
 is to be encrypted

---
 src/writer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 1d7793c..2324b02 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -440,13 +440,19 @@ impl<W: Write + Seek> SevenZWriter<W> {
         let mut methods = vec![];
 
         if self.encrypt_header {
-            for conf in self.content_methods.iter() {
+            // the methods may have been changed since an encrypted entry was added
+            let used = self.unpack_info.folders.iter().rev().map(|f| &f.methods);
+            for conf in std::iter::once(&self.content_methods)
+                .chain(used)
+                .flat_map(|m| m.iter())
+            {
                 if conf.method.id() == SevenZMethod::AES256SHA256.id() {
                     methods.push(conf.clone());
                     break;
                 }
             }
         }
+        let encrypted = !methods.is_empty();
         methods.push(SevenZMethodConfiguration::new(SevenZMethod::LZMA));
 
         let methods = Arc::new(methods);
@@ -464,7 +470,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
 
         let compress_crc = compressed.crc_value();
         let compress_size = *compressed.bytes_written;
-        if compress_size as u64 + 20 >= size {
+        if !encrypted && compress_size as u64 + 20 >= size {
             // compression made it worse. Write raw data
             header.write_all(&raw_header)?;
             return Ok(());
-- 
2.43.0


From f029d1861ef9d11eb87968ef1b747fd84dc65162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 08/47] fix: declare an LZMA2 dictionary that is at least as
 large as the one used

---
 src/encoders.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/encoders.rs b/src/encoders.rs
index fc20119..7a57341 100644
--- a/src/encoders.rs
+++ b/src/encoders.rs
@@ -82,10 +82,11 @@ pub(crate) fn get_options_as_properties<'a>(
             let dict_size = options
                 .map(|o| o.get_lzma2_dict_size())
                 .unwrap_or(LZMA2Options::DICT_SIZE_DEFAULT);
-            let lead = dict_size.leading_zeros();
-            let second_bit = (dict_size >> (30u32.wrapping_sub(lead))).wrapping_sub(2);
-            let prop = (19u32.wrapping_sub(lead) * 2 + second_bit) as u8;
-            out[0] = prop;
+            // the smallest size of the form 2^n or 2^n + 2^(n-1) that is not below dict_size
+            let prop = (0..40u32)
+                .find(|p| (2 | (p & 1)) << (p / 2 + 11) >= dict_size)
+                .unwrap_or(40);
+            out[0] = prop as u8;
             &out[0..1]
         }
         SevenZMethod::ID_LZMA => {
-- 
2.43.0


From 4c6618b1bc85732187e695dd8f4bdc442316426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:32 +0000
Subject: [PATCH 09/47] fix: LZMA2: keep a whole uncompressed chunk in the
 window of a small dictionary

---
 lzma-rust/src/enc/encoder.rs      | 5 +++--
 lzma-rust/src/enc/lzma2_writer.rs | 1 +
 lzma-rust/src/enc/lzma_writer.rs  | 1 +
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lzma-rust/src/enc/encoder.rs b/lzma-rust/src/enc/encoder.rs
index 4b97e6d..3fb11d4 100644
--- a/lzma-rust/src/enc/encoder.rs
+++ b/lzma-rust/src/enc/encoder.rs
@@ -133,6 +133,7 @@ impl LZMAEncoder {
         depth_limit: i32,
         dict_size: u32,
         nice_len: usize,
+        extra_size_before: u32,
     ) -> (Self, LZMAEncoderModes) {
         let fast_mode = mode == EncodeMode::Fast;
         let mut mode: LZMAEncoderModes = if fast_mode {
@@ -142,12 +143,12 @@ impl LZMAEncoder {
         };
         let (extra_size_before, extra_size_after) = if fast_mode {
             (
-                FashEncoderMode::EXTRA_SIZE_BEFORE,
+                extra_size_before.max(FashEncoderMode::EXTRA_SIZE_BEFORE),
                 FashEncoderMode::EXTRA_SIZE_AFTER,
             )
         } else {
             (
-                NormalEncoderMode::EXTRA_SIZE_BEFORE,
+                extra_size_before.max(NormalEncoderMode::EXTRA_SIZE_BEFORE),
                 NormalEncoderMode::EXTRA_SIZE_AFTER,
             )
         };
diff --git a/lzma-rust/src/enc/lzma2_writer.rs b/lzma-rust/src/enc/lzma2_writer.rs
index 2121da8..96197dd 100644
--- a/lzma-rust/src/enc/lzma2_writer.rs
+++ b/lzma-rust/src/enc/lzma2_writer.rs
@@ -174,6 +174,7 @@ impl<W: Write> LZMA2Writer<W> {
             options.depth_limit,
             options.dict_size,
             options.nice_len as usize,
+            get_extra_size_before(dict_size),
         );
 
         let props = options.get_props();
diff --git a/lzma-rust/src/enc/lzma_writer.rs b/lzma-rust/src/enc/lzma_writer.rs
index 9aa7aa5..b03f155 100644
--- a/lzma-rust/src/enc/lzma_writer.rs
+++ b/lzma-rust/src/enc/lzma_writer.rs
@@ -50,6 +50,7 @@ impl<W: Write> LZMAWriter<W> {
             options.depth_limit,
             options.dict_size,
             options.nice_len as usize,
+            0,
         );
         if let Some(preset_dict) = &options.preset_dict {
             if use_header {
-- 
2.43.0


From 4e3230b395f5bf81b088c10c6eeee43ad83a2104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 10/47] fix: LZMA2: accept an uncompressed chunk of 64 KiB

---
 lzma-rust/src/lzma2_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma-rust/src/lzma2_reader.rs b/lzma-rust/src/lzma2_reader.rs
index 8fd1daa..db827c7 100644
--- a/lzma-rust/src/lzma2_reader.rs
+++ b/lzma-rust/src/lzma2_reader.rs
@@ -119,7 +119,7 @@ impl<R: Read> LZMA2Reader<R> {
             ));
         } else {
             self.is_lzma_chunk = false;
-            self.uncompressed_size = (self.inner.read_u16::<BigEndian>()? + 1) as _;
+            self.uncompressed_size = self.inner.read_u16::<BigEndian>()? as usize + 1;
         }
         Ok(())
     }
-- 
2.43.0


From 247a7e7f406b15c3a335eb7ce4dc4e906cbfffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 11/47] fix: LZMA2: do not overflow when rounding the largest
 dictionary size

---
 lzma-rust/src/lzma2_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma-rust/src/lzma2_reader.rs b/lzma-rust/src/lzma2_reader.rs
index db827c7..cba743e 100644
--- a/lzma-rust/src/lzma2_reader.rs
+++ b/lzma-rust/src/lzma2_reader.rs
@@ -39,7 +39,7 @@ pub fn get_memery_usage(dict_size: u32) -> u32 {
 
 #[inline]
 fn get_dict_size(dict_size: u32) -> u32 {
-    dict_size + 15 & !15
+    dict_size.clamp(crate::DICT_SIZE_MIN, crate::DICT_SIZE_MAX) + 15 & !15
 }
 
 impl<R> LZMA2Reader<R> {
-- 
2.43.0


From fa33b887ba0f78c60585221004ce2a8d5efad58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 12/47] fix: LZMA2: report a chunk whose compressed data is too
 short

---
 lzma-rust/src/range_dec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma-rust/src/range_dec.rs b/lzma-rust/src/range_dec.rs
index 47a312c..2254e98 100644
--- a/lzma-rust/src/range_dec.rs
+++ b/lzma-rust/src/range_dec.rs
@@ -177,7 +177,7 @@ impl RangeDecoderBuffer {
 }
 impl RangeSource for RangeDecoderBuffer {
     fn next_byte(&mut self) -> Result<u8> {
-        let b = self.buf[self.pos];
+        let b = *self.buf.get(self.pos).ok_or(ErrorKind::UnexpectedEof)?;
         self.pos += 1;
         Ok(b)
     }
-- 
2.43.0


From 444dc0532bf6151885039c44556b3383a9e1ef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 13/47] fix: LZMA: do not truncate the remaining size to 32
 bits

---
 lzma-rust/src/lzma_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lzma-rust/src/lzma_reader.rs b/lzma-rust/src/lzma_reader.rs
index 653dd97..447a846 100644
--- a/lzma-rust/src/lzma_reader.rs
+++ b/lzma-rust/src/lzma_reader.rs
@@ -204,11 +204,11 @@ impl<R: Read> LZMAReader<R> {
             return Ok(0);
         }
         let mut size = 0;
-        let mut len = buf.len() as u32;
+        let mut len = buf.len().min(u32::MAX as usize) as u32;
         let mut off = 0u32;
         while len > 0 {
             let mut copy_size_max = len as u32;
-            if self.remaining_size <= u64::MAX / 2 && (self.remaining_size as u32) < len {
+            if self.remaining_size <= u64::MAX / 2 && self.remaining_size < len as u64 {
                 copy_size_max = self.remaining_size as u32;
             }
             self.lz.set_limit(copy_size_max as usize);
-- 
2.43.0


From b11ced11e00bd36fe07986c35d549fee8420f688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 14/47] fix: LZMA: keep room for the preset dictionary

---
 lzma-rust/src/lzma_reader.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lzma-rust/src/lzma_reader.rs b/lzma-rust/src/lzma_reader.rs
index 447a846..d22084c 100644
--- a/lzma-rust/src/lzma_reader.rs
+++ b/lzma-rust/src/lzma_reader.rs
@@ -111,8 +111,9 @@ impl<R: Read> LZMAReader<R> {
             ));
         }
         let mut dict_size = get_dict_size(dict_size)?;
-        if uncomp_size <= u64::MAX / 2 && dict_size as u64 > uncomp_size {
-            dict_size = get_dict_size(uncomp_size as u32)?;
+        let preset_size = preset_dict.map(|d| d.len() as u64).unwrap_or(0);
+        if uncomp_size <= u64::MAX / 2 && dict_size as u64 > uncomp_size + preset_size {
+            dict_size = get_dict_size((uncomp_size + preset_size) as u32)?;
         }
         let rc = RangeDecoder::new_stream(reader);
         let rc = match rc {
-- 
2.43.0


From 5fe24e88b0856d5c1f3d7f83c602e7c8214383e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:41 +0000
Subject: [PATCH 15/47] fix: LZMA: keep reporting an error instead of decoding
 on from a broken state

---
 lzma-rust/src/lzma_reader.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lzma-rust/src/lzma_reader.rs b/lzma-rust/src/lzma_reader.rs
index d22084c..7d3c0c8 100644
--- a/lzma-rust/src/lzma_reader.rs
+++ b/lzma-rust/src/lzma_reader.rs
@@ -58,6 +58,7 @@ pub struct LZMAReader<R> {
     end_reached: bool,
     relaxed_end_cond: bool,
     remaining_size: u64,
+    error: Option<Error>,
 }
 
 impl<R> Drop for LZMAReader<R> {
@@ -132,6 +133,7 @@ impl<R: Read> LZMAReader<R> {
             end_reached: false,
             relaxed_end_cond: true,
             remaining_size: uncomp_size,
+            error: None,
         })
     }
 
@@ -201,6 +203,9 @@ impl<R: Read> LZMAReader<R> {
         if buf.is_empty() {
             return Ok(0);
         }
+        if let Some(e) = &self.error {
+            return Err(Error::new(e.kind(), e.to_string()));
+        }
         if self.end_reached {
             return Ok(0);
         }
@@ -254,6 +259,10 @@ impl<R: Read> LZMAReader<R> {
 
 impl<R: Read> Read for LZMAReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
-        self.read_decode(buf)
+        self.read_decode(buf).map_err(|e| {
+            let error = Error::new(e.kind(), e.to_string());
+            self.error = Some(e);
+            error
+        })
     }
 }
-- 
2.43.0


From 7d9d371026afeb9ec2692613f2b10a1a82a9dfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:01 +0000
Subject: [PATCH 16/47] fix: report a short LZMA property or a failing zstd
 decoder as an error

---
 src/decoders.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/decoders.rs b/src/decoders.rs
index 8c6a31b..03d9be7 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -76,7 +76,7 @@ pub fn add_decoder<I: Read>(
         SevenZMethod::ID_COPY => Ok(Decoder::COPY(input)),
         #[cfg(feature = "zstd")]
         SevenZMethod::ID_ZSTD => {
-            let zs = zstd::Decoder::new(input).unwrap();
+            let zs = zstd::Decoder::new(input).map_err(Error::io)?;
             Ok(Decoder::ZSTD(zs))
         }
         SevenZMethod::ID_LZMA => {
@@ -171,6 +171,9 @@ fn get_lzma2_dic_size(coder: &Coder) -> Result<u32, Error> {
 
 #[inline]
 fn get_lzma_dic_size(coder: &Coder) -> Result<u32, Error> {
-    let mut props = &coder.properties[1..5];
+    let mut props = coder
+        .properties
+        .get(1..5)
+        .ok_or_else(|| Error::other("LZMA properties too short"))?;
     props.read_u32::<LittleEndian>().map_err(Error::io)
 }
-- 
2.43.0


From aa55c82cae6f8c999c8c9a03ddba576f05c82d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:01 +0000
Subject: [PATCH 17/47] fix: AES: accept reads that do not complete a block

---
 src/aes256sha256.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aes256sha256.rs b/src/aes256sha256.rs
index 9f44bcb..1c06d8c 100644
--- a/src/aes256sha256.rs
+++ b/src/aes256sha256.rs
@@ -180,9 +180,12 @@ impl Cipher {
         let mut n = 0;
         if !self.buf.is_empty() {
             assert!(self.buf.len() < 16);
-            let end = 16 - self.buf.len();
+            let end = (16 - self.buf.len()).min(data.len());
             self.buf.extend_from_slice(&data[..end]);
             data = &mut data[end..];
+            if self.buf.len() < 16 {
+                return Ok(0);
+            }
             let block = GenericArray::from_mut_slice(&mut self.buf);
             self.dec.decrypt_block_mut(block);
             let out = block.as_slice();
-- 
2.43.0


From 9325a964578343c5cdeb6016c9c5852b1cf80eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:01 +0000
Subject: [PATCH 18/47] fix: AES: handle the direct key mode and refuse an
 unbounded number of cycles

---
 src/aes256sha256.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aes256sha256.rs b/src/aes256sha256.rs
index 1c06d8c..9705f8e 100644
--- a/src/aes256sha256.rs
+++ b/src/aes256sha256.rs
@@ -133,9 +133,13 @@ fn get_aes_key(properties: &[u8], password: &[u8]) -> Result<([u8; 32], [u8; 16]
     if password.is_empty() {
         return Err(crate::Error::PasswordRequired);
     }
+    // the reference implementation supports no higher power
+    if num_cycles_power > 24 && num_cycles_power != 0x3f {
+        return Err(crate::Error::other("AES256 number of cycles unsupported"));
+    }
     let aes_key = if num_cycles_power == 0x3f {
         let mut aes_key = [0u8; 32];
-        aes_key.copy_from_slice(&salt[..salt_size]);
+        aes_key[..salt_size].copy_from_slice(&salt[..salt_size]);
         let n = password.len().min(aes_key.len() - salt_size);
         aes_key[salt_size..n + salt_size].copy_from_slice(&password[0..n]);
         aes_key
-- 
2.43.0


From 94f566ad914e56a6f8f9b60e593a77e4e9bae196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:56 +0000
Subject: [PATCH 19/47] fix: BCJ2: do not go on after a failed read

---
 src/bcj2/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/bcj2/mod.rs b/src/bcj2/mod.rs
index 9247ae7..580a469 100644
--- a/src/bcj2/mod.rs
+++ b/src/bcj2/mod.rs
@@ -111,9 +111,16 @@ impl<R: Read> Read for BCJ2Reader<R> {
 
             loop {
                 let cur_size = BUF_SIZE - total_read;
-                let cur_size = self.inputs[self.decoder.state].read(
+                let cur_size = match self.inputs[self.decoder.state].read(
                     &mut self.base.buf_at(self.decoder.state)[total_read..total_read + cur_size],
-                )?;
+                ) {
+                    Ok(n) => n,
+                    Err(e) => {
+                        // what was read before is lost, there is no way to go on
+                        self.read_res[self.decoder.state] = false;
+                        return Err(e);
+                    }
+                };
                 if cur_size == 0 {
                     break;
                 }
-- 
2.43.0


From 72d2782346bfa544a5b30172266dd719df9bde89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:56 +0000
Subject: [PATCH 20/47] fix: end the iteration when the visitor asks to stop

---
 src/reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 78fc81f..a91af9c 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1367,7 +1367,9 @@ impl<R: Read + Seek> SevenZReader<R> {
                 &self.password,
                 &mut self.source,
             );
-            forder_dec.for_each_entries(&mut each)?;
+            if !forder_dec.for_each_entries(&mut each)? {
+                return Ok(());
+            }
         }
         // decode empty files
         for file_index in 0..self.archive.files.len() {
-- 
2.43.0


From 2f415683ca95de8a381f6266672cadf7cc4bb8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:56 +0000
Subject: [PATCH 21/47] fix: count the entries without a stream that lie within
 a block

---
 src/reader.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index a91af9c..52fc743 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1415,12 +1415,17 @@ impl<'a, R: Read + Seek> BlockDecoder<'a, R> {
 
     pub fn entries(&self) -> &[SevenZArchiveEntry] {
         let start = self.archive.stream_map.folder_first_file_index[self.folder_index];
-        let file_count = self.archive.folders[self.folder_index].num_unpack_sub_streams;
-        &self.archive.files[start..(file_count + start)]
+        &self.archive.files[start..(self.entry_count() + start)]
     }
 
     pub fn entry_count(&self) -> usize {
-        self.archive.folders[self.folder_index].num_unpack_sub_streams
+        let map = &self.archive.stream_map;
+        let start = map.folder_first_file_index[self.folder_index];
+        // entries without a stream may lie between those of the block
+        map.file_folder_index[start..]
+            .iter()
+            .take_while(|f| **f == Some(self.folder_index))
+            .count()
     }
 
     /// Takes a closure to decode each files in this block.
@@ -1437,6 +1442,10 @@ impl<'a, R: Read + Seek> BlockDecoder<'a, R> {
         self,
         each: &mut F,
     ) -> Result<bool, Error> {
+        let file_count = self.entry_count();
+        if file_count == 0 {
+            return Ok(true);
+        }
         let Self {
             folder_index,
             archive,
@@ -1446,7 +1455,6 @@ impl<'a, R: Read + Seek> BlockDecoder<'a, R> {
         let (mut folder_reader, _size) =
             SevenZReader::build_decode_stack(source, archive, folder_index, password)?;
         let start = archive.stream_map.folder_first_file_index[folder_index];
-        let file_count = archive.folders[folder_index].num_unpack_sub_streams;
 
         for file_index in start..(file_count + start) {
             let file = &archive.files[file_index];
-- 
2.43.0


From 4d8f2d579640b3b2e18f0763badc28a264cf0d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:56 +0000
Subject: [PATCH 22/47] fix: report content that ends before its recorded size

---
 src/reader.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 52fc743..80aabcf 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -108,12 +108,12 @@ impl<R: Read + Seek> SeekableBoundedReader<R> {
 struct Crc32VerifyingReader<R> {
     inner: R,
     crc_digest: crc::Digest<'static, u32>,
-    expected_value: u64,
+    expected_value: Option<u64>,
     remaining: i64,
 }
 
 impl<R: Read> Crc32VerifyingReader<R> {
-    fn new(inner: R, remaining: usize, expected_value: u64) -> Self {
+    fn new(inner: R, remaining: usize, expected_value: Option<u64>) -> Self {
         Self {
             inner,
             crc_digest: CRC32.digest(),
@@ -129,13 +129,16 @@ impl<R: Read> Read for Crc32VerifyingReader<R> {
             return Ok(0);
         }
         let size = self.inner.read(buf)?;
+        if size == 0 && !buf.is_empty() {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
         if size > 0 {
             self.remaining -= size as i64;
             self.crc_digest.update(&buf[..size]);
         }
         if self.remaining <= 0 {
             let d = std::mem::replace(&mut self.crc_digest, CRC32.digest()).finalize();
-            if d as u64 != self.expected_value {
+            if self.expected_value.is_some_and(|v| v != d as u64) {
                 return Err(std::io::Error::new(
                     ErrorKind::Other,
                     Error::ChecksumVerificationFailed,
@@ -424,7 +427,11 @@ impl Archive {
             decoder
         };
         if folder.has_crc {
-            decoder = Box::new(Crc32VerifyingReader::new(decoder, unpack_size, folder.crc));
+            decoder = Box::new(Crc32VerifyingReader::new(
+                decoder,
+                unpack_size,
+                Some(folder.crc),
+            ));
         }
 
         Ok((decoder, unpack_size))
@@ -1189,7 +1196,7 @@ impl<R: Read + Seek> SevenZReader<R> {
             decoder = Box::new(Crc32VerifyingReader::new(
                 decoder,
                 folder.get_unpack_size() as usize,
-                folder.crc,
+                Some(folder.crc),
             ));
         }
 
@@ -1275,7 +1282,7 @@ impl<R: Read + Seek> SevenZReader<R> {
             decoder = Box::new(Crc32VerifyingReader::new(
                 decoder,
                 folder.get_unpack_size() as usize,
-                folder.crc,
+                Some(folder.crc),
             ));
         }
         Ok((
@@ -1461,13 +1468,11 @@ impl<'a, R: Read + Seek> BlockDecoder<'a, R> {
             if file.has_stream && file.size > 0 {
                 let mut decoder: Box<dyn Read> =
                     Box::new(BoundedReader::new(&mut folder_reader, file.size as usize));
-                if file.has_crc {
-                    decoder = Box::new(Crc32VerifyingReader::new(
-                        decoder,
-                        file.size as usize,
-                        file.crc,
-                    ));
-                }
+                decoder = Box::new(Crc32VerifyingReader::new(
+                    decoder,
+                    file.size as usize,
+                    file.has_crc.then_some(file.crc),
+                ));
                 if !each(file, &mut decoder)
                     .map_err(|e| e.maybe_bad_password(!self.password.is_empty()))?
                 {
-- 
2.43.0


From d00e2306c1a3e788baebfa840903344241ed5a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:45 +0000
Subject: [PATCH 23/47] fix: do not take the unread rest of an entry for the
 content of the next one

---
 src/reader.rs | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 80aabcf..98c867f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -105,6 +105,27 @@ impl<R: Read + Seek> SeekableBoundedReader<R> {
     }
 }
 
+/// Drops the bytes that belong to earlier entries, once the data behind them is asked for.
+struct SkippingReader<R> {
+    inner: R,
+    skip: usize,
+}
+
+impl<R: Read> Read for SkippingReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        let mut scratch = [0u8; 4096];
+        while self.skip > 0 && !buf.is_empty() {
+            let n = self.skip.min(scratch.len());
+            let n = self.inner.read(&mut scratch[..n])?;
+            if n == 0 {
+                return Err(ErrorKind::UnexpectedEof.into());
+            }
+            self.skip -= n;
+        }
+        self.inner.read(buf)
+    }
+}
+
 struct Crc32VerifyingReader<R> {
     inner: R,
     crc_digest: crc::Digest<'static, u32>,
@@ -1459,25 +1480,31 @@ impl<'a, R: Read + Seek> BlockDecoder<'a, R> {
             password,
             source,
         } = self;
-        let (mut folder_reader, _size) =
+        let (folder_reader, _size) =
             SevenZReader::build_decode_stack(source, archive, folder_index, password)?;
+        let mut folder_reader = SkippingReader {
+            inner: folder_reader,
+            skip: 0,
+        };
         let start = archive.stream_map.folder_first_file_index[folder_index];
 
         for file_index in start..(file_count + start) {
             let file = &archive.files[file_index];
             if file.has_stream && file.size > 0 {
-                let mut decoder: Box<dyn Read> =
-                    Box::new(BoundedReader::new(&mut folder_reader, file.size as usize));
-                decoder = Box::new(Crc32VerifyingReader::new(
-                    decoder,
+                let mut bounded = BoundedReader::new(&mut folder_reader, file.size as usize);
+                let mut decoder = Crc32VerifyingReader::new(
+                    &mut bounded,
                     file.size as usize,
                     file.has_crc.then_some(file.crc),
-                ));
+                );
                 if !each(file, &mut decoder)
                     .map_err(|e| e.maybe_bad_password(!self.password.is_empty()))?
                 {
                     return Ok(false);
                 }
+                // what the visitor left unread
+                let unread = bounded.remain;
+                folder_reader.skip = folder_reader.skip.saturating_add(unread);
             } else {
                 let empty_reader: &mut dyn Read = &mut ([0u8; 0].as_slice());
                 if !each(file, empty_reader)? {
-- 
2.43.0


From 1831ee77672f7be599f149d8164d2446d92fdfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:51 +0000
Subject: [PATCH 24/47] fix: go on after a wrong guess when the start header is
 blank, and accept no doubtful one

---
 src/reader.rs | 85 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 56 insertions(+), 29 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 98c867f..3b1e640 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -243,7 +243,7 @@ impl Archive {
         };
         if header_valid {
             let start_header = Self::read_start_header(reader, start_header_crc)?;
-            Self::init_archive(reader, start_header, password, true)
+            Self::init_archive(reader, start_header, password)
         } else {
             Self::try_to_locale_end_header(reader, reader_len, password)
         }
@@ -315,43 +315,42 @@ impl Archive {
     ) -> Result<Self, Error> {
         let search_limit = 1024 * 1024;
         let prev_data_size = reader.stream_position().map_err(Error::io)? + 20;
-        let size = reader_len;
-        let min_pos = if reader.stream_position().map_err(Error::io)? + search_limit > size {
-            reader.stream_position().map_err(Error::io)?
-        } else {
-            size - search_limit
-        };
-        let mut pos = reader_len - 1;
-        while pos > min_pos {
-            pos -= 1;
+        let min_pos = prev_data_size.max(reader_len.saturating_sub(search_limit));
+        reader
+            .seek(std::io::SeekFrom::Start(min_pos))
+            .map_err(Error::io)?;
+        let mut tail = Vec::new();
+        reader
+            .take(reader_len.saturating_sub(min_pos))
+            .read_to_end(&mut tail)
+            .map_err(Error::io)?;
 
-            reader
-                .seek(std::io::SeekFrom::Start(pos))
-                .map_err(Error::io)?;
-            let nid = read_u8(reader)?;
+        let mut found = None;
+        for i in (0..tail.len()).rev() {
+            let nid = tail[i];
             if nid == K_ENCODED_HEADER || nid == K_HEADER {
-                let start_header = StartHeader {
-                    next_header_offset: pos - prev_data_size,
-                    next_header_size: reader_len - pos,
-                    next_header_crc: 0,
-                };
-                let result = Self::init_archive(reader, start_header, password, false)?;
-
-                if !result.files.is_empty() {
-                    return Ok(result);
+                // a wrong guess may well fail, or look like the header of something else
+                if let Ok((result, pack_end)) =
+                    Self::parse_header(reader, tail[i..].to_vec(), password, true)
+                {
+                    if !result.files.is_empty()
+                        && pack_end.map_or(true, |end| end == min_pos + i as u64)
+                    {
+                        if found.is_some() {
+                            return Err(Error::other("Start header corrupt, end header ambiguous"));
+                        }
+                        found = Some(result);
+                    }
                 }
             }
         }
-        Err(Error::other(
-            "Start header corrupt and unable to guess end header",
-        ))
+        found.ok_or_else(|| Error::other("Start header corrupt and unable to guess end header"))
     }
 
     fn init_archive<R: Read + Seek>(
         reader: &mut R,
         start_header: StartHeader,
         password: &[u8],
-        verify_crc: bool,
     ) -> Result<Self, Error> {
         if start_header.next_header_size > usize::MAX as u64 {
             return Err(Error::other(format!(
@@ -370,16 +369,31 @@ impl Archive {
 
         let mut buf = vec![0; next_header_size_int];
         reader.read_exact(&mut buf).map_err(Error::io)?;
-        if verify_crc && crc32_cksum(&buf) as u64 != start_header.next_header_crc {
+        if crc32_cksum(&buf) as u64 != start_header.next_header_crc {
             return Err(Error::NextHeaderCrcMismatch);
         }
+        Self::parse_header(reader, buf, password, false).map(|(archive, _)| archive)
+    }
 
+    /// Parses the header in `buf`, `exact` if it has to fill all of it.
+    /// Also returns where the packed streams end, if there are any.
+    fn parse_header<R: Read + Seek>(
+        reader: &mut R,
+        mut buf: Vec<u8>,
+        password: &[u8],
+        exact: bool,
+    ) -> Result<(Self, Option<u64>), Error> {
         let mut archive = Archive::default();
+        let mut pack_end = None;
         let mut buf_reader = buf.as_slice();
         let mut nid = read_u8(&mut buf_reader)?;
         let mut header = if nid == K_ENCODED_HEADER {
             let (mut out_reader, buf_size) =
                 Self::read_encoded_header(&mut buf_reader, reader, &mut archive, password)?;
+            if exact && !buf_reader.is_empty() {
+                return Err(Error::other("Data behind the header"));
+            }
+            pack_end = archive.pack_end();
             buf.clear();
             buf.resize(buf_size, 0);
             out_reader
@@ -398,7 +412,20 @@ impl Archive {
         } else {
             return Err(Error::other("Broken or unsupported archive: no Header"));
         }
-        Ok(archive)
+        if exact && header.position() != header.get_ref().len() as u64 {
+            return Err(Error::other("Data behind the header"));
+        }
+        let pack_end = pack_end.or_else(|| archive.pack_end());
+        Ok((archive, pack_end))
+    }
+
+    /// The position behind the last packed stream
+    fn pack_end(&self) -> Option<u64> {
+        self.pack_sizes
+            .iter()
+            .try_fold(SIGNATURE_HEADER_SIZE, |pos, size| pos.checked_add(*size))
+            .filter(|_| !self.pack_sizes.is_empty())
+            .and_then(|pos| pos.checked_add(self.pack_pos))
     }
 
     fn read_encoded_header<'r, R: Read, RI: 'r + Read + Seek>(
-- 
2.43.0


From 88eb7135fde411b738f249819eeeb26a828ff49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:51 +0000
Subject: [PATCH 25/47] fix: do not trust the sizes a header declares before
 their bytes have been read

---
 src/reader.rs | 69 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 46 insertions(+), 23 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 3b1e640..016ee5b 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -299,10 +299,8 @@ impl Archive {
     fn read_archive_properties<R: Read + Seek>(header: &mut R) -> Result<(), Error> {
         let mut nid = read_u8(header)?;
         while nid != K_END {
-            let property_size = read_usize(header, "propertySize")?;
-            header
-                .seek(SeekFrom::Current(property_size as i64))
-                .map_err(Error::io)?;
+            let property_size = read_u64(header)?;
+            skip(header, property_size)?;
             nid = read_u8(header)?;
         }
         Ok(())
@@ -359,16 +357,19 @@ impl Archive {
             )));
         }
 
-        let next_header_size_int = start_header.next_header_size as usize;
+        if start_header.next_header_size == 0 {
+            // an archive without any entry needs no header
+            return Ok(Archive::default());
+        }
 
+        let header_pos = SIGNATURE_HEADER_SIZE
+            .checked_add(start_header.next_header_offset)
+            .ok_or_else(|| Error::other("Cannot handle next_header_offset"))?;
         reader
-            .seek(SeekFrom::Start(
-                SIGNATURE_HEADER_SIZE + start_header.next_header_offset,
-            ))
+            .seek(SeekFrom::Start(header_pos))
             .map_err(Error::io)?;
 
-        let mut buf = vec![0; next_header_size_int];
-        reader.read_exact(&mut buf).map_err(Error::io)?;
+        let buf = read_vec(reader, start_header.next_header_size)?;
         if crc32_cksum(&buf) as u64 != start_header.next_header_crc {
             return Err(Error::NextHeaderCrcMismatch);
         }
@@ -395,9 +396,14 @@ impl Archive {
             }
             pack_end = archive.pack_end();
             buf.clear();
-            buf.resize(buf_size, 0);
             out_reader
-                .read_exact(&mut buf)
+                .by_ref()
+                .take(buf_size as u64)
+                .read_to_end(&mut buf)
+                .and_then(|n| match n == buf_size {
+                    true => Ok(()),
+                    false => Err(ErrorKind::UnexpectedEof.into()),
+                })
                 .map_err(|e| Error::bad_password(e, !password.is_empty()))?;
             archive = Archive::default();
             buf_reader = buf.as_slice();
@@ -636,14 +642,10 @@ impl Archive {
                 }
                 K_START_POS => return Err(Error::other("kStartPos is unsupported, please report")),
                 K_DUMMY => {
-                    header
-                        .seek(SeekFrom::Current(size as i64))
-                        .map_err(Error::io)?;
+                    skip(header, size)?;
                 }
                 _ => {
-                    header
-                        .seek(SeekFrom::Current(size as i64))
-                        .map_err(Error::io)?;
+                    skip(header, size)?;
                 }
             };
         }
@@ -957,7 +959,7 @@ impl Archive {
             coder.id_size = id_size as usize;
 
             header
-                .read(coder.decompression_method_id_mut())
+                .read_exact(coder.decompression_method_id_mut())
                 .map_err(Error::io)?;
             if is_simple {
                 coder.num_in_streams = 1;
@@ -969,10 +971,8 @@ impl Archive {
             total_in_streams += coder.num_in_streams;
             total_out_streams += coder.num_out_streams;
             if has_attributes {
-                let properties_size = read_usize(header, "properties size")?;
-                let mut props = vec![0u8; properties_size];
-                header.read(&mut props).map_err(Error::io)?;
-                coder.properties = props;
+                let properties_size = read_u64(header)?;
+                coder.properties = read_vec(header, properties_size)?;
             }
             coders.push(coder);
             // would need to keep looping as above:
@@ -1049,6 +1049,29 @@ fn assert_usize(size: u64, field: &str) -> Result<usize, Error> {
     Ok(size as usize)
 }
 
+/// Reads `len` bytes, without trusting `len` before they are there
+fn read_vec<R: Read>(reader: &mut R, len: u64) -> Result<Vec<u8>, Error> {
+    let mut buf = Vec::new();
+    reader.take(len).read_to_end(&mut buf).map_err(Error::io)?;
+    if buf.len() as u64 != len {
+        return Err(Error::io(ErrorKind::UnexpectedEof.into()));
+    }
+    Ok(buf)
+}
+
+/// Skips `len` bytes, which have to be there
+fn skip<R: Read + Seek>(reader: &mut R, len: u64) -> Result<(), Error> {
+    let pos = reader.stream_position().map_err(Error::io)?;
+    let end = reader.seek(SeekFrom::End(0)).map_err(Error::io)?;
+    if len > end.saturating_sub(pos) {
+        return Err(Error::io(ErrorKind::UnexpectedEof.into()));
+    }
+    reader
+        .seek(SeekFrom::Start(pos + len))
+        .map_err(Error::io)?;
+    Ok(())
+}
+
 #[inline]
 fn read_u64le<R: Read>(reader: &mut R) -> Result<u64, Error> {
     let mut buf = [0; 8];
-- 
2.43.0


From 4d5aeba37597f5d6a24d7e5daf3de66815e9f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:51 +0000
Subject: [PATCH 26/47] fix: check the file records of a header against each
 other

---
 src/reader.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 016ee5b..5c7dc7b 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -517,6 +517,17 @@ impl Archive {
 
     fn read_files_info<R: Read + Seek>(header: &mut R, archive: &mut Archive) -> Result<(), Error> {
         let num_files = read_usize(header, "num files")?;
+        // an entry has a stream, or at least a bit that says it has none
+        let num_streams = archive
+            .sub_streams_info
+            .as_ref()
+            .map_or(0, |s| s.unpack_sizes.len());
+        let pos = header.stream_position().map_err(Error::io)?;
+        let end = header.seek(SeekFrom::End(0)).map_err(Error::io)?;
+        header.seek(SeekFrom::Start(pos)).map_err(Error::io)?;
+        if num_files as u64 > ((end - pos) * 8).saturating_add(num_streams as u64) {
+            return Err(Error::other("More files than the header can describe"));
+        }
         let mut files: Vec<SevenZArchiveEntry> = vec![Default::default(); num_files];
 
         let mut is_empty_stream: Option<BitSet> = None;
@@ -528,6 +539,7 @@ impl Archive {
                 break;
             }
             let size = read_u64(header)?;
+            let start = header.stream_position().map_err(Error::io)?;
             match prop_type {
                 K_EMPTY_STREAM => {
                     is_empty_stream = Some(read_bits(header, num_files)?);
@@ -557,7 +569,7 @@ impl Archive {
                     if external != 0 {
                         return Err(Error::other("Not implemented:external != 0"));
                     }
-                    if (size - 1) & 1 != 0 {
+                    if size & 1 == 0 {
                         return Err(Error::other("file names length invalid"));
                     }
 
@@ -568,7 +580,10 @@ impl Archive {
 
                     let mut next_file = 0;
                     for s in names_reader {
-                        files[next_file].name = s?;
+                        files
+                            .get_mut(next_file)
+                            .ok_or_else(|| Error::other("Error parsing file names"))?
+                            .name = s?;
                         next_file += 1;
                     }
 
@@ -648,6 +663,10 @@ impl Archive {
                     skip(header, size)?;
                 }
             };
+            let end = header.stream_position().map_err(Error::io)?;
+            if end - start != size {
+                return Err(Error::other("Property size does not match its content"));
+            }
         }
 
         let mut non_empty_file_counter = 0;
@@ -666,6 +685,9 @@ impl Archive {
                         "Archive contains file with streams but no subStreamsInfo",
                     ));
                 };
+                if non_empty_file_counter >= sub_stream_info.unpack_sizes.len() {
+                    return Err(Error::other("Archive contains more files than streams"));
+                }
                 file.is_directory = false;
                 file.is_anti_item = false;
                 file.has_crc = sub_stream_info.has_crc.contains(non_empty_file_counter);
-- 
2.43.0


From 4ad43727964c266fa9d060560bb4981a459568e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:51 +0000
Subject: [PATCH 27/47] fix: check the stream records of a header against each
 other

---
 src/reader.rs | 49 +++++++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 5c7dc7b..6c156df 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -500,6 +500,10 @@ impl Archive {
 
         if nid == K_UNPACK_INFO {
             Self::read_unpack_info(header, archive)?;
+            let num_packed: usize = archive.folders.iter().map(|f| f.packed_streams.len()).sum();
+            if num_packed > archive.pack_sizes.len() {
+                return Err(Error::other("Too few packed streams"));
+            }
             nid = read_u8(header)?;
         } else {
             archive.folders.clear();
@@ -787,12 +791,19 @@ impl Archive {
         let num_pack_streams = read_usize(header, "num pack streams")?;
         let mut nid = read_u8(header)?;
         if nid == K_SIZE {
-            archive.pack_sizes = vec![0u64; num_pack_streams];
-            for i in 0..archive.pack_sizes.len() {
-                archive.pack_sizes[i] = read_u64(header)?;
+            archive.pack_sizes.clear();
+            for _ in 0..num_pack_streams {
+                archive.pack_sizes.push(read_u64(header)?);
             }
             nid = read_u8(header)?;
         }
+        if archive.pack_sizes.len() != num_pack_streams {
+            return Err(Error::other("Sizes of the packed streams are missing"));
+        }
+        let end = archive.pack_end();
+        if num_pack_streams > 0 && end.map_or(true, |end| end > i64::MAX as u64) {
+            return Err(Error::other("Packed streams too large"));
+        }
 
         if nid == K_CRC {
             archive.pack_crcs_defined = read_all_or_bits(header, num_pack_streams)?;
@@ -818,7 +829,6 @@ impl Archive {
         }
         let num_folders = read_usize(header, "num folders")?;
 
-        archive.folders.reserve_exact(num_folders);
         let external = read_u8(header)?;
         if external != 0 {
             return Err(Error::ExternalUnsupported);
@@ -876,42 +886,41 @@ impl Archive {
             for folder in archive.folders.iter_mut() {
                 let num_streams = read_usize(header, "numStreams")?;
                 folder.num_unpack_sub_streams = num_streams;
-                total_unpack_streams += num_streams;
+                total_unpack_streams = num_streams
+                    .checked_add(total_unpack_streams)
+                    .ok_or_else(|| Error::other("Too many streams"))?;
             }
             nid = read_u8(header)?;
         }
 
         let mut sub_streams_info = SubStreamsInfo::default();
-        sub_streams_info
-            .unpack_sizes
-            .resize(total_unpack_streams, Default::default());
-        sub_streams_info
-            .has_crc
-            .reserve_len_exact(total_unpack_streams);
-        sub_streams_info.crcs = vec![0; total_unpack_streams];
-
-        let mut next_unpack_stream = 0;
         for folder in archive.folders.iter() {
             if folder.num_unpack_sub_streams == 0 {
                 continue;
             }
-            let mut sum = 0;
+            let mut sum = 0u64;
             if nid == K_SIZE {
                 for _i in 0..folder.num_unpack_sub_streams - 1 {
                     let size = read_u64(header)?;
-                    sub_streams_info.unpack_sizes[next_unpack_stream] = size;
-                    next_unpack_stream += 1;
-                    sum += size;
+                    sub_streams_info.unpack_sizes.push(size);
+                    sum = sum.saturating_add(size);
                 }
+            } else if folder.num_unpack_sub_streams > 1 {
+                return Err(Error::other("Sizes of the streams of a folder are missing"));
             }
             if sum > folder.get_unpack_size() {
                 return Err(Error::other(
                     "sum of unpack sizes of folder exceeds total unpack size",
                 ));
             }
-            sub_streams_info.unpack_sizes[next_unpack_stream] = folder.get_unpack_size() - sum;
-            next_unpack_stream += 1;
+            sub_streams_info
+                .unpack_sizes
+                .push(folder.get_unpack_size() - sum);
         }
+        sub_streams_info
+            .has_crc
+            .reserve_len_exact(total_unpack_streams);
+        sub_streams_info.crcs = vec![0; total_unpack_streams];
         if nid == K_SIZE {
             nid = read_u8(header)?;
         }
-- 
2.43.0


From 637781e850430bfcab6f774bb3d0008e9bd12bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:51 +0000
Subject: [PATCH 28/47] fix: refuse a header whose coders do not form a tree

---
 src/folder.rs | 44 ++++++++++++++++++++++++++++++++++++++++++++
 src/reader.rs | 19 ++++++++++++++++++-
 2 files changed, 62 insertions(+), 1 deletion(-)

diff --git a/src/folder.rs b/src/folder.rs
index 598c91c..35ba864 100644
--- a/src/folder.rs
+++ b/src/folder.rs
@@ -14,6 +14,50 @@ pub struct Folder {
 }
 
 impl Folder {
+    pub(crate) const MAX_CODERS: usize = 32;
+    pub(crate) const MAX_STREAMS: usize = 32;
+
+    /// Whether every coder is reached exactly once from the stream that nothing consumes,
+    /// and every input is either packed or the output of one coder.
+    pub(crate) fn is_tree(&self) -> bool {
+        let ins = self.bind_pairs.iter().map(|b| b.in_index);
+        let inputs = ins.chain(self.packed_streams.iter().copied());
+        let outs = self.bind_pairs.iter().map(|b| b.out_index);
+        fn distinct(mut it: impl Iterator<Item = u64>, n: usize) -> bool {
+            let mut seen = vec![false; n];
+            it.all(|i| (i as usize) < n && !std::mem::replace(&mut seen[i as usize], true))
+        }
+        if !distinct(inputs, self.total_input_streams) || !distinct(outs, self.total_output_streams)
+        {
+            return false;
+        }
+        // from each coder the way to the main one must not be endless
+        let consumer = |in_index: u64| {
+            let mut end = 0;
+            self.coders.iter().position(|c| {
+                end += c.num_in_streams;
+                in_index < end
+            })
+        };
+        (0..self.total_output_streams).all(|out| {
+            let mut out = out;
+            for _ in 0..=self.coders.len() {
+                let bp = match self.find_bind_pair_for_out_stream(out) {
+                    Some(bp) => bp,
+                    None => return true,
+                };
+                out = match consumer(self.bind_pairs[bp].in_index) {
+                    Some(coder) => self.coders[..coder]
+                        .iter()
+                        .map(|c| c.num_out_streams as usize)
+                        .sum(),
+                    None => return false,
+                };
+            }
+            false
+        })
+    }
+
     pub fn find_bind_pair_for_in_stream(&self, index: usize) -> Option<usize> {
         let index = index as u64;
         (0..self.bind_pairs.len()).find(|&i| self.bind_pairs[i].in_index == index)
diff --git a/src/reader.rs b/src/reader.rs
index 6c156df..9b58ffa 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -976,6 +976,9 @@ impl Archive {
         let mut folder = Folder::default();
 
         let num_coders = read_usize(header, "num coders")?;
+        if num_coders > Folder::MAX_CODERS {
+            return Err(Error::other(format!("Too many coders: {}", num_coders)));
+        }
         let mut coders = Vec::with_capacity(num_coders);
         let mut total_in_streams = 0;
         let mut total_out_streams = 0;
@@ -999,6 +1002,12 @@ impl Archive {
                 coder.num_in_streams = read_u64(header)?;
                 coder.num_out_streams = read_u64(header)?;
             }
+            let max = Folder::MAX_STREAMS as u64;
+            if !(1..=max).contains(&coder.num_in_streams)
+                || !(1..=max).contains(&coder.num_out_streams)
+            {
+                return Err(Error::other("Invalid number of coder streams"));
+            }
             total_in_streams += coder.num_in_streams;
             total_out_streams += coder.num_out_streams;
             if has_attributes {
@@ -1056,6 +1065,9 @@ impl Archive {
             }
         }
         folder.packed_streams = packed_streams;
+        if !folder.is_tree() {
+            return Err(Error::other("The coders of a folder do not form a tree"));
+        }
 
         Ok(folder)
     }
@@ -1336,6 +1348,11 @@ impl<R: Read + Seek> SevenZReader<R> {
             sources.push(pack_reader);
         }
 
+        if folder.coders.iter().any(|c| c.num_out_streams != 1) {
+            return Err(Error::unsupported(
+                "Multi output stream coders are not supported",
+            ));
+        }
         let mut coder_to_stream_map = [usize::MAX; MAX_CODER_COUNT];
 
         let mut si = 0;
@@ -1360,7 +1377,7 @@ impl<R: Read + Seek> SevenZReader<R> {
         };
 
         let id = folder.coders[main_coder_index].decompression_method_id();
-        if id != SevenZMethod::ID_BCJ2 {
+        if id != SevenZMethod::ID_BCJ2 || folder.coders[main_coder_index].num_in_streams != 4 {
             return Err(Error::unsupported(format!("Unsupported method: {:?}", id)));
         }
 
-- 
2.43.0


From be02e7ffadcdbe854c197934b7d65f4fdc4823ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:38 +0000
Subject: [PATCH 29/47] fix: take the checksum of a folder with a single stream
 also when no others follow

---
 src/reader.rs | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 9b58ffa..54b2d4d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -932,36 +932,37 @@ impl Archive {
             }
         }
 
+        let mut has_missing_crc = BitSet::new();
+        let mut missing_crcs = vec![0; num_digests];
         if nid == K_CRC {
-            let has_missing_crc = read_all_or_bits(header, num_digests)?;
-            let mut missing_crcs = vec![0; num_digests];
+            has_missing_crc = read_all_or_bits(header, num_digests)?;
             for i in 0..num_digests {
                 if has_missing_crc.contains(i) {
                     missing_crcs[i] = read_u32(header)? as u64;
                 }
             }
-            let mut next_crc = 0;
-            let mut next_missing_crc = 0;
-            for folder in archive.folders.iter() {
-                if folder.num_unpack_sub_streams == 1 && folder.has_crc {
-                    sub_streams_info.has_crc.insert(next_crc);
-                    sub_streams_info.crcs[next_crc] = folder.crc;
-                    next_crc += 1;
-                } else {
-                    for _i in 0..folder.num_unpack_sub_streams {
-                        if has_missing_crc.contains(next_missing_crc) {
-                            sub_streams_info.has_crc.insert(next_crc);
-                        } else {
-                            sub_streams_info.has_crc.remove(next_crc);
-                        }
-                        sub_streams_info.crcs[next_crc] = missing_crcs[next_missing_crc];
-                        next_crc += 1;
-                        next_missing_crc += 1;
+
+            nid = read_u8(header)?;
+        }
+        let mut next_crc = 0;
+        let mut next_missing_crc = 0;
+        for folder in archive.folders.iter() {
+            if folder.num_unpack_sub_streams == 1 && folder.has_crc {
+                sub_streams_info.has_crc.insert(next_crc);
+                sub_streams_info.crcs[next_crc] = folder.crc;
+                next_crc += 1;
+            } else {
+                for _i in 0..folder.num_unpack_sub_streams {
+                    if has_missing_crc.contains(next_missing_crc) {
+                        sub_streams_info.has_crc.insert(next_crc);
+                    } else {
+                        sub_streams_info.has_crc.remove(next_crc);
                     }
+                    sub_streams_info.crcs[next_crc] = missing_crcs[next_missing_crc];
+                    next_crc += 1;
+                    next_missing_crc += 1;
                 }
             }
-
-            nid = read_u8(header)?;
         }
 
         if nid != K_END {
-- 
2.43.0


From 6f1dd1ea667656e8a9201919dc79c86f4478e5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:38 +0000
Subject: [PATCH 30/47] fix: read archives without a sub-stream record

---
 src/reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 54b2d4d..e9bfdce 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -511,6 +511,9 @@ impl Archive {
         if nid == K_SUB_STREAMS_INFO {
             Self::read_sub_streams_info(header, archive)?;
             nid = read_u8(header)?;
+        } else {
+            // without the record, each folder holds a single stream
+            Self::read_sub_streams_info(&mut [K_END].as_slice(), archive)?;
         }
         if nid != K_END {
             return Err(Error::BadTerminatedStreamsInfo(nid));
-- 
2.43.0


From 88c9eaa286ed3c7ab7ffa60d04189b08c52984d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:38 +0000
Subject: [PATCH 31/47] fix: refuse to extract an entry to outside of the
 destination

---
 src/de_funcs.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/de_funcs.rs b/src/de_funcs.rs
index 468cce7..02fae79 100644
--- a/src/de_funcs.rs
+++ b/src/de_funcs.rs
@@ -1,6 +1,6 @@
 use crate::{password::Password, Error, *};
 use std::io::{Read, Seek};
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 ///
 /// decompress a 7z file
 /// # Example
@@ -99,7 +99,17 @@ fn decompress_impl<R: Read + Seek>(
         std::fs::create_dir_all(&dest).map_err(Error::io)?;
     }
     seven.for_each_entries(|entry, reader| {
-        let dest_path = dest.join(entry.name());
+        let name = Path::new(entry.name());
+        if !name
+            .components()
+            .all(|c| matches!(c, Component::Normal(_) | Component::CurDir))
+        {
+            return Err(Error::other(format!(
+                "Entry leads outside of the destination: {}",
+                entry.name()
+            )));
+        }
+        let dest_path = dest.join(name);
         extract_fn(entry, reader, &dest_path)
     })?;
 
-- 
2.43.0


From 1af43a5b1cadd2df07953d6b7e5e57eb67f6a949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:38 +0000
Subject: [PATCH 32/47] fix: set the times of an extracted file after writing
 it, and only those recorded

---
 src/de_funcs.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/de_funcs.rs b/src/de_funcs.rs
index 02fae79..cda7f93 100644
--- a/src/de_funcs.rs
+++ b/src/de_funcs.rs
@@ -122,7 +122,11 @@ pub fn default_entry_extract_fn(
     reader: &mut dyn Read,
     dest: &PathBuf,
 ) -> Result<bool, Error> {
-    use std::{fs::File, io::BufWriter};
+    use nt_time::FileTime;
+    use std::{
+        fs::File,
+        io::{BufWriter, Write},
+    };
 
     if entry.is_directory() {
         let dir = dest;
@@ -140,19 +144,20 @@ pub fn default_entry_extract_fn(
         });
         let file = File::create(path)
             .map_err(|e| Error::file_open(e, path.to_string_lossy().to_string()))?;
-        if entry.size() > 0 {
-            let mut writer = BufWriter::new(file);
-            std::io::copy(reader, &mut writer).map_err(Error::io)?;
-            ft::set_file_handle_times(
-                writer.get_ref(),
-                Some(ft::FileTime::from_system_time(entry.access_date().into())),
-                Some(ft::FileTime::from_system_time(
-                    entry.last_modified_date().into(),
-                )),
-                Some(ft::FileTime::from_system_time(entry.creation_date().into())),
-            )
-            .unwrap_or_default();
-        }
+        let mut writer = BufWriter::new(file);
+        std::io::copy(reader, &mut writer).map_err(Error::io)?;
+        // writing after this point would modify the times
+        writer.flush().map_err(Error::io)?;
+        let time = |has: bool, time: FileTime| {
+            has.then(|| ft::FileTime::from_system_time(time.into()))
+        };
+        ft::set_file_handle_times(
+            writer.get_ref(),
+            time(entry.has_access_date, entry.access_date()),
+            time(entry.has_last_modified_date, entry.last_modified_date()),
+            time(entry.has_creation_date, entry.creation_date()),
+        )
+        .unwrap_or_default();
     }
     Ok(true)
 }
-- 
2.43.0


From 9f8d4490489a270d53f836de05126223a3613668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:38 +0000
Subject: [PATCH 33/47] fix: do not take an existing file for the directory to
 be created

---
 src/de_funcs.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/de_funcs.rs b/src/de_funcs.rs
index cda7f93..c860b46 100644
--- a/src/de_funcs.rs
+++ b/src/de_funcs.rs
@@ -129,10 +129,7 @@ pub fn default_entry_extract_fn(
     };
 
     if entry.is_directory() {
-        let dir = dest;
-        if !dir.exists() {
-            std::fs::create_dir_all(dir).map_err(Error::io)?;
-        }
+        std::fs::create_dir_all(dest).map_err(Error::io)?;
     } else {
         let path = dest;
         path.parent().and_then(|p| {
-- 
2.43.0


From 6cefbccc0cb1cdcee7ac9e4697f61da42284d4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:35 +0000
Subject: [PATCH 34/47] fix: map the streams of an archive that has folders but
 no file records

---
 src/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index e9bfdce..ef1e13e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -288,6 +288,8 @@ impl Archive {
         if nid == K_FILES_INFO {
             Self::read_files_info(header, archive)?;
             nid = read_u8(header)?;
+        } else {
+            Self::calculate_stream_map(archive)?;
         }
         if nid != K_END {
             return Err(Error::BadTerminatedheader(nid));
-- 
2.43.0


From 190169dc04038f6e0b6206ce3b58da0d1dfceac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:59 +0000
Subject: [PATCH 35/47] fix: accept AES properties without the byte of the salt
 and IV sizes when there are none

---
 src/aes256sha256.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/aes256sha256.rs b/src/aes256sha256.rs
index 9705f8e..ebafa4e 100644
--- a/src/aes256sha256.rs
+++ b/src/aes256sha256.rs
@@ -115,10 +115,19 @@ impl<R: Read + Seek> Seek for Aes256Sha256Decoder<R> {
 }
 
 fn get_aes_key(properties: &[u8], password: &[u8]) -> Result<([u8; 32], [u8; 16]), crate::Error> {
+    let b0 = match properties.first() {
+        Some(b0) => *b0,
+        None => return Err(crate::Error::other("AES256 properties too shart")),
+    };
+    // without salt and IV the second byte is left out
+    let properties = if b0 >> 6 == 0 && properties.len() == 1 {
+        &[b0, 0]
+    } else {
+        properties
+    };
     if properties.len() < 2 {
         return Err(crate::Error::other("AES256 properties too shart"));
     }
-    let b0 = properties[0];
     let num_cycles_power = b0 & 63;
     let b1 = properties[1];
     let iv_size = ((b0 >> 6 & 1) + (b1 & 15)) as usize;
-- 
2.43.0


From aed9931d22e550625b3c067a1ed796ec9d80a922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:54 +0000
Subject: [PATCH 36/47] fix: an entry with a recorded size of 2^63 or more
 ended as complete without any data

---
 src/reader.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index ef1e13e..ee4e09e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -130,7 +130,7 @@ struct Crc32VerifyingReader<R> {
     inner: R,
     crc_digest: crc::Digest<'static, u32>,
     expected_value: Option<u64>,
-    remaining: i64,
+    remaining: usize,
 }
 
 impl<R: Read> Crc32VerifyingReader<R> {
@@ -139,14 +139,14 @@ impl<R: Read> Crc32VerifyingReader<R> {
             inner,
             crc_digest: CRC32.digest(),
             expected_value,
-            remaining: remaining as i64,
+            remaining,
         }
     }
 }
 
 impl<R: Read> Read for Crc32VerifyingReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
-        if self.remaining <= 0 {
+        if self.remaining == 0 {
             return Ok(0);
         }
         let size = self.inner.read(buf)?;
@@ -154,10 +154,10 @@ impl<R: Read> Read for Crc32VerifyingReader<R> {
             return Err(ErrorKind::UnexpectedEof.into());
         }
         if size > 0 {
-            self.remaining -= size as i64;
+            self.remaining = self.remaining.saturating_sub(size);
             self.crc_digest.update(&buf[..size]);
         }
-        if self.remaining <= 0 {
+        if self.remaining == 0 {
             let d = std::mem::replace(&mut self.crc_digest, CRC32.digest()).finalize();
             if self.expected_value.is_some_and(|v| v != d as u64) {
                 return Err(std::io::Error::new(
-- 
2.43.0


From 0b8b8248297185e97263ee0bd2346149b37d3dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 37/47] fix: LZMA and LZMA2 readers dropped the bytes decoded
 before an error in the same read call (C07)

---
 lzma-rust/src/lz/lz_decoder.rs | 17 ++++++++-----
 lzma-rust/src/lzma2_reader.rs  | 45 +++++++++++++++++-----------------
 lzma-rust/src/lzma_reader.rs   | 43 +++++++++++++++++---------------
 3 files changed, 56 insertions(+), 49 deletions(-)

diff --git a/lzma-rust/src/lz/lz_decoder.rs b/lzma-rust/src/lz/lz_decoder.rs
index 9730b55..6781df4 100644
--- a/lzma-rust/src/lz/lz_decoder.rs
+++ b/lzma-rust/src/lz/lz_decoder.rs
@@ -154,12 +154,17 @@ impl LZDecoder {
         mut in_data: R,
         len: usize,
     ) -> std::io::Result<()> {
-        let copy_size = (self.buf_size - self.pos).min(len);
-        let buf = &mut self.buf[self.pos..(self.pos + copy_size)];
-        in_data.read_exact(buf)?;
-        self.pos += copy_size;
-        if self.full < self.pos {
-            self.full = self.pos;
+        let end = self.pos + (self.buf_size - self.pos).min(len);
+        while self.pos < end {
+            match in_data.read(&mut self.buf[self.pos..end]) {
+                Ok(0) => return Err(ErrorKind::UnexpectedEof.into()),
+                Ok(n) => self.pos += n,
+                Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
+                Err(e) => return Err(e),
+            }
+            if self.full < self.pos {
+                self.full = self.pos;
+            }
         }
         Ok(())
     }
diff --git a/lzma-rust/src/lzma2_reader.rs b/lzma-rust/src/lzma2_reader.rs
index cba743e..26e981a 100644
--- a/lzma-rust/src/lzma2_reader.rs
+++ b/lzma-rust/src/lzma2_reader.rs
@@ -147,25 +147,13 @@ impl<R: Read> LZMA2Reader<R> {
         Ok(())
     }
 
-    fn read_decode(&mut self, buf: &mut [u8]) -> Result<usize> {
-        if buf.len() == 0 {
-            return Ok(0);
-        }
-        if let Some(e) = &self.error {
-            return Err(std::io::Error::new(e.kind(), e.to_string()));
-        }
-
-        if self.end_reached {
-            return Ok(0);
-        }
-        let mut size = 0;
+    fn read_decode(&mut self, buf: &mut [u8], size: &mut usize) -> Result<()> {
         let mut len = buf.len();
-        let mut off = 0;
         while len > 0 {
             if self.uncompressed_size == 0 {
                 self.decode_chunk_header()?;
                 if self.end_reached {
-                    return Ok(size);
+                    return Ok(());
                 }
             }
 
@@ -180,10 +168,9 @@ impl<R: Read> LZMA2Reader<R> {
             }
 
             {
-                let copied_size = self.lz.flush(buf, off);
-                off += copied_size;
+                let copied_size = self.lz.flush(buf, *size);
                 len -= copied_size;
-                size += copied_size;
+                *size += copied_size;
                 self.uncompressed_size -= copied_size;
                 if self.uncompressed_size == 0 {
                     if !self.rc.is_finished() || self.lz.has_pending() {
@@ -195,19 +182,31 @@ impl<R: Read> LZMA2Reader<R> {
                 }
             }
         }
-        Ok(size)
+        Ok(())
     }
 }
 
 impl<R: Read> Read for LZMA2Reader<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
-        match self.read_decode(buf) {
-            Ok(size) => Ok(size),
-            Err(e) => {
-                let error = std::io::Error::new(e.kind(), e.to_string());
-                self.error = Some(e);
+        if buf.len() == 0 {
+            return Ok(0);
+        }
+        if let Some(e) = &self.error {
+            return Err(std::io::Error::new(e.kind(), e.to_string()));
+        }
+        if self.end_reached {
+            return Ok(0);
+        }
+        let mut size = 0;
+        if let Err(e) = self.read_decode(buf, &mut size) {
+            // what was decoded before the error goes out first
+            size += self.lz.flush(buf, size);
+            let error = std::io::Error::new(e.kind(), e.to_string());
+            self.error = Some(e);
+            if size == 0 {
                 return Err(error);
             }
         }
+        Ok(size)
     }
 }
diff --git a/lzma-rust/src/lzma_reader.rs b/lzma-rust/src/lzma_reader.rs
index 7d3c0c8..48c12de 100644
--- a/lzma-rust/src/lzma_reader.rs
+++ b/lzma-rust/src/lzma_reader.rs
@@ -199,19 +199,8 @@ impl<R: Read> LZMAReader<R> {
         Self::construct2(reader, uncomp_size, lc, lp, pb, dict_size, preset_dict)
     }
 
-    fn read_decode(&mut self, buf: &mut [u8]) -> Result<usize> {
-        if buf.is_empty() {
-            return Ok(0);
-        }
-        if let Some(e) = &self.error {
-            return Err(Error::new(e.kind(), e.to_string()));
-        }
-        if self.end_reached {
-            return Ok(0);
-        }
-        let mut size = 0;
+    fn read_decode(&mut self, buf: &mut [u8], size: &mut usize) -> Result<()> {
         let mut len = buf.len().min(u32::MAX as usize) as u32;
-        let mut off = 0u32;
         while len > 0 {
             let mut copy_size_max = len as u32;
             if self.remaining_size <= u64::MAX / 2 && self.remaining_size < len as u64 {
@@ -230,10 +219,9 @@ impl<R: Read> LZMAReader<R> {
                 }
             }
 
-            let copied_size = self.lz.flush(buf, off as _) as u32;
-            off += copied_size;
+            let copied_size = self.lz.flush(buf, *size) as u32;
             len -= copied_size;
-            size += copied_size;
+            *size += copied_size as usize;
             if self.remaining_size <= u64::MAX / 2 {
                 self.remaining_size -= copied_size as u64;
                 if self.remaining_size == 0 {
@@ -250,19 +238,34 @@ impl<R: Read> LZMAReader<R> {
                         "end reached but not decoder finished",
                     ));
                 }
-                return Ok(size as _);
+                return Ok(());
             }
         }
-        Ok(size as _)
+        Ok(())
     }
 }
 
 impl<R: Read> Read for LZMAReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
-        self.read_decode(buf).map_err(|e| {
+        if buf.is_empty() {
+            return Ok(0);
+        }
+        if let Some(e) = &self.error {
+            return Err(Error::new(e.kind(), e.to_string()));
+        }
+        if self.end_reached {
+            return Ok(0);
+        }
+        let mut size = 0;
+        if let Err(e) = self.read_decode(buf, &mut size) {
+            // what was decoded before the error goes out first
+            size += self.lz.flush(buf, size);
             let error = Error::new(e.kind(), e.to_string());
             self.error = Some(e);
-            error
-        })
+            if size == 0 {
+                return Err(error);
+            }
+        }
+        Ok(size)
     }
 }
-- 
2.43.0


From 66a065dd4fa049dd1c7048ae8a05d35ae3fef7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 38/47] fix: the BCJ and BCJ2 readers dropped the bytes decoded
 before an error of their input (C07)

---
 src/bcj/mod.rs  |  3 ++-
 src/bcj2/mod.rs | 10 ++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/bcj/mod.rs b/src/bcj/mod.rs
index de9ec22..dd0d7c4 100644
--- a/src/bcj/mod.rs
+++ b/src/bcj/mod.rs
@@ -122,7 +122,8 @@ impl<R: Read> Read for SimpleReader<R> {
                     let err = std::io::Error::new(e.kind(), e.to_string());
                     self.err = Some(err);
                     self.state = state;
-                    return Err(e);
+                    // what was decoded before the error goes out first
+                    return if size > 0 { Ok(size) } else { Err(e) };
                 }
             };
 
diff --git a/src/bcj2/mod.rs b/src/bcj2/mod.rs
index 580a469..ed769bc 100644
--- a/src/bcj2/mod.rs
+++ b/src/bcj2/mod.rs
@@ -32,6 +32,7 @@ pub struct BCJ2Reader<R> {
     extra_read_sizes: [usize; BCJ2_NUM_STREAMS],
     read_res: [bool; BCJ2_NUM_STREAMS],
     uncompressed_size: u64,
+    err: Option<std::io::Error>,
 }
 
 impl<R> BCJ2Reader<R> {
@@ -43,6 +44,7 @@ impl<R> BCJ2Reader<R> {
             extra_read_sizes: [0; BCJ2_NUM_STREAMS],
             read_res: [true; BCJ2_NUM_STREAMS],
             uncompressed_size,
+            err: None,
         }
         .init()
     }
@@ -68,6 +70,9 @@ impl<R: Read> Read for BCJ2Reader<R> {
         if dest_buf.is_empty() {
             return Ok(0);
         }
+        if let Some(e) = self.err.take() {
+            return Err(e);
+        }
         let mut result_size = 0;
         self.decoder.set_dest(0);
         let mut offset = 0;
@@ -118,6 +123,11 @@ impl<R: Read> Read for BCJ2Reader<R> {
                     Err(e) => {
                         // what was read before is lost, there is no way to go on
                         self.read_res[self.decoder.state] = false;
+                        if result_size != 0 {
+                            // what was decoded before the error goes out first
+                            self.err = Some(e);
+                            return Ok(result_size);
+                        }
                         return Err(e);
                     }
                 };
-- 
2.43.0


From 3027eacf982385ec84995c905182d7971842846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:12 +0000
Subject: [PATCH 39/47] fix: an interrupted read made the BCJ reader fail for
 ever and the BCJ2 reader lose data (C21)

---
 src/bcj/mod.rs  | 1 +
 src/bcj2/mod.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/bcj/mod.rs b/src/bcj/mod.rs
index dd0d7c4..faa86ab 100644
--- a/src/bcj/mod.rs
+++ b/src/bcj/mod.rs
@@ -118,6 +118,7 @@ impl<R: Read> Read for SimpleReader<R> {
             let temp = &mut state.filter_buf[start..(start + in_size)];
             in_size = match self.inner.read(temp) {
                 Ok(s) => s,
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                 Err(e) => {
                     let err = std::io::Error::new(e.kind(), e.to_string());
                     self.err = Some(err);
diff --git a/src/bcj2/mod.rs b/src/bcj2/mod.rs
index ed769bc..00da073 100644
--- a/src/bcj2/mod.rs
+++ b/src/bcj2/mod.rs
@@ -120,6 +120,7 @@ impl<R: Read> Read for BCJ2Reader<R> {
                     &mut self.base.buf_at(self.decoder.state)[total_read..total_read + cur_size],
                 ) {
                     Ok(n) => n,
+                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                     Err(e) => {
                         // what was read before is lost, there is no way to go on
                         self.read_res[self.decoder.state] = false;
-- 
2.43.0


From 2fd3339b4b101547e77957f66c3349c2f701e5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 40/47] fix: the search for a header behind a zeroed start
 header copied the rest of the file for every guess (C05)

---
 src/reader.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index ee4e09e..8551dc4 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -331,7 +331,7 @@ impl Archive {
             if nid == K_ENCODED_HEADER || nid == K_HEADER {
                 // a wrong guess may well fail, or look like the header of something else
                 if let Ok((result, pack_end)) =
-                    Self::parse_header(reader, tail[i..].to_vec(), password, true)
+                    Self::parse_header(reader, &tail[i..], password, true)
                 {
                     if !result.files.is_empty()
                         && pack_end.map_or(true, |end| end == min_pos + i as u64)
@@ -375,20 +375,21 @@ impl Archive {
         if crc32_cksum(&buf) as u64 != start_header.next_header_crc {
             return Err(Error::NextHeaderCrcMismatch);
         }
-        Self::parse_header(reader, buf, password, false).map(|(archive, _)| archive)
+        Self::parse_header(reader, &buf, password, false).map(|(archive, _)| archive)
     }
 
     /// Parses the header in `buf`, `exact` if it has to fill all of it.
     /// Also returns where the packed streams end, if there are any.
     fn parse_header<R: Read + Seek>(
         reader: &mut R,
-        mut buf: Vec<u8>,
+        buf: &[u8],
         password: &[u8],
         exact: bool,
     ) -> Result<(Self, Option<u64>), Error> {
         let mut archive = Archive::default();
         let mut pack_end = None;
-        let mut buf_reader = buf.as_slice();
+        let mut decoded = Vec::new();
+        let mut buf_reader = buf;
         let mut nid = read_u8(&mut buf_reader)?;
         let mut header = if nid == K_ENCODED_HEADER {
             let (mut out_reader, buf_size) =
@@ -397,18 +398,17 @@ impl Archive {
                 return Err(Error::other("Data behind the header"));
             }
             pack_end = archive.pack_end();
-            buf.clear();
             out_reader
                 .by_ref()
                 .take(buf_size as u64)
-                .read_to_end(&mut buf)
+                .read_to_end(&mut decoded)
                 .and_then(|n| match n == buf_size {
                     true => Ok(()),
                     false => Err(ErrorKind::UnexpectedEof.into()),
                 })
                 .map_err(|e| Error::bad_password(e, !password.is_empty()))?;
             archive = Archive::default();
-            buf_reader = buf.as_slice();
+            buf_reader = decoded.as_slice();
             nid = read_u8(&mut buf_reader)?;
             buf_reader
         } else {
-- 
2.43.0


From 4a7fac7bffdbbe373cde914ba5a2787ae1224a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 41/47] fix: LZMA encoder panicked when a flush was followed by
 a few bytes

---
 lzma-rust/src/lz/lz_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma-rust/src/lz/lz_encoder.rs b/lzma-rust/src/lz/lz_encoder.rs
index 93d410c..8e5ebce 100644
--- a/lzma-rust/src/lz/lz_encoder.rs
+++ b/lzma-rust/src/lz/lz_encoder.rs
@@ -287,7 +287,7 @@ impl LZEncoderData {
             let old_pending = self.pending_size;
             self.pending_size = 0;
             match_finder.skip(self, old_pending as _);
-            assert!(self.pending_size < old_pending)
+            assert!(self.pending_size <= old_pending)
         }
     }
 
-- 
2.43.0


From 1185a642cb2614b92c042ecc2f501eca886bdbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 42/47] fix: whether a damaged end of a bzip2 or zstd stream
 was reported depended on how the reads were split (C07)

---
 src/decoders.rs | 47 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/decoders.rs b/src/decoders.rs
index 03d9be7..f13de5c 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -22,9 +22,9 @@ pub enum Decoder<R: Read> {
     BCJ(SimpleReader<R>),
     Delta(DeltaReader<R>),
     #[cfg(feature = "zstd")]
-    ZSTD(zstd::Decoder<'static, std::io::BufReader<R>>),
+    ZSTD(TrailerReader<zstd::Decoder<'static, std::io::BufReader<R>>>),
     #[cfg(feature = "bzip2")]
-    BZip2(BzDecoder<R>),
+    BZip2(TrailerReader<BzDecoder<R>>),
     #[cfg(feature = "aes256")]
     AES256SHA256(Aes256Sha256Decoder<R>),
 }
@@ -56,6 +56,45 @@ impl<R: Read> Read for Decoder<R> {
     }
 }
 
+/// Has the decoder look at what follows the last byte, the checksum of the stream,
+/// before that byte is passed on. Otherwise it depends on how the reads are split
+/// whether damage there is found.
+#[cfg(any(feature = "bzip2", feature = "zstd"))]
+pub struct TrailerReader<R> {
+    inner: R,
+    remain: usize,
+}
+
+#[cfg(any(feature = "bzip2", feature = "zstd"))]
+impl<R> TrailerReader<R> {
+    fn new(inner: R, size: usize) -> Self {
+        Self {
+            inner,
+            remain: size,
+        }
+    }
+}
+
+#[cfg(any(feature = "bzip2", feature = "zstd"))]
+impl<R: Read> Read for TrailerReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        let n = self.inner.read(buf)?;
+        if n > 0 && self.remain > 0 {
+            self.remain = self.remain.saturating_sub(n);
+            if self.remain == 0 {
+                loop {
+                    match self.inner.read(&mut [0u8; 1]) {
+                        Ok(_) => break,
+                        Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                        Err(e) => return Err(e),
+                    }
+                }
+            }
+        }
+        Ok(n)
+    }
+}
+
 pub fn add_decoder<I: Read>(
     input: I,
     uncompressed_len: usize,
@@ -77,7 +116,7 @@ pub fn add_decoder<I: Read>(
         #[cfg(feature = "zstd")]
         SevenZMethod::ID_ZSTD => {
             let zs = zstd::Decoder::new(input).map_err(Error::io)?;
-            Ok(Decoder::ZSTD(zs))
+            Ok(Decoder::ZSTD(TrailerReader::new(zs, uncompressed_len)))
         }
         SevenZMethod::ID_LZMA => {
             let dict_size = get_lzma_dic_size(coder)?;
@@ -134,7 +173,7 @@ pub fn add_decoder<I: Read>(
         #[cfg(feature = "bzip2")]
         SevenZMethod::ID_BZIP2 => {
             let de = BzDecoder::new(input);
-            Ok(Decoder::BZip2(de))
+            Ok(Decoder::BZip2(TrailerReader::new(de, uncompressed_len)))
         }
         #[cfg(feature = "aes256")]
         SevenZMethod::ID_AES256SHA256 => {
-- 
2.43.0


From da0961a0bf40488a5dedfc53a88f921c176ce2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 43/47] fix: the padding of the cipher was passed on to the
 filter behind it (C12)

---
 src/decoders.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/decoders.rs b/src/decoders.rs
index f13de5c..058cbbb 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -5,7 +5,7 @@ use byteorder::{LittleEndian, ReadBytesExt};
 use bzip2::read::BzDecoder;
 
 #[cfg(feature = "aes256")]
-use crate::aes256sha256::Aes256Sha256Decoder;
+use crate::{aes256sha256::Aes256Sha256Decoder, reader::BoundedReader};
 use crate::{
     archive::SevenZMethod,
     bcj::SimpleReader,
@@ -26,7 +26,7 @@ pub enum Decoder<R: Read> {
     #[cfg(feature = "bzip2")]
     BZip2(TrailerReader<BzDecoder<R>>),
     #[cfg(feature = "aes256")]
-    AES256SHA256(Aes256Sha256Decoder<R>),
+    AES256SHA256(BoundedReader<Aes256Sha256Decoder<R>>),
 }
 
 // impl<R: Read> Decoder<R> {
@@ -181,7 +181,11 @@ pub fn add_decoder<I: Read>(
                 return Err(Error::PasswordRequired);
             }
             let de = Aes256Sha256Decoder::new(input, &coder.properties, password)?;
-            Ok(Decoder::AES256SHA256(de))
+            // without the padding of the last block
+            Ok(Decoder::AES256SHA256(BoundedReader::new(
+                de,
+                uncompressed_len,
+            )))
         }
         _ => Err(Error::UnsupportedCompressionMethod(
             method.name().to_string(),
-- 
2.43.0


From 64b346e9df5b0812ed0fd080e23f3be2544e21a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:43 +0000
Subject: [PATCH 44/47] fix: branch filters wrap addresses beyond 2 GiB instead
 of overflowing

---
 src/bcj/arm.rs   | 10 +++++++---
 src/bcj/ppc.rs   |  6 +++++-
 src/bcj/sparc.rs |  6 +++++-
 src/bcj/x86.rs   |  4 ++--
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/bcj/arm.rs b/src/bcj/arm.rs
index 861e683..74a36a7 100644
--- a/src/bcj/arm.rs
+++ b/src/bcj/arm.rs
@@ -36,7 +36,11 @@ impl BCJFilter {
 
                 let src = ((b2 << 16) | (b1 << 8) | (b0)) << 2;
                 let p = (self.pos + i) as i32;
-                let dest = if self.is_encoder { src + p } else { src - p };
+                let dest = if self.is_encoder {
+                    src.wrapping_add(p)
+                } else {
+                    src.wrapping_sub(p)
+                };
                 let dest = dest >> 2;
                 buf[i + 2] = ((dest >> 16) & 0xff) as u8;
                 buf[i + 1] = ((dest >> 8) & 0xff) as u8;
@@ -70,9 +74,9 @@ impl BCJFilter {
                 let src = src << 1;
 
                 let dest = if self.is_encoder {
-                    src + (self.pos + i) as i32
+                    src.wrapping_add((self.pos + i) as i32)
                 } else {
-                    src - (self.pos + i) as i32
+                    src.wrapping_sub((self.pos + i) as i32)
                 };
                 let dest = dest >> 1;
                 buf[i + 1] = (0xF0 | ((dest >> 19) & 0x07)) as u8;
diff --git a/src/bcj/ppc.rs b/src/bcj/ppc.rs
index 4ab002f..6fc8a89 100644
--- a/src/bcj/ppc.rs
+++ b/src/bcj/ppc.rs
@@ -29,7 +29,11 @@ impl BCJFilter {
                     ((b0 & 0x03) << 24) | ((b1 & 0xff) << 16) | ((b2 & 0xff) << 8) | (b3 & 0xFC);
 
                 let p = (self.pos + i) as i32;
-                let dest = if self.is_encoder { src + p } else { src - p };
+                let dest = if self.is_encoder {
+                    src.wrapping_add(p)
+                } else {
+                    src.wrapping_sub(p)
+                };
 
                 buf[i] = (0x48 | ((dest >> 24) & 0x03)) as u8;
                 buf[i + 1] = (dest >> 16) as u8;
diff --git a/src/bcj/sparc.rs b/src/bcj/sparc.rs
index 11bc78c..1f0fda0 100644
--- a/src/bcj/sparc.rs
+++ b/src/bcj/sparc.rs
@@ -28,7 +28,11 @@ impl BCJFilter {
                     ((b0 & 0xFF) << 24) | ((b1 & 0xFF) << 16) | ((b2 & 0xFF) << 8) | (b3 & 0xFF);
                 let src = src << 2;
                 let p = (self.pos + i) as i32;
-                let dest = if self.is_encoder { src + p } else { src - p };
+                let dest = if self.is_encoder {
+                    src.wrapping_add(p)
+                } else {
+                    src.wrapping_sub(p)
+                };
                 let dest = dest >> 2;
                 let dest = (((0 - ((dest >> 22) & 1)) << 22) & 0x3FFFFFFF)
                     | (dest & 0x3FFFFF)
diff --git a/src/bcj/x86.rs b/src/bcj/x86.rs
index 9e47b03..9d9a7ba 100644
--- a/src/bcj/x86.rs
+++ b/src/bcj/x86.rs
@@ -56,9 +56,9 @@ impl BCJFilter {
                 let mut dest: i32;
                 loop {
                     if self.is_encoder {
-                        dest = src + (self.pos + i) as i32;
+                        dest = src.wrapping_add((self.pos + i) as i32);
                     } else {
-                        dest = src - (self.pos + i) as i32;
+                        dest = src.wrapping_sub((self.pos + i) as i32);
                     }
 
                     if prev_mask == 0 {
-- 
2.43.0


From aa6243364bc86d391edd494366019468228eb016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 45/47] fix: the position of the BCJ2 converter wraps at 4 GiB
 instead of overflowing

---
 src/bcj2/bcj2_decode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bcj2/bcj2_decode.rs b/src/bcj2/bcj2_decode.rs
index 4c58bfa..4046501 100644
--- a/src/bcj2/bcj2_decode.rs
+++ b/src/bcj2/bcj2_decode.rs
@@ -158,7 +158,7 @@ impl Bcj2Decoder {
                     if src == src_lim {
                         self.temp[3] = src_bufs[src - 1];
                         self.bufs[BCJ2_STREAM_MAIN] = src;
-                        self.ip += num as u32;
+                        self.ip = self.ip.wrapping_add(num as u32);
                         self.dest += num;
                         self.state = if self.bufs[BCJ2_STREAM_MAIN] == self.lims[BCJ2_STREAM_MAIN] {
                             BCJ2_STREAM_MAIN
@@ -179,7 +179,7 @@ impl Bcj2Decoder {
                         self.temp[3] = b;
                         self.bufs[BCJ2_STREAM_MAIN] = src + 1;
                         num += 1;
-                        self.ip += num as u32;
+                        self.ip = self.ip.wrapping_add(num as u32);
                         self.dest += num;
 
                         let prob = &mut self.probs[if b == 0xE8 {
@@ -227,7 +227,7 @@ impl Bcj2Decoder {
                 };
                 self.bufs[cj] = cur + 4;
 
-                self.ip += 4;
+                self.ip = self.ip.wrapping_add(4);
                 val = val.wrapping_sub(self.ip);
                 let dest = self.dest;
                 let rem = dest_lim - dest;
-- 
2.43.0


From b79b190bab7c0ac78396e585da75a56b5841d745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 46/47] fix: encrypting more than 4 GiB overflowed the count of
 bytes written

---
 src/aes256sha256.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aes256sha256.rs b/src/aes256sha256.rs
index ebafa4e..ab03bca 100644
--- a/src/aes256sha256.rs
+++ b/src/aes256sha256.rs
@@ -242,7 +242,7 @@ mod enc {
         enc: Aes256CbcEnc,
         buffer: Vec<u8>,
         done: bool,
-        write_size: u32,
+        write_size: u64,
     }
     #[derive(Debug, Clone)]
     pub struct AesEncoderOptions {
@@ -310,7 +310,7 @@ mod enc {
             let block2 = GenericArray::from_mut_slice(block);
             self.enc.encrypt_block_mut(block2);
             self.output.write_all(block)?;
-            self.write_size += block.len() as u32;
+            self.write_size += block.len() as u64;
             Ok(())
         }
     }
-- 
2.43.0


From 55809a98fc38ddc74ae328ddbf003261ffa040ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:27 +0000
Subject: [PATCH 47/47] fix: the LZMA encoder wraps its LZMA2 chunk count
 beyond 4 GiB instead of overflowing

---
 lzma-rust/src/enc/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma-rust/src/enc/encoder.rs b/lzma-rust/src/enc/encoder.rs
index 3fb11d4..0de7033 100644
--- a/lzma-rust/src/enc/encoder.rs
+++ b/lzma-rust/src/enc/encoder.rs
@@ -319,7 +319,7 @@ impl LZMAEncoder {
             }
         }
         self.data.read_ahead -= len as i32;
-        self.data.uncompressed_size += len;
+        self.data.uncompressed_size = self.data.uncompressed_size.wrapping_add(len);
         Ok(true)
     }
 
-- 
2.43.0

