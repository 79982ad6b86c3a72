From 34f2afca153d9bf024b21bdeadb41bd7fec012a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 01/15] verification hooks behind cfg(meerkat_verif)

---
 src/store/encoding/mod.rs   | 6 ++++++
 src/store/io/mod.rs         | 6 ++++++
 src/store/segment_writer.rs | 9 +++++++++
 3 files changed, 21 insertions(+)

diff --git a/src/store/encoding/mod.rs b/src/store/encoding/mod.rs
index ca51f5f..7f5a62c 100644
--- a/src/store/encoding/mod.rs
+++ b/src/store/encoding/mod.rs
@@ -122,6 +122,12 @@ where
     }
 }
 
+#[allow(unexpected_cfgs)]
+#[cfg(meerkat_verif)]
+pub mod verif {
+    include!(concat!(env!("MEERKAT_VERIF_DIR"), "/hook_encoding.rs"));
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/store/io/mod.rs b/src/store/io/mod.rs
index 4d76897..0bff2c2 100644
--- a/src/store/io/mod.rs
+++ b/src/store/io/mod.rs
@@ -122,6 +122,12 @@ where
     }
 }
 
+#[allow(unexpected_cfgs)]
+#[cfg(meerkat_verif)]
+pub mod verif {
+    include!(concat!(env!("MEERKAT_VERIF_DIR"), "/hook_io.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use futures::StreamExt;
diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index ab4a48d..ab796bb 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -328,6 +328,15 @@ impl<'a, B> ColumnWriter<'a, B> {
     }
 }
 
+#[allow(unexpected_cfgs)]
+#[cfg(meerkat_verif)]
+pub mod verif {
+    include!(concat!(
+        env!("MEERKAT_VERIF_DIR"),
+        "/hook_segment_writer.rs"
+    ));
+}
+
 #[cfg(test)]
 mod tests {
     use tempfile::tempdir;
-- 
2.43.0


From 9ec253aa73c11cdac34f63cfbfe969909dbf9edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 02/15] fix: Bitmap::clear left stale bits behind

resize() keeps the bytes the vector already holds, so bits appended to a
cleared bitmap were or-ed into whatever it held before the clear.
---
 src/store/indexing_buffer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/store/indexing_buffer.rs b/src/store/indexing_buffer.rs
index e129fed..550cb88 100644
--- a/src/store/indexing_buffer.rs
+++ b/src/store/indexing_buffer.rs
@@ -86,6 +86,7 @@ impl Bitmap {
 
     pub fn clear(&mut self) {
         self.len = 0;
+        self.values.clear();
         self.values.resize(INITIAL_BITMAP_CAP, 0);
     }
 }
-- 
2.43.0


From 6d109b460387fe66bb5e44da10b1fefb33c619ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 03/15] fix: a bitmap created with a capacity below 8 bits
 could not grow

Doubling an empty storage leaves it empty, so the first append panicked.
---
 src/store/indexing_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/indexing_buffer.rs b/src/store/indexing_buffer.rs
index 550cb88..634a5ab 100644
--- a/src/store/indexing_buffer.rs
+++ b/src/store/indexing_buffer.rs
@@ -53,7 +53,7 @@ impl Bitmap {
         let idx = self.len >> 3;
 
         if idx == self.values.len() {
-            self.values.resize(self.values.len() * 2, 0);
+            self.values.resize((self.values.len() * 2).max(1), 0);
         }
 
         if set {
-- 
2.43.0


From 20ad5c7c4c8351f529b720b27927c1c2f0990b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 04/15] fix: primitive encoder compared a number of values with
 a size in bytes

Rows carried over were not written when they reached the block size, and the
room left in the block underflowed on the next buffer.
---
 src/store/encoding/raw/primitive_enc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index 23cb57b..f3e8c0f 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -120,7 +120,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
 
             buf_pos = chunk_end;
 
-            if self.remaining.len() < self.min_block_size {
+            if self.remaining.len() * size_of::<T>() < self.min_block_size {
                 return Ok(());
             }
 
-- 
2.43.0


From 75cddc1d7a2f06b3c4722c3929354d8d0cef0756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 05/15] fix: end of a binary chunk was relative to its start

find_position() counts from start_pos, so every chunk but the first of a
buffer ended too early: items were written again, or forever.
---
 src/store/encoding/raw/binary_enc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index b6dff15..57bdf4f 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -237,7 +237,7 @@ pub fn chunk(buffer: &BinaryBuffer, start_pos: usize, min_size: u64) -> BinaryCh
         .find_position(|offset| (*offset - start_offset) as u64 >= min_size);
 
     let (end_pos, end_offset) = match maybe_end_pos {
-        Some(pos) => (pos.0, *pos.1),
+        Some(pos) => (start_pos + pos.0, *pos.1),
         None => (
             buffer.offsets().len() - 1,
             buffer.offsets()[buffer.offsets().len() - 1],
-- 
2.43.0


From f65d526b41d6c1adb67562ad8541f432990e8336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 06/15] fix: row ids of nullable columns counted rows of
 earlier blocks again

The number of rows of a block is the distance between its first and last
validity position, not the last position in the buffer.
---
 src/store/encoding/raw/binary_enc.rs    | 2 +-
 src/store/encoding/raw/primitive_enc.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index 57bdf4f..da2bbd8 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -208,7 +208,7 @@ fn encode_binary_buffer(
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
             EncodeResult {
-                num_rows: last_bit_pos,
+                num_rows: last_bit_pos - bit_pos,
                 last_validity_pos: last_bit_pos,
             }
         }
diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index f3e8c0f..7a379d7 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -186,7 +186,7 @@ fn encode_primitive_buffer<T: Clone>(
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
             EncodeResult {
-                num_rows: last_bit_pos,
+                num_rows: last_bit_pos - bit_pos,
                 last_validity_pos: last_bit_pos,
             }
         }
-- 
2.43.0


From 93ee0515ecced9c91cf7011709e5c732925d5f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 07/15] fix: item lengths of a block did not fit a single
 packing group

num_bits() takes exactly one group of 128 values; blocks with no item or more
than 128 items panicked.
---
 src/store/encoding/offsets.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/store/encoding/offsets.rs b/src/store/encoding/offsets.rs
index 2f9b93d..60ff3a4 100644
--- a/src/store/encoding/offsets.rs
+++ b/src/store/encoding/offsets.rs
@@ -39,7 +39,11 @@ impl OffsetEncoder {
         let len_padded = round_upto_power_of_2(src.len(), BitPacker4x::BLOCK_LEN);
         src.resize(len_padded, 0);
 
-        let num_bits = self.bitpacker.num_bits(src);
+        let num_bits = src
+            .chunks(BitPacker4x::BLOCK_LEN)
+            .map(|chunk| self.bitpacker.num_bits(chunk))
+            .max()
+            .unwrap_or(0);
 
         dst.push(num_bits);
 
-- 
2.43.0


From 66ac6ce1c5adc8acfa042da715f47294c2493802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 08/15] fix: trimming the packed item lengths cut off item
 lengths

The packer interleaves values over four 32-bit lanes, so the bits of the first
n values are not the first n * num_bits bits of its output.
---
 src/store/encoding/offsets.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/store/encoding/offsets.rs b/src/store/encoding/offsets.rs
index 60ff3a4..b2618c2 100644
--- a/src/store/encoding/offsets.rs
+++ b/src/store/encoding/offsets.rs
@@ -15,6 +15,9 @@ use bitpacking::{BitPacker, BitPacker4x};
 
 use crate::store::encoding::util::{ceil8, round_upto_power_of_2};
 
+/// Number of 32-bit lanes of the packer.
+const LANES: usize = 4;
+
 pub struct OffsetEncoder {
     bitpacker: BitPacker4x,
 }
@@ -60,8 +63,19 @@ impl OffsetEncoder {
             chunk_start += compressed_len;
         }
 
-        // trim to remove the encoded padding.
-        let encoded_data_len = encoded_data_start + ceil8(num_bits as usize * num_values);
+        // trim to remove the encoded padding. Values are interleaved over the
+        // lanes of the packer, only the trailing words of all of them together
+        // can be removed.
+        let lane_words = |len: usize| {
+            let lane_bits = num_bits as usize * ((len + LANES - 1) / LANES);
+            (lane_bits + 31) / 32
+        };
+
+        let full_chunks = num_values / BitPacker4x::BLOCK_LEN;
+        let words = full_chunks * lane_words(BitPacker4x::BLOCK_LEN)
+            + lane_words(num_values % BitPacker4x::BLOCK_LEN);
+
+        let encoded_data_len = encoded_data_start + words * LANES * 4;
 
         dst.resize(encoded_data_len, 0);
     }
-- 
2.43.0


From ef3a3f381e60c13e9e5e4abc8f70e1fe3a8d7696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 09/15] fix: nulls after the last value of a column were never
 written

Rows are copied and encoded up to the last value asked for, so trailing nulls
and all-null buffers were dropped and the rows after them got lower ids. They
now stay with the remaining rows, and the last block includes them.
---
 src/store/encoding/bitmap_rle.rs        |  8 ++++++++
 src/store/encoding/raw/binary_enc.rs    | 25 +++++++++++++++++++------
 src/store/encoding/raw/primitive_enc.rs | 20 +++++++++++++++-----
 src/store/indexing_buffer.rs            | 23 +++++++++++++++++++++++
 4 files changed, 65 insertions(+), 11 deletions(-)

diff --git a/src/store/encoding/bitmap_rle.rs b/src/store/encoding/bitmap_rle.rs
index 1e3b342..3cd80b1 100644
--- a/src/store/encoding/bitmap_rle.rs
+++ b/src/store/encoding/bitmap_rle.rs
@@ -80,6 +80,14 @@ impl Encoder {
         bit_pos
     }
 
+    /// encode the items of `bitmap` from `start_pos` to its end.
+    pub fn put_tail(&mut self, bitmap: &Bitmap, start_pos: usize) -> usize {
+        for bit_pos in start_pos..bitmap.len() {
+            self.put(bitmap.is_set(bit_pos));
+        }
+        bitmap.len()
+    }
+
     /// flush the internal buffer and encode pending values.
     /// once the encoder is flushed use `encoded_values()` to access the encoded
     /// buffer.
diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index da2bbd8..13ba954 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -73,6 +73,7 @@ impl Encoder {
             &mut self.offset_deltas,
             &mut self.bitmap_encoder,
             &mut self.offset_encoder,
+            false,
         );
 
         self.add_rows(result.num_rows);
@@ -101,6 +102,7 @@ impl Encoder {
             &mut self.offset_deltas,
             &mut self.bitmap_encoder,
             &mut self.offset_encoder,
+            true,
         );
 
         self.add_rows(result.num_rows);
@@ -125,7 +127,7 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
         let mut buf_pos = 0;
         let mut validity_pos = 0;
 
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             let remaining_size = self.remaining.data().len();
 
             let chunk = chunk(buffer, 0, self.min_block_size - remaining_size as u64);
@@ -136,6 +138,7 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
             buf_pos = chunk.end_pos;
 
             if self.remaining.data().len() < self.min_block_size as usize {
+                self.remaining.append_trailing_nulls(buffer, validity_pos);
                 return Ok(());
             }
 
@@ -147,9 +150,13 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
         while buf_pos < buffer.offsets().len() {
             let chunk = chunk(&buffer, buf_pos, self.min_block_size);
             if (chunk.size as u64) < self.min_block_size {
-                self.remaining
-                    .append_from(buffer, chunk.start_pos, chunk.end_pos, validity_pos);
-                return Ok(());
+                validity_pos = self.remaining.append_from(
+                    buffer,
+                    chunk.start_pos,
+                    chunk.end_pos,
+                    validity_pos,
+                );
+                break;
             }
 
             let result = self.write_block(buffer, &chunk, validity_pos, sink).await?;
@@ -158,11 +165,13 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
             validity_pos = result.last_validity_pos;
         }
 
+        self.remaining.append_trailing_nulls(buffer, validity_pos);
+
         Ok(())
     }
 
     async fn flush(&mut self, sink: &mut S) -> Result<EncoderLayout> {
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             self.write_remaining(sink).await?;
         }
 
@@ -184,6 +193,7 @@ fn encode_binary_buffer(
     offset_deltas: &mut Vec<u32>,
     bitmap_encoder: &mut bitmap_rle::Encoder,
     offset_encoder: &mut OffsetEncoder,
+    trailing_nulls: bool,
 ) -> EncodeResult {
     encoded_data.clear();
 
@@ -203,7 +213,10 @@ fn encode_binary_buffer(
     match buf.validity() {
         Some(ref mut validity) => {
             bitmap_encoder.clear();
-            let last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, chunk.len);
+            let mut last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, chunk.len);
+            if trailing_nulls {
+                last_bit_pos = bitmap_encoder.put_tail(validity, last_bit_pos);
+            }
             bitmap_encoder.flush();
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index 7a379d7..bcdcf38 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -67,6 +67,7 @@ impl<T: Send + Sync + Clone> Encoder<T> {
             bit_pos,
             &mut self.encoded_data,
             &mut self.bitmap_encoder,
+            false,
         );
 
         self.add_rows(result.num_rows);
@@ -85,6 +86,7 @@ impl<T: Send + Sync + Clone> Encoder<T> {
             0,
             &mut self.encoded_data,
             &mut self.bitmap_encoder,
+            true,
         );
 
         self.add_rows(result.num_rows);
@@ -111,7 +113,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
         let mut buf_pos = 0;
         let mut validity_pos = 0;
 
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             let remaining_size = self.remaining.len() * std::mem::size_of::<T>();
 
             let chunk_end = chunk(buffer, 0, self.min_block_size - remaining_size);
@@ -121,6 +123,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
             buf_pos = chunk_end;
 
             if self.remaining.len() * size_of::<T>() < self.min_block_size {
+                self.remaining.append_trailing_nulls(buffer, validity_pos);
                 return Ok(());
             }
 
@@ -136,9 +139,10 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
             let chunk_size = chunk_len * size_of::<T>();
 
             if chunk_size < self.min_block_size {
-                self.remaining
+                validity_pos = self
+                    .remaining
                     .append_from(buffer, buf_pos, chunk_end, validity_pos);
-                return Ok(());
+                break;
             }
 
             let result = self
@@ -149,11 +153,13 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
             validity_pos = result.last_validity_pos;
         }
 
+        self.remaining.append_trailing_nulls(buffer, validity_pos);
+
         Ok(())
     }
 
     async fn flush(&mut self, sink: &mut S) -> Result<EncoderLayout> {
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             self.write_remaining(sink).await?;
         }
 
@@ -168,6 +174,7 @@ fn encode_primitive_buffer<T: Clone>(
     bit_pos: usize,
     encoded_data: &mut Vec<u8>,
     bitmap_encoder: &mut bitmap_rle::Encoder,
+    trailing_nulls: bool,
 ) -> EncodeResult {
     encoded_data.clear();
 
@@ -181,7 +188,10 @@ fn encode_primitive_buffer<T: Clone>(
     match buf.validity() {
         Some(ref mut validity) => {
             bitmap_encoder.clear();
-            let last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, block_len);
+            let mut last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, block_len);
+            if trailing_nulls {
+                last_bit_pos = bitmap_encoder.put_tail(validity, last_bit_pos);
+            }
             bitmap_encoder.flush();
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
diff --git a/src/store/indexing_buffer.rs b/src/store/indexing_buffer.rs
index 634a5ab..f98ef96 100644
--- a/src/store/indexing_buffer.rs
+++ b/src/store/indexing_buffer.rs
@@ -75,6 +75,13 @@ impl Bitmap {
         bit_pos
     }
 
+    /// Append the items of `src` from `start_pos` to its end.
+    pub fn append_tail(&mut self, src: &Bitmap, start_pos: usize) {
+        for bit_pos in start_pos..src.len() {
+            self.append(src.is_set(bit_pos));
+        }
+    }
+
     pub fn is_set(&self, idx: usize) -> bool {
         assert!(idx < self.len);
         (self.values[idx >> 3] & BIT_MASK[idx & 7]) != 0
@@ -154,6 +161,14 @@ impl<T: Clone> PrimitiveBuffer<T> {
         }
     }
 
+    /// Append the nulls following the last value of `buf`, found from
+    /// `validity_pos` to the end of its validity bitmap.
+    pub fn append_trailing_nulls(&mut self, buf: &PrimitiveBuffer<T>, validity_pos: usize) {
+        if let (Some(validity_dst), Some(validity_src)) = (&mut self.validity, &buf.validity) {
+            validity_dst.append_tail(validity_src, validity_pos);
+        }
+    }
+
     /// Returns the values stored in this buffer.
     /// This is a sparse representation so only non-null values are returned.
     pub fn values(&self) -> &[T] {
@@ -281,6 +296,14 @@ impl BinaryBuffer {
         }
     }
 
+    /// Append the nulls following the last value of `buf`, found from
+    /// `validity_pos` to the end of its validity bitmap.
+    pub fn append_trailing_nulls(&mut self, buf: &BinaryBuffer, validity_pos: usize) {
+        if let (Some(validity_dst), Some(validity_src)) = (&mut self.validity, &buf.validity) {
+            validity_dst.append_tail(validity_src, validity_pos);
+        }
+    }
+
     /// Returns a reference to the stored values.
     pub fn data(&self) -> &[u8] {
         self.data.as_slice()
-- 
2.43.0


From 2e608f41486157301c7767cd7bf2c759eccff6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:05 +0000
Subject: [PATCH 10/15] fix: item lengths of 32 bits lost the first values of a
 packing group

---
 src/store/encoding/offsets.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/store/encoding/offsets.rs b/src/store/encoding/offsets.rs
index b2618c2..7a9a56a 100644
--- a/src/store/encoding/offsets.rs
+++ b/src/store/encoding/offsets.rs
@@ -57,9 +57,17 @@ impl OffsetEncoder {
         dst.resize(dst.len() + ceil8(num_bits as usize * len_padded), 0);
 
         for chunk in src.chunks(BitPacker4x::BLOCK_LEN) {
-            let compressed_len = self
-                .bitpacker
-                .compress(chunk, &mut dst[chunk_start..], num_bits);
+            // the packer drops the first values of a group at full width,
+            // where packing amounts to a copy.
+            let compressed_len = if num_bits == 32 {
+                for (bytes, value) in dst[chunk_start..].chunks_mut(4).zip(chunk) {
+                    bytes.copy_from_slice(&value.to_le_bytes());
+                }
+                chunk.len() * 4
+            } else {
+                self.bitpacker
+                    .compress(chunk, &mut dst[chunk_start..], num_bits)
+            };
             chunk_start += compressed_len;
         }
 
-- 
2.43.0


From 4f7716c161fac94f375cbf45e060c7fb0f32d6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:48 +0000
Subject: [PATCH 11/15] verification hook: entries of the block index

---
 src/store/block_index.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/store/block_index.rs b/src/store/block_index.rs
index 267f1b6..34544f7 100644
--- a/src/store/block_index.rs
+++ b/src/store/block_index.rs
@@ -48,4 +48,11 @@ impl BlockIndex {
             range: Some(Range { start: 0, end: 0 }),
         })
     }
+
+    /// row ids and offsets of the blocks indexed.
+    #[allow(unexpected_cfgs)]
+    #[cfg(meerkat_verif)]
+    pub fn verif_entries(&self) -> (Vec<u32>, Vec<u64>) {
+        (self.block_row_id.clone(), self.block_offset.clone())
+    }
 }
-- 
2.43.0


From fb5af75229a62921cb98125729e5e6c7afa4a079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 12/15] verification hook: block positions far into a file

---
 src/store/block_index.rs             | 5 ++++-
 src/store/io/default_block_writer.rs | 7 +++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/store/block_index.rs b/src/store/block_index.rs
index 34544f7..c922f40 100644
--- a/src/store/block_index.rs
+++ b/src/store/block_index.rs
@@ -53,6 +53,9 @@ impl BlockIndex {
     #[allow(unexpected_cfgs)]
     #[cfg(meerkat_verif)]
     pub fn verif_entries(&self) -> (Vec<u32>, Vec<u64>) {
-        (self.block_row_id.clone(), self.block_offset.clone())
+        (
+            self.block_row_id.iter().map(|x| *x as _).collect(),
+            self.block_offset.iter().map(|x| *x as _).collect(),
+        )
     }
 }
diff --git a/src/store/io/default_block_writer.rs b/src/store/io/default_block_writer.rs
index c9b14f1..2b9d009 100644
--- a/src/store/io/default_block_writer.rs
+++ b/src/store/io/default_block_writer.rs
@@ -54,4 +54,11 @@ impl Writer {
     pub fn pos(&self) -> u64 {
         self.pos
     }
+
+    /// Continue as if `pos` bytes had been written.
+    #[allow(unexpected_cfgs)]
+    #[cfg(meerkat_verif_far)]
+    pub fn verif_set_pos(&mut self, pos: u64) {
+        self.pos = pos as _;
+    }
 }
-- 
2.43.0


From 4df4bee715fe4b7f62805b2dd6f70741bd7055b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:08 +0000
Subject: [PATCH 13/15] fix: a buffer of another nullability than the column's
 was encoded in the wrong format

---
 src/store/encoding/raw/binary_enc.rs    | 7 ++++++-
 src/store/encoding/raw/primitive_enc.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index 13ba954..e5d600b 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -22,7 +22,7 @@
 ///
 use std::convert::TryInto;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use async_trait::async_trait;
 use itertools::Itertools;
 
@@ -124,6 +124,11 @@ impl Encoder {
 #[async_trait]
 impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
     async fn encode(&mut self, buffer: &BinaryBuffer, sink: &mut S) -> Result<()> {
+        ensure!(
+            buffer.validity().is_some() == self.remaining.validity().is_some(),
+            "the nullability of the buffer and the column differ"
+        );
+
         let mut buf_pos = 0;
         let mut validity_pos = 0;
 
diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index bcdcf38..ff49f66 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -22,7 +22,7 @@
 use std::convert::TryInto;
 use std::mem::size_of;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use async_trait::async_trait;
 
 use crate::store::encoding::bitmap_rle;
@@ -110,6 +110,11 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
     for Encoder<T>
 {
     async fn encode(&mut self, buffer: &PrimitiveBuffer<T>, sink: &mut S) -> Result<()> {
+        ensure!(
+            buffer.validity().is_some() == self.remaining.validity().is_some(),
+            "the nullability of the buffer and the column differ"
+        );
+
         let mut buf_pos = 0;
         let mut validity_pos = 0;
 
-- 
2.43.0


From 5dbccb531efe11cb0aed883c0b1ae11b95577c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:46 +0000
Subject: [PATCH 14/15] verification hook: row ids far into a column

---
 src/store/encoding/raw/binary_enc.rs    | 7 +++++++
 src/store/encoding/raw/primitive_enc.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index e5d600b..f107a51 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -119,6 +119,13 @@ impl Encoder {
             .checked_add((num_rows).try_into().expect("segment overflow"))
             .expect("segment overflow");
     }
+
+    /// Continue as if `num_rows` rows had been written.
+    #[allow(unexpected_cfgs)]
+    #[cfg(meerkat_verif_far)]
+    pub fn verif_set_rows(&mut self, num_rows: u32) {
+        self.num_rows = num_rows as _;
+    }
 }
 
 #[async_trait]
diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index ff49f66..0f647fc 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -103,6 +103,13 @@ impl<T: Send + Sync + Clone> Encoder<T> {
             .checked_add((num_rows).try_into().expect("segment overflow"))
             .expect("segment overflow");
     }
+
+    /// Continue as if `num_rows` rows had been written.
+    #[allow(unexpected_cfgs)]
+    #[cfg(meerkat_verif_far)]
+    pub fn verif_set_rows(&mut self, num_rows: u32) {
+        self.num_rows = num_rows as _;
+    }
 }
 
 #[async_trait]
-- 
2.43.0


From 06f181ee267e39e0141107e21fb656509944547a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:11 +0000
Subject: [PATCH 15/15] fix: a read far beyond the end of the file aborted the
 process

---
 src/store/io/unix_disk_block_reader.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/store/io/unix_disk_block_reader.rs b/src/store/io/unix_disk_block_reader.rs
index a5fa3ee..5a411f1 100644
--- a/src/store/io/unix_disk_block_reader.rs
+++ b/src/store/io/unix_disk_block_reader.rs
@@ -62,6 +62,11 @@ impl BlockReader for Reader {
     async fn read_block(&self, range: BlockRange) -> io::Result<Self::Buf> {
         let file = self.file.clone();
         asyncify(move || {
+            // no buffer is allocated for a range the file does not hold
+            if range.end > file.metadata()?.len() {
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
+
             let buf_len = range.end - range.start;
             let mut buf: Vec<u8> = vec![0; buf_len as usize];
             file.read_exact_at(buf.as_mut_slice(), range.start)
-- 
2.43.0

