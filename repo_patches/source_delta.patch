From dad564e69168bb7ce75acedfdb7d7833610ac468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 1/9] fix: accept ICC profiles up to the documented 255 chunks

add_icc_profile rejected profiles that need exactly 255 chunks, although its
documentation (and the one byte chunk count) allow 16,707,345 bytes.
---
 src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index eded305..de86b8f 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -381,7 +381,7 @@ impl<W: JfifWrite> Encoder<W> {
         let num_chunks = ceil_div(data.len(), MAX_CHUNK_LENGTH);
 
         // Sequence number is stored as a byte and starts with 1
-        if num_chunks >= 255 {
+        if num_chunks > 255 {
             return Err(EncodingError::IccTooLarge(data.len()));
         }
 
-- 
2.43.0


From b2fefddb1b284a2413c347e4863adf517bb005f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 2/9] fix: no empty first AC scan with 34 or more progressive
 scans

The 63 AC coefficients were split as if there were 64, so with more than 33
scans the first AC scan was written with Ss=1, Se=0, which is not a legal
spectral selection.
---
 src/encoder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index de86b8f..80e4c5e 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -892,15 +892,15 @@ impl<W: JfifWrite> Encoder<W> {
         // Phase 2: AC scans
         let scans = scans as usize - 1;
 
-        let values_per_scan = 64 / scans;
+        let values_per_scan = 63 / scans;
 
         for scan in 0..scans {
-            let start = (scan * values_per_scan).max(1);
+            let start = 1 + scan * values_per_scan;
             let end = if scan == scans - 1 {
                 // ensure last scan is always transfers the remaining coefficients
                 64
             } else {
-                (scan + 1) * values_per_scan
+                start + values_per_scan
             };
 
             for (i, component) in self.components.iter().enumerate() {
@@ -1090,15 +1090,15 @@ impl<W: JfifWrite> Encoder<W> {
                     if let Some(scans) = self.progressive_scans {
                         let scans = scans as usize - 1;
 
-                        let values_per_scan = 64 / scans;
+                        let values_per_scan = 63 / scans;
 
                         for scan in 0..scans {
-                            let start = (scan * values_per_scan).max(1);
+                            let start = 1 + scan * values_per_scan;
                             let end = if scan == scans - 1 {
                                 // Due to rounding we might need to transfer more than values_per_scan values in the last scan
                                 64
                             } else {
-                                (scan + 1) * values_per_scan
+                                start + values_per_scan
                             };
 
                             debug_assert!(!blocks[i].is_empty());
-- 
2.43.0


From 9f9e7f40c279c5ca6ca097522388a16dfe7b5c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:01 +0000
Subject: [PATCH 3/9] fix: limit custom quantization values to the 8 bit
 written to the file

Values above 255 were used for quantization but written modulo 256 (a zero
entry for multiples of 256), because tables have 8 bit precision.
---
 src/quantization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quantization.rs b/src/quantization.rs
index 93055e6..37007cd 100644
--- a/src/quantization.rs
+++ b/src/quantization.rs
@@ -250,7 +250,7 @@ impl QuantizationTable {
     fn get_user_table(table: &[u16; 64]) -> [NonZeroU16; 64] {
         let mut q_table = [NonZeroU16::new(1).unwrap(); 64];
         for (i, &v) in table.iter().enumerate() {
-            q_table[i] = match NonZeroU16::new(v.clamp(1, 2 << 10) << 3) {
+            q_table[i] = match NonZeroU16::new(v.clamp(1, 255) << 3) {
                 Some(v) => v,
                 None => panic!("Invalid quantization table value: {}", v),
             };
-- 
2.43.0


From 9ed407b66c6e570ce77362bbb595809822537616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:45 +0000
Subject: [PATCH 4/9] fix: round the AVX2 DCT like the scalar one

The second pass rounding constant for 16 bit lanes was built from 32 bit lanes,
so every other lane was not rounded and the SIMD build produced different
coefficients than the scalar build.
---
 src/avx2/fdct.rs | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/avx2/fdct.rs b/src/avx2/fdct.rs
index b7caa38..efd9dcd 100644
--- a/src/avx2/fdct.rs
+++ b/src/avx2/fdct.rs
@@ -10,19 +10,19 @@
 #[cfg(target_arch = "x86")]
 use core::arch::x86::{
     __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_loadu_si256, _mm256_madd_epi16,
-    _mm256_packs_epi32, _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_set_epi16,
-    _mm256_set_epi32, _mm256_sign_epi16, _mm256_slli_epi16, _mm256_srai_epi16, _mm256_srai_epi32,
-    _mm256_storeu_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi32,
-    _mm256_unpacklo_epi16, _mm256_unpacklo_epi32,
+    _mm256_packs_epi32, _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_set1_epi16,
+    _mm256_set_epi16, _mm256_set_epi32, _mm256_sign_epi16, _mm256_slli_epi16, _mm256_srai_epi16,
+    _mm256_srai_epi32, _mm256_storeu_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16,
+    _mm256_unpackhi_epi32, _mm256_unpacklo_epi16, _mm256_unpacklo_epi32,
 };
 
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::{
     __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_loadu_si256, _mm256_madd_epi16,
-    _mm256_packs_epi32, _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_set_epi16,
-    _mm256_set_epi32, _mm256_sign_epi16, _mm256_slli_epi16, _mm256_srai_epi16, _mm256_srai_epi32,
-    _mm256_storeu_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi32,
-    _mm256_unpacklo_epi16, _mm256_unpacklo_epi32,
+    _mm256_packs_epi32, _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_set1_epi16,
+    _mm256_set_epi16, _mm256_set_epi32, _mm256_sign_epi16, _mm256_slli_epi16, _mm256_srai_epi16,
+    _mm256_srai_epi32, _mm256_storeu_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16,
+    _mm256_unpackhi_epi32, _mm256_unpacklo_epi16, _mm256_unpacklo_epi32,
 };
 
 const CONST_BITS: i32 = 13;
@@ -188,16 +188,7 @@ unsafe fn fdct_avx2_internal(data: &mut [i16; 64]) {
     #[allow(non_snake_case)]
     #[inline(always)]
     unsafe fn PW_DESCALE_P2X() -> __m256i {
-        _mm256_set_epi32(
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-        )
+        _mm256_set1_epi16(1 << (PASS1_BITS - 1))
     }
 
     // In-place 8x8x16-bit matrix transpose using AVX2 instructions
-- 
2.43.0


From aa7176893564ec22b728207bc9a97779d1a222e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 5/9] fix: count DC symbols per restart interval when
 optimizing Huffman tables

The encoder resets the DC prediction at restart markers, the symbol statistics
did not, so symbols could be missing from the optimized table and the stream
could not be decoded.
---
 src/encoder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 80e4c5e..b51f54e 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1069,11 +1069,17 @@ impl<W: JfifWrite> Encoder<W> {
                 if component.dc_huffman_table == table {
                     had_dc = true;
 
+                    let restart_interval = self.restart_interval.unwrap_or(0) as usize;
                     let mut prev_dc = 0;
 
                     debug_assert!(!blocks[i].is_empty());
 
-                    for block in &blocks[i] {
+                    for (n, block) in blocks[i].iter().enumerate() {
+                        // The DC prediction starts again after every restart marker
+                        if restart_interval > 0 && n % restart_interval == 0 {
+                            prev_dc = 0;
+                        }
+
                         let value = block[0];
                         let diff = value - prev_dc;
                         let num_bits = get_num_bits(diff);
-- 
2.43.0


From 1dd2a530eb679cdaed59863fb6431c34c6e679c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:23 +0000
Subject: [PATCH 6/9] fix: no panic for Huffman code sizes above 32 bits

Before limiting, code sizes can exceed 32 when symbol frequencies are distributed
like Fibonacci numbers (more than about 9 million symbols are needed), which
indexed past the counting array.
---
 src/huffman.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/huffman.rs b/src/huffman.rs
index a32debd..3914822 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -156,7 +156,8 @@ impl HuffmanTable {
         // Find the number of codes of each size
         // Figure K.2
 
-        let mut bits = [0u8; 33];
+        // Very uneven frequencies can result in code sizes of more than 32 bits before they are limited
+        let mut bits = [0u8; 257];
 
         for &size in codesize.iter() {
             if size > 0 {
@@ -167,7 +168,7 @@ impl HuffmanTable {
         // Limiting code lengths to 16 bits
         // Figure K.3
 
-        let mut i = 32;
+        let mut i = bits.len() - 1;
 
         while i > 16 {
             while bits[i] > 0 {
@@ -197,7 +198,7 @@ impl HuffmanTable {
 
         let mut k = 0;
 
-        for i in 1..=32 {
+        for i in 1..=256 {
             for j in 0..=255 {
                 if codesize[j] == i {
                     huffval[k] = j as u8;
-- 
2.43.0


From e4e8867f7913e47d1a9d2188497bc13aa00ffa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 7/9] fix: no overflow of the required data length on 32 bit
 targets

width * height * bytes per pixel can exceed 2^32, and a wrapped value let too
short slices pass the length check.
---
 src/encoder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index b51f54e..3b960ce 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -410,7 +410,10 @@ impl<W: JfifWrite> Encoder<W> {
         height: u16,
         color_type: ColorType,
     ) -> Result<(), EncodingError> {
-        let required_data_len = width as usize * height as usize * color_type.get_bytes_per_pixel();
+        // Can exceed the address space on 32 bit targets
+        let required_data_len = (width as usize)
+            .saturating_mul(height as usize)
+            .saturating_mul(color_type.get_bytes_per_pixel());
 
         if data.len() < required_data_len {
             return Err(EncodingError::BadImageData {
-- 
2.43.0


From a8869be94c74dfb89bbc8606d7e8fc1f02e46f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 8/9] fix: report errors of buffered writers

Encoder::new_file writes through a BufWriter that was only flushed by its drop,
which ignores errors: encode returned Ok although the file was incomplete (for
example on a full disk). Flush the writer after the image is complete.
---
 src/encoder.rs |  3 +++
 src/writer.rs  | 24 ++++++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/encoder.rs b/src/encoder.rs
index 3b960ce..a80ac65 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -532,6 +532,9 @@ impl<W: JfifWrite> Encoder<W> {
 
         self.writer.write_marker(Marker::EOI)?;
 
+        // A buffered writer would silently ignore errors when it is dropped
+        self.writer.flush()?;
+
         Ok(())
     }
 
diff --git a/src/writer.rs b/src/writer.rs
index e818b67..5953aa2 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -38,6 +38,16 @@ pub trait JfifWrite {
     ///
     /// Return an error if the data can't be written
     fn write_all(&mut self, buf: &[u8]) -> Result<(), EncodingError>;
+
+    /// Flushes buffered data. The behavior must be identical to std::io::Write::flush
+    ///
+    /// This is called once after the complete image is written. By default, this does nothing.
+    /// # Errors
+    ///
+    /// Return an error if buffered data can't be written
+    fn flush(&mut self) -> Result<(), EncodingError> {
+        Ok(())
+    }
 }
 
 #[cfg(not(feature = "std"))]
@@ -45,6 +55,10 @@ impl<W: JfifWrite + ?Sized> JfifWrite for &mut W {
     fn write_all(&mut self, buf: &[u8]) -> Result<(), EncodingError> {
         (**self).write_all(buf)
     }
+
+    fn flush(&mut self) -> Result<(), EncodingError> {
+        (**self).flush()
+    }
 }
 
 #[cfg(not(feature = "std"))]
@@ -62,6 +76,12 @@ impl<W: std::io::Write + ?Sized> JfifWrite for W {
         self.write_all(buf)?;
         Ok(())
     }
+
+    #[inline(always)]
+    fn flush(&mut self) -> Result<(), EncodingError> {
+        std::io::Write::flush(self)?;
+        Ok(())
+    }
 }
 
 pub(crate) struct JfifWriter<W: JfifWrite> {
@@ -94,6 +114,10 @@ impl<W: JfifWrite> JfifWriter<W> {
         self.w.write_all(&value.to_be_bytes())
     }
 
+    pub fn flush(&mut self) -> Result<(), EncodingError> {
+        self.w.flush()
+    }
+
     pub fn finalize_bit_buffer(&mut self) -> Result<(), EncodingError> {
         self.write_bits(0x7F, 7)?;
         self.flush_bit_buffer()?;
-- 
2.43.0


From af1589452a43863534d088ec3bc83623d4cf37f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:33 +0000
Subject: [PATCH 9/9] fix: count Huffman symbols with 64 bits

The symbols of a large picture with optimized tables add up to more than
32 bits hold (CMYK from about 38200x38200): an overflow panic, or a table
made from wrapped counts.
---
 src/encoder.rs | 4 ++--
 src/huffman.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index a80ac65..9ad238c 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1063,9 +1063,9 @@ impl<W: JfifWrite> Encoder<W> {
         let max_tables = self.components.len().min(2) as u8;
 
         for table in 0..max_tables {
-            let mut dc_freq = [0u32; 257];
+            let mut dc_freq = [0u64; 257];
             dc_freq[256] = 1;
-            let mut ac_freq = [0u32; 257];
+            let mut ac_freq = [0u64; 257];
             ac_freq[256] = 1;
 
             let mut had_ac = false;
diff --git a/src/huffman.rs b/src/huffman.rs
index 3914822..4338b8c 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -96,7 +96,7 @@ impl HuffmanTable {
 
     /// Generates an optimized huffman table as described in Section K.2
     #[allow(clippy::needless_range_loop)]
-    pub fn new_optimized(mut freq: [u32; 257]) -> HuffmanTable {
+    pub fn new_optimized(mut freq: [u64; 257]) -> HuffmanTable {
         let mut others = [-1i32; 257];
         let mut codesize = [0usize; 257];
 
@@ -104,7 +104,7 @@ impl HuffmanTable {
         // Figure K.1
         loop {
             let mut v1 = None;
-            let mut v1_min = u32::MAX;
+            let mut v1_min = u64::MAX;
 
             // Find the largest value with the least non zero frequency
             for (i, &f) in freq.iter().enumerate() {
@@ -120,7 +120,7 @@ impl HuffmanTable {
             };
 
             let mut v2 = None;
-            let mut v2_min = u32::MAX;
+            let mut v2_min = u64::MAX;
 
             // Find the next largest value with the least non zero frequency
             for (i, &f) in freq.iter().enumerate() {
-- 
2.43.0

