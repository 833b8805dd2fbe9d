From 461a16ecd1ef34be84a27f63e60b9dad0ea9677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 01/14] fix: count the color transform program in
 decompress_simple's next point of interest

---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bb5ef14..62f39cd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -54,8 +54,10 @@ pub fn decompress_simple(
     test: bool,
     mut buffer: &mut [u8],
 ) -> Result<usize, DecompressError> {
+    let original_len = data.len();
     let mut is_chroma = vec![false; header.layers as usize * header.channels as usize];
     let color_transform = ColorTransformProgram::decode(&mut data, &mut is_chroma)?;
+    let service_len = original_len - data.len();
 
     let mut aux_data = vec![0i16; header.get_downsampled_image_size(downsampling)];
     let next_point_of_interest =
@@ -68,5 +70,10 @@ pub fn decompress_simple(
         &mut buffer,
     );
 
-    Ok(next_point_of_interest)
+    // the payload is preceded by the color transform program in the caller's data
+    Ok(if next_point_of_interest == 0 {
+        0
+    } else {
+        service_len + next_point_of_interest
+    })
 }
-- 
2.43.0


From 72a2a5a528c08642791829c32ca9803c127103ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 02/14] fix: read a level's block sizes as soon as all of them
 have arrived

---
 src/compress/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 9d79712..3f71419 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -300,7 +300,7 @@ pub fn decompress_image_data(
         }
         let (_, buffer_remainder) = buffer.split_at(decompressed_size);
 
-        if buffer_remainder.len() <= block_sizes_storage_size {
+        if buffer_remainder.len() < block_sizes_storage_size {
             break;
         }
 
-- 
2.43.0


From bc494c8e434bfa7a0a48786b5f0ee40dc551fcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 03/14] fix: report overflow instead of panicking when no space
 is left for blocks

---
 src/compress/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 3f71419..36890bb 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -174,6 +174,9 @@ fn compress_image_data(
         // make iterator over temporary blocks
         let blocks_buffer_free_space = blocks_buffer.len();
         let temp_block_size = blocks_buffer_free_space / block_count;
+        if temp_block_size == 0 {
+            return Err(CompressError::Overflow);
+        }
 
         let aux_data_chunks = Image::from_slice(aux_data, (width, height), channels * layers)
             .into_chunks_mut(bs, step);
-- 
2.43.0


From 9e9eebbbbd7145f283ded055cdb346789026353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 04/14] fix: do not panic on a malformed color transform
 denominator

---
 src/color_transform/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index 3436e84..282d838 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -228,7 +228,8 @@ impl ColorTransformProgram {
                 channel_transform_builder.add_channel_factor(src_channel as usize, factor as isize);
             }
             let denominator = signed_decode(&mut stream, 2)?;
-            if denominator == 0 {
+            // transforms divide 16-bit values
+            if denominator as i16 == 0 {
                 return Err(DecompressError::Malformed);
             }
             channel_transform_builder.set_denominator(denominator as isize);
@@ -405,7 +406,8 @@ impl ColorTransformProgram {
             }
 
             for i in 0..channel_size {
-                transform_temp[i] /= channel_transform.denominator as i16;
+                transform_temp[i] =
+                    transform_temp[i].wrapping_div(channel_transform.denominator as i16);
                 aux[dest_base + i] -= transform_temp[i];
             }
         }
-- 
2.43.0


From 872570dba937ee1f9fbd00fc311432db2943084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 05/14] fix: refuse header values that the encoded header
 cannot represent

---
 src/header/builder.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index 3474a31..63ef5b2 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -19,14 +19,18 @@ impl HeaderBuilder {
     pub fn build(self) -> Result<Header, HeaderErr> {
         let width = check_range(self.width, 0, 1 << 30, "Width")?;
         let height = check_range(self.height, 0, 1 << 30, "Height")?;
+        let layers = check_range(u32::from(self.layers), 0, 1 << 16, "Layers")? as u16;
+        let channels = check_range(u32::from(self.channels), 0, 1 << 16, "Channels")? as u16;
+        let chroma_scale =
+            check_range(u32::from(self.chroma_scale), 0, 1 << 8, "Chroma scale")? as u8;
         let bit_depth = 8;
         let channel_size = width as usize * height as usize;
 
         let layer_size = channel_size
-            .checked_mul(self.layers as usize)
+            .checked_mul(layers as usize)
             .ok_or_else(|| HeaderErr::WrongValue(String::from("layer size is too large")))?;
         let image_size = layer_size
-            .checked_mul(self.channels as usize)
+            .checked_mul(channels as usize)
             .ok_or_else(|| HeaderErr::WrongValue(String::from("Image size is too large")))?;
         let _bit_depth_image_size = image_size
             .checked_mul((bit_depth as usize + 7) / 8)
@@ -38,13 +42,13 @@ impl HeaderBuilder {
             version: 1,
             width,
             height,
-            layers: self.layers,
-            channels: self.channels,
+            layers,
+            channels,
             bit_depth,
             is_signed: false,
             quality: check_range(self.quality, 0, 1025, "Quality")?,
-            chroma_scale: self.chroma_scale,
-            block_size: check_range(self.block_size, 0, 31, "Block size")?,
+            chroma_scale,
+            block_size: check_range(self.block_size, 1, 31, "Block size")?,
             filter: self.filter,
             quantization: Quantization::Scalar,
             encoder: self.encoder,
-- 
2.43.0


From 4ab502255aed5f08484ea8eb5348f5672e0b1f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 06/14] fix: decode empty blocks at the very end of the data
 too

---
 src/processing/variable_chunks_iterator.rs | 23 ++++++++++------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/processing/variable_chunks_iterator.rs b/src/processing/variable_chunks_iterator.rs
index b0e642c..56ee9be 100644
--- a/src/processing/variable_chunks_iterator.rs
+++ b/src/processing/variable_chunks_iterator.rs
@@ -23,22 +23,19 @@ impl<'a, 'b, T> VariableChunksIterator<'a, 'b, T> {
     }
 
     fn get_next_chunk(&mut self, size: usize) -> Option<&'a [T]> {
-        if self.slice.is_empty() {
-            None
-        } else {
-            let mut slice: &[T] = &[];
-            mem::swap(&mut self.slice, &mut slice);
+        let mut slice: &[T] = &[];
+        mem::swap(&mut self.slice, &mut slice);
 
-            // for last chunk - return remainder
-            if slice.len() <= size {
-                return Some(slice);
-            }
+        if slice.len() < size {
+            // the slice is cut here: return the remainder, there are no further chunks
+            self.chunk_sizes = &[];
+            return if slice.is_empty() { None } else { Some(slice) };
+        }
 
-            let (chunk, remainder) = slice.split_at(size);
-            self.slice = remainder;
+        let (chunk, remainder) = slice.split_at(size);
+        self.slice = remainder;
 
-            Some(chunk)
-        }
+        Some(chunk)
     }
 }
 
-- 
2.43.0


From 33d226e0932eaf5046cc097bec3eb3f2249adb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:43 +0000
Subject: [PATCH 07/14] fix: decode downsampled Turbo streams with the run
 coder they were encoded with

---
 src/compress/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 36890bb..b138efb 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -367,6 +367,11 @@ pub fn decompress_image_data(
                     } else {
                         i32::from(header.quality)
                     };
+                    // Turbo chooses its run coder by quality * step of the full size image
+                    let quality = match header.encoder {
+                        header::Encoder::Turbo => (quality << downsampling.min(11)).min(2048),
+                        _ => quality,
+                    };
                     decode(
                         aux_data_chunk,
                         &mut input_block_reader,
-- 
2.43.0


From 33041a8b48469bc62ee19b39bb75ee377d3ead3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 08/14] fix: refuse a coefficient buffer smaller than the
 header's image

The planar entry points index the coefficients unchecked, so a short slice
made safe code read and write past its end.
---
 src/compress/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index b138efb..d7eb48b 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -23,6 +23,10 @@ pub fn compress_aux_data(
     is_chroma: &[bool],
     mut buffer: &mut [u8],
 ) -> Result<usize, CompressError> {
+    if aux_data.len() < header.get_image_size() {
+        return Err(CompressError::Malformed);
+    }
+
     lift_and_quantize(&mut aux_data, &header, &is_chroma);
     compress_image_data(&mut aux_data, &header, &mut buffer, &is_chroma)
 }
@@ -277,6 +281,10 @@ pub fn decompress_image_data(
         return Err(DecompressError::Underflow);
     }
 
+    if !test && aux_data.len() < header.get_downsampled_image_size(downsampling) {
+        return Err(DecompressError::Malformed);
+    }
+
     // guess next point of interest
     let mut next_point_of_interest = buffer.len() + 1024;
     let mut is_truncated = false;
-- 
2.43.0


From af0daf30059c5689a6da33da216ec2c1fcdae060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:15 +0000
Subject: [PATCH 09/14] fix: codes of large integers are written whole

unsigned_code handed up to 36 bits at once to put_bits, which can put at most
31 (32 when it is not at the start of a word): runs of some 12 million zeros
or more, and large values through the public coders, were written wrong
(with overflow checks: panicked).
---
 src/encode/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/encode/mod.rs b/src/encode/mod.rs
index e494bde..a20e891 100644
--- a/src/encode/mod.rs
+++ b/src/encode/mod.rs
@@ -18,7 +18,9 @@ pub fn unsigned_code(x: u32, stream: &mut impl bits::BitsWriter, pot: u32) -> io
         unsigned_code(x - (12 << (pot)), stream, new_pot)?;
     } else {
         // encode x / 2^pot in unary followed by x % 2^pot in binary
-        stream.put_bits((1 << (pot)) | (x & !(!0u32 << (pot))), y + 1 + pot)?;
+        // (in two steps: together they can take more than the 31 bits that are safe to put at once)
+        stream.put_bits(0, y)?;
+        stream.put_bits((1 << (pot)) | (x & !(!0u32 << (pot))), 1 + pot)?;
     }
 
     Ok(())
-- 
2.43.0


From cd1a4a8f929f6eb1bdd0a48fca22d671138201be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 10/14] fix: valid images no longer overflow 16- and 32-bit
 arithmetic while encoded

The linear filter added two neighbours in 16 bits, where the reference does it
in int, and the context statistics of the contextual encoder rely on unsigned
wrap-around: builds with overflow checks panicked on ordinary noisy images, and
strongly amplified colour channels were filtered otherwise than prescribed.
---
 src/encode/mod.rs     |  8 ++++----
 src/lifting/linear.rs | 19 +++++++++++--------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/encode/mod.rs b/src/encode/mod.rs
index a20e891..1b4ee66 100644
--- a/src/encode/mod.rs
+++ b/src/encode/mod.rs
@@ -81,7 +81,7 @@ pub fn square<T: num_traits::ops::wrapping::WrappingMul + Copy>(t: T) -> T::Outp
 }
 
 pub fn add_context(x: i16, w: i32, sum: &mut u32, sum2: &mut u32, count: &mut u32) {
-    let x = x.abs() as u32;
+    let x = i32::from(x).abs() as u32;
     *sum += x * w as u32;
     *sum2 += square(x.min(4096)) * w as u32;
     *count += w as u32;
@@ -194,7 +194,7 @@ pub unsafe fn get_context(image: &ImageChunkMut<'_, i16>, x: i32, y: i32) -> (u3
 
     (
         (sum * 16 + count / 2) / count,
-        (sum2 * 16 + count / 2) / count,
+        sum2.wrapping_mul(16).wrapping_add(count / 2) / count,
     )
 }
 
@@ -390,9 +390,9 @@ fn get_run_coder(context: (u32, u32), s: i32, q: i32, run_coder: u32, sum_sq: u3
             4
         } else if context.0 < 8 && context.1 < 4 {
             3
-        } else if 2 * sum_sq < 3 * context.1 + 48 {
+        } else if sum_sq.wrapping_mul(2) < 3 * context.1 + 48 {
             2
-        } else if 2 * sum_sq < 5 * context.1 + 32 {
+        } else if sum_sq.wrapping_mul(2) < 5 * context.1 + 32 {
             1
         } else {
             0
diff --git a/src/lifting/linear.rs b/src/lifting/linear.rs
index da486ed..600f616 100644
--- a/src/lifting/linear.rs
+++ b/src/lifting/linear.rs
@@ -31,15 +31,17 @@ unsafe fn horizontal_lifting_base(
 ) {
     let mut x = step * step_multiplier;
     while x < column.len() - step {
-        let a = *column.get_unchecked_mut(x - step);
-        let b = *column.get_unchecked_mut(x + step);
-        *column.get_unchecked_mut(x) += (a + b) / (divider * 2);
+        let a = i32::from(*column.get_unchecked_mut(x - step));
+        let b = i32::from(*column.get_unchecked_mut(x + step));
+        let c = column.get_unchecked_mut(x);
+        *c = c.wrapping_add(((a + b) / (i32::from(divider) * 2)) as i16);
         x += step * 2;
     }
 
     if x < column.len() {
-        *column.get_unchecked_mut(x) +=
-            (i32::from(*column.get_unchecked_mut(x - step)) / i32::from(divider)) as i16;
+        let a = i32::from(*column.get_unchecked_mut(x - step));
+        let c = column.get_unchecked_mut(x);
+        *c = c.wrapping_add((a / i32::from(divider)) as i16);
     }
 }
 
@@ -67,14 +69,15 @@ unsafe fn vertical_lifting_base(
 
     let mut x = 0;
     while x < middle_value.len() {
-        let c1 = *left.get_unchecked(0).get_unchecked(x);
+        let c1 = i32::from(*left.get_unchecked(0).get_unchecked(x));
         let c2 = if let Some(right_value) = right.first() {
-            *right_value.get_unchecked(x)
+            i32::from(*right_value.get_unchecked(x))
         } else {
             c1
         };
 
-        *middle_value.get_unchecked_mut(x) += (c1 + c2) / divider;
+        let c = middle_value.get_unchecked_mut(x);
+        *c = c.wrapping_add(((c1 + c2) / i32::from(divider)) as i16);
 
         x += step;
     }
-- 
2.43.0


From c60469f22e45eabb64948ab5c4b2f00e4e83b3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:02 +0000
Subject: [PATCH 11/14] fix: decoding damaged streams cannot overflow

Coefficients out of the 16-bit range, as damaged streams have, made the cubic
filter, the inverse colour transform and the entropy decoder panic in builds
with overflow checks; they now wrap there as in all other builds.
---
 src/color_transform/mod.rs |  8 +++++---
 src/encode/mod.rs          | 12 ++++++------
 src/lifting/cubic.rs       | 10 ++++++----
 3 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index 282d838..ca31bc7 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -400,15 +400,17 @@ impl ColorTransformProgram {
 
             for channel_factor in &channel_transform.channel_factors {
                 for i in 0..channel_size {
-                    transform_temp[i] += aux[channel_factor.src_channel * channel_size + i]
-                        * channel_factor.factor as i16;
+                    transform_temp[i] = transform_temp[i].wrapping_add(
+                        aux[channel_factor.src_channel * channel_size + i]
+                            .wrapping_mul(channel_factor.factor as i16),
+                    );
                 }
             }
 
             for i in 0..channel_size {
                 transform_temp[i] =
                     transform_temp[i].wrapping_div(channel_transform.denominator as i16);
-                aux[dest_base + i] -= transform_temp[i];
+                aux[dest_base + i] = aux[dest_base + i].wrapping_sub(transform_temp[i]);
             }
         }
 
diff --git a/src/encode/mod.rs b/src/encode/mod.rs
index 1b4ee66..d9c6101 100644
--- a/src/encode/mod.rs
+++ b/src/encode/mod.rs
@@ -49,9 +49,9 @@ pub fn interleaved_code(x: i32, stream: &mut impl bits::BitsWriter, pot: u32) ->
 pub fn interleaved_decode(stream: &mut impl bits::BitsReader, pot: u32) -> io::Result<i32> {
     let x = unsigned_decode(stream, pot)? as i32;
     if (x & 1) != 0 {
-        Ok((x + 1) / 2)
+        Ok(x.wrapping_add(1) / 2)
     } else {
-        Ok(-x / 2)
+        Ok(x.wrapping_neg() / 2)
     }
 }
 
@@ -72,7 +72,7 @@ pub fn signed_decode(stream: &mut impl bits::BitsReader, pot: u32) -> io::Result
     } else if stream.get_bits(1)? != 0 {
         Ok(x)
     } else {
-        Ok(-x)
+        Ok(x.wrapping_neg())
     }
 }
 
@@ -451,9 +451,9 @@ pub fn decode(
                     s = get_s(&mut *stream, sum_sq, context, is_chroma)?;
 
                     if scheme == Encoder::Fast {
-                        let t = s.abs() as u32;
+                        let t = s.wrapping_abs() as u32;
                         context = (
-                            ((context.0 * 15 + 7) >> 4) + t,
+                            (context.0.wrapping_mul(15).wrapping_add(7) >> 4).wrapping_add(t),
                             ((context.1 * 15 + 7) >> 4) + square(t.min(4096)),
                         );
                         run_coder = get_run_coder_fast(context, s, run_coder);
@@ -462,7 +462,7 @@ pub fn decode(
                     }
                 }
                 if run == 0 && s <= 0 {
-                    s -= 1; // s can't be zero, so shift negatives by 1
+                    s = s.wrapping_sub(1); // s can't be zero, so shift negatives by 1
                 }
                 run = -1;
             } else {
diff --git a/src/lifting/cubic.rs b/src/lifting/cubic.rs
index f6fc72b..9e2fc99 100644
--- a/src/lifting/cubic.rs
+++ b/src/lifting/cubic.rs
@@ -45,7 +45,8 @@ unsafe fn horizontal_lifting_base(
     if column.len() > 3 * step {
         while x < column.len() - 3 * step {
             let c3 = *column.get_unchecked(3 * step + x);
-            *column.get_unchecked_mut(x) += (cubic(c0, c1, c2, c3) / divider) as i16;
+            let c = column.get_unchecked_mut(x);
+            *c = c.wrapping_add((cubic(c0, c1, c2, c3) / divider) as i16);
             c0 = c1;
             c1 = c2;
             c2 = c3;
@@ -53,7 +54,8 @@ unsafe fn horizontal_lifting_base(
         }
     }
     while x < column.len() {
-        *column.get_unchecked_mut(x) += (cubic(c0, c1, c2, c2) / divider) as i16;
+        let c = column.get_unchecked_mut(x);
+        *c = c.wrapping_add((cubic(c0, c1, c2, c2) / divider) as i16);
         c0 = c1;
         c1 = c2;
         x += step * 2;
@@ -85,8 +87,8 @@ unsafe fn vertical_lifting_base(
             c2
         };
 
-        *chunks.middle.get_unchecked_mut(0).get_unchecked_mut(x) +=
-            (cubic(c0, c1, c2, c3) / divider) as i16;
+        let c = chunks.middle.get_unchecked_mut(0).get_unchecked_mut(x);
+        *c = c.wrapping_add((cubic(c0, c1, c2, c3) / divider) as i16);
         x += step;
     }
 }
-- 
2.43.0


From b741f6baa67ac883e9edb9ab5a7e43f83311cf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:50 +0000
Subject: [PATCH 12/14] fix: downsampling by more than the type's bits is the
 single-pixel image

Shifts by 64 or more panicked in builds with overflow checks and otherwise
wrapped around: a downsampling of 64 gave the full-size image.
---
 src/compress/mod.rs | 2 ++
 src/header/mod.rs   | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index d7eb48b..441c7e9 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -39,6 +39,7 @@ pub fn decompress_aux_data(
     test: bool,
     mut aux_data: &mut [i16],
 ) -> Result<usize, DecompressError> {
+    let downsampling = downsampling.min(header::DOWNSAMPLING_MAX);
     let payload_next_point_of_interest =
         decompress_image_data(&mut aux_data, &header, data, downsampling, test, &is_chroma)?;
 
@@ -266,6 +267,7 @@ pub fn decompress_image_data(
     test: bool,
     is_chroma: &[bool],
 ) -> Result<usize, DecompressError> {
+    let downsampling = downsampling.min(header::DOWNSAMPLING_MAX);
     let chroma_quality = header.get_chroma_quality();
 
     let width = header.width as usize;
diff --git a/src/header/mod.rs b/src/header/mod.rs
index 5feb63b..e73ee41 100644
--- a/src/header/mod.rs
+++ b/src/header/mod.rs
@@ -18,6 +18,9 @@ pub const QUALITY_MAX: u16 = 1024;
 pub const BLOCK_DEFAULT: u8 = 7;
 pub const BLOCK_MAX: u8 = 30;
 
+/// From here on the downsampled image is a single pixel, as width and height are below 2^30.
+pub(crate) const DOWNSAMPLING_MAX: usize = 30;
+
 const MAGIC: u32 = 'G' as u32 | (('F' as u32) << 8) | (('W' as u32) << 16) | (('X' as u32) << 24);
 
 #[derive(Clone, Copy, Debug, PartialEq, ToPrimitive, FromPrimitive)]
@@ -179,10 +182,12 @@ impl Header {
     }
 
     pub fn get_downsampled_width(&self, downsampling: usize) -> usize {
+        let downsampling = downsampling.min(DOWNSAMPLING_MAX);
         (self.width as usize + (1 << downsampling) - 1) >> downsampling
     }
 
     pub fn get_downsampled_height(&self, downsampling: usize) -> usize {
+        let downsampling = downsampling.min(DOWNSAMPLING_MAX);
         (self.height as usize + (1 << downsampling) - 1) >> downsampling
     }
 
-- 
2.43.0


From 4fbc6dfa6ac4b3d135a0907080bdd6bd811cd043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 13/14] fix: the header builder refuses a metadata size that is
 not stored back as given

---
 src/header/builder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index 63ef5b2..dcff05b 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -23,6 +23,12 @@ impl HeaderBuilder {
         let channels = check_range(u32::from(self.channels), 0, 1 << 16, "Channels")? as u16;
         let chroma_scale =
             check_range(u32::from(self.chroma_scale), 0, 1 << 8, "Chroma scale")? as u8;
+        // it is stored as a number of 32-bit words
+        if self.metadata_size % 4 != 0 {
+            return Err(HeaderErr::WrongValue(String::from(
+                "Metadata size must be a multiple of 4",
+            )));
+        }
         let bit_depth = 8;
         let channel_size = width as usize * height as usize;
 
-- 
2.43.0


From b8ee3eb5f40da667c91cb30299ec276924a3e92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:20 +0000
Subject: [PATCH 14/14] fix: the last transform of a channel decides whether it
 is chroma when decoding too

---
 src/color_transform/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index ca31bc7..8e18acf 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -238,8 +238,9 @@ impl ColorTransformProgram {
 
             if channel_is_chroma != 0 {
                 channel_transform_builder.set_chroma();
-                is_chroma[dest_channel] = true;
             }
+            // the last transform of a channel decides, as in encode()
+            is_chroma[dest_channel] = channel_is_chroma != 0;
 
             color_transform_program.add_channel_transform(channel_transform_builder.build());
         }
-- 
2.43.0

