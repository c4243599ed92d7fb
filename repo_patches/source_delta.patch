From af3bb4927d3bbb9fb1db6bb3b730f72ab2ba0e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 01/17] fix: bounds check swapped the row width and the stride

The callers pass (size, stride, height - 1, width), but the parameters
were declared as (size, width, height - 1, stride): with a stride larger
than a row, buffers that were too small were accepted and accessed past
their end.
---
 src/convert_image/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/convert_image/common.rs b/src/convert_image/common.rs
index fd09d25..bc34830 100644
--- a/src/convert_image/common.rs
+++ b/src/convert_image/common.rs
@@ -82,7 +82,7 @@ pub fn lower_multiple_of_pot(x: usize, p: usize) -> usize {
     x & !(p - 1)
 }
 
-pub fn out_of_bounds(size: usize, width: usize, height_minus_one: usize, stride: usize) -> bool {
+pub fn out_of_bounds(size: usize, stride: usize, height_minus_one: usize, width: usize) -> bool {
     width > size
         || (height_minus_one != 0
             && ((stride > usize::MAX / height_minus_one)
-- 
2.43.0


From 711789d737ae93562efdda75b71bdc8f5b32845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 02/17] fix: packed RGB bounds checks compared against pixels,
 not bytes

rgb_bgra, bgra_rgb and bgr_rgb passed the row width in pixels to
out_of_bounds, so buffers up to (depth - 1) * width bytes too short were
accepted and accessed past their end.
---
 src/convert_image/avx2.rs | 12 ++++++------
 src/convert_image/neon.rs | 12 ++++++------
 src/convert_image/sse2.rs |  4 ++--
 src/convert_image/x86.rs  | 12 ++++++------
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index b9503ba..7fcaf0a 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -2122,8 +2122,8 @@ pub fn rgb_bgra(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -2200,8 +2200,8 @@ pub fn bgra_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -2250,8 +2250,8 @@ pub fn bgr_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DEPTH * w)
     {
         return false;
     }
diff --git a/src/convert_image/neon.rs b/src/convert_image/neon.rs
index 9d6c820..fb7d2a5 100644
--- a/src/convert_image/neon.rs
+++ b/src/convert_image/neon.rs
@@ -873,8 +873,8 @@ pub fn bgr_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DEPTH * w)
     {
         return false;
     }
@@ -950,8 +950,8 @@ pub fn bgra_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -1028,8 +1028,8 @@ pub fn rgb_bgra(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index 9a0bfba..7a4616d 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -1613,8 +1613,8 @@ pub fn rgb_bgra(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
diff --git a/src/convert_image/x86.rs b/src/convert_image/x86.rs
index e9f0d89..12ee5c4 100644
--- a/src/convert_image/x86.rs
+++ b/src/convert_image/x86.rs
@@ -1462,8 +1462,8 @@ pub fn rgb_bgra(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -1511,8 +1511,8 @@ pub fn bgra_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -1559,8 +1559,8 @@ pub fn bgr_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DEPTH * w)
     {
         return false;
     }
-- 
2.43.0


From ea894f17622a0f4df7b4339f04c41d022728997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 03/17] fix: Bgr vector kernels read past the last pixel of the
 image

The 3-byte samplers loaded 32 (avx2) or 16 (sse2) bytes for the 24 or 12
that the kernel consumes, so the last group of the last row read up to 8
bytes past the end of an exactly sized source buffer.
---
 src/convert_image/avx2.rs | 40 ++++++++++++++++++++-------------------
 src/convert_image/sse2.rs |  4 +++-
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index 7fcaf0a..15b8094 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -24,29 +24,29 @@ use core::ptr::{read_unaligned as loadu, write_unaligned as storeu};
 #[cfg(target_arch = "x86")]
 use core::arch::x86::{
     __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_blend_epi32, _mm256_cmpeq_epi32,
-    _mm256_extracti128_si256, _mm256_madd_epi16, _mm256_mulhi_epu16, _mm256_or_si256,
-    _mm256_packs_epi32, _mm256_packus_epi16, _mm256_permute2x128_si256, _mm256_permute4x64_epi64,
-    _mm256_permutevar8x32_epi32, _mm256_set1_epi16, _mm256_set1_epi32, _mm256_set_epi16,
-    _mm256_set_epi32, _mm256_set_m128i, _mm256_setr_epi32, _mm256_setr_epi8, _mm256_setzero_si256,
-    _mm256_shuffle_epi8, _mm256_slli_epi16, _mm256_slli_epi32, _mm256_slli_si256,
-    _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16, _mm256_srli_epi32, _mm256_srli_si256,
-    _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi8, _mm256_unpacklo_epi16,
-    _mm256_unpacklo_epi32, _mm256_unpacklo_epi64, _mm256_unpacklo_epi8, _mm_prefetch,
-    _mm_setzero_si128, _MM_HINT_NTA,
+    _mm256_extracti128_si256, _mm256_madd_epi16, _mm256_maskload_epi32, _mm256_mulhi_epu16,
+    _mm256_or_si256, _mm256_packs_epi32, _mm256_packus_epi16, _mm256_permute2x128_si256,
+    _mm256_permute4x64_epi64, _mm256_permutevar8x32_epi32, _mm256_set1_epi16, _mm256_set1_epi32,
+    _mm256_set_epi16, _mm256_set_epi32, _mm256_set_m128i, _mm256_setr_epi32, _mm256_setr_epi8,
+    _mm256_setzero_si256, _mm256_shuffle_epi8, _mm256_slli_epi16, _mm256_slli_epi32,
+    _mm256_slli_si256, _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16, _mm256_srli_epi32,
+    _mm256_srli_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi8,
+    _mm256_unpacklo_epi16, _mm256_unpacklo_epi32, _mm256_unpacklo_epi64, _mm256_unpacklo_epi8,
+    _mm_prefetch, _mm_setzero_si128, _MM_HINT_NTA,
 };
 
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::{
     __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_blend_epi32, _mm256_cmpeq_epi32,
-    _mm256_extract_epi64, _mm256_extracti128_si256, _mm256_madd_epi16, _mm256_mulhi_epu16,
-    _mm256_or_si256, _mm256_packs_epi32, _mm256_packus_epi16, _mm256_permute2x128_si256,
-    _mm256_permute4x64_epi64, _mm256_permutevar8x32_epi32, _mm256_set1_epi16, _mm256_set1_epi32,
-    _mm256_set_epi32, _mm256_set_m128i, _mm256_setr_epi32, _mm256_setr_epi8, _mm256_setzero_si256,
-    _mm256_shuffle_epi8, _mm256_slli_epi16, _mm256_slli_epi32, _mm256_slli_si256,
-    _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16, _mm256_srli_epi32, _mm256_srli_si256,
-    _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi8, _mm256_unpacklo_epi16,
-    _mm256_unpacklo_epi32, _mm256_unpacklo_epi64, _mm256_unpacklo_epi8, _mm_prefetch,
-    _mm_setzero_si128, _MM_HINT_NTA,
+    _mm256_extract_epi64, _mm256_extracti128_si256, _mm256_madd_epi16, _mm256_maskload_epi32,
+    _mm256_mulhi_epu16, _mm256_or_si256, _mm256_packs_epi32, _mm256_packus_epi16,
+    _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_permutevar8x32_epi32,
+    _mm256_set1_epi16, _mm256_set1_epi32, _mm256_set_epi32, _mm256_set_m128i, _mm256_setr_epi32,
+    _mm256_setr_epi8, _mm256_setzero_si256, _mm256_shuffle_epi8, _mm256_slli_epi16,
+    _mm256_slli_epi32, _mm256_slli_si256, _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16,
+    _mm256_srli_epi32, _mm256_srli_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16,
+    _mm256_unpackhi_epi8, _mm256_unpacklo_epi16, _mm256_unpacklo_epi32, _mm256_unpacklo_epi64,
+    _mm256_unpacklo_epi8, _mm_prefetch, _mm_setzero_si128, _MM_HINT_NTA,
 };
 
 const LANE_COUNT: usize = 32;
@@ -324,7 +324,9 @@ unsafe fn pack_rgb_16x(image: *mut u8, red: __m256i, green: __m256i, blue: __m25
 #[inline(always)]
 unsafe fn unpack_ui8x3_i16x2_8x<const SAMPLER: usize>(image: *const u8) -> (__m256i, __m256i) {
     if SAMPLER == Sampler::Bgr as usize {
-        let line = loadu(image.cast());
+        // Only 24 bytes are part of the image, do not read past them
+        let line =
+            _mm256_maskload_epi32(image.cast(), _mm256_set_epi32(0, 0, -1, -1, -1, -1, -1, -1));
 
         let line = _mm256_permutevar8x32_epi32(line, align_dqword_2x96!());
         let line = _mm256_unpacklo_epi64(
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index 7a4616d..45b9c76 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -240,7 +240,9 @@ unsafe fn pack_i16x3_8x<const REVERSED: bool>(
 #[inline(always)]
 unsafe fn unpack_ui8x3_i16x2_4x<const SAMPLER: usize>(image: *const u8) -> (__m128i, __m128i) {
     if SAMPLER == Sampler::Bgr as usize {
-        let line = loadu(image.cast());
+        // Only 12 bytes are part of the image, do not read past them
+        let image: *const i32 = image.cast();
+        let line = _mm_set_epi32(0, loadu(image.add(2)), loadu(image.add(1)), loadu(image));
 
         let line = _mm_unpacklo_epi64(
             _mm_unpacklo_epi32(line, _mm_srli_si128(line, 3)),
-- 
2.43.0


From 1c25365feddaf8e63c7b98fedeceb65e5e1c943f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 04/17] fix: overflow in the single-buffer nv12 size check

A large user stride made stride * height overflow, which panics in debug
builds. Compare without multiplying, so that such a stride is reported as
not enough data in every build.
---
 src/convert_image/avx2.rs | 4 ++--
 src/convert_image/neon.rs | 2 +-
 src/convert_image/sse2.rs | 4 ++--
 src/convert_image/x86.rs  | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index 15b8094..e563274 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -1500,7 +1500,7 @@ fn nv12_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
     // to the image dimensions and computed strides
     let mut src_buffers = (src_buffers[0], src_buffers[last_src_plane]);
     if last_src_plane == 0 {
-        if src_buffers.0.len() < src_strides.0 * h {
+        if src_strides.0 > src_buffers.0.len() / h {
             return false;
         }
 
@@ -1786,7 +1786,7 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = &src_buffers[0];
-    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0 * h {
+    if last_dst_plane == 0 && dst_strides.0 > dst_buffers[last_dst_plane].len() / h {
         return false;
     }
 
diff --git a/src/convert_image/neon.rs b/src/convert_image/neon.rs
index fb7d2a5..623923b 100644
--- a/src/convert_image/neon.rs
+++ b/src/convert_image/neon.rs
@@ -456,7 +456,7 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = &src_buffers[0];
-    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0 * h {
+    if last_dst_plane == 0 && dst_strides.0 > dst_buffers[last_dst_plane].len() / h {
         return false;
     }
 
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index 45b9c76..596b3d2 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -955,7 +955,7 @@ fn nv12_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
     // to the image dimensions and computed strides
     let mut src_buffers = (src_buffers[0], src_buffers[last_src_plane]);
     if last_src_plane == 0 {
-        if src_buffers.0.len() < src_strides.0 * h {
+        if src_strides.0 > src_buffers.0.len() / h {
             return false;
         }
 
@@ -1233,7 +1233,7 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = &src_buffers[0];
-    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0 * h {
+    if last_dst_plane == 0 && dst_strides.0 > dst_buffers[last_dst_plane].len() / h {
         return false;
     }
 
diff --git a/src/convert_image/x86.rs b/src/convert_image/x86.rs
index 12ee5c4..5c1a324 100644
--- a/src/convert_image/x86.rs
+++ b/src/convert_image/x86.rs
@@ -1018,7 +1018,7 @@ fn nv12_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
     // to the image dimensions and computed strides
     let mut src_buffers = (src_buffers[0], src_buffers[last_src_plane]);
     if last_src_plane == 0 {
-        if src_buffers.0.len() < src_strides.0 * h {
+        if src_strides.0 > src_buffers.0.len() / h {
             return false;
         }
 
@@ -1328,7 +1328,7 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = &src_buffers[0];
-    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0 * h {
+    if last_dst_plane == 0 && dst_strides.0 > dst_buffers[last_dst_plane].len() / h {
         return false;
     }
 
-- 
2.43.0


From 76155f14c0431c43df5203e4cdda8757b41c3a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 05/17] fix: get_buffers_size wrapped sizes that do not fit in
 usize

With large dimensions or strides the products overflowed: a panic in debug
builds, and a size smaller than the one required in release builds.
---
 src/pixel_format.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/pixel_format.rs b/src/pixel_format.rs
index c88300d..c3ba311 100644
--- a/src/pixel_format.rs
+++ b/src/pixel_format.rs
@@ -217,10 +217,18 @@ pub fn get_buffers_size(
 
     let height_spec = HEIGHT_SPECS[pixel_format];
     if last_plane == 0 {
-        buffers_size[0] = ((stride[0] * get_plane_spec(height, height_spec, 0))
-            + (stride[1] * get_plane_spec(height, height_spec, 1)))
-            + ((stride[2] * get_plane_spec(height, height_spec, 2))
-                + (stride[3] * get_plane_spec(height, height_spec, 3)));
+        // Report a size that can not be represented instead of wrapping it
+        let mut total_size = 0_usize;
+        for i in 0..MAX_NUMBER_OF_PLANES {
+            total_size = match stride[i]
+                .checked_mul(get_plane_spec(height, height_spec, i))
+                .and_then(|size| total_size.checked_add(size))
+            {
+                Some(size) => size,
+                None => return false,
+            };
+        }
+        buffers_size[0] = total_size;
     } else {
         let buffer_array = &mut buffers_size[..=last_plane];
         let stride_array = &stride[..=last_plane];
@@ -228,7 +236,10 @@ pub fn get_buffers_size(
         for (buffer_size, (i, stride)) in
             buffer_array.iter_mut().zip(stride_array.iter().enumerate())
         {
-            *buffer_size = *stride * get_plane_spec(height, height_spec, i);
+            *buffer_size = match stride.checked_mul(get_plane_spec(height, height_spec, i)) {
+                Some(size) => size,
+                None => return false,
+            };
         }
     }
 
-- 
2.43.0


From 23bebf9505d6b9e9ec16c4f773118ad0cca3c8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 06/17] fix: get_buffers_size with a custom stride and a single
 buffer

A custom stride was taken as the distance between rows of the first
component only: too small a size was returned for nv12, which
convert_image then rejects, and too large a one for packed formats.
Strides beyond the planes of the format are now ignored, as
convert_image does.
---
 src/pixel_format.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pixel_format.rs b/src/pixel_format.rs
index c3ba311..7475f7e 100644
--- a/src/pixel_format.rs
+++ b/src/pixel_format.rs
@@ -208,7 +208,7 @@ pub fn get_buffers_size(
     let pixel_format = pixel_format as usize;
     let stride_spec = STRIDE_SPECS[pixel_format];
     for i in 0..MAX_NUMBER_OF_PLANES {
-        stride[i] = if i >= strides.len() || strides[i] == STRIDE_AUTO {
+        stride[i] = if i > last_plane || strides[i] == STRIDE_AUTO {
             get_plane_mask(stride_spec, i) * get_plane_spec(width, stride_spec, i)
         } else {
             strides[i]
@@ -217,6 +217,17 @@ pub fn get_buffers_size(
 
     let height_spec = HEIGHT_SPECS[pixel_format];
     if last_plane == 0 {
+        // The components share the only buffer, and a custom stride is the distance between two
+        // of its rows: each row of a packed format, each row of both luma and chroma for nv12
+        if strides[0] != STRIDE_AUTO {
+            let chroma_stride = if pixel_format == PixelFormat::Nv12 as usize {
+                strides[0]
+            } else {
+                0
+            };
+            *stride = [strides[0], chroma_stride, 0, 0];
+        }
+
         // Report a size that can not be represented instead of wrapping it
         let mut total_size = 0_usize;
         for i in 0..MAX_NUMBER_OF_PLANES {
-- 
2.43.0


From 836a02c05fb6bd075caa13edad42ab6d9cc010f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 07/17] fix: packed RGB kernels underflowed on strides smaller
 than a row

Such a stride is accepted when the buffers hold every addressed byte, but
the kernels computed stride - row width: a panic in debug builds, and, for
a stride of one byte, a read past the end of the source in release builds.
---
 src/convert_image/avx2.rs | 21 +++++++--------------
 src/convert_image/sse2.rs | 11 +++--------
 src/convert_image/x86.rs  | 20 ++++++--------------
 3 files changed, 16 insertions(+), 36 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index e563274..bae176e 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -1272,15 +1272,13 @@ unsafe fn bgra_to_rgb_avx2(
     let src_group = src_buffer.as_ptr();
     let dst_group = dst_buffer.as_mut_ptr();
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
     let limit_4x = lower_multiple_of_pot(width, LANE_COUNT);
     let limit = lower_multiple_of_pot(width, ITEMS_PER_ITERATION);
 
     for i in 0..height {
         let mut y = 0;
-        let mut src_offset = ((SRC_DEPTH * width) + src_stride_diff) * i;
-        let mut dst_offset = ((DST_DEPTH * width) + dst_stride_diff) * i;
+        let mut src_offset = src_stride * i;
+        let mut dst_offset = dst_stride * i;
 
         while y < limit_4x {
             let src_ptr: *const __m256i = src_group.add(src_offset).cast();
@@ -1356,8 +1354,8 @@ unsafe fn bgra_to_rgb_avx2(
                     *src_group.add((SRC_DEPTH * y) + src_offset);
             }
 
-            src_offset += (SRC_DEPTH * width) + src_stride_diff;
-            dst_offset += (DST_DEPTH * width) + dst_stride_diff;
+            src_offset += src_stride;
+            dst_offset += dst_stride;
         }
     }
 }
@@ -1384,12 +1382,10 @@ unsafe fn rgb_to_bgra_avx2(
     let src_group = src_buffer.as_ptr();
     let dst_group = dst_buffer.as_mut_ptr();
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
-    let mut src_offset = 0;
-    let mut dst_offset = 0;
+    for y in 0..height {
+        let mut src_offset = src_stride * y;
+        let mut dst_offset = dst_stride * y;
 
-    for _ in 0..height {
         _mm_prefetch(src_group.cast::<i8>(), _MM_HINT_NTA);
 
         for _ in (0..width).step_by(LANE_COUNT) {
@@ -1451,9 +1447,6 @@ unsafe fn rgb_to_bgra_avx2(
             src_offset += LANE_COUNT * SRC_DEPTH;
             dst_offset += LANE_COUNT * DST_DEPTH;
         }
-
-        src_offset += src_stride_diff;
-        dst_offset += dst_stride_diff;
     }
 }
 
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index 596b3d2..400981b 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -859,12 +859,10 @@ unsafe fn rgb_to_bgra_sse2(
     let src_group = src_buffer.as_ptr();
     let dst_group = dst_buffer.as_mut_ptr();
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
-    let mut src_offset = 0;
-    let mut dst_offset = 0;
+    for y in 0..height {
+        let mut src_offset = src_stride * y;
+        let mut dst_offset = dst_stride * y;
 
-    for _ in 0..height {
         for _ in (0..width).step_by(LANE_COUNT) {
             let src_ptr: *const __m128i = src_group.add(src_offset).cast();
             let dst_ptr: *mut __m128i = dst_group.add(dst_offset).cast();
@@ -906,9 +904,6 @@ unsafe fn rgb_to_bgra_sse2(
             src_offset += LANE_COUNT * SRC_DEPTH;
             dst_offset += LANE_COUNT * DST_DEPTH;
         }
-
-        src_offset += src_stride_diff;
-        dst_offset += dst_stride_diff;
     }
 }
 
diff --git a/src/convert_image/x86.rs b/src/convert_image/x86.rs
index 5c1a324..93a7eef 100644
--- a/src/convert_image/x86.rs
+++ b/src/convert_image/x86.rs
@@ -704,16 +704,16 @@ pub fn rgb_to_bgra(
     const DST_DEPTH: usize = 4;
     const ITEMS_PER_ITERATION: usize = 8;
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
+    // The rows overlap if the stride is smaller than a row: there is no slack in that case
+    let src_stride_diff = src_stride.saturating_sub(SRC_DEPTH * width);
 
     unsafe {
         let src_group = src_buffer.as_ptr();
         let dst_group = dst_buffer.as_mut_ptr();
-        let mut src_offset = 0;
-        let mut dst_offset = 0;
 
         for y in 0..height {
+            let mut src_offset = src_stride * y;
+            let mut dst_offset = dst_stride * y;
             let is_last_line = y == height - 1;
 
             // For single swap iteration, since the swap is done on 32 bits while the input is only
@@ -806,13 +806,7 @@ pub fn rgb_to_bgra(
                 *dst_group.add(dst_offset + 1) = *src_group.add(src_offset + 1);
                 *dst_group.add(dst_offset + 2) = *src_group.add(src_offset);
                 *dst_group.add(dst_offset + 3) = 0xFF;
-
-                src_offset += SRC_DEPTH;
-                dst_offset += DST_DEPTH;
             }
-
-            src_offset += src_stride_diff;
-            dst_offset += dst_stride_diff;
         }
     }
 }
@@ -915,8 +909,6 @@ pub fn bgra_to_rgb(
     const HIGH_MASK: u64 = 0xFFFF_FF00_0000_0000;
     const LOW_MASK: u64 = 0x0000_00FF_FFFF_0000;
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
     let limit_4x = lower_multiple_of_pot(width, ITEMS_PER_ITERATION_4X);
 
     unsafe {
@@ -925,8 +917,8 @@ pub fn bgra_to_rgb(
 
         for i in 0..height {
             let mut y = 0;
-            let mut src_offset = ((SRC_DEPTH * width) + src_stride_diff) * i;
-            let mut dst_offset = ((DST_DEPTH * width) + dst_stride_diff) * i;
+            let mut src_offset = src_stride * i;
+            let mut dst_offset = dst_stride * i;
 
             while y < limit_4x {
                 let src_ptr: *const u64 = src_group.add(src_offset).cast();
-- 
2.43.0


From 3ad7e340923add230c96adcc02640e2a9b79538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:59 +0000
Subject: [PATCH 08/17] fix: C API built stride slices larger than the address
 space

slice::from_raw_parts requires at most isize::MAX bytes, the slices had
isize::MAX elements of eight bytes each: undefined behaviour, and an abort
in debug builds. The array holds one stride for each plane.
---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d7071ab..d09c414 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1154,13 +1154,19 @@ pub mod c_api {
         let src_strides = if src_strides.is_null() {
             None
         } else {
-            Some(slice::from_raw_parts(src_strides, UNBOUNDED_C_ARRAY))
+            Some(slice::from_raw_parts(
+                src_strides,
+                src_format.num_planes as usize,
+            ))
         };
 
         let dst_strides = if dst_strides.is_null() {
             None
         } else {
-            Some(slice::from_raw_parts(dst_strides, UNBOUNDED_C_ARRAY))
+            Some(slice::from_raw_parts(
+                dst_strides,
+                dst_format.num_planes as usize,
+            ))
         };
 
         match convert_image(
-- 
2.43.0


From d5f065db73e12d4c5465eb116a5d8c5fec527656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 09/17] fix: C API read enums before checking that they are
 valid

The validity checks worked on fields already read as Rust enums, so the
optimizer could drop them and a release build went on with any value.
---
 src/lib.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d09c414..d20e851 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1012,6 +1012,16 @@ pub mod c_api {
         self::Result::Err
     }
 
+    // An enum read from C can hold any value: look at its representation, as it is undefined
+    // behaviour to read it (or to create a reference to it) before it is known to be valid
+    unsafe fn pixel_format_value(format: *const ImageFormat) -> u32 {
+        ptr::addr_of!((*format).pixel_format).cast::<u32>().read()
+    }
+
+    unsafe fn color_space_value(format: *const ImageFormat) -> u32 {
+        ptr::addr_of!((*format).color_space).cast::<u32>().read()
+    }
+
     #[no_mangle]
     pub extern "C" fn dcp_describe_acceleration() -> *mut c_char {
         let acc = describe_acceleration();
@@ -1045,12 +1055,18 @@ pub mod c_api {
         }
 
         // C enums are untrusted in the sense you can cast any value to an enum type
-        let format = &*format;
-        let pixel_format = format.pixel_format as u32;
+        let pixel_format = pixel_format_value(format);
         if !dispatcher::is_pixel_format_valid(pixel_format) {
             return set_error(error, ErrorKind::InvalidValue);
         }
 
+        // The color space does not contribute to the size and is not validated
+        let format = &ImageFormat {
+            pixel_format: (*format).pixel_format,
+            color_space: ColorSpace::Rgb,
+            num_planes: (*format).num_planes,
+        };
+
         // We assume there is enough data in the buffers
         // If the assumption will not hold undefined behaviour occurs (like in C)
         let num_planes = format.num_planes as usize;
@@ -1094,18 +1110,19 @@ pub mod c_api {
         }
 
         // C enums are untrusted in the sense you can cast any value to an enum type
-        let src_format: &ImageFormat = &*src_format;
-        let dst_format: &ImageFormat = &*dst_format;
-        let src_pixel_format = src_format.pixel_format as u32;
-        let dst_pixel_format = dst_format.pixel_format as u32;
+        let src_pixel_format = pixel_format_value(src_format);
+        let dst_pixel_format = pixel_format_value(dst_format);
         if !dispatcher::is_pixel_format_valid(src_pixel_format)
             || !dispatcher::is_pixel_format_valid(dst_pixel_format)
-            || !dispatcher::is_color_space_valid(src_format.color_space as u32)
-            || !dispatcher::is_color_space_valid(dst_format.color_space as u32)
+            || !dispatcher::is_color_space_valid(color_space_value(src_format))
+            || !dispatcher::is_color_space_valid(color_space_value(dst_format))
         {
             return set_error(error, ErrorKind::InvalidValue);
         }
 
+        let src_format: &ImageFormat = &*src_format;
+        let dst_format: &ImageFormat = &*dst_format;
+
         // We assume there is enough data in the buffers
         // If the assumption will not hold undefined behaviour occurs (like in C)
         if !are_planes_compatible(src_pixel_format, src_format.num_planes)
-- 
2.43.0


From 182830457519d620e947c8e2ccad4879e47a9cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 10/17] fix: C API materialised uninitialised references

The plane arrays were transmuted to arrays of references with the planes
beyond num_planes uninitialised, and shared references turned into
mutable ones. Use empty slices for the missing planes.
---
 src/lib.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d20e851..7cf9c52 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -989,15 +989,12 @@ pub mod c_api {
     use pixel_format::{are_planes_compatible, MAX_NUMBER_OF_PLANES};
     use std::cmp;
     use std::ffi::CString;
-    use std::mem::{transmute, MaybeUninit};
     use std::os::raw::c_char;
     use std::ptr;
     use std::slice;
 
     const UNBOUNDED_C_ARRAY: usize = isize::MAX as usize;
 
-    type PlaneArray<'a> = [MaybeUninit<&'a [u8]>; MAX_NUMBER_OF_PLANES];
-
     #[repr(C)]
     pub enum Result {
         Ok,
@@ -1134,8 +1131,7 @@ pub mod c_api {
         let src_buffers = {
             let src_num_planes = src_format.num_planes as usize;
             let num_planes = cmp::min(src_num_planes, MAX_NUMBER_OF_PLANES);
-            let mut src_buf: PlaneArray =
-                [MaybeUninit::uninit().assume_init(); MAX_NUMBER_OF_PLANES];
+            let mut src_buf: [&[u8]; MAX_NUMBER_OF_PLANES] = Default::default();
 
             for (plane_index, item) in src_buf.iter_mut().enumerate().take(num_planes) {
                 let ptr = *src_buffers.add(plane_index);
@@ -1143,17 +1139,16 @@ pub mod c_api {
                     return set_error(error, ErrorKind::InvalidValue);
                 }
 
-                *item = MaybeUninit::new(slice::from_raw_parts(ptr, UNBOUNDED_C_ARRAY));
+                *item = slice::from_raw_parts(ptr, UNBOUNDED_C_ARRAY);
             }
 
-            transmute::<PlaneArray, [&[u8]; MAX_NUMBER_OF_PLANES]>(src_buf)
+            src_buf
         };
 
         let mut dst_buffers = {
             let dst_num_planes = dst_format.num_planes as usize;
             let num_planes = cmp::min(dst_num_planes, MAX_NUMBER_OF_PLANES);
-            let mut dst_buf: PlaneArray =
-                [MaybeUninit::uninit().assume_init(); MAX_NUMBER_OF_PLANES];
+            let mut dst_buf: [&mut [u8]; MAX_NUMBER_OF_PLANES] = Default::default();
 
             for (plane_index, item) in dst_buf.iter_mut().enumerate().take(num_planes) {
                 let ptr = *dst_buffers.add(plane_index);
@@ -1161,10 +1156,10 @@ pub mod c_api {
                     return set_error(error, ErrorKind::InvalidValue);
                 }
 
-                *item = MaybeUninit::new(slice::from_raw_parts_mut(ptr, UNBOUNDED_C_ARRAY));
+                *item = slice::from_raw_parts_mut(ptr, UNBOUNDED_C_ARRAY);
             }
 
-            transmute::<PlaneArray, [&mut [u8]; MAX_NUMBER_OF_PLANES]>(dst_buf)
+            dst_buf
         };
 
         // Convert nullable type to Option
-- 
2.43.0


From c9988bc14d4d931e01b86c08f705b4596505392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 11/17] fix: avx2 selected without checking that the os
 supports it

The CPUID bit only tells what the processor can do: when the os does not
enable the AVX state, running an AVX2 kernel is an illegal instruction.
---
 src/cpu_info.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cpu_info.rs b/src/cpu_info.rs
index 0718968..85eba24 100644
--- a/src/cpu_info.rs
+++ b/src/cpu_info.rs
@@ -19,6 +19,8 @@ use core::arch::x86::__cpuid;
 use core::arch::x86_64::__cpuid;
 #[cfg(target_arch = "aarch64")]
 use std::arch::is_aarch64_feature_detected;
+#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+use std::arch::is_x86_feature_detected;
 
 #[derive(Debug)]
 pub enum CpuManufacturer {
@@ -88,6 +90,8 @@ pub fn get() -> (CpuManufacturer, InstructionSet) {
             // See https://en.wikipedia.org/wiki/CPUID for additional details
             match manufacturer {
                 CpuManufacturer::Amd => features[1] = 0,
+                // The cpu alone is not enough: the os must enable (and preserve) the wide registers
+                _ if !is_x86_feature_detected!("avx2") => features[1] = 0,
                 _ => cpuid(7, features),
             }
 
-- 
2.43.0


From 6202678536259375840ef2d90087e8fd0bcd7a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:49 +0000
Subject: [PATCH 12/17] fix: C header used size_t without declaring it

---
 include/dcv_color_primitives.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dcv_color_primitives.h b/include/dcv_color_primitives.h
index 103f011..2060946 100644
--- a/include/dcv_color_primitives.h
+++ b/include/dcv_color_primitives.h
@@ -246,6 +246,7 @@
 extern "C" {
 #endif
 
+#include <stddef.h>
 #include <stdint.h>
 
 /**
-- 
2.43.0


From 44dd6371549beb6973dcdbb929858c1aac7b4c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:10 +0000
Subject: [PATCH 13/17] fix: vector YCbCr to RGB blue wrapped around to 0 for
 bright saturated blue

---
 src/convert_image/avx2.rs | 67 ++++++++++++++++++++-------------------
 src/convert_image/sse2.rs | 48 ++++++++++++++--------------
 2 files changed, 59 insertions(+), 56 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index bae176e..aa408ae 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -23,30 +23,31 @@ use core::ptr::{read_unaligned as loadu, write_unaligned as storeu};
 
 #[cfg(target_arch = "x86")]
 use core::arch::x86::{
-    __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_blend_epi32, _mm256_cmpeq_epi32,
-    _mm256_extracti128_si256, _mm256_madd_epi16, _mm256_maskload_epi32, _mm256_mulhi_epu16,
-    _mm256_or_si256, _mm256_packs_epi32, _mm256_packus_epi16, _mm256_permute2x128_si256,
-    _mm256_permute4x64_epi64, _mm256_permutevar8x32_epi32, _mm256_set1_epi16, _mm256_set1_epi32,
-    _mm256_set_epi16, _mm256_set_epi32, _mm256_set_m128i, _mm256_setr_epi32, _mm256_setr_epi8,
-    _mm256_setzero_si256, _mm256_shuffle_epi8, _mm256_slli_epi16, _mm256_slli_epi32,
-    _mm256_slli_si256, _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16, _mm256_srli_epi32,
-    _mm256_srli_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi8,
-    _mm256_unpacklo_epi16, _mm256_unpacklo_epi32, _mm256_unpacklo_epi64, _mm256_unpacklo_epi8,
-    _mm_prefetch, _mm_setzero_si128, _MM_HINT_NTA,
+    __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_adds_epi16, _mm256_blend_epi32,
+    _mm256_cmpeq_epi32, _mm256_extracti128_si256, _mm256_madd_epi16, _mm256_maskload_epi32,
+    _mm256_mulhi_epu16, _mm256_or_si256, _mm256_packs_epi32, _mm256_packus_epi16,
+    _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_permutevar8x32_epi32,
+    _mm256_set1_epi16, _mm256_set1_epi32, _mm256_set_epi16, _mm256_set_epi32, _mm256_set_m128i,
+    _mm256_setr_epi32, _mm256_setr_epi8, _mm256_setzero_si256, _mm256_shuffle_epi8,
+    _mm256_slli_epi16, _mm256_slli_epi32, _mm256_slli_si256, _mm256_srai_epi16, _mm256_srai_epi32,
+    _mm256_srli_epi16, _mm256_srli_epi32, _mm256_srli_si256, _mm256_sub_epi16,
+    _mm256_unpackhi_epi16, _mm256_unpackhi_epi8, _mm256_unpacklo_epi16, _mm256_unpacklo_epi32,
+    _mm256_unpacklo_epi64, _mm256_unpacklo_epi8, _mm_prefetch, _mm_setzero_si128, _MM_HINT_NTA,
 };
 
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::{
-    __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_blend_epi32, _mm256_cmpeq_epi32,
-    _mm256_extract_epi64, _mm256_extracti128_si256, _mm256_madd_epi16, _mm256_maskload_epi32,
-    _mm256_mulhi_epu16, _mm256_or_si256, _mm256_packs_epi32, _mm256_packus_epi16,
-    _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_permutevar8x32_epi32,
-    _mm256_set1_epi16, _mm256_set1_epi32, _mm256_set_epi32, _mm256_set_m128i, _mm256_setr_epi32,
-    _mm256_setr_epi8, _mm256_setzero_si256, _mm256_shuffle_epi8, _mm256_slli_epi16,
-    _mm256_slli_epi32, _mm256_slli_si256, _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16,
-    _mm256_srli_epi32, _mm256_srli_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16,
-    _mm256_unpackhi_epi8, _mm256_unpacklo_epi16, _mm256_unpacklo_epi32, _mm256_unpacklo_epi64,
-    _mm256_unpacklo_epi8, _mm_prefetch, _mm_setzero_si128, _MM_HINT_NTA,
+    __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_adds_epi16, _mm256_blend_epi32,
+    _mm256_cmpeq_epi32, _mm256_extract_epi64, _mm256_extracti128_si256, _mm256_madd_epi16,
+    _mm256_maskload_epi32, _mm256_mulhi_epu16, _mm256_or_si256, _mm256_packs_epi32,
+    _mm256_packus_epi16, _mm256_permute2x128_si256, _mm256_permute4x64_epi64,
+    _mm256_permutevar8x32_epi32, _mm256_set1_epi16, _mm256_set1_epi32, _mm256_set_epi32,
+    _mm256_set_m128i, _mm256_setr_epi32, _mm256_setr_epi8, _mm256_setzero_si256,
+    _mm256_shuffle_epi8, _mm256_slli_epi16, _mm256_slli_epi32, _mm256_slli_si256,
+    _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16, _mm256_srli_epi32, _mm256_srli_si256,
+    _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi8, _mm256_unpacklo_epi16,
+    _mm256_unpacklo_epi32, _mm256_unpacklo_epi64, _mm256_unpacklo_epi8, _mm_prefetch,
+    _mm_setzero_si128, _MM_HINT_NTA,
 };
 
 const LANE_COUNT: usize = 32;
@@ -726,7 +727,7 @@ unsafe fn nv12_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y00), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm256_mulhi_epu16(
@@ -741,7 +742,7 @@ unsafe fn nv12_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y10), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -762,7 +763,7 @@ unsafe fn nv12_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y01), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm256_mulhi_epu16(
@@ -777,7 +778,7 @@ unsafe fn nv12_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y11), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -845,7 +846,7 @@ unsafe fn nv12_to_rgb_avx2<const COLORIMETRY: usize>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y00), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm256_mulhi_epu16(
@@ -860,7 +861,7 @@ unsafe fn nv12_to_rgb_avx2<const COLORIMETRY: usize>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y10), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -881,7 +882,7 @@ unsafe fn nv12_to_rgb_avx2<const COLORIMETRY: usize>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y01), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm256_mulhi_epu16(
@@ -896,7 +897,7 @@ unsafe fn nv12_to_rgb_avx2<const COLORIMETRY: usize>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y11), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -965,7 +966,7 @@ unsafe fn i420_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y00), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm256_mulhi_epu16(
@@ -980,7 +981,7 @@ unsafe fn i420_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y10), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -1001,7 +1002,7 @@ unsafe fn i420_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y01), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm256_mulhi_epu16(
@@ -1016,7 +1017,7 @@ unsafe fn i420_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y11), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -1104,7 +1105,7 @@ unsafe fn i444_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(x, y, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y_lo), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y_lo), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y_lo), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y_lo), FIX6),
             );
         }
     }
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index 400981b..9da4791 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -23,24 +23,26 @@ use core::ptr::{read_unaligned as loadu, write_unaligned as storeu};
 
 #[cfg(target_arch = "x86")]
 use core::arch::x86::{
-    __m128i, _mm_add_epi16, _mm_add_epi32, _mm_and_si128, _mm_andnot_si128, _mm_cmpeq_epi32,
-    _mm_cvtsi128_si32, _mm_madd_epi16, _mm_mulhi_epu16, _mm_or_si128, _mm_packs_epi32,
-    _mm_packus_epi16, _mm_set1_epi16, _mm_set1_epi32, _mm_set1_epi64x, _mm_set_epi32,
-    _mm_set_epi64x, _mm_setzero_si128, _mm_shuffle_epi32, _mm_shufflehi_epi16, _mm_shufflelo_epi16,
-    _mm_slli_epi16, _mm_slli_epi32, _mm_slli_si128, _mm_srai_epi16, _mm_srai_epi32, _mm_srli_epi16,
-    _mm_srli_epi32, _mm_srli_si128, _mm_sub_epi16, _mm_unpackhi_epi16, _mm_unpackhi_epi8,
-    _mm_unpacklo_epi16, _mm_unpacklo_epi32, _mm_unpacklo_epi64, _mm_unpacklo_epi8,
+    __m128i, _mm_add_epi16, _mm_add_epi32, _mm_adds_epi16, _mm_and_si128, _mm_andnot_si128,
+    _mm_cmpeq_epi32, _mm_cvtsi128_si32, _mm_madd_epi16, _mm_mulhi_epu16, _mm_or_si128,
+    _mm_packs_epi32, _mm_packus_epi16, _mm_set1_epi16, _mm_set1_epi32, _mm_set1_epi64x,
+    _mm_set_epi32, _mm_set_epi64x, _mm_setzero_si128, _mm_shuffle_epi32, _mm_shufflehi_epi16,
+    _mm_shufflelo_epi16, _mm_slli_epi16, _mm_slli_epi32, _mm_slli_si128, _mm_srai_epi16,
+    _mm_srai_epi32, _mm_srli_epi16, _mm_srli_epi32, _mm_srli_si128, _mm_sub_epi16,
+    _mm_unpackhi_epi16, _mm_unpackhi_epi8, _mm_unpacklo_epi16, _mm_unpacklo_epi32,
+    _mm_unpacklo_epi64, _mm_unpacklo_epi8,
 };
 
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::{
-    __m128i, _mm_add_epi16, _mm_add_epi32, _mm_and_si128, _mm_andnot_si128, _mm_cmpeq_epi32,
-    _mm_cvtsi128_si32, _mm_madd_epi16, _mm_mulhi_epu16, _mm_or_si128, _mm_packs_epi32,
-    _mm_packus_epi16, _mm_set1_epi16, _mm_set1_epi32, _mm_set1_epi64x, _mm_set_epi32,
-    _mm_set_epi64x, _mm_setzero_si128, _mm_shuffle_epi32, _mm_shufflehi_epi16, _mm_shufflelo_epi16,
-    _mm_slli_epi16, _mm_slli_epi32, _mm_slli_si128, _mm_srai_epi16, _mm_srai_epi32, _mm_srli_epi16,
-    _mm_srli_epi32, _mm_srli_si128, _mm_sub_epi16, _mm_unpackhi_epi16, _mm_unpackhi_epi8,
-    _mm_unpacklo_epi16, _mm_unpacklo_epi32, _mm_unpacklo_epi64, _mm_unpacklo_epi8,
+    __m128i, _mm_add_epi16, _mm_add_epi32, _mm_adds_epi16, _mm_and_si128, _mm_andnot_si128,
+    _mm_cmpeq_epi32, _mm_cvtsi128_si32, _mm_madd_epi16, _mm_mulhi_epu16, _mm_or_si128,
+    _mm_packs_epi32, _mm_packus_epi16, _mm_set1_epi16, _mm_set1_epi32, _mm_set1_epi64x,
+    _mm_set_epi32, _mm_set_epi64x, _mm_setzero_si128, _mm_shuffle_epi32, _mm_shufflehi_epi16,
+    _mm_shufflelo_epi16, _mm_slli_epi16, _mm_slli_epi32, _mm_slli_si128, _mm_srai_epi16,
+    _mm_srai_epi32, _mm_srli_epi16, _mm_srli_epi32, _mm_srli_si128, _mm_sub_epi16,
+    _mm_unpackhi_epi16, _mm_unpackhi_epi8, _mm_unpacklo_epi16, _mm_unpacklo_epi32,
+    _mm_unpacklo_epi64, _mm_unpacklo_epi8,
 };
 
 const LANE_COUNT: usize = 16;
@@ -644,7 +646,7 @@ unsafe fn nv12_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_lo, y00), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm_mulhi_epu16(_mm_unpackhi_epi8(zero!(), y0), xxym);
@@ -652,7 +654,7 @@ unsafe fn nv12_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_hi, y10), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -666,7 +668,7 @@ unsafe fn nv12_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_lo, y01), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm_mulhi_epu16(_mm_unpackhi_epi8(zero!(), y1), xxym);
@@ -674,7 +676,7 @@ unsafe fn nv12_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_hi, y11), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -736,7 +738,7 @@ unsafe fn i420_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_lo, y00), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm_mulhi_epu16(_mm_unpackhi_epi8(zero!(), y0), xxym);
@@ -744,7 +746,7 @@ unsafe fn i420_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_hi, y10), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -758,7 +760,7 @@ unsafe fn i420_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_lo, y01), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm_mulhi_epu16(_mm_unpackhi_epi8(zero!(), y1), xxym);
@@ -766,7 +768,7 @@ unsafe fn i420_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_hi, y11), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -834,7 +836,7 @@ unsafe fn i444_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(x, y, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_lo, y_lo), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_lo, y_lo), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y_lo), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y_lo), FIX6),
             );
         }
     }
-- 
2.43.0


From d5b840e1f0e7468826f69ad347113154356e4308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:16 +0000
Subject: [PATCH 14/17] fix: full range YCbCr to RGB took 127 as the neutral
 chroma value

The forward conversion centres chroma on 128, the inverse one on 127
(genweights.py halved C_MIN + C_MAX, which is odd in full range), so that
neutral grays came back tinted by up to two code values.
---
 genweights.py               |  2 +-
 src/convert_image/common.rs | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/genweights.py b/genweights.py
index 6717b2a..3d56092 100644
--- a/genweights.py
+++ b/genweights.py
@@ -202,7 +202,7 @@ if __name__ == '__main__':
         SUFFIX = ""
 
     Y_RANGE = Y_MAX - Y_MIN
-    C_HALF = (C_MAX + C_MIN) >> 1
+    C_HALF = 128
     C_RANGE = C_MAX - C_MIN
     Y_SCALE = (Y_RANGE / FULL_RANGE)
     C_SCALE = (C_RANGE / FULL_RANGE)
diff --git a/src/convert_image/common.rs b/src/convert_image/common.rs
index bc34830..7952cb3 100644
--- a/src/convert_image/common.rs
+++ b/src/convert_image/common.rs
@@ -152,9 +152,9 @@ pub const RCRM_601FR: i32 = 22970;
 pub const GCRM_601FR: i32 = 11700;
 pub const GCBM_601FR: i32 = 5638;
 pub const BCBM_601FR: i32 = 29032;
-pub const RN_601FR: i32 = 11363;
-pub const GP_601FR: i32 = 8633;
-pub const BN_601FR: i32 = 14370;
+pub const RN_601FR: i32 = 11453;
+pub const GP_601FR: i32 = 8701;
+pub const BN_601FR: i32 = 14484;
 
 // Coefficient table for 709 (full range)
 pub const XR_709FR: i32 = 13933;
@@ -169,9 +169,9 @@ pub const RCRM_709FR: i32 = 25802;
 pub const GCRM_709FR: i32 = 7670;
 pub const GCBM_709FR: i32 = 3069;
 pub const BCBM_709FR: i32 = 30402;
-pub const RN_709FR: i32 = 12768;
-pub const GP_709FR: i32 = 5359;
-pub const BN_709FR: i32 = 15050;
+pub const RN_709FR: i32 = 12869;
+pub const GP_709FR: i32 = 5401;
+pub const BN_709FR: i32 = 15169;
 
 // Other defines
 pub const Y_MIN: i32 = 16;
-- 
2.43.0


From a8ad5289ecf70d9a6770bc9b16f8136d9d3d645e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:42 +0000
Subject: [PATCH 15/17] fix: image conversion read and wrote out of bounds when
 usize has 32 bits

The length of a row of packed pixels was computed modulo 2^32, so that buffers that
are far too small passed the length checks.
---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 7cf9c52..7503215 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -953,6 +953,12 @@ pub fn convert_image(
     match converter {
         None => Err(ErrorKind::InvalidOperation),
         Some(image_converter) => {
+            // Packed pixels take up to four bytes. When usize has 32 bits, a row whose length
+            // cannot be represented does not fit in any buffer
+            if height != 0 && (width as usize).checked_mul(4).is_none() {
+                return Err(ErrorKind::NotEnoughData);
+            }
+
             if image_converter(
                 width,
                 height,
-- 
2.43.0


From 0640b0c85ade13f19184ba44a76b81d050267190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 16/17] fix: NEON conversions to I420 wrote the chroma planes
 through misaligned pointers

vst1_lane_u32 writes through a *mut u32, which has to be aligned; rows of the chroma
planes start anywhere.
---
 src/convert_image/neon.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/convert_image/neon.rs b/src/convert_image/neon.rs
index 623923b..ef8f318 100644
--- a/src/convert_image/neon.rs
+++ b/src/convert_image/neon.rs
@@ -20,6 +20,7 @@ use crate::convert_image::x86;
 use crate::{rgb_to_yuv_converter, yuv_to_rgb_fallback_converter};
 
 use core::arch::aarch64::*;
+use core::ptr::write_unaligned as storeu;
 
 type YWeights = (u16, u16, u16, u16);
 type UVWeights = (i16, i16, i16, i16, i16);
@@ -307,8 +308,9 @@ unsafe fn rgb_to_i420_8x<const SAMPLER: usize>(
     let u_then_v = vaddq_s16(u_then_v, vdupq_n_s16(UV_BIAS));
     let u_then_v = vreinterpret_u32_u8(vqmovn_u16(vreinterpretq_u16_s16(u_then_v)));
 
-    vst1_lane_u32(u.cast(), u_then_v, 0);
-    vst1_lane_u32(v.cast(), u_then_v, 1);
+    // The planes have no particular alignment
+    storeu(u.cast(), vget_lane_u32(u_then_v, 0));
+    storeu(v.cast(), vget_lane_u32(u_then_v, 1));
 }
 
 #[inline]
-- 
2.43.0


From 2fe73a0dc2d72df27e7870c1d7e2cd8468e15c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 17/17] fix: NEON conversions rounded chroma unlike the scalar
 code

A value exactly between two integers was rounded up by the vector code and down by
the scalar code, so that the result depended on the column of the pixel.
---
 src/convert_image/neon.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/convert_image/neon.rs b/src/convert_image/neon.rs
index ef8f318..22fb5df 100644
--- a/src/convert_image/neon.rs
+++ b/src/convert_image/neon.rs
@@ -151,8 +151,10 @@ unsafe fn rgb_to_s_8x(
     rgb_lo: (int16x4_t, int16x4_t, int16x4_t),
     uv_weights: (i16, i16, i16),
 ) -> int16x8_t {
-    let lo = vmull_n_s16(rgb_lo.0, uv_weights.0);
-    let hi = vmull_high_n_s16(rgb.0, uv_weights.0);
+    // Round halves down, as the scalar code does
+    let half = vdupq_n_s32(-1);
+    let lo = vmlal_n_s16(half, rgb_lo.0, uv_weights.0);
+    let hi = vmlal_high_n_s16(half, rgb.0, uv_weights.0);
     let lo = vmlal_n_s16(lo, rgb_lo.1, uv_weights.1);
     let hi = vmlal_high_n_s16(hi, rgb.1, uv_weights.1);
     let lo = vmlal_n_s16(lo, rgb_lo.2, uv_weights.2);
@@ -189,8 +191,10 @@ unsafe fn rgb_to_uv_8x(
     let g_lo = vreinterpretq_s16_u16(g);
     let b_lo = vreinterpretq_s16_u16(b);
 
-    let lo = vmull_high_n_s16(r_lo, uv_weights.0);
-    let hi = vmull_high_n_s16(r_lo, uv_weights.3);
+    // Round halves down, as the scalar code does
+    let half = vdupq_n_s32(-1);
+    let lo = vmlal_high_n_s16(half, r_lo, uv_weights.0);
+    let hi = vmlal_high_n_s16(half, r_lo, uv_weights.3);
     let lo = vmlal_high_n_s16(lo, g_lo, uv_weights.1);
     let hi = vmlal_high_n_s16(hi, g_lo, uv_weights.2);
     let lo = vmlal_high_n_s16(lo, b_lo, uv_weights.3);
-- 
2.43.0

