From 840f3313b4c8bc77128cc3136dabfa6587709ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 01/37] fix: AVX-512 VNNI fast-mode RGB to YUV 4:4:4/4:2:2
 added the bias twice

dpbusd accumulates into 32-bit lanes, but the bias was splatted as 16-bit
values, so both halves of each lane carried it.
---
 src/avx512bw/rgba_to_yuv_fast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avx512bw/rgba_to_yuv_fast.rs b/src/avx512bw/rgba_to_yuv_fast.rs
index 8715b4c..3ec1908 100644
--- a/src/avx512bw/rgba_to_yuv_fast.rs
+++ b/src/avx512bw/rgba_to_yuv_fast.rs
@@ -593,8 +593,8 @@ unsafe fn avx512_rgba_to_yuv_dot_rgba_impl_dot_impl<
         source_channels == YuvSourceChannels::Rgb || source_channels == YuvSourceChannels::Bgr;
 
     const A_E: u32 = 7;
-    let y_bias = _mm512_set1_epi16(range.bias_y as i16 * (1 << A_E) + (1 << (A_E - 1)) - 1);
-    let uv_bias = _mm512_set1_epi16(range.bias_uv as i16 * (1 << A_E) + (1 << (A_E - 1)) - 1);
+    let y_bias = _mm512_set1_epi32(range.bias_y as i32 * (1 << A_E) + (1 << (A_E - 1)) - 1);
+    let uv_bias = _mm512_set1_epi32(range.bias_uv as i32 * (1 << A_E) + (1 << (A_E - 1)) - 1);
 
     let y_weights = if is_rgbx {
         _mm512_set4r_epi8(
-- 
2.43.0


From bf768888ed7566a70ec87868b382dd2e92902b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 02/37] fix: AVX2 RGB to YUV 4:0:0 dropped pixels in row tails

The 16-pixel tail was unpacked and packed per 128-bit lane without the
matching lane permutes, so half of the samples were lost.
---
 src/avx2/rgb_to_y.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/avx2/rgb_to_y.rs b/src/avx2/rgb_to_y.rs
index f1d6cb3..9f6a69b 100644
--- a/src/avx2/rgb_to_y.rs
+++ b/src/avx2/rgb_to_y.rs
@@ -29,7 +29,7 @@
 
 use crate::avx2::avx2_utils::{
     _mm256_load_deinterleave_half_rgb_for_yuv, _mm256_load_deinterleave_rgb_for_yuv,
-    _mm256_sqrdmlah_dot,
+    _mm256_sqrdmlah_dot, avx2_pack_u16,
 };
 use crate::yuv_support::{CbCrForwardTransform, YuvChromaRange, YuvSourceChannels};
 #[cfg(target_arch = "x86")]
@@ -111,8 +111,11 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
             ORIGIN_CHANNELS,
         >(rgba.get_unchecked(px..).as_ptr());
 
+        let r_values = _mm256_permute4x64_epi64::<0x50>(r_values);
         let rl = _mm256_unpacklo_epi8(r_values, r_values);
+        let g_values = _mm256_permute4x64_epi64::<0x50>(g_values);
         let gl = _mm256_unpacklo_epi8(g_values, g_values);
+        let b_values = _mm256_permute4x64_epi64::<0x50>(b_values);
         let bl = _mm256_unpacklo_epi8(b_values, b_values);
 
         let r_low = _mm256_srli_epi16::<V_S>(rl);
@@ -127,7 +130,7 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
 
         let y_l = _mm256_srli_epi16::<A_E>(_mm256_add_epi16(y_bias, _mm256_add_epi16(yrgc, bhy)));
 
-        let y_yuv = _mm256_packus_epi16(y_l, _mm256_setzero_si256());
+        let y_yuv = avx2_pack_u16(y_l, _mm256_setzero_si256());
         _mm_storeu_si128(
             y_plane.get_unchecked_mut(cx..).as_mut_ptr() as *mut __m128i,
             _mm256_castsi256_si128(y_yuv),
@@ -151,8 +154,11 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
         let (r_values, g_values, b_values) =
             _mm256_load_deinterleave_half_rgb_for_yuv::<ORIGIN_CHANNELS>(src_buffer.as_ptr());
 
+        let r_values = _mm256_permute4x64_epi64::<0x50>(r_values);
         let rl = _mm256_unpacklo_epi8(r_values, r_values);
+        let g_values = _mm256_permute4x64_epi64::<0x50>(g_values);
         let gl = _mm256_unpacklo_epi8(g_values, g_values);
+        let b_values = _mm256_permute4x64_epi64::<0x50>(b_values);
         let bl = _mm256_unpacklo_epi8(b_values, b_values);
 
         let r_low = _mm256_srli_epi16::<V_S>(rl);
@@ -167,7 +173,7 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
 
         let y_l = _mm256_srli_epi16::<A_E>(_mm256_add_epi16(y_bias, _mm256_add_epi16(yrgc, bhy)));
 
-        let y_yuv = _mm256_packus_epi16(y_l, _mm256_setzero_si256());
+        let y_yuv = avx2_pack_u16(y_l, _mm256_setzero_si256());
         _mm_storeu_si128(
             y_buffer.as_mut_ptr() as *mut __m128i,
             _mm256_castsi256_si128(y_yuv),
-- 
2.43.0


From a5788c90ed732a825b6c47acb37fb42ba1cdc3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 03/37] fix: SMPTE 240M matrix had Kr and Kb swapped

H.273 gives Kr = 0.212, Kb = 0.087; the precomputed tables are regenerated
from the same values.
---
 src/built_coefficients.rs | 40 +++++++++++++++++++--------------------
 src/yuv_support.rs        |  4 ++--
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/built_coefficients.rs b/src/built_coefficients.rs
index fe98e8a..76826be 100644
--- a/src/built_coefficients.rs
+++ b/src/built_coefficients.rs
@@ -245,27 +245,27 @@ static FORWARD_BT2020_FULL_12_13PREC: CbCrForwardTransform<i32> = CbCrForwardTra
 };
 
 static FORWARD_SMPTE240_LIMITED_8_13PREC: CbCrForwardTransform<i32> = CbCrForwardTransform {
-    yr: 612,
+    yr: 1492,
     yg: 4932,
-    yb: 1492,
-    cb_r: -397,
-    cb_g: -3201,
+    yb: 612,
+    cb_r: -835,
+    cb_g: -2763,
     cb_b: 3598,
     cr_r: 3598,
-    cr_g: -2763,
-    cr_b: -835,
+    cr_g: -3201,
+    cr_b: -397,
 };
 
 static FORWARD_SMPTE240_FULL_8_13PREC: CbCrForwardTransform<i32> = CbCrForwardTransform {
-    yr: 713,
+    yr: 1737,
     yg: 5743,
-    yb: 1737,
-    cb_r: -452,
-    cb_g: -3644,
+    yb: 713,
+    cb_r: -951,
+    cb_g: -3145,
     cb_b: 4096,
     cr_r: 4096,
-    cr_g: -3145,
-    cr_b: -951,
+    cr_g: -3644,
+    cr_b: -452,
 };
 
 static FORWARD_BT470_FULL_8_13PREC: CbCrForwardTransform<i32> = CbCrForwardTransform {
@@ -416,18 +416,18 @@ static INVERSE_BT2020_FULL_8_PREC13: CbCrInverseTransform<i32> = CbCrInverseTran
 
 static INVERSE_SMPTE240_LIMITED_8_PREC13: CbCrInverseTransform<i32> = CbCrInverseTransform {
     y_coef: 9539,
-    cr_coef: 17029,
-    cb_coef: 14697,
-    g_coeff_1: 2113,
-    g_coeff_2: 4445,
+    cr_coef: 14697,
+    cb_coef: 17029,
+    g_coeff_1: 4445,
+    g_coeff_2: 2113,
 };
 
 static INVERSE_SMPTE240_FULL_8_PREC13: CbCrInverseTransform<i32> = CbCrInverseTransform {
     y_coef: 8192,
-    cr_coef: 14959,
-    cb_coef: 12911,
-    g_coeff_1: 1856,
-    g_coeff_2: 3904,
+    cr_coef: 12911,
+    cb_coef: 14959,
+    g_coeff_1: 3904,
+    g_coeff_2: 1856,
 };
 
 static INVERSE_BT470_LIMITED_8_PREC13: CbCrInverseTransform<i32> = CbCrInverseTransform {
diff --git a/src/yuv_support.rs b/src/yuv_support.rs
index 8c4f39d..723ea22 100644
--- a/src/yuv_support.rs
+++ b/src/yuv_support.rs
@@ -301,8 +301,8 @@ impl YuvStandardMatrix {
                 kb: 0.0593f32,
             },
             YuvStandardMatrix::Smpte240 => YuvBias {
-                kr: 0.087f32,
-                kb: 0.212f32,
+                kr: 0.212f32,
+                kb: 0.087f32,
             },
             YuvStandardMatrix::Bt470_6 => YuvBias {
                 kr: 0.2220f32,
-- 
2.43.0


From f0d5ba8d630d74879bfac2175fc600cbc4aef330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:11 +0000
Subject: [PATCH 04/37] fix: rounding of RGB to YUV weights overflowed luma of
 white and broke neutral chroma

---
 src/yuv_support.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/yuv_support.rs b/src/yuv_support.rs
index 723ea22..8be0e6c 100644
--- a/src/yuv_support.rs
+++ b/src/yuv_support.rs
@@ -155,16 +155,26 @@ pub trait ToIntegerTransform {
 impl ToIntegerTransform for CbCrForwardTransform<f32> {
     fn to_integers(&self, precision: u32) -> CbCrForwardTransform<i32> {
         let scale = (1 << precision) as f32;
+        let yr = (self.yr * scale).round() as i32;
+        let yb = (self.yb * scale).round() as i32;
+        let cb_r = (self.cb_r * scale).round() as i32;
+        let cb_b = (self.cb_b * scale).round() as i32;
+        let cr_r = (self.cr_r * scale).round() as i32;
+        let cr_b = (self.cr_b * scale).round() as i32;
+        // Rounding each weight on its own lets a row of the matrix sum up to more than its ideal
+        // value, and then white overflows luma, and grey is not neutral anymore.
+        // Green is the largest weight, so it takes the rounding error of the whole row.
+        let y_sum = ((self.yr + self.yg + self.yb) * scale).round() as i32;
         CbCrForwardTransform::<i32> {
-            yr: (self.yr * scale).round() as i32,
-            yg: (self.yg * scale).round() as i32,
-            yb: (self.yb * scale).round() as i32,
-            cb_r: (self.cb_r * scale).round() as i32,
-            cb_g: (self.cb_g * scale).round() as i32,
-            cb_b: (self.cb_b * scale).round() as i32,
-            cr_r: (self.cr_r * scale).round() as i32,
-            cr_g: (self.cr_g * scale).round() as i32,
-            cr_b: (self.cr_b * scale).round() as i32,
+            yr,
+            yg: y_sum - yr - yb,
+            yb,
+            cb_r,
+            cb_g: -(cb_r + cb_b),
+            cb_b,
+            cr_r,
+            cr_g: -(cr_r + cr_b),
+            cr_b,
         }
     }
 }
-- 
2.43.0


From c171f6b4e8a13d6c2caeda545eec9ce9c77be1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:11 +0000
Subject: [PATCH 05/37] fix: high bit depth RGB to YUV 4:2:0 took last luma of
 the 2x2 block from a wrong pixel

---
 src/rgb16_to_yuv_p16.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rgb16_to_yuv_p16.rs b/src/rgb16_to_yuv_p16.rs
index ccd974d..c9a618e 100644
--- a/src/rgb16_to_yuv_p16.rs
+++ b/src/rgb16_to_yuv_p16.rs
@@ -642,7 +642,7 @@ fn rgbx_to_yuv_ant<
             let r11 = rgba11[src_chans.get_r_channel_offset()] as i32;
             let g11 = rgba11[src_chans.get_g_channel_offset()] as i32;
             let b11 = rgba11[src_chans.get_b_channel_offset()] as i32;
-            let y_11 = (r01 * transform.yr + g01 * transform.yg + b01 * transform.yb + bias_y)
+            let y_11 = (r11 * transform.yr + g11 * transform.yg + b11 * transform.yb + bias_y)
                 >> PRECISION;
             y_dst1[1] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_11);
 
-- 
2.43.0


From c465eb5618ad8d67f693439ed98f5d5d20153aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:11 +0000
Subject: [PATCH 06/37] fix: high bit depth RGB to bi-planar YUV 4:2:0 wrote
 last luma of odd rows at row start

---
 src/rgb_to_nv_p16.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rgb_to_nv_p16.rs b/src/rgb_to_nv_p16.rs
index dfb28b7..c91c9c2 100644
--- a/src/rgb_to_nv_p16.rs
+++ b/src/rgb_to_nv_p16.rs
@@ -189,6 +189,7 @@ where
             let rgba1 = &rgba1[0..channels];
             let uv_dst = uv_dst.chunks_exact_mut(2).last().unwrap();
             let y_dst0 = y_dst0.chunks_exact_mut(2).into_remainder();
+            let y_dst1 = y_dst1.chunks_exact_mut(2).into_remainder();
 
             let r0 = rgba0[src_chans.get_r_channel_offset()] as i32;
             let g0 = rgba0[src_chans.get_g_channel_offset()] as i32;
-- 
2.43.0


From 721279adb6f1f8acd48cf394224916a949141d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:11 +0000
Subject: [PATCH 07/37] fix: rgb16_to_p216 and rgba16_to_p216 worked with 4:2:0
 instead of 4:2:2

---
 src/rgb_to_nv_p16.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rgb_to_nv_p16.rs b/src/rgb_to_nv_p16.rs
index c91c9c2..2241d99 100644
--- a/src/rgb_to_nv_p16.rs
+++ b/src/rgb_to_nv_p16.rs
@@ -612,7 +612,7 @@ d_cnv!(
 d_cnv!(
     rgba16_to_p216,
     YuvSourceChannels::Rgba,
-    YuvChromaSubsampling::Yuv420,
+    YuvChromaSubsampling::Yuv422,
     "P216",
     "RGBA",
     16,
@@ -621,7 +621,7 @@ d_cnv!(
 d_cnv!(
     rgb16_to_p216,
     YuvSourceChannels::Rgb,
-    YuvChromaSubsampling::Yuv420,
+    YuvChromaSubsampling::Yuv422,
     "P216",
     "RGB",
     16,
-- 
2.43.0


From a3281ed5df911d4d255bad44b62ba5cb2ee29fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:31 +0000
Subject: [PATCH 08/37] fix: AVX-512 high bit depth RGB to YUV never stored
 chroma of row tails

---
 src/avx512bw/rgb_to_yuv_p16.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/avx512bw/rgb_to_yuv_p16.rs b/src/avx512bw/rgb_to_yuv_p16.rs
index 84adfe3..9ea1092 100644
--- a/src/avx512bw/rgb_to_yuv_p16.rs
+++ b/src/avx512bw/rgb_to_yuv_p16.rs
@@ -307,8 +307,6 @@ unsafe fn avx_rgba_to_yuv_impl<
         let diff = width - cx;
         assert!(diff <= 32);
         let mut src_buffer: [u16; 32 * 4] = [0; 32 * 4];
-        let mut u_buffer: [u16; 32] = [0; 32];
-        let mut v_buffer: [u16; 32] = [0; 32];
 
         // Replicate last item to one more position for subsampling
         if chroma_subsampling != YuvChromaSubsampling::Yuv444 && diff % 2 != 0 {
@@ -378,8 +376,16 @@ unsafe fn avx_rgba_to_yuv_impl<
                 cr_vl = _mm512_shuffle_epi8(cr_vl, big_endian_shuffle_flag);
             }
 
-            _mm512_mask_storeu_epi16(u_buffer.as_mut_ptr() as *mut _, mask, cb_vl);
-            _mm512_mask_storeu_epi16(v_buffer.as_mut_ptr() as *mut _, mask, cr_vl);
+            _mm512_mask_storeu_epi16(
+                u_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                mask,
+                cb_vl,
+            );
+            _mm512_mask_storeu_epi16(
+                v_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                mask,
+                cr_vl,
+            );
         } else {
             let r_values = _mm512_havg_epi16_epi32(r_values);
             let g_values = _mm512_havg_epi16_epi32(g_values);
@@ -408,8 +414,16 @@ unsafe fn avx_rgba_to_yuv_impl<
 
             let halved_mask = 0xffff_ffffu32 >> (32 - diff.div_ceil(2) as u32);
 
-            _mm512_mask_storeu_epi16(u_buffer.as_mut_ptr() as *mut _, halved_mask, cb_s);
-            _mm512_mask_storeu_epi16(v_buffer.as_mut_ptr() as *mut _, halved_mask, cr_s);
+            _mm512_mask_storeu_epi16(
+                u_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                halved_mask,
+                cb_s,
+            );
+            _mm512_mask_storeu_epi16(
+                v_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                halved_mask,
+                cr_s,
+            );
         }
 
         cx += diff;
-- 
2.43.0


From dcf3dd03e9cfe8b7d4c19547f702162f31dd91f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:38 +0000
Subject: [PATCH 09/37] fix: big endian 4:2:2 YUVA to RGBA10/12/14 was read as
 little endian

---
 src/yuv_p16_rgba16_alpha.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yuv_p16_rgba16_alpha.rs b/src/yuv_p16_rgba16_alpha.rs
index 936bfaf..29dee22 100644
--- a/src/yuv_p16_rgba16_alpha.rs
+++ b/src/yuv_p16_rgba16_alpha.rs
@@ -521,7 +521,7 @@ d_cnv!(
     i210_alpha_be_to_rgba10,
     YuvSourceChannels::Rgba,
     YuvChromaSubsampling::Yuv422,
-    YuvEndianness::LittleEndian,
+    YuvEndianness::BigEndian,
     "I210ABE",
     "RGBA",
     "rgba",
@@ -607,7 +607,7 @@ d_cnv!(
     i212_be_alpha_to_rgba12,
     YuvSourceChannels::Rgba,
     YuvChromaSubsampling::Yuv422,
-    YuvEndianness::LittleEndian,
+    YuvEndianness::BigEndian,
     "I212ABE",
     "RGBA",
     "rgba",
@@ -628,7 +628,7 @@ d_cnv!(
     i214_be_alpha_to_rgba14,
     YuvSourceChannels::Rgba,
     YuvChromaSubsampling::Yuv422,
-    YuvEndianness::LittleEndian,
+    YuvEndianness::BigEndian,
     "I214ABE",
     "RGBA",
     "rgba",
-- 
2.43.0


From c44a94add008006d4d465c8ef11ceac4ba13d9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 10/37] fix: rgba12_to_i212_be worked with 4:2:0 instead of
 4:2:2

---
 src/rgb16_to_yuv_p16.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rgb16_to_yuv_p16.rs b/src/rgb16_to_yuv_p16.rs
index c9a618e..afd41fe 100644
--- a/src/rgb16_to_yuv_p16.rs
+++ b/src/rgb16_to_yuv_p16.rs
@@ -1069,7 +1069,7 @@ d_cvn!(
 d_cvn!(
     rgba12_to_i212_be,
     YuvSourceChannels::Rgba,
-    YuvChromaSubsampling::Yuv420,
+    YuvChromaSubsampling::Yuv422,
     "I212",
     "RGBA12",
     "rgba12",
-- 
2.43.0


From dc342b09c15960d237943a97e1a3923f3eac02d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 11/37] fix: big endian 10/12-bit YUV to BGRA wrote RGBA

---
 src/yuv_p10_rgba.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yuv_p10_rgba.rs b/src/yuv_p10_rgba.rs
index ce4bed4..7e4f04a 100644
--- a/src/yuv_p10_rgba.rs
+++ b/src/yuv_p10_rgba.rs
@@ -542,7 +542,7 @@ build_cnv!(
 build_cnv!(
     i010_be_to_bgra,
     YuvChromaSubsampling::Yuv420,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     10,
     "YUV 420 10-bit",
     "BGRA",
@@ -630,7 +630,7 @@ build_cnv!(
 build_cnv!(
     i210_be_to_bgra,
     YuvChromaSubsampling::Yuv422,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     10,
     "YUV 420 10-bit",
     "BGRA",
@@ -718,7 +718,7 @@ build_cnv!(
 build_cnv!(
     i012_be_to_bgra,
     YuvChromaSubsampling::Yuv420,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     12,
     "YUV 420 12-bit",
     "BGRA",
@@ -806,7 +806,7 @@ build_cnv!(
 build_cnv!(
     i212_be_to_bgra,
     YuvChromaSubsampling::Yuv422,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     12,
     "YUV 420 12-bit",
     "BGRA",
-- 
2.43.0


From f1c0339e60ce53a5fbc0f2f132a41b1ee983c1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 12/37] fix: SSE high bit depth RGB to YUV 4:2:0 mixed green of
 the first row into the second

---
 src/sse/rgb_to_yuv_p16_420.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/rgb_to_yuv_p16_420.rs b/src/sse/rgb_to_yuv_p16_420.rs
index a1310b7..244af76 100644
--- a/src/sse/rgb_to_yuv_p16_420.rs
+++ b/src/sse/rgb_to_yuv_p16_420.rs
@@ -126,7 +126,7 @@ unsafe fn sse_rgba_to_yuv_impl<
         let mut y0_vl =
             _mm_affine_v_dot::<PRECISION>(y_bias, r_g_lo0, r_g_hi0, b_lo0, b_hi0, v_yr_yg, v_yb);
 
-        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values0);
+        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values1);
         let b_hi1 = _mm_unpackhi_epi16(b_values1, zeros);
         let b_lo1 = _mm_unpacklo_epi16(b_values1, zeros);
 
@@ -240,7 +240,7 @@ unsafe fn sse_rgba_to_yuv_impl<
         let mut y0_vl =
             _mm_affine_v_dot::<PRECISION>(y_bias, r_g_lo0, r_g_hi0, b_lo0, b_hi0, v_yr_yg, v_yb);
 
-        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values0);
+        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values1);
         let b_hi1 = _mm_unpackhi_epi16(b_values1, zeros);
         let b_lo1 = _mm_unpacklo_epi16(b_values1, zeros);
 
-- 
2.43.0


From e11f0064a1404d5eb3f8768e5b8a6f48e154f77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 13/37] fix: SSE 10/12-bit YUVA to RGBA wrote 32 bytes past the
 pixels it converted

---
 src/sse/yuv_p16_to_rgb8_alpha.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sse/yuv_p16_to_rgb8_alpha.rs b/src/sse/yuv_p16_to_rgb8_alpha.rs
index 8dec168..6ef5e18 100644
--- a/src/sse/yuv_p16_to_rgb8_alpha.rs
+++ b/src/sse/yuv_p16_to_rgb8_alpha.rs
@@ -33,7 +33,9 @@ use std::arch::x86::*;
 use std::arch::x86_64::*;
 
 use crate::internals::ProcessedOffset;
-use crate::sse::{_mm_from_msb_epi16, _mm_store_interleave_rgb_for_yuv, _mm_store_shr_epi16_epi8};
+use crate::sse::{
+    _mm_from_msb_epi16, _mm_store_interleave_half_rgb_for_yuv, _mm_store_shr_epi16_epi8,
+};
 use crate::yuv_support::{
     CbCrInverseTransform, YuvBytesPacking, YuvChromaRange, YuvChromaSubsampling, YuvEndianness,
     YuvSourceChannels,
@@ -217,7 +219,7 @@ unsafe fn sse_yuv_p16_to_rgba8_alpha_row_impl<
             _mm_setzero_si128(),
         );
 
-        _mm_store_interleave_rgb_for_yuv::<DESTINATION_CHANNELS>(
+        _mm_store_interleave_half_rgb_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
             r_values,
             g_values,
-- 
2.43.0


From 5f497804af40ecdd42338f8342c14b96bc3ea9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 14/37] fix: AVX2 10/12-bit YUVA to RGBA repeated alpha of the
 first 16 pixels

---
 src/avx2/yuv_p16_to_rgb16_alpha.rs | 3 ++-
 src/avx2/yuv_p16_to_rgb8_alpha.rs  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb16_alpha.rs b/src/avx2/yuv_p16_to_rgb16_alpha.rs
index 4b25b4b..5159f9c 100644
--- a/src/avx2/yuv_p16_to_rgb16_alpha.rs
+++ b/src/avx2/yuv_p16_to_rgb16_alpha.rs
@@ -270,7 +270,8 @@ unsafe fn avx_yuv_p16_to_rgba_row_alpha_impl<
         let b_values1 = _mm256_min_epu16(zb1, v_max_colors);
 
         let a_values0 = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
-        let a_values1 = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        let a_values1 =
+            _mm256_loadu_si256(a_plane.get_unchecked(cx + 16..).as_ptr() as *const __m256i);
 
         _mm256_store_interleave_rgb16_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
diff --git a/src/avx2/yuv_p16_to_rgb8_alpha.rs b/src/avx2/yuv_p16_to_rgb8_alpha.rs
index 6bdbc80..9b8e83c 100644
--- a/src/avx2/yuv_p16_to_rgb8_alpha.rs
+++ b/src/avx2/yuv_p16_to_rgb8_alpha.rs
@@ -258,7 +258,7 @@ unsafe fn avx_yuv_p16_to_rgba8_row_alpha_impl<
                 a_plane.get_unchecked(cx..).as_ptr() as *const __m256i,
             )),
             _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(_mm256_loadu_si256(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m256i,
+                a_plane.get_unchecked(cx + 16..).as_ptr() as *const __m256i,
             )),
         );
 
-- 
2.43.0


From 587424b822ea9967de64626d86bc63543607e9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 15/37] fix: alpha plane of big endian YUVA was read as little
 endian

---
 src/avx2/yuv_p16_to_rgb16_alpha.rs  | 20 ++++++++++++---
 src/avx2/yuv_p16_to_rgb8_alpha.rs   | 32 ++++++++++++++---------
 src/neon/yuv_p16_to_rgba16_alpha.rs | 40 +++++++++++++++++++++++------
 src/sse/yuv_p16_to_rgb16_alpha.rs   |  7 ++++-
 src/sse/yuv_p16_to_rgb8_alpha.rs    | 10 +++++---
 src/yuv_p16_rgba16_alpha.rs         | 12 ++++++---
 src/yuv_p16_rgba_alpha.rs           | 16 +++++++++---
 7 files changed, 102 insertions(+), 35 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb16_alpha.rs b/src/avx2/yuv_p16_to_rgb16_alpha.rs
index 5159f9c..7e9f70a 100644
--- a/src/avx2/yuv_p16_to_rgb16_alpha.rs
+++ b/src/avx2/yuv_p16_to_rgb16_alpha.rs
@@ -269,9 +269,17 @@ unsafe fn avx_yuv_p16_to_rgba_row_alpha_impl<
         let g_values1 = _mm256_min_epu16(zg1, v_max_colors);
         let b_values1 = _mm256_min_epu16(zb1, v_max_colors);
 
-        let a_values0 = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
-        let a_values1 =
+        #[allow(unused_mut)]
+        let mut a_values0 =
+            _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        #[allow(unused_mut)]
+        let mut a_values1 =
             _mm256_loadu_si256(a_plane.get_unchecked(cx + 16..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_values0 = _mm256_shuffle_epi8(a_values0, big_endian_shuffle_flag);
+            a_values1 = _mm256_shuffle_epi8(a_values1, big_endian_shuffle_flag);
+        }
 
         _mm256_store_interleave_rgb16_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
@@ -380,7 +388,13 @@ unsafe fn avx_yuv_p16_to_rgba_row_alpha_impl<
         let g_values = _mm256_min_epu16(_mm256_max_epi16(g_vals, zeros), v_max_colors);
         let b_values = _mm256_min_epu16(_mm256_max_epi16(b_vals, zeros), v_max_colors);
 
-        let a_values = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        #[allow(unused_mut)]
+        let mut a_values =
+            _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_values = _mm256_shuffle_epi8(a_values, big_endian_shuffle_flag);
+        }
 
         _mm256_store_interleave_rgb16_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
diff --git a/src/avx2/yuv_p16_to_rgb8_alpha.rs b/src/avx2/yuv_p16_to_rgb8_alpha.rs
index 9b8e83c..961cc74 100644
--- a/src/avx2/yuv_p16_to_rgb8_alpha.rs
+++ b/src/avx2/yuv_p16_to_rgb8_alpha.rs
@@ -253,13 +253,20 @@ unsafe fn avx_yuv_p16_to_rgba8_row_alpha_impl<
         let b_vals1 = _mm256_add_epi16(y_vals1, bvl1);
         let g_vals1 = _mm256_add_epi16(_mm256_add_epi16(y_vals1, gvl10), gvl11);
 
+        #[allow(unused_mut)]
+        let mut a_vals0 =
+            _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        #[allow(unused_mut)]
+        let mut a_vals1 =
+            _mm256_loadu_si256(a_plane.get_unchecked(cx + 16..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_vals0 = _mm256_shuffle_epi8(a_vals0, big_endian_shuffle_flag);
+            a_vals1 = _mm256_shuffle_epi8(a_vals1, big_endian_shuffle_flag);
+        }
         let a_values0 = avx2_pack_u16(
-            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(_mm256_loadu_si256(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m256i,
-            )),
-            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(_mm256_loadu_si256(
-                a_plane.get_unchecked(cx + 16..).as_ptr() as *const __m256i,
-            )),
+            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(a_vals0),
+            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(a_vals1),
         );
 
         let r_values0 = avx2_pack_u16(
@@ -379,12 +386,13 @@ unsafe fn avx_yuv_p16_to_rgba8_row_alpha_impl<
         let g_values = avx2_pack_u16(_mm256_store_shr_epi16_epi8::<BIT_DEPTH>(g_vals), zeros);
         let b_values = avx2_pack_u16(_mm256_store_shr_epi16_epi8::<BIT_DEPTH>(b_vals), zeros);
 
-        let a_values = avx2_pack_u16(
-            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(_mm256_loadu_si256(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m256i,
-            )),
-            zeros,
-        );
+        #[allow(unused_mut)]
+        let mut a_vals = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_vals = _mm256_shuffle_epi8(a_vals, big_endian_shuffle_flag);
+        }
+        let a_values = avx2_pack_u16(_mm256_store_shr_epi16_epi8::<BIT_DEPTH>(a_vals), zeros);
 
         _mm256_store_interleave_rgb_half_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
diff --git a/src/neon/yuv_p16_to_rgba16_alpha.rs b/src/neon/yuv_p16_to_rgba16_alpha.rs
index b8239e2..cb4f6e6 100644
--- a/src/neon/yuv_p16_to_rgba16_alpha.rs
+++ b/src/neon/yuv_p16_to_rgba16_alpha.rs
@@ -204,8 +204,14 @@ pub(crate) unsafe fn neon_yuv_p16_to_rgba16_alpha_row<
         let g_values1 = vminq_u16(vcombine_u16(g_low1, g_high1), v_max_values);
         let b_values1 = vminq_u16(vcombine_u16(b_low1, b_high1), v_max_values);
 
-        let a_values0 = vld1q_u16(a_ld_ptr.get_unchecked(cx..).as_ptr());
-        let a_values1 = vld1q_u16(a_ld_ptr.get_unchecked((cx + 8)..).as_ptr());
+        let a_values0 =
+            vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+                a_ld_ptr.get_unchecked(cx..).as_ptr(),
+            ));
+        let a_values1 =
+            vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+                a_ld_ptr.get_unchecked((cx + 8)..).as_ptr(),
+            ));
 
         neon_store_rgb16::<DESTINATION_CHANNELS>(
             rgba.get_unchecked_mut(cx * channels..).as_mut_ptr(),
@@ -236,7 +242,10 @@ pub(crate) unsafe fn neon_yuv_p16_to_rgba16_alpha_row<
     }
 
     while cx + 8 < width as usize {
-        let a_values_l = vld1q_u16(a_ld_ptr.get_unchecked(cx..).as_ptr());
+        let a_values_l =
+            vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+                a_ld_ptr.get_unchecked(cx..).as_ptr(),
+            ));
 
         let y_values: int16x8_t = vreinterpretq_s16_u16(vqsubq_u16(
             vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
@@ -366,7 +375,10 @@ pub(crate) unsafe fn neon_yuv_p16_to_rgba16_alpha_row<
             ux_diff,
         );
 
-        let a_values_l = vld1q_u16(a_buffer.as_ptr());
+        let a_values_l =
+            vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+                a_buffer.as_ptr(),
+            ));
 
         let y_values: int16x8_t = vreinterpretq_s16_u16(vqsubq_u16(
             vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
@@ -594,8 +606,14 @@ pub(crate) unsafe fn neon_yuv_p16_to_rgba16_alpha_row_rdm<
             v_weights,
         );
 
-        let a_values0 = vld1q_u16(a_ld_ptr.get_unchecked(cx..).as_ptr());
-        let a_values1 = vld1q_u16(a_ld_ptr.get_unchecked((cx + 8)..).as_ptr());
+        let a_values0 =
+            vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+                a_ld_ptr.get_unchecked(cx..).as_ptr(),
+            ));
+        let a_values1 =
+            vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+                a_ld_ptr.get_unchecked((cx + 8)..).as_ptr(),
+            ));
 
         let rlv0 = vmaxq_s16(r_vals0, zeros);
         let glv0 = vmaxq_s16(g_vals0, zeros);
@@ -641,7 +659,10 @@ pub(crate) unsafe fn neon_yuv_p16_to_rgba16_alpha_row_rdm<
     }
 
     while cx + 8 < width as usize {
-        let a_values_l = vld1q_u16(a_ld_ptr.get_unchecked(cx..).as_ptr());
+        let a_values_l =
+            vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+                a_ld_ptr.get_unchecked(cx..).as_ptr(),
+            ));
 
         let y_values: int16x8_t = vreinterpretq_s16_u16(vqsubq_u16(
             vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
@@ -767,7 +788,10 @@ pub(crate) unsafe fn neon_yuv_p16_to_rgba16_alpha_row_rdm<
             ux_diff,
         );
 
-        let a_values_l = vld1q_u16(a_buffer.as_ptr());
+        let a_values_l =
+            vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+                a_buffer.as_ptr(),
+            ));
 
         let y_values: int16x8_t = vreinterpretq_s16_u16(vqsubq_u16(
             vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
diff --git a/src/sse/yuv_p16_to_rgb16_alpha.rs b/src/sse/yuv_p16_to_rgb16_alpha.rs
index 4f73c89..94968f9 100644
--- a/src/sse/yuv_p16_to_rgb16_alpha.rs
+++ b/src/sse/yuv_p16_to_rgb16_alpha.rs
@@ -207,7 +207,12 @@ unsafe fn sse_yuv_p16_to_rgba_alpha_row_impl<
         let g_values = _mm_min_epu16(_mm_max_epi16(g_vals, zeros), v_max_colors);
         let b_values = _mm_min_epu16(_mm_max_epi16(b_vals, zeros), v_max_colors);
 
-        let a_values = _mm_loadu_si128(a_plane.get_unchecked(cx..).as_ptr() as *const __m128i);
+        #[allow(unused_mut)]
+        let mut a_values = _mm_loadu_si128(a_plane.get_unchecked(cx..).as_ptr() as *const __m128i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_values = _mm_shuffle_epi8(a_values, big_endian_shuffle_flag);
+        }
 
         _mm_store_interleave_rgb16_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
diff --git a/src/sse/yuv_p16_to_rgb8_alpha.rs b/src/sse/yuv_p16_to_rgb8_alpha.rs
index 6ef5e18..82e0250 100644
--- a/src/sse/yuv_p16_to_rgb8_alpha.rs
+++ b/src/sse/yuv_p16_to_rgb8_alpha.rs
@@ -212,10 +212,14 @@ unsafe fn sse_yuv_p16_to_rgba8_alpha_row_impl<
             _mm_setzero_si128(),
         );
 
+        #[allow(unused_mut)]
+        let mut a_vals = _mm_loadu_si128(a_plane.get_unchecked(cx..).as_ptr() as *const __m128i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_vals = _mm_shuffle_epi8(a_vals, big_endian_shuffle_flag);
+        }
         let a_values = _mm_packus_epi16(
-            _mm_store_shr_epi16_epi8::<BIT_DEPTH>(_mm_loadu_si128(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m128i,
-            )),
+            _mm_store_shr_epi16_epi8::<BIT_DEPTH>(a_vals),
             _mm_setzero_si128(),
         );
 
diff --git a/src/yuv_p16_rgba16_alpha.rs b/src/yuv_p16_rgba16_alpha.rs
index 29dee22..2043ac8 100644
--- a/src/yuv_p16_rgba16_alpha.rs
+++ b/src/yuv_p16_rgba16_alpha.rs
@@ -247,7 +247,8 @@ fn yuv_p16_to_image_alpha_ant<
             rgba0[dst_chans.get_r_channel_offset()] = r0 as u16;
             rgba0[dst_chans.get_g_channel_offset()] = g0 as u16;
             rgba0[dst_chans.get_b_channel_offset()] = b0 as u16;
-            rgba0[dst_chans.get_a_channel_offset()] = a_src[0];
+            rgba0[dst_chans.get_a_channel_offset()] =
+                to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[0], msb_shift);
 
             let y_value1 =
                 (to_ne::<ENDIANNESS, BYTES_POSITION>(y_src[1], msb_shift) as i32 - bias_y) * y_coef;
@@ -262,7 +263,8 @@ fn yuv_p16_to_image_alpha_ant<
             rgba1[dst_chans.get_r_channel_offset()] = r1 as u16;
             rgba1[dst_chans.get_g_channel_offset()] = g1 as u16;
             rgba1[dst_chans.get_b_channel_offset()] = b1 as u16;
-            rgba1[dst_chans.get_a_channel_offset()] = a_src[1];
+            rgba1[dst_chans.get_a_channel_offset()] =
+                to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[1], msb_shift);
         }
 
         if image.width & 1 != 0 {
@@ -287,7 +289,8 @@ fn yuv_p16_to_image_alpha_ant<
             rgba0[dst_chans.get_r_channel_offset()] = r0 as u16;
             rgba0[dst_chans.get_g_channel_offset()] = g0 as u16;
             rgba0[dst_chans.get_b_channel_offset()] = b0 as u16;
-            rgba0[dst_chans.get_a_channel_offset()] = a_value;
+            rgba0[dst_chans.get_a_channel_offset()] =
+                to_ne::<ENDIANNESS, BYTES_POSITION>(a_value, msb_shift);
         }
     };
 
@@ -340,7 +343,8 @@ fn yuv_p16_to_image_alpha_ant<
                 rgba[dst_chans.get_r_channel_offset()] = r as u16;
                 rgba[dst_chans.get_g_channel_offset()] = g as u16;
                 rgba[dst_chans.get_b_channel_offset()] = b as u16;
-                rgba[dst_chans.get_a_channel_offset()] = a_src;
+                rgba[dst_chans.get_a_channel_offset()] =
+                    to_ne::<ENDIANNESS, BYTES_POSITION>(a_src, msb_shift);
             }
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv422 {
diff --git a/src/yuv_p16_rgba_alpha.rs b/src/yuv_p16_rgba_alpha.rs
index 52178d2..a1cfba2 100644
--- a/src/yuv_p16_rgba_alpha.rs
+++ b/src/yuv_p16_rgba_alpha.rs
@@ -231,7 +231,9 @@ fn yuv_p16_to_image_alpha_ant<
             rgba0[dst_chans.get_r_channel_offset()] = r0 as u8;
             rgba0[dst_chans.get_g_channel_offset()] = g0 as u8;
             rgba0[dst_chans.get_b_channel_offset()] = b0 as u8;
-            rgba0[dst_chans.get_a_channel_offset()] = (a_src[0] >> store_shift).min(255) as u8;
+            rgba0[dst_chans.get_a_channel_offset()] =
+                (to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[0], msb_shift) >> store_shift).min(255)
+                    as u8;
 
             let y_value1 =
                 (to_ne::<ENDIANNESS, BYTES_POSITION>(y_src[1], msb_shift) as i32 - bias_y) * y_coef;
@@ -245,7 +247,9 @@ fn yuv_p16_to_image_alpha_ant<
             rgba1[dst_chans.get_r_channel_offset()] = r1 as u8;
             rgba1[dst_chans.get_g_channel_offset()] = g1 as u8;
             rgba1[dst_chans.get_b_channel_offset()] = b1 as u8;
-            rgba1[dst_chans.get_a_channel_offset()] = (a_src[1] >> store_shift).min(255) as u8;
+            rgba1[dst_chans.get_a_channel_offset()] =
+                (to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[1], msb_shift) >> store_shift).min(255)
+                    as u8;
         }
 
         if image.width & 1 != 0 {
@@ -269,7 +273,9 @@ fn yuv_p16_to_image_alpha_ant<
             rgba0[dst_chans.get_r_channel_offset()] = r0 as u8;
             rgba0[dst_chans.get_g_channel_offset()] = g0 as u8;
             rgba0[dst_chans.get_b_channel_offset()] = b0 as u8;
-            rgba0[dst_chans.get_a_channel_offset()] = (a_value >> store_shift).min(255) as u8;
+            rgba0[dst_chans.get_a_channel_offset()] =
+                (to_ne::<ENDIANNESS, BYTES_POSITION>(a_value, msb_shift) >> store_shift).min(255)
+                    as u8;
         }
     };
 
@@ -320,7 +326,9 @@ fn yuv_p16_to_image_alpha_ant<
                 rgba[dst_chans.get_r_channel_offset()] = r as u8;
                 rgba[dst_chans.get_g_channel_offset()] = g as u8;
                 rgba[dst_chans.get_b_channel_offset()] = b as u8;
-                rgba[dst_chans.get_a_channel_offset()] = (a_src >> store_shift).min(255) as u8;
+                rgba[dst_chans.get_a_channel_offset()] =
+                    (to_ne::<ENDIANNESS, BYTES_POSITION>(a_src, msb_shift) >> store_shift).min(255)
+                        as u8;
             }
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv422 {
-- 
2.43.0


From c3c9882959b2bc78f7acec33661926305aa62a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 16/37] fix: 10/12-bit YUV to 8-bit RGB wrapped around instead
 of saturating

---
 src/yuv_p10_rgba.rs       | 3 ++-
 src/yuv_p16_rgba_alpha.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yuv_p10_rgba.rs b/src/yuv_p10_rgba.rs
index 7e4f04a..b72c4f5 100644
--- a/src/yuv_p10_rgba.rs
+++ b/src/yuv_p10_rgba.rs
@@ -147,7 +147,8 @@ fn yuv_p16_to_image_ant<
     fn qrshr<const BIT_DEPTH: usize>(val: i32) -> i32 {
         let total_shift = PRECISION + (BIT_DEPTH as i32 - 8);
         let rounding: i32 = 1 << (total_shift - 1);
-        let max_value: i32 = (1 << BIT_DEPTH) - 1;
+        // Output is 8-bit whatever the source bit depth is
+        let max_value: i32 = 255;
         ((val + rounding) >> total_shift).min(max_value).max(0)
     }
 
diff --git a/src/yuv_p16_rgba_alpha.rs b/src/yuv_p16_rgba_alpha.rs
index a1cfba2..73400f5 100644
--- a/src/yuv_p16_rgba_alpha.rs
+++ b/src/yuv_p16_rgba_alpha.rs
@@ -105,7 +105,8 @@ fn yuv_p16_to_image_alpha_ant<
     fn qrshr<const BIT_DEPTH: usize>(val: i32) -> i32 {
         let total_shift = PRECISION + (BIT_DEPTH as i32 - 8);
         let rounding: i32 = 1 << (total_shift - 1);
-        let max_value: i32 = (1 << BIT_DEPTH) - 1;
+        // Output is 8-bit whatever the source bit depth is
+        let max_value: i32 = 255;
         ((val + rounding) >> total_shift).min(max_value).max(0)
     }
 
-- 
2.43.0


From cfb895d6846a9da521f193826f3dfeb7af934c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:12 +0000
Subject: [PATCH 17/37] fix: 12/14-bit YUV to AR30/RA30 was not scaled down to
 ten bits

---
 src/neon/yuv_nv_p10_to_ar30.rs |  4 ++--
 src/yuv_nv_p10_to_ar30.rs      | 25 +++++++++++++------------
 src/yuv_p16_ar30.rs            | 33 +++++++++++++++++++--------------
 3 files changed, 34 insertions(+), 28 deletions(-)

diff --git a/src/neon/yuv_nv_p10_to_ar30.rs b/src/neon/yuv_nv_p10_to_ar30.rs
index abeca28..d0c9dba 100644
--- a/src/neon/yuv_nv_p10_to_ar30.rs
+++ b/src/neon/yuv_nv_p10_to_ar30.rs
@@ -146,7 +146,7 @@ pub(crate) unsafe fn neon_yuv_nv12_p10_to_ar30_row<
             vqshrun_n_s32::<16>(glv)
         };
 
-        let v_max = vdupq_n_u16((1 << BIT_DEPTH) - 1);
+        let v_max = vdupq_n_u16((1 << 10) - 1);
 
         let rw = vminq_u16(vcombine_u16(r_low, r_high), v_max);
         let gw = vminq_u16(vcombine_u16(g_low, g_high), v_max);
@@ -260,7 +260,7 @@ pub(crate) unsafe fn neon_yuv_nv12_p10_to_ar30_row<
             vqshrun_n_s32::<16>(glv)
         };
 
-        let v_max = vdupq_n_u16((1 << BIT_DEPTH) - 1);
+        let v_max = vdupq_n_u16((1 << 10) - 1);
 
         let rw = vminq_u16(vcombine_u16(r_low, r_high), v_max);
         let gw = vminq_u16(vcombine_u16(g_low, g_high), v_max);
diff --git a/src/yuv_nv_p10_to_ar30.rs b/src/yuv_nv_p10_to_ar30.rs
index eb4e8dc..480ccf3 100644
--- a/src/yuv_nv_p10_to_ar30.rs
+++ b/src/yuv_nv_p10_to_ar30.rs
@@ -171,6 +171,7 @@ fn yuv_nv_p10_to_image_impl_d<
 ) -> Result<(), YuvError> {
     let ar30_layout: Rgb30 = AR30_LAYOUT.into();
     const CN: usize = 4;
+    const AR30_DEPTH: usize = 10;
     let uv_order: YuvNVOrder = NV_ORDER.into();
     let chroma_subsampling: YuvChromaSubsampling = SAMPLING.into();
 
@@ -224,9 +225,9 @@ fn yuv_nv_p10_to_image_impl_d<
                 cb_value -= bias_uv;
                 cr_value -= bias_uv;
 
-                let r_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
-                let b_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
-                let g_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                let r_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value0 + cr_coef * cr_value);
+                let b_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value0 + cb_coef * cb_value);
+                let g_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(
                     y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
                 );
 
@@ -242,9 +243,9 @@ fn yuv_nv_p10_to_image_impl_d<
 
                 let y_value1: i32 = (y_vl1 - bias_y) * y_coef;
 
-                let r_p1 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value1 + cr_coef * cr_value);
-                let b_p1 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value1 + cb_coef * cb_value);
-                let g_p1 = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                let r_p1 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value1 + cr_coef * cr_value);
+                let b_p1 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value1 + cb_coef * cb_value);
+                let g_p1 = qrshr::<BACK_SHIFT, AR30_DEPTH>(
                     y_value1 - g_coef_1 * cr_value - g_coef_2 * cb_value,
                 );
 
@@ -277,9 +278,9 @@ fn yuv_nv_p10_to_image_impl_d<
                 cb_value -= bias_uv;
                 cr_value -= bias_uv;
 
-                let r_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
-                let b_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
-                let g_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                let r_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value0 + cr_coef * cr_value);
+                let b_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value0 + cb_coef * cb_value);
+                let g_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(
                     y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
                 );
 
@@ -347,9 +348,9 @@ fn yuv_nv_p10_to_image_impl_d<
                     cb_value -= bias_uv;
                     cr_value -= bias_uv;
 
-                    let r_p = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value + cr_coef * cr_value);
-                    let b_p = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value + cb_coef * cb_value);
-                    let g_p = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                    let r_p = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value + cr_coef * cr_value);
+                    let b_p = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value + cb_coef * cb_value);
+                    let g_p = qrshr::<BACK_SHIFT, AR30_DEPTH>(
                         y_value - g_coef_1 * cr_value - g_coef_2 * cb_value,
                     );
 
diff --git a/src/yuv_p16_ar30.rs b/src/yuv_p16_ar30.rs
index f30c8d6..948fe19 100644
--- a/src/yuv_p16_ar30.rs
+++ b/src/yuv_p16_ar30.rs
@@ -45,6 +45,7 @@ fn yuv_p16_to_image_ar30<
     const ENDIANNESS: u8,
     const BYTES_POSITION: u8,
     const BIT_DEPTH: usize,
+    const BACK_SHIFT: i32,
 >(
     image: &YuvPlanarImage<u16>,
     rgba: &mut [u8],
@@ -97,9 +98,9 @@ fn yuv_p16_to_image_ar30<
             let cb_value = to_ne::<ENDIANNESS, BYTES_POSITION>(u_src, msb_shift) as i32 - bias_uv;
             let cr_value = to_ne::<ENDIANNESS, BYTES_POSITION>(v_src, msb_shift) as i32 - bias_uv;
 
-            let r0 = qrshr::<PRECISION, AR30_DEPTH>(y_value0 + cr_coef * cr_value);
-            let b0 = qrshr::<PRECISION, AR30_DEPTH>(y_value0 + cb_coef * cb_value);
-            let g0 = qrshr::<PRECISION, AR30_DEPTH>(
+            let r0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value0 + cr_coef * cr_value);
+            let b0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value0 + cb_coef * cb_value);
+            let g0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(
                 y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
             );
 
@@ -114,10 +115,11 @@ fn yuv_p16_to_image_ar30<
             let y_value1 =
                 (to_ne::<ENDIANNESS, BYTES_POSITION>(y_src[1], msb_shift) as i32 - bias_y) * y_coef;
 
-            let r1 = qrshr::<PRECISION, BIT_DEPTH>(y_value1 + cr_coef * cr_value);
-            let b1 = qrshr::<PRECISION, BIT_DEPTH>(y_value1 + cb_coef * cb_value);
-            let g1 =
-                qrshr::<PRECISION, BIT_DEPTH>(y_value1 - g_coef_1 * cr_value - g_coef_2 * cb_value);
+            let r1 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value1 + cr_coef * cr_value);
+            let b1 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value1 + cb_coef * cb_value);
+            let g1 = qrshr::<BACK_SHIFT, AR30_DEPTH>(
+                y_value1 - g_coef_1 * cr_value - g_coef_2 * cb_value,
+            );
 
             let pixel1 = ar30_layout.pack::<AR30_STORE>(r1, g1, b1).to_ne_bytes();
             rgba_2[4] = pixel1[0];
@@ -139,10 +141,11 @@ fn yuv_p16_to_image_ar30<
                 - bias_uv;
             let rgba = rgba.chunks_exact_mut(4).last().unwrap();
 
-            let r0 = qrshr::<PRECISION, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
-            let b0 = qrshr::<PRECISION, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
-            let g0 =
-                qrshr::<PRECISION, BIT_DEPTH>(y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value);
+            let r0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value0 + cr_coef * cr_value);
+            let b0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value0 + cb_coef * cb_value);
+            let g0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(
+                y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
+            );
             let pixel0 = ar30_layout.pack::<AR30_STORE>(r0, g0, b0).to_ne_bytes();
             rgba[0] = pixel0[0];
             rgba[1] = pixel0[1];
@@ -184,9 +187,9 @@ fn yuv_p16_to_image_ar30<
                 let cr_value =
                     to_ne::<ENDIANNESS, BYTES_POSITION>(v_src, msb_shift) as i32 - bias_uv;
 
-                let r = qrshr::<PRECISION, BIT_DEPTH>(y_value + cr_coef * cr_value);
-                let b = qrshr::<PRECISION, BIT_DEPTH>(y_value + cb_coef * cb_value);
-                let g = qrshr::<PRECISION, BIT_DEPTH>(
+                let r = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value + cr_coef * cr_value);
+                let b = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value + cb_coef * cb_value);
+                let g = qrshr::<BACK_SHIFT, AR30_DEPTH>(
                     y_value - g_coef_1 * cr_value - g_coef_2 * cb_value,
                 );
 
@@ -324,6 +327,7 @@ on the specified width, height, and strides, or if invalid YUV range or matrix i
                         { YuvEndianness::LittleEndian as u8 },
                         { YuvBytesPacking::LeastSignificantBytes as u8 },
                         $bit_depth,
+                        { 14 + $bit_depth - 10 },
                     >(planar_image, dst, dst_stride, range, matrix),
                     Rgb30ByteOrder::Network => yuv_p16_to_image_ar30::<
                         { $ar_fmt as usize },
@@ -332,6 +336,7 @@ on the specified width, height, and strides, or if invalid YUV range or matrix i
                         { YuvEndianness::LittleEndian as u8 },
                         { YuvBytesPacking::LeastSignificantBytes as u8 },
                         $bit_depth,
+                        { 14 + $bit_depth - 10 },
                     >(planar_image, dst, dst_stride, range, matrix),
             }
         }
-- 
2.43.0


From 6dcaa356eae6a2bdb2c5bc36b11dcb3764d094f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:44 +0000
Subject: [PATCH 18/37] fix: SSE 10/12-bit bi-planar YUV to RGB mixed
 neighbouring chroma samples

---
 src/sse/yuv_nv_p16_to_rgb.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sse/yuv_nv_p16_to_rgb.rs b/src/sse/yuv_nv_p16_to_rgb.rs
index a3d77f3..31bf7b3 100644
--- a/src/sse/yuv_nv_p16_to_rgb.rs
+++ b/src/sse/yuv_nv_p16_to_rgb.rs
@@ -177,8 +177,8 @@ unsafe fn sse_yuv_nv_p16_to_rgba_row_impl<
                 let u_values_c = _mm_sub_epi16(u_vl, uv_corr);
                 let v_values_c = _mm_sub_epi16(v_vl, uv_corr);
 
-                let u_values_32 = _mm_unpacklo_epi32(u_values_c, _mm_setzero_si128());
-                let v_values_32 = _mm_unpacklo_epi32(v_values_c, _mm_setzero_si128());
+                let u_values_32 = _mm_unpacklo_epi16(u_values_c, zeros);
+                let v_values_32 = _mm_unpacklo_epi16(v_values_c, zeros);
 
                 u_high = _mm_unpackhi_epi32(u_values_32, u_values_32);
                 v_high = _mm_unpackhi_epi32(v_values_32, v_values_32);
@@ -213,8 +213,8 @@ unsafe fn sse_yuv_nv_p16_to_rgba_row_impl<
                 let v_values_c = _mm_sub_epi16(v_vl, uv_corr_q);
                 u_high = _mm_unpackhi_epi16(u_values_c, zeros);
                 v_high = _mm_unpackhi_epi16(v_values_c, zeros);
-                u_low = _mm_unpacklo_epi32(u_values_c, _mm_setzero_si128());
-                v_low = _mm_unpacklo_epi32(v_values_c, _mm_setzero_si128());
+                u_low = _mm_unpacklo_epi16(u_values_c, zeros);
+                v_low = _mm_unpacklo_epi16(v_values_c, zeros);
             }
         }
 
-- 
2.43.0


From d31c139b21d69850e8fb841ad5439d685d19f528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 19/37] fix: SIMD 10/12-bit YUV to 8-bit RGBA stored a
 10/12-bit alpha

---
 src/avx2/yuv_p16_to_rgb8.rs     | 6 +++---
 src/avx512bw/yuv_p16_to_rgb8.rs | 6 +++---
 src/sse/yuv_p16_to_rgb8.rs      | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb8.rs b/src/avx2/yuv_p16_to_rgb8.rs
index b372277..2f246b0 100644
--- a/src/avx2/yuv_p16_to_rgb8.rs
+++ b/src/avx2/yuv_p16_to_rgb8.rs
@@ -109,7 +109,7 @@ unsafe fn avx_yuv_p16_to_rgba_row8_impl<
 
     let dst_ptr = bgra;
 
-    let v_max_colors = _mm256_set1_epi16((1i16 << BIT_DEPTH as i16) - 1);
+    let v_alpha = _mm256_set1_epi8(255u8 as i8);
 
     let y_corr = _mm256_set1_epi16(bias_y as i16);
     let uv_corr = _mm256_set1_epi16(bias_uv as i16);
@@ -266,7 +266,7 @@ unsafe fn avx_yuv_p16_to_rgba_row8_impl<
             r_values0,
             g_values0,
             b_values0,
-            v_max_colors,
+            v_alpha,
         );
 
         cx += 32;
@@ -370,7 +370,7 @@ unsafe fn avx_yuv_p16_to_rgba_row8_impl<
             r_values,
             g_values,
             b_values,
-            v_max_colors,
+            v_alpha,
         );
 
         cx += 16;
diff --git a/src/avx512bw/yuv_p16_to_rgb8.rs b/src/avx512bw/yuv_p16_to_rgb8.rs
index b1d4f44..6079397 100644
--- a/src/avx512bw/yuv_p16_to_rgb8.rs
+++ b/src/avx512bw/yuv_p16_to_rgb8.rs
@@ -189,7 +189,7 @@ unsafe fn avx_yuv_p16_to_rgba_row8_impl<
 
     let dst_ptr = bgra;
 
-    let v_max_colors = _mm512_set1_epi16((1i16 << BIT_DEPTH as i16) - 1);
+    let v_alpha = _mm512_set1_epi8(255u8 as i8);
 
     let y_corr = _mm512_set1_epi16(bias_y as i16);
     let uv_corr = _mm512_set1_epi16(bias_uv as i16);
@@ -340,7 +340,7 @@ unsafe fn avx_yuv_p16_to_rgba_row8_impl<
             r_values0,
             g_values0,
             b_values0,
-            v_max_colors,
+            v_alpha,
         );
 
         cx += 64;
@@ -434,7 +434,7 @@ unsafe fn avx_yuv_p16_to_rgba_row8_impl<
             r_values,
             g_values,
             b_values,
-            v_max_colors,
+            v_alpha,
         );
 
         cx += 32;
diff --git a/src/sse/yuv_p16_to_rgb8.rs b/src/sse/yuv_p16_to_rgb8.rs
index da80224..54ee68d 100644
--- a/src/sse/yuv_p16_to_rgb8.rs
+++ b/src/sse/yuv_p16_to_rgb8.rs
@@ -108,7 +108,7 @@ unsafe fn sse_yuv_p16_to_rgba8_row_impl<
 
     let dst_ptr = bgra;
 
-    let v_max_colors = _mm_set1_epi16((1i16 << BIT_DEPTH as i16) - 1);
+    let v_alpha = _mm_set1_epi8(255u8 as i8);
 
     let y_corr = _mm_set1_epi16(bias_y as i16);
     let uv_corr = _mm_set1_epi16(bias_uv as i16);
@@ -215,7 +215,7 @@ unsafe fn sse_yuv_p16_to_rgba8_row_impl<
             r_values,
             g_values,
             b_values,
-            v_max_colors,
+            v_alpha,
         );
 
         cx += 8;
-- 
2.43.0


From 66f6e31f3b2528232b206c5e5e4d35a92e752635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 20/37] fix: 10/12-bit YUV to 8-bit RGB scaled chroma wrongly
 for matrices without built coefficients

---
 src/yuv_p10_rgba.rs | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/yuv_p10_rgba.rs b/src/yuv_p10_rgba.rs
index b72c4f5..abf41b6 100644
--- a/src/yuv_p10_rgba.rs
+++ b/src/yuv_p10_rgba.rs
@@ -31,7 +31,6 @@
     feature = "nightly_avx512"
 ))]
 use crate::avx512bw::avx512_yuv_p16_to_rgba8_row;
-use crate::built_coefficients::get_built_inverse_transform;
 #[allow(dead_code, unused_imports)]
 use crate::internals::ProcessedOffset;
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
@@ -39,7 +38,7 @@ use crate::neon::neon_yuv_p16_to_rgba_row;
 use crate::numerics::to_ne;
 use crate::yuv_error::check_rgba_destination;
 use crate::yuv_support::{
-    get_inverse_transform, get_yuv_range, YuvBytesPacking, YuvChromaSubsampling, YuvEndianness,
+    get_yuv_range, search_inverse_transform, YuvBytesPacking, YuvChromaSubsampling, YuvEndianness,
     YuvRange, YuvSourceChannels, YuvStandardMatrix,
 };
 use crate::{YuvError, YuvPlanarImage};
@@ -77,20 +76,14 @@ fn yuv_p16_to_image_ant<
     let chroma_range = get_yuv_range(BIT_DEPTH as u32, range);
     let kr_kb = matrix.get_kr_kb();
     const PRECISION: i32 = 13;
-    let i_transform = if let Some(stored) =
-        get_built_inverse_transform(PRECISION as u32, BIT_DEPTH as u32, range, matrix)
-    {
-        stored
-    } else {
-        let transform = get_inverse_transform(
-            BIT_DEPTH as u32,
-            chroma_range.range_y,
-            chroma_range.range_uv,
-            kr_kb.kr,
-            kr_kb.kb,
-        );
-        transform.to_integers(PRECISION as u32)
-    };
+    let i_transform = search_inverse_transform(
+        PRECISION,
+        BIT_DEPTH as u32,
+        range,
+        matrix,
+        chroma_range,
+        kr_kb,
+    );
     let cr_coef = i_transform.cr_coef;
     let cb_coef = i_transform.cb_coef;
     let y_coef = i_transform.y_coef;
-- 
2.43.0


From 071305c75499e1d2bfb042809902bd4c96b50341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:25 +0000
Subject: [PATCH 21/37] fix: AVX2 YUV to RGBA f16 stored integer alpha

---
 src/avx2/yuv_p16_to_rgb_f16.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb_f16.rs b/src/avx2/yuv_p16_to_rgb_f16.rs
index 42f3cdc..91cc9c7 100644
--- a/src/avx2/yuv_p16_to_rgb_f16.rs
+++ b/src/avx2/yuv_p16_to_rgb_f16.rs
@@ -106,6 +106,8 @@ unsafe fn avx_yuv_p16_to_rgba_row_impl<
     const D: bool = false;
 
     let v_max_colors = _mm256_set1_epi16(((1i32 << BIT_DEPTH as i32) - 1i32) as i16);
+    // 1.0 as a half-precision float
+    let v_alpha = _mm256_set1_epi16(0x3C00);
     let v_luma_coeff = if BIT_DEPTH == 16 {
         _mm256_set1_epi32(transform.y_coef)
     } else {
@@ -279,7 +281,7 @@ unsafe fn avx_yuv_p16_to_rgba_row_impl<
             _mm256_setr_m128i(r_lo, r_hi),
             _mm256_setr_m128i(g_lo, g_hi),
             _mm256_setr_m128i(b_lo, b_hi),
-            v_max_colors,
+            v_alpha,
         );
 
         cx += 16;
@@ -466,7 +468,7 @@ unsafe fn avx_yuv_p16_to_rgba_row_impl<
             _mm256_setr_m128i(r_lo, r_hi),
             _mm256_setr_m128i(g_lo, g_hi),
             _mm256_setr_m128i(b_lo, b_hi),
-            v_max_colors,
+            v_alpha,
         );
 
         std::ptr::copy_nonoverlapping(buffer.as_ptr(), dst_ptr.as_mut_ptr(), diff * channels);
-- 
2.43.0


From d308c75c8abdc1e5b5647074c532d6ce0c94f1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:11 +0000
Subject: [PATCH 22/37] fix: SSE and AVX-512 8-bit YUV to RGB subtracted the
 luma bias with signed saturation

---
 src/avx512bw/y_to_rgb.rs     | 4 ++--
 src/sse/y_to_rgba.rs         | 4 ++--
 src/sse/y_to_rgba_alpha.rs   | 2 +-
 src/sse/yuv_nv_to_rgba.rs    | 4 ++--
 src/sse/yuv_nv_to_rgba420.rs | 8 ++++----
 src/sse/yuv_nv_to_rgba422.rs | 4 ++--
 src/sse/yuv_to_rgba.rs       | 2 +-
 src/sse/yuv_to_rgba422.rs    | 2 +-
 8 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/avx512bw/y_to_rgb.rs b/src/avx512bw/y_to_rgb.rs
index ef3ee28..46e830c 100644
--- a/src/avx512bw/y_to_rgb.rs
+++ b/src/avx512bw/y_to_rgb.rs
@@ -104,7 +104,7 @@ unsafe fn avx512_y_to_rgb_row_impl<const DESTINATION_CHANNELS: u8, const HAS_VBM
     let v_alpha = _mm512_set1_epi8(255u8 as i8);
 
     while cx + 64 < width {
-        let y_s = _mm512_subs_epi8(_mm512_loadu_si512(y_ptr.add(cx) as *const i32), y_corr);
+        let y_s = _mm512_subs_epu8(_mm512_loadu_si512(y_ptr.add(cx) as *const i32), y_corr);
 
         let y10 = _mm512_expand8_unordered_to_10(y_s);
 
@@ -143,7 +143,7 @@ unsafe fn avx512_y_to_rgb_row_impl<const DESTINATION_CHANNELS: u8, const HAS_VBM
             diff,
         );
 
-        let y_s = _mm512_subs_epi8(_mm512_loadu_si512(y_buffer.as_ptr() as *const i32), y_corr);
+        let y_s = _mm512_subs_epu8(_mm512_loadu_si512(y_buffer.as_ptr() as *const i32), y_corr);
 
         let y10 = _mm512_expand8_unordered_to_10(y_s);
 
diff --git a/src/sse/y_to_rgba.rs b/src/sse/y_to_rgba.rs
index e0b899b..9b5a658 100644
--- a/src/sse/y_to_rgba.rs
+++ b/src/sse/y_to_rgba.rs
@@ -101,7 +101,7 @@ unsafe fn sse_y_to_rgba_row_impl<const DESTINATION_CHANNELS: u8>(
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
 
         let v_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
 
@@ -134,7 +134,7 @@ unsafe fn sse_y_to_rgba_row_impl<const DESTINATION_CHANNELS: u8>(
             diff,
         );
 
-        let y_values = _mm_subs_epi8(_mm_loadu_si64(y_buffer.as_ptr()), y_corr);
+        let y_values = _mm_subs_epu8(_mm_loadu_si64(y_buffer.as_ptr()), y_corr);
 
         let v_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
 
diff --git a/src/sse/y_to_rgba_alpha.rs b/src/sse/y_to_rgba_alpha.rs
index 2fad23b..c8ce57d 100644
--- a/src/sse/y_to_rgba_alpha.rs
+++ b/src/sse/y_to_rgba_alpha.rs
@@ -104,7 +104,7 @@ unsafe fn sse_y_to_rgba_alpha_row_impl<const DESTINATION_CHANNELS: u8>(
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
         let a_values = _mm_loadu_si64(a_plane.get_unchecked(cx..).as_ptr());
 
         let v_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
diff --git a/src/sse/yuv_nv_to_rgba.rs b/src/sse/yuv_nv_to_rgba.rs
index deb8fb5..394ffe0 100644
--- a/src/sse/yuv_nv_to_rgba.rs
+++ b/src/sse/yuv_nv_to_rgba.rs
@@ -264,7 +264,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl<
             }
         }
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
         let u_low = _mm_sub_epi16(u_low_u16, uv_corr);
         let v_low = _mm_sub_epi16(v_low_u16, uv_corr);
         let y_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
@@ -383,7 +383,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl<
             }
         }
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
         let u_low = _mm_sub_epi16(u_low_u16, uv_corr);
         let v_low = _mm_sub_epi16(v_low_u16, uv_corr);
         let y_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
diff --git a/src/sse/yuv_nv_to_rgba420.rs b/src/sse/yuv_nv_to_rgba420.rs
index 23240ef..5be0faa 100644
--- a/src/sse/yuv_nv_to_rgba420.rs
+++ b/src/sse/yuv_nv_to_rgba420.rs
@@ -190,8 +190,8 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let uv_values_ = _mm_loadu_si64(uv_ptr.add(uv_x));
 
-        let y_values0 = _mm_subs_epi8(y_vl0, y_corr);
-        let y_values1 = _mm_subs_epi8(y_vl1, y_corr);
+        let y_values0 = _mm_subs_epu8(y_vl0, y_corr);
+        let y_values1 = _mm_subs_epu8(y_vl1, y_corr);
         let (mut u, mut v) = _mm_deinterleave_x2_epi8(uv_values_, zeros);
 
         if order == YuvNVOrder::VU {
@@ -291,8 +291,8 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let uv_values_ = _mm_loadu_si64(uv_buffer.as_ptr());
 
-        let y_values0 = _mm_subs_epi8(y_vl0, y_corr);
-        let y_values1 = _mm_subs_epi8(y_vl1, y_corr);
+        let y_values0 = _mm_subs_epu8(y_vl0, y_corr);
+        let y_values1 = _mm_subs_epu8(y_vl1, y_corr);
         let (mut u, mut v) = _mm_deinterleave_x2_epi8(uv_values_, zeros);
 
         if order == YuvNVOrder::VU {
diff --git a/src/sse/yuv_nv_to_rgba422.rs b/src/sse/yuv_nv_to_rgba422.rs
index 6174767..60520b9 100644
--- a/src/sse/yuv_nv_to_rgba422.rs
+++ b/src/sse/yuv_nv_to_rgba422.rs
@@ -163,7 +163,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl422<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let distribute_shuffle = _mm_setr_epi8(0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3);
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
 
         u = _mm_shuffle_epi8(u, distribute_shuffle);
         v = _mm_shuffle_epi8(v, distribute_shuffle);
@@ -238,7 +238,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl422<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let distribute_shuffle = _mm_setr_epi8(0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3);
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
 
         u = _mm_shuffle_epi8(u, distribute_shuffle);
         v = _mm_shuffle_epi8(v, distribute_shuffle);
diff --git a/src/sse/yuv_to_rgba.rs b/src/sse/yuv_to_rgba.rs
index 32ab642..ea7da7e 100644
--- a/src/sse/yuv_to_rgba.rs
+++ b/src/sse/yuv_to_rgba.rs
@@ -176,7 +176,7 @@ unsafe fn sse_yuv_to_rgba_row_impl<const DESTINATION_CHANNELS: u8, const SAMPLIN
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_xx_load_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_xx_load_si64(y_ptr.add(cx)), y_corr);
 
         let (u_low_u16, v_low_u16);
 
diff --git a/src/sse/yuv_to_rgba422.rs b/src/sse/yuv_to_rgba422.rs
index b7ad4e2..f72f4df 100644
--- a/src/sse/yuv_to_rgba422.rs
+++ b/src/sse/yuv_to_rgba422.rs
@@ -157,7 +157,7 @@ unsafe fn sse_yuv_to_rgba_row_impl422<const DESTINATION_CHANNELS: u8>(
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_xx_load_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_xx_load_si64(y_ptr.add(cx)), y_corr);
 
         let reshuffle = _mm_setr_epi8(0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3);
 
-- 
2.43.0


From aabea5e60d8f85248fbd30c0cc0c04487046d40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:11 +0000
Subject: [PATCH 23/37] fix: SSE NV12/NV21 to RGB used the Cr coefficient for
 blue in row tails

---
 src/sse/yuv_nv_to_rgba420.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/yuv_nv_to_rgba420.rs b/src/sse/yuv_nv_to_rgba420.rs
index 5be0faa..bdf5d40 100644
--- a/src/sse/yuv_nv_to_rgba420.rs
+++ b/src/sse/yuv_nv_to_rgba420.rs
@@ -218,7 +218,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
         );
 
         let v_cr_lo = _mm_mulhrs_epi16(v_low, v_cr_coeff);
-        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cr_coeff);
+        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cb_coeff);
 
         let r_low0 = _mm_add_epi16(y_low0, v_cr_lo);
         let b_low0 = _mm_add_epi16(y_low0, v_cb_lo);
@@ -319,7 +319,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
         );
 
         let v_cr_lo = _mm_mulhrs_epi16(v_low, v_cr_coeff);
-        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cr_coeff);
+        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cb_coeff);
 
         let r_low0 = _mm_add_epi16(y_low0, v_cr_lo);
         let b_low0 = _mm_add_epi16(y_low0, v_cb_lo);
-- 
2.43.0


From 871b1c89dcafa51c9f4a0cb1ce451342fe788a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:36 +0000
Subject: [PATCH 24/37] fix: SIMD premultiplied alpha multiplied unclamped
 colors and truncated division by 255 on AVX2

---
 src/avx2/avx2_utils.rs            |  4 ++--
 src/avx2/ayuv_to_rgba.rs          | 18 ++++++++++-----
 src/avx2/yuv_to_rgba_alpha.rs     | 38 +++++++++++++++----------------
 src/avx512bw/yuv_to_rgba_alpha.rs | 18 ++++++++++-----
 src/sse/yuv_to_rgba_alpha.rs      | 14 +++++++-----
 5 files changed, 52 insertions(+), 40 deletions(-)

diff --git a/src/avx2/avx2_utils.rs b/src/avx2/avx2_utils.rs
index 6f04025..4def35a 100644
--- a/src/avx2/avx2_utils.rs
+++ b/src/avx2/avx2_utils.rs
@@ -366,8 +366,8 @@ pub(crate) unsafe fn avx2_div_by255_x2(l: __m256i, v: __m256i) -> (__m256i, __m2
     let j0 = _mm256_srli_epi16::<8>(k0);
     let j1 = _mm256_srli_epi16::<8>(k1);
 
-    let kv0 = _mm256_add_epi16(l, j0);
-    let kv1 = _mm256_add_epi16(v, j1);
+    let kv0 = _mm256_add_epi16(k0, j0);
+    let kv1 = _mm256_add_epi16(k1, j1);
 
     (_mm256_srli_epi16::<8>(kv0), _mm256_srli_epi16::<8>(kv1))
 }
diff --git a/src/avx2/ayuv_to_rgba.rs b/src/avx2/ayuv_to_rgba.rs
index 733eeb3..6f7e8a0 100644
--- a/src/avx2/ayuv_to_rgba.rs
+++ b/src/avx2/ayuv_to_rgba.rs
@@ -236,20 +236,26 @@ unsafe fn avx2_ayuv_to_rgba_impl<const DESTINATION_CHANNELS: u8, const PACKED: u
         let (r_values, g_values, b_values);
 
         if use_premultiply {
+            let clamp_u8 = |v: __m256i| {
+                _mm256_min_epi16(
+                    _mm256_max_epi16(v, _mm256_setzero_si256()),
+                    _mm256_set1_epi16(255),
+                )
+            };
             let a_high = _mm256_unpackhi_epi8(a, _mm256_setzero_si256());
             let a_low = _mm256_unpacklo_epi8(a, _mm256_setzero_si256());
 
             let (r_l, r_h) = avx2_div_by255_x2(
-                _mm256_mullo_epi16(r_low, a_low),
-                _mm256_mullo_epi16(r_high, a_high),
+                _mm256_mullo_epi16(clamp_u8(r_low), a_low),
+                _mm256_mullo_epi16(clamp_u8(r_high), a_high),
             );
             let (g_l, g_h) = avx2_div_by255_x2(
-                _mm256_mullo_epi16(g_low, a_low),
-                _mm256_mullo_epi16(g_high, a_high),
+                _mm256_mullo_epi16(clamp_u8(g_low), a_low),
+                _mm256_mullo_epi16(clamp_u8(g_high), a_high),
             );
             let (b_l, b_h) = avx2_div_by255_x2(
-                _mm256_mullo_epi16(b_low, a_low),
-                _mm256_mullo_epi16(b_high, a_high),
+                _mm256_mullo_epi16(clamp_u8(b_low), a_low),
+                _mm256_mullo_epi16(clamp_u8(b_high), a_high),
             );
 
             r_values = _mm256_packus_epi16(r_l, r_h);
diff --git a/src/avx2/yuv_to_rgba_alpha.rs b/src/avx2/yuv_to_rgba_alpha.rs
index f05995f..09db859 100644
--- a/src/avx2/yuv_to_rgba_alpha.rs
+++ b/src/avx2/yuv_to_rgba_alpha.rs
@@ -316,9 +316,9 @@ unsafe fn avx2_yuv_to_rgba_alpha_impl<const DESTINATION_CHANNELS: u8, const SAMP
         let ghc0 = _mm256_mulhrs_epi16(v_high, v_g_coeff_1);
         let ghc1 = _mm256_mulhrs_epi16(u_high, v_g_coeff_2);
 
-        let mut r_high = _mm256_add_epi16(y_high, rhc);
-        let mut b_high = _mm256_add_epi16(y_high, bhc);
-        let mut g_high = _mm256_sub_epi16(y_high, _mm256_add_epi16(ghc0, ghc1));
+        let r_high = _mm256_add_epi16(y_high, rhc);
+        let b_high = _mm256_add_epi16(y_high, bhc);
+        let g_high = _mm256_sub_epi16(y_high, _mm256_add_epi16(ghc0, ghc1));
 
         let u_low = _mm256_sub_epi16(u_low_u16, uv_corr);
         let v_low = _mm256_sub_epi16(v_low_u16, uv_corr);
@@ -329,35 +329,33 @@ unsafe fn avx2_yuv_to_rgba_alpha_impl<const DESTINATION_CHANNELS: u8, const SAMP
         let glc0 = _mm256_mulhrs_epi16(v_low, v_g_coeff_1);
         let glc1 = _mm256_mulhrs_epi16(u_low, v_g_coeff_2);
 
-        let mut r_low = _mm256_add_epi16(y_low, rlc);
-        let mut b_low = _mm256_add_epi16(y_low, blc);
-        let mut g_low = _mm256_sub_epi16(y_low, _mm256_add_epi16(glc0, glc1));
+        let r_low = _mm256_add_epi16(y_low, rlc);
+        let b_low = _mm256_add_epi16(y_low, blc);
+        let g_low = _mm256_sub_epi16(y_low, _mm256_add_epi16(glc0, glc1));
 
         let (r_values, g_values, b_values);
 
         if use_premultiply {
-            r_high = _mm256_max_epi16(r_high, _mm256_setzero_si256());
-            b_high = _mm256_max_epi16(b_high, _mm256_setzero_si256());
-            g_high = _mm256_max_epi16(g_high, _mm256_setzero_si256());
-
-            r_low = _mm256_max_epi16(r_low, _mm256_setzero_si256());
-            b_low = _mm256_max_epi16(b_low, _mm256_setzero_si256());
-            g_low = _mm256_max_epi16(g_low, _mm256_setzero_si256());
-
+            let clamp_u8 = |v: __m256i| {
+                _mm256_min_epi16(
+                    _mm256_max_epi16(v, _mm256_setzero_si256()),
+                    _mm256_set1_epi16(255),
+                )
+            };
             let a_high = _mm256_unpackhi_epi8(a_values, _mm256_setzero_si256());
             let a_low = _mm256_unpacklo_epi8(a_values, _mm256_setzero_si256());
 
             let (r_l, r_h) = avx2_div_by255_x2(
-                _mm256_mullo_epi16(r_low, a_low),
-                _mm256_mullo_epi16(r_high, a_high),
+                _mm256_mullo_epi16(clamp_u8(r_low), a_low),
+                _mm256_mullo_epi16(clamp_u8(r_high), a_high),
             );
             let (g_l, g_h) = avx2_div_by255_x2(
-                _mm256_mullo_epi16(g_low, a_low),
-                _mm256_mullo_epi16(g_high, a_high),
+                _mm256_mullo_epi16(clamp_u8(g_low), a_low),
+                _mm256_mullo_epi16(clamp_u8(g_high), a_high),
             );
             let (b_l, b_h) = avx2_div_by255_x2(
-                _mm256_mullo_epi16(b_low, a_low),
-                _mm256_mullo_epi16(b_high, a_high),
+                _mm256_mullo_epi16(clamp_u8(b_low), a_low),
+                _mm256_mullo_epi16(clamp_u8(b_high), a_high),
             );
 
             r_values = _mm256_packus_epi16(r_l, r_h);
diff --git a/src/avx512bw/yuv_to_rgba_alpha.rs b/src/avx512bw/yuv_to_rgba_alpha.rs
index 9930b1c..991659e 100644
--- a/src/avx512bw/yuv_to_rgba_alpha.rs
+++ b/src/avx512bw/yuv_to_rgba_alpha.rs
@@ -252,15 +252,21 @@ unsafe fn avx512_yuv_to_rgba_alpha_impl<
         let (r_values, g_values, b_values);
 
         if use_premultiply {
+            let clamp_u8 = |v: __m512i| {
+                _mm512_min_epi16(
+                    _mm512_max_epi16(v, _mm512_setzero_si512()),
+                    _mm512_set1_epi16(255),
+                )
+            };
             let a_high = _mm512_cvtepu8_epi16(_mm512_extracti64x4_epi64::<1>(a_values));
             let a_low = _mm512_cvtepu8_epi16(_mm512_castsi512_si256(a_values));
 
-            let r_l = avx512_div_by255(_mm512_mullo_epi16(r_low, a_low));
-            let r_h = avx512_div_by255(_mm512_mullo_epi16(r_high, a_high));
-            let g_l = avx512_div_by255(_mm512_mullo_epi16(g_low, a_low));
-            let g_h = avx512_div_by255(_mm512_mullo_epi16(g_high, a_high));
-            let b_l = avx512_div_by255(_mm512_mullo_epi16(b_low, a_low));
-            let b_h = avx512_div_by255(_mm512_mullo_epi16(b_high, a_high));
+            let r_l = avx512_div_by255(_mm512_mullo_epi16(clamp_u8(r_low), a_low));
+            let r_h = avx512_div_by255(_mm512_mullo_epi16(clamp_u8(r_high), a_high));
+            let g_l = avx512_div_by255(_mm512_mullo_epi16(clamp_u8(g_low), a_low));
+            let g_h = avx512_div_by255(_mm512_mullo_epi16(clamp_u8(g_high), a_high));
+            let b_l = avx512_div_by255(_mm512_mullo_epi16(clamp_u8(b_low), a_low));
+            let b_h = avx512_div_by255(_mm512_mullo_epi16(clamp_u8(b_high), a_high));
 
             r_values = avx512_pack_u16(r_l, r_h);
             g_values = avx512_pack_u16(g_l, g_h);
diff --git a/src/sse/yuv_to_rgba_alpha.rs b/src/sse/yuv_to_rgba_alpha.rs
index 05f8158..2237150 100644
--- a/src/sse/yuv_to_rgba_alpha.rs
+++ b/src/sse/yuv_to_rgba_alpha.rs
@@ -165,14 +165,16 @@ unsafe fn sse_yuv_to_rgba_alpha_row_impl<const DESTINATION_CHANNELS: u8, const S
         let (r_values, g_values, b_values);
 
         if use_premultiply {
+            let clamp_u8 =
+                |v: __m128i| _mm_unpacklo_epi8(_mm_packus_epi16(v, v), _mm_setzero_si128());
             let a_h = _mm_unpackhi_epi8(a_values, _mm_setzero_si128());
             let a_l = _mm_unpacklo_epi8(a_values, _mm_setzero_si128());
-            let r_h_16 = sse_div_by255(_mm_mullo_epi16(r_high, a_h));
-            let r_l_16 = sse_div_by255(_mm_mullo_epi16(r_low, a_l));
-            let g_h_16 = sse_div_by255(_mm_mullo_epi16(g_high, a_h));
-            let g_l_16 = sse_div_by255(_mm_mullo_epi16(g_low, a_l));
-            let b_h_16 = sse_div_by255(_mm_mullo_epi16(b_high, a_h));
-            let b_l_16 = sse_div_by255(_mm_mullo_epi16(b_low, a_l));
+            let r_h_16 = sse_div_by255(_mm_mullo_epi16(clamp_u8(r_high), a_h));
+            let r_l_16 = sse_div_by255(_mm_mullo_epi16(clamp_u8(r_low), a_l));
+            let g_h_16 = sse_div_by255(_mm_mullo_epi16(clamp_u8(g_high), a_h));
+            let g_l_16 = sse_div_by255(_mm_mullo_epi16(clamp_u8(g_low), a_l));
+            let b_h_16 = sse_div_by255(_mm_mullo_epi16(clamp_u8(b_high), a_h));
+            let b_l_16 = sse_div_by255(_mm_mullo_epi16(clamp_u8(b_low), a_l));
 
             r_values = _mm_packus_epi16(r_l_16, r_h_16);
             g_values = _mm_packus_epi16(g_l_16, g_h_16);
-- 
2.43.0


From 1dd7b16d3489c45b5c7aa5c554cc481a71c4c918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:24 +0000
Subject: [PATCH 25/37] fix: SIMD fast bi-planar YUV to RGB wrapped bright
 saturated pixels to black

---
 src/avx2/yuv_nv_to_rgba_fast.rs        | 16 ++++++-------
 src/avx2/yuv_nv_to_rgba_fast420.rs     | 32 +++++++++++++-------------
 src/avx512bw/yuv_nv_to_rgba_fast420.rs | 32 +++++++++++++-------------
 src/sse/yuv_nv_to_rgba_fast.rs         | 16 ++++++-------
 src/sse/yuv_nv_to_rgba_fast420.rs      | 32 +++++++++++++-------------
 5 files changed, 64 insertions(+), 64 deletions(-)

diff --git a/src/avx2/yuv_nv_to_rgba_fast.rs b/src/avx2/yuv_nv_to_rgba_fast.rs
index 4ed1e6a..105ecc2 100644
--- a/src/avx2/yuv_nv_to_rgba_fast.rs
+++ b/src/avx2/yuv_nv_to_rgba_fast.rs
@@ -167,12 +167,12 @@ unsafe fn avx_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm256_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm256_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm256_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_gh, b_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_gh, b_c_hi);
         let mut g_high0 = _mm256_sub_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl, b_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl, b_c_lo);
         let mut g_low0 = _mm256_sub_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
@@ -302,12 +302,12 @@ unsafe fn avx_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm256_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm256_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm256_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_gh, b_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_gh, b_c_hi);
         let mut g_high0 = _mm256_sub_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl, b_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl, b_c_lo);
         let mut g_low0 = _mm256_sub_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
diff --git a/src/avx2/yuv_nv_to_rgba_fast420.rs b/src/avx2/yuv_nv_to_rgba_fast420.rs
index 2793803..0fa03cb 100644
--- a/src/avx2/yuv_nv_to_rgba_fast420.rs
+++ b/src/avx2/yuv_nv_to_rgba_fast420.rs
@@ -125,12 +125,12 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm256_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm256_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm256_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_g0, b_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_g0, b_c_hi);
         let mut g_high0 = _mm256_sub_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm256_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm256_add_epi16(y_g1, b_c_hi);
+        let mut r_high1 = _mm256_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm256_adds_epi16(y_g1, b_c_hi);
         let mut g_high1 = _mm256_sub_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm256_unpacklo_epi8(y_values0, _mm256_setzero_si256());
@@ -139,12 +139,12 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm256_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm256_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl0, b_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl0, b_c_lo);
         let mut g_low0 = _mm256_sub_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm256_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm256_add_epi16(y_gl1, b_c_lo);
+        let mut r_low1 = _mm256_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm256_adds_epi16(y_gl1, b_c_lo);
         let mut g_low1 = _mm256_sub_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
@@ -249,12 +249,12 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm256_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm256_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm256_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_g0, b_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_g0, b_c_hi);
         let mut g_high0 = _mm256_sub_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm256_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm256_add_epi16(y_g1, b_c_hi);
+        let mut r_high1 = _mm256_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm256_adds_epi16(y_g1, b_c_hi);
         let mut g_high1 = _mm256_sub_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm256_unpacklo_epi8(y_values0, _mm256_setzero_si256());
@@ -263,12 +263,12 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm256_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm256_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl0, b_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl0, b_c_lo);
         let mut g_low0 = _mm256_sub_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm256_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm256_add_epi16(y_gl1, b_c_lo);
+        let mut r_low1 = _mm256_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm256_adds_epi16(y_gl1, b_c_lo);
         let mut g_low1 = _mm256_sub_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
diff --git a/src/avx512bw/yuv_nv_to_rgba_fast420.rs b/src/avx512bw/yuv_nv_to_rgba_fast420.rs
index 2270f4b..0f2ed1d 100644
--- a/src/avx512bw/yuv_nv_to_rgba_fast420.rs
+++ b/src/avx512bw/yuv_nv_to_rgba_fast420.rs
@@ -177,12 +177,12 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let r_c_hi = _mm512_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm512_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm512_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm512_add_epi16(y_g0, b_c_hi);
+        let mut r_high0 = _mm512_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm512_adds_epi16(y_g0, b_c_hi);
         let mut g_high0 = _mm512_sub_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm512_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm512_add_epi16(y_g1, b_c_hi);
+        let mut r_high1 = _mm512_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm512_adds_epi16(y_g1, b_c_hi);
         let mut g_high1 = _mm512_sub_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm512_unpacklo_epi8(y_values0, _mm512_setzero_si512());
@@ -191,12 +191,12 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let y_gl0 = _mm512_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm512_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm512_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm512_add_epi16(y_gl0, b_c_lo);
+        let mut r_low0 = _mm512_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm512_adds_epi16(y_gl0, b_c_lo);
         let mut g_low0 = _mm512_sub_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm512_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm512_add_epi16(y_gl1, b_c_lo);
+        let mut r_low1 = _mm512_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm512_adds_epi16(y_gl1, b_c_lo);
         let mut g_low1 = _mm512_sub_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm512_srai_epi16::<6>(r_low0);
@@ -301,12 +301,12 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let r_c_hi = _mm512_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm512_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm512_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm512_add_epi16(y_g0, b_c_hi);
+        let mut r_high0 = _mm512_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm512_adds_epi16(y_g0, b_c_hi);
         let mut g_high0 = _mm512_sub_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm512_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm512_add_epi16(y_g1, b_c_hi);
+        let mut r_high1 = _mm512_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm512_adds_epi16(y_g1, b_c_hi);
         let mut g_high1 = _mm512_sub_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm512_unpacklo_epi8(y_values0, _mm512_setzero_si512());
@@ -315,12 +315,12 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let y_gl0 = _mm512_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm512_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm512_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm512_add_epi16(y_gl0, b_c_lo);
+        let mut r_low0 = _mm512_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm512_adds_epi16(y_gl0, b_c_lo);
         let mut g_low0 = _mm512_sub_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm512_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm512_add_epi16(y_gl1, b_c_lo);
+        let mut r_low1 = _mm512_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm512_adds_epi16(y_gl1, b_c_lo);
         let mut g_low1 = _mm512_sub_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm512_srai_epi16::<6>(r_low0);
diff --git a/src/sse/yuv_nv_to_rgba_fast.rs b/src/sse/yuv_nv_to_rgba_fast.rs
index fea2de2..a58c84c 100644
--- a/src/sse/yuv_nv_to_rgba_fast.rs
+++ b/src/sse/yuv_nv_to_rgba_fast.rs
@@ -151,12 +151,12 @@ unsafe fn sse_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_gh, b_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_gh, b_c_hi);
         let mut g_high0 = _mm_sub_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl, b_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl, b_c_lo);
         let mut g_low0 = _mm_sub_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
@@ -265,12 +265,12 @@ unsafe fn sse_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_gh, b_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_gh, b_c_hi);
         let mut g_high0 = _mm_sub_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl, b_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl, b_c_lo);
         let mut g_low0 = _mm_sub_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
diff --git a/src/sse/yuv_nv_to_rgba_fast420.rs b/src/sse/yuv_nv_to_rgba_fast420.rs
index d58f035..13c3dc7 100644
--- a/src/sse/yuv_nv_to_rgba_fast420.rs
+++ b/src/sse/yuv_nv_to_rgba_fast420.rs
@@ -121,12 +121,12 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_g0, b_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_g0, b_c_hi);
         let mut g_high0 = _mm_sub_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm_add_epi16(y_g1, b_c_hi);
+        let mut r_high1 = _mm_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm_adds_epi16(y_g1, b_c_hi);
         let mut g_high1 = _mm_sub_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm_unpacklo_epi8(y_values0, _mm_setzero_si128());
@@ -135,12 +135,12 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl0, b_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl0, b_c_lo);
         let mut g_low0 = _mm_sub_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm_add_epi16(y_gl1, b_c_lo);
+        let mut r_low1 = _mm_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm_adds_epi16(y_gl1, b_c_lo);
         let mut g_low1 = _mm_sub_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
@@ -245,12 +245,12 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_g0, b_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_g0, b_c_hi);
         let mut g_high0 = _mm_sub_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm_add_epi16(y_g1, b_c_hi);
+        let mut r_high1 = _mm_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm_adds_epi16(y_g1, b_c_hi);
         let mut g_high1 = _mm_sub_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm_unpacklo_epi8(y_values0, _mm_setzero_si128());
@@ -259,12 +259,12 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl0, b_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl0, b_c_lo);
         let mut g_low0 = _mm_sub_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm_add_epi16(y_gl1, b_c_lo);
+        let mut r_low1 = _mm_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm_adds_epi16(y_gl1, b_c_lo);
         let mut g_low1 = _mm_sub_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
-- 
2.43.0


From 3dc01813c570f39dd3462e2524c7d361afabad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:41 +0000
Subject: [PATCH 26/37] fix: AVX2 8-bit to f16 rounded normalized values to
 integers and interleaved 16-bit lanes in row tails

---
 src/avx2/f16_converter.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/avx2/f16_converter.rs b/src/avx2/f16_converter.rs
index 85b867f..b24270f 100644
--- a/src/avx2/f16_converter.rs
+++ b/src/avx2/f16_converter.rs
@@ -130,11 +130,8 @@ impl SurfaceU8ToFloat16Avx2 {
             let lc_ps = _mm256_cvtepi32_ps(l_e32);
             let hc_ps = _mm256_cvtepi32_ps(h_e32);
 
-            let mut ls_ps = _mm256_mul_ps(lc_ps, v_scale_h);
-            let mut hs_ps = _mm256_mul_ps(hc_ps, v_scale_h);
-
-            ls_ps = _mm256_round_ps::<0x0>(ls_ps);
-            hs_ps = _mm256_round_ps::<0x0>(hs_ps);
+            let ls_ps = _mm256_mul_ps(lc_ps, v_scale_h);
+            let hs_ps = _mm256_mul_ps(hc_ps, v_scale_h);
 
             let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(ls_ps);
             let hi = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(hs_ps);
@@ -153,8 +150,9 @@ impl SurfaceU8ToFloat16Avx2 {
                 _mm_setzero_si128(),
             );
 
-            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_round_ps::<0x0>(
-                _mm256_mul_ps(_mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)), v_scale_h),
+            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_mul_ps(
+                _mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)),
+                v_scale_h,
             ));
 
             _mm_storeu_si128(dst.as_mut_ptr() as *mut _, lo);
@@ -171,13 +169,14 @@ impl SurfaceU8ToFloat16Avx2 {
 
             std::ptr::copy_nonoverlapping(src_rem.as_ptr(), src_buffer.as_mut_ptr(), src_rem.len());
 
-            let items = _mm_unpacklo_epi16(
+            let items = _mm_unpacklo_epi8(
                 _mm_loadu_si64(src_buffer.as_ptr() as *const _),
                 _mm_setzero_si128(),
             );
 
-            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_round_ps::<0x0>(
-                _mm256_mul_ps(_mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)), v_scale_h),
+            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_mul_ps(
+                _mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)),
+                v_scale_h,
             ));
 
             _mm_storeu_si128(dst_buffer.as_mut_ptr() as *mut _, lo);
-- 
2.43.0


From a3754574f1472643d79263245460aa3420f50d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:06 +0000
Subject: [PATCH 27/37] fix: RGB to YCgCo scaled chroma by the luma range

---
 src/rgb_to_ycgco.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rgb_to_ycgco.rs b/src/rgb_to_ycgco.rs
index 6a25409..155d186 100644
--- a/src/rgb_to_ycgco.rs
+++ b/src/rgb_to_ycgco.rs
@@ -124,7 +124,7 @@ fn rgbx_to_ycgco<const ORIGIN_CHANNELS: u8, const SAMPLING: u8>(
 
                 *y_last = y_0 as u8;
 
-                r0 *= range_reduction_y as i32;
+                r0 *= range_reduction_uv as i32;
                 g0 *= range_reduction_uv as i32;
                 b0 *= range_reduction_uv as i32;
 
@@ -291,9 +291,9 @@ fn rgbx_to_ycgco<const ORIGIN_CHANNELS: u8, const SAMPLING: u8>(
                     >> PRECISION;
                 *y_dst = y_0 as u8;
 
-                r0 *= range_reduction_y as i32;
-                g0 *= range_reduction_y as i32;
-                b0 *= range_reduction_y as i32;
+                r0 *= range_reduction_uv as i32;
+                g0 *= range_reduction_uv as i32;
+                b0 *= range_reduction_uv as i32;
 
                 let cg = (((g0 >> 1) - ((r0 + b0) >> 2)) + bias_uv) >> PRECISION;
                 let co = (((r0 - b0) >> 1) + bias_uv) >> PRECISION;
-- 
2.43.0


From 5b4e6baaa3843fc9263ad8a96512a4f094a26dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 28/37] fix: 16-bit identity to f16 overflowed to infinity

---
 src/from_identity_alpha_f16.rs | 71 ++++++++++++++++++----------------
 src/from_identity_f16.rs       | 59 ++++++++++++++--------------
 2 files changed, 69 insertions(+), 61 deletions(-)

diff --git a/src/from_identity_alpha_f16.rs b/src/from_identity_alpha_f16.rs
index 3e31081..ee8e400 100644
--- a/src/from_identity_alpha_f16.rs
+++ b/src/from_identity_alpha_f16.rs
@@ -41,7 +41,7 @@ use std::marker::PhantomData;
 use std::mem::size_of;
 use std::ops::Sub;
 
-trait FullRowHandle<V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16> {
+trait FullRowHandle<V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32> {
     unsafe fn process_row(
         &self,
         dst: &mut [f16],
@@ -52,16 +52,16 @@ trait FullRowHandle<V: Copy + 'static + Sized + Debug + Send + Sync + Default +
     );
 }
 
-trait CastableToF16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16;
+trait CastableToF32 {
+    fn cast_to_f32<const BIT_DEPTH: usize>(self) -> f32;
 }
 
-impl CastableToF16 for u16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16 {
+impl CastableToF32 for u16 {
+    fn cast_to_f32<const BIT_DEPTH: usize>(self) -> f32 {
         if BIT_DEPTH == 16 {
-            (self as i32) as f16
+            (self as i32) as f32
         } else {
-            (self as i16) as f16
+            (self as i16) as f32
         }
     }
 }
@@ -87,7 +87,7 @@ macro_rules! exec_cv_full {
     ($dst: expr, $y_src: expr, $u_src: expr, $v_src: expr, $a_src: expr, $cn: expr, $bit_depth: expr) => {
         let max_value = (1 << $bit_depth) - 1;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for ((((&y_src, &u_src), &v_src), rgb_dst), a_src) in $y_src
             .iter()
@@ -96,10 +96,14 @@ macro_rules! exec_cv_full {
             .zip(rgb_chunks)
             .zip($a_src)
         {
-            rgb_dst[$cn.get_r_channel_offset()] = v_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_g_channel_offset()] = y_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_b_channel_offset()] = u_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_a_channel_offset()] = a_src.cast_to_f16::<$bit_depth>() * scale;
+            rgb_dst[$cn.get_r_channel_offset()] =
+                (v_src.cast_to_f32::<$bit_depth>() * scale) as f16;
+            rgb_dst[$cn.get_g_channel_offset()] =
+                (y_src.cast_to_f32::<$bit_depth>() * scale) as f16;
+            rgb_dst[$cn.get_b_channel_offset()] =
+                (u_src.cast_to_f32::<$bit_depth>() * scale) as f16;
+            rgb_dst[$cn.get_a_channel_offset()] =
+                (a_src.cast_to_f32::<$bit_depth>() * scale) as f16;
         }
     };
 }
@@ -108,7 +112,7 @@ macro_rules! exec_cv_limited {
     ($dst: expr, $y_src: expr, $u_src: expr, $v_src: expr, $a_src: expr, $cn: expr, $bit_depth: expr, $y_bias: expr, $y_coef: expr, $precision: expr) => {
         let max_value = (1 << $bit_depth) - 1;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for ((((&y_src, &u_src), &v_src), rgb_dst), a_src) in $y_src
             .iter()
@@ -118,25 +122,26 @@ macro_rules! exec_cv_limited {
             .zip($a_src)
         {
             rgb_dst[$cn.get_r_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((v_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((v_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             rgb_dst[$cn.get_g_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((y_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((y_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             rgb_dst[$cn.get_b_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((u_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
-            rgb_dst[$cn.get_a_channel_offset()] = a_src.cast_to_f16::<$bit_depth>() * scale;
+                (qrshr::<$precision, $bit_depth>((u_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
+            rgb_dst[$cn.get_a_channel_offset()] =
+                (a_src.cast_to_f32::<$bit_depth>() * scale) as f16;
         }
     };
 }
 
 #[derive(Default)]
 struct DefaultFullRowHandle<
-    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
 > {
@@ -144,7 +149,7 @@ struct DefaultFullRowHandle<
 }
 
 impl<
-        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
     > FullRowHandle<V> for DefaultFullRowHandle<V, CHANNELS, BIT_DEPTH>
@@ -165,7 +170,7 @@ impl<
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
 #[derive(Default)]
 struct DefaultFullRowHandleNeonFp16<
-    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
 > {
@@ -174,7 +179,7 @@ struct DefaultFullRowHandleNeonFp16<
 
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
 impl<
-        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
     > FullRowHandle<V> for DefaultFullRowHandleNeonFp16<V, CHANNELS, BIT_DEPTH>
@@ -196,7 +201,7 @@ impl<
 #[cfg(all(any(target_arch = "x86", target_arch = "x86_64"), feature = "avx"))]
 #[derive(Default)]
 struct DefaultFullRowHandleAvxFp16c<
-    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
 > {
@@ -205,7 +210,7 @@ struct DefaultFullRowHandleAvxFp16c<
 
 #[cfg(all(any(target_arch = "x86", target_arch = "x86_64"), feature = "avx"))]
 impl<
-        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
     > FullRowHandle<V> for DefaultFullRowHandleAvxFp16c<V, CHANNELS, BIT_DEPTH>
@@ -237,7 +242,7 @@ struct DefaultLimitedRowHandle<
 }
 
 impl<
-        V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+        V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
         J: Copy + Sub<Output = J> + AsPrimitive<i32> + Default + Send + Sync,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
@@ -274,7 +279,7 @@ struct DefaultLimitedRowHandleNeonFp16<
 
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
 impl<
-        V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + CastableToF16,
+        V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + CastableToF32,
         J: Copy + Sub<Output = J> + AsPrimitive<i32> + Default + Send + Sync,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
@@ -313,7 +318,7 @@ struct DefaultLimitedRowHandleAvxFp16c<
 
 #[cfg(all(any(target_arch = "x86", target_arch = "x86_64"), feature = "avx"))]
 impl<
-        V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + CastableToF16,
+        V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + CastableToF32,
         J: Copy + Sub<Output = J> + AsPrimitive<i32> + Default + Send + Sync,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
@@ -339,7 +344,7 @@ impl<
 
 #[inline]
 fn gbr_to_rgbx_alpha_f16_impl<
-    V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     J: Copy + Sub<Output = J> + AsPrimitive<i32> + Default + Send + Sync,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
diff --git a/src/from_identity_f16.rs b/src/from_identity_f16.rs
index f8febd1..142083d 100644
--- a/src/from_identity_f16.rs
+++ b/src/from_identity_f16.rs
@@ -41,20 +41,20 @@ use std::marker::PhantomData;
 use std::mem::size_of;
 use std::ops::Sub;
 
-trait FullRowHandle<V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16> {
+trait FullRowHandle<V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32> {
     unsafe fn process_row(&self, dst: &mut [f16], y_src: &[V], u_src: &[V], v_src: &[V]);
 }
 
-trait CastableToF16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16;
+trait CastableToF32 {
+    fn cast_to_f32<const BIT_DEPTH: usize>(self) -> f32;
 }
 
-impl CastableToF16 for u16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16 {
+impl CastableToF32 for u16 {
+    fn cast_to_f32<const BIT_DEPTH: usize>(self) -> f32 {
         if BIT_DEPTH == 16 {
-            (self as i32) as f16
+            (self as i32) as f32
         } else {
-            (self as i16) as f16
+            (self as i16) as f32
         }
     }
 }
@@ -80,14 +80,17 @@ macro_rules! exec_cv_full {
         let max_value = (1 << $bit_depth) - 1;
         let max_value_f16 = 1f32 as f16;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for (((&y_src, &u_src), &v_src), rgb_dst) in
             $y_src.iter().zip($u_src).zip($v_src).zip(rgb_chunks)
         {
-            rgb_dst[$cn.get_r_channel_offset()] = v_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_g_channel_offset()] = y_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_b_channel_offset()] = u_src.cast_to_f16::<$bit_depth>() * scale;
+            rgb_dst[$cn.get_r_channel_offset()] =
+                (v_src.cast_to_f32::<$bit_depth>() * scale) as f16;
+            rgb_dst[$cn.get_g_channel_offset()] =
+                (y_src.cast_to_f32::<$bit_depth>() * scale) as f16;
+            rgb_dst[$cn.get_b_channel_offset()] =
+                (u_src.cast_to_f32::<$bit_depth>() * scale) as f16;
             if $cn.has_alpha() {
                 rgb_dst[$cn.get_a_channel_offset()] = max_value_f16;
             }
@@ -100,23 +103,23 @@ macro_rules! exec_cv_limited {
         let max_value = (1 << $bit_depth) - 1;
         let max_value_f16 = 1f32 as f16;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for (((&y_src, &u_src), &v_src), rgb_dst) in
             $y_src.iter().zip($u_src).zip($v_src).zip(rgb_chunks)
         {
             rgb_dst[$cn.get_r_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((v_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((v_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             rgb_dst[$cn.get_g_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((y_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((y_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             rgb_dst[$cn.get_b_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((u_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((u_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             if $cn.has_alpha() {
                 rgb_dst[$cn.get_a_channel_offset()] = max_value_f16;
             }
@@ -126,7 +129,7 @@ macro_rules! exec_cv_limited {
 
 #[derive(Default)]
 struct DefaultFullRowHandle<
-    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
 > {
@@ -134,7 +137,7 @@ struct DefaultFullRowHandle<
 }
 
 impl<
-        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
     > FullRowHandle<V> for DefaultFullRowHandle<V, CHANNELS, BIT_DEPTH>
@@ -148,7 +151,7 @@ impl<
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
 #[derive(Default)]
 struct DefaultFullRowHandleNeonFp16<
-    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
 > {
@@ -157,7 +160,7 @@ struct DefaultFullRowHandleNeonFp16<
 
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
 impl<
-        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
     > FullRowHandle<V> for DefaultFullRowHandleNeonFp16<V, CHANNELS, BIT_DEPTH>
@@ -172,7 +175,7 @@ impl<
 #[cfg(all(any(target_arch = "x86", target_arch = "x86_64"), feature = "avx"))]
 #[derive(Default)]
 struct DefaultFullRowHandleAvxFp16c<
-    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
 > {
@@ -181,7 +184,7 @@ struct DefaultFullRowHandleAvxFp16c<
 
 #[cfg(all(any(target_arch = "x86", target_arch = "x86_64"), feature = "avx"))]
 impl<
-        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
     > FullRowHandle<V> for DefaultFullRowHandleAvxFp16c<V, CHANNELS, BIT_DEPTH>
@@ -305,7 +308,7 @@ impl<
 
 #[inline]
 fn gbr_to_rgbx_f16_impl<
-    V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     J: Copy + Sub<Output = J> + AsPrimitive<i32> + Default + Send + Sync,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
-- 
2.43.0


From 4934cda77f212d1804326002338e72499d3789e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:09 +0000
Subject: [PATCH 29/37] fix: high bit depth RGB to YUV 4:2:2 used row padding
 as the odd last column

---
 src/rgb16_to_yuv_p16.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rgb16_to_yuv_p16.rs b/src/rgb16_to_yuv_p16.rs
index afd41fe..ad0b794 100644
--- a/src/rgb16_to_yuv_p16.rs
+++ b/src/rgb16_to_yuv_p16.rs
@@ -780,7 +780,12 @@ fn rgbx_to_yuv_ant<
         }
 
         iter.for_each(|(((y_plane, u_plane), v_plane), rgba)| {
-            process_halved_chroma_row(y_plane, u_plane, v_plane, rgba);
+            process_halved_chroma_row(
+                &mut y_plane[0..image.width as usize],
+                &mut u_plane[0..(image.width as usize).div_ceil(2)],
+                &mut v_plane[0..(image.width as usize).div_ceil(2)],
+                &rgba[0..image.width as usize * channels],
+            );
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
         let iter;
-- 
2.43.0


From 734dd9f1654b64fb68cbec25eceb240caafe38e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 30/37] fix: packed 4:2:2 to planar dropped row tails and the
 odd last row, took 4:2:0 chroma from differing rows and wrote V padding

---
 src/yuy2_to_yuv.rs     | 107 +++++++++++++++++++++++------------------
 src/yuy2_to_yuv_p16.rs |  97 +++++++++++++++++++++----------------
 2 files changed, 117 insertions(+), 87 deletions(-)

diff --git a/src/yuy2_to_yuv.rs b/src/yuy2_to_yuv.rs
index d565919..9c3ea6c 100644
--- a/src/yuy2_to_yuv.rs
+++ b/src/yuy2_to_yuv.rs
@@ -146,7 +146,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..planar_image.width as usize];
-            let u_dst = &mut u_dst[0..planar_image.width as usize];
+            let v_dst = &mut v_dst[0..planar_image.width as usize];
 
             let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2_src);
 
@@ -155,7 +155,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 .zip(u_dst.chunks_exact_mut(2))
                 .zip(v_dst.chunks_exact_mut(2))
                 .zip(yuy2_src.chunks_exact(4))
-                .skip(p_offset.cx)
+                .skip(p_offset.cx / 2)
             {
                 let first_y_position = yuy2[yuy2_target.get_first_y_position()];
                 let second_y_position = yuy2[yuy2_target.get_second_y_position()];
@@ -210,7 +210,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-            let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+            let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
             let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2_src);
 
@@ -219,7 +219,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 .zip(u_dst.iter_mut())
                 .zip(v_dst.iter_mut())
                 .zip(yuy2_src.chunks_exact(4))
-                .skip(p_offset.cx)
+                .skip(p_offset.cx / 2)
             {
                 let first_y_position = yuy2[yuy2_target.get_first_y_position()];
                 let second_y_position = yuy2[yuy2_target.get_second_y_position()];
@@ -268,54 +268,69 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                         .chunks_exact(packed_image.yuy_stride as usize * 2),
                 );
         }
-        iter.for_each(|(((y_dst, u_dst), v_dst), yuy2_src)| {
-            for (y, (y_dst, yuy2)) in y_dst
-                .chunks_exact_mut(y_stride as usize)
-                .zip(yuy2_src.chunks_exact(packed_image.yuy_stride as usize))
-                .enumerate()
+        let process_row = |y_dst: &mut [u8],
+                           u_dst: &mut [u8],
+                           v_dst: &mut [u8],
+                           yuy2: &[u8],
+                           process_chroma: bool| {
+            let yuy2 = &yuy2[0..yuy2_width];
+            let y_dst = &mut y_dst[0..planar_image.width as usize];
+            let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+            let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
+
+            let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2);
+
+            for (((y_dst, u_dst), v_dst), yuy2) in y_dst
+                .chunks_exact_mut(2)
+                .zip(u_dst.iter_mut())
+                .zip(v_dst.iter_mut())
+                .zip(yuy2.chunks_exact(4))
+                .skip(p_offset.cx / 2)
             {
-                let yuy2 = &yuy2[0..yuy2_width];
-                let y_dst = &mut y_dst[0..planar_image.width as usize];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-
-                let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2);
-
-                let process_chroma = y & 1 == 0;
-
-                for (((y_dst, u_dst), v_dst), yuy2) in y_dst
-                    .chunks_exact_mut(2)
-                    .zip(u_dst.iter_mut())
-                    .zip(v_dst.iter_mut())
-                    .zip(yuy2.chunks_exact(4))
-                    .skip(p_offset.cx)
-                {
-                    let first_y_position = yuy2[yuy2_target.get_first_y_position()];
-                    let second_y_position = yuy2[yuy2_target.get_second_y_position()];
-                    y_dst[0] = first_y_position;
-                    y_dst[1] = second_y_position;
-                    if process_chroma {
-                        let u_value = yuy2[yuy2_target.get_u_position()];
-                        let v_value = yuy2[yuy2_target.get_v_position()];
-                        *u_dst = u_value;
-                        *v_dst = v_value;
-                    }
+                let first_y_position = yuy2[yuy2_target.get_first_y_position()];
+                let second_y_position = yuy2[yuy2_target.get_second_y_position()];
+                y_dst[0] = first_y_position;
+                y_dst[1] = second_y_position;
+                if process_chroma {
+                    let u_value = yuy2[yuy2_target.get_u_position()];
+                    let v_value = yuy2[yuy2_target.get_v_position()];
+                    *u_dst = u_value;
+                    *v_dst = v_value;
                 }
+            }
 
-                if width & 1 != 0 {
-                    let y_dst = y_dst.last_mut().unwrap();
-                    let yuy2 = yuy2_src.chunks_exact(4).last().unwrap();
-                    let yuy2 = &yuy2[0..4];
-                    *y_dst = yuy2[yuy2_target.get_first_y_position()];
-                    if process_chroma {
-                        let u_dst = u_dst.last_mut().unwrap();
-                        let v_dst = v_dst.last_mut().unwrap();
-                        *u_dst = yuy2[yuy2_target.get_u_position()];
-                        *v_dst = yuy2[yuy2_target.get_v_position()];
-                    }
+            if width & 1 != 0 {
+                let y_dst = y_dst.last_mut().unwrap();
+                let yuy2 = yuy2.chunks_exact(4).last().unwrap();
+                let yuy2 = &yuy2[0..4];
+                *y_dst = yuy2[yuy2_target.get_first_y_position()];
+                if process_chroma {
+                    let u_dst = u_dst.last_mut().unwrap();
+                    let v_dst = v_dst.last_mut().unwrap();
+                    *u_dst = yuy2[yuy2_target.get_u_position()];
+                    *v_dst = yuy2[yuy2_target.get_v_position()];
                 }
             }
+        };
+
+        iter.for_each(|(((y_dst, u_dst), v_dst), yuy2_src)| {
+            let (y_dst0, y_dst1) = y_dst.split_at_mut(y_stride as usize);
+            let (yuy2_0, yuy2_1) = yuy2_src.split_at(packed_image.yuy_stride as usize);
+            // Chroma is taken from the first row, so it has to be written last
+            process_row(y_dst1, u_dst, v_dst, yuy2_1, false);
+            process_row(y_dst0, u_dst, v_dst, yuy2_0, true);
         });
+
+        if planar_image.height & 1 != 0 {
+            let last_row = planar_image.height as usize - 1;
+            process_row(
+                &mut y_plane[last_row * y_stride as usize..],
+                &mut u_plane[last_row / 2 * u_stride as usize..],
+                &mut v_plane[last_row / 2 * v_stride as usize..],
+                &packed_image.yuy[last_row * packed_image.yuy_stride as usize..],
+                true,
+            );
+        }
     }
 
     Ok(())
diff --git a/src/yuy2_to_yuv_p16.rs b/src/yuy2_to_yuv_p16.rs
index 225bd28..c3a7d35 100644
--- a/src/yuy2_to_yuv_p16.rs
+++ b/src/yuy2_to_yuv_p16.rs
@@ -90,7 +90,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..planar_image.width as usize];
-            let u_dst = &mut u_dst[0..planar_image.width as usize];
+            let v_dst = &mut v_dst[0..planar_image.width as usize];
 
             for (((y_dst, u_dst), v_dst), yuy2) in y_dst
                 .chunks_exact_mut(2)
@@ -151,7 +151,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-            let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+            let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
             for (((y_dst, u_dst), v_dst), yuy2) in y_dst
                 .chunks_exact_mut(2)
@@ -206,51 +206,66 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                         .chunks_exact(packed_image.yuy_stride as usize * 2),
                 );
         }
-        iter.for_each(|(((y_dst, u_dst), v_dst), yuy2_src)| {
-            for (y, (y_dst, yuy2)) in y_dst
-                .chunks_exact_mut(y_stride as usize)
-                .zip(yuy2_src.chunks_exact(packed_image.yuy_stride as usize))
-                .enumerate()
-            {
-                let yuy2 = &yuy2[0..yuy2_width];
-                let y_dst = &mut y_dst[0..planar_image.width as usize];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-
-                let process_chroma = y & 1 == 0;
+        let process_row = |y_dst: &mut [u16],
+                           u_dst: &mut [u16],
+                           v_dst: &mut [u16],
+                           yuy2: &[u16],
+                           process_chroma: bool| {
+            let yuy2 = &yuy2[0..yuy2_width];
+            let y_dst = &mut y_dst[0..planar_image.width as usize];
+            let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+            let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
-                for (((y_dst, u_dst), v_dst), yuy2) in y_dst
-                    .chunks_exact_mut(2)
-                    .zip(u_dst.iter_mut())
-                    .zip(v_dst.iter_mut())
-                    .zip(yuy2.chunks_exact(4))
-                {
-                    let first_y_position = yuy2[yuy2_target.get_first_y_position()];
-                    let second_y_position = yuy2[yuy2_target.get_second_y_position()];
-                    y_dst[0] = first_y_position;
-                    y_dst[1] = second_y_position;
-                    if process_chroma {
-                        let u_value = yuy2[yuy2_target.get_u_position()];
-                        let v_value = yuy2[yuy2_target.get_v_position()];
-                        *u_dst = u_value;
-                        *v_dst = v_value;
-                    }
+            for (((y_dst, u_dst), v_dst), yuy2) in y_dst
+                .chunks_exact_mut(2)
+                .zip(u_dst.iter_mut())
+                .zip(v_dst.iter_mut())
+                .zip(yuy2.chunks_exact(4))
+            {
+                let first_y_position = yuy2[yuy2_target.get_first_y_position()];
+                let second_y_position = yuy2[yuy2_target.get_second_y_position()];
+                y_dst[0] = first_y_position;
+                y_dst[1] = second_y_position;
+                if process_chroma {
+                    let u_value = yuy2[yuy2_target.get_u_position()];
+                    let v_value = yuy2[yuy2_target.get_v_position()];
+                    *u_dst = u_value;
+                    *v_dst = v_value;
                 }
+            }
 
-                if width & 1 != 0 {
-                    let y_dst = y_dst.last_mut().unwrap();
-                    let yuy2 = yuy2_src.chunks_exact(4).last().unwrap();
-                    let yuy2 = &yuy2[0..4];
-                    *y_dst = yuy2[yuy2_target.get_first_y_position()];
-                    if process_chroma {
-                        let u_dst = u_dst.last_mut().unwrap();
-                        let v_dst = v_dst.last_mut().unwrap();
-                        *u_dst = yuy2[yuy2_target.get_u_position()];
-                        *v_dst = yuy2[yuy2_target.get_v_position()];
-                    }
+            if width & 1 != 0 {
+                let y_dst = y_dst.last_mut().unwrap();
+                let yuy2 = yuy2.chunks_exact(4).last().unwrap();
+                let yuy2 = &yuy2[0..4];
+                *y_dst = yuy2[yuy2_target.get_first_y_position()];
+                if process_chroma {
+                    let u_dst = u_dst.last_mut().unwrap();
+                    let v_dst = v_dst.last_mut().unwrap();
+                    *u_dst = yuy2[yuy2_target.get_u_position()];
+                    *v_dst = yuy2[yuy2_target.get_v_position()];
                 }
             }
+        };
+
+        iter.for_each(|(((y_dst, u_dst), v_dst), yuy2_src)| {
+            let (y_dst0, y_dst1) = y_dst.split_at_mut(y_stride as usize);
+            let (yuy2_0, yuy2_1) = yuy2_src.split_at(packed_image.yuy_stride as usize);
+            // Chroma is taken from the first row, so it has to be written last
+            process_row(y_dst1, u_dst, v_dst, yuy2_1, false);
+            process_row(y_dst0, u_dst, v_dst, yuy2_0, true);
         });
+
+        if planar_image.height & 1 != 0 {
+            let last_row = planar_image.height as usize - 1;
+            process_row(
+                &mut y_plane[last_row * y_stride as usize..],
+                &mut u_plane[last_row / 2 * u_stride as usize..],
+                &mut v_plane[last_row / 2 * v_stride as usize..],
+                &packed_image.yuy[last_row * packed_image.yuy_stride as usize..],
+                true,
+            );
+        }
     }
 
     Ok(())
-- 
2.43.0


From 83215cc532317416e71b81d6f9c31be5117b93f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 31/37] fix: 4:4:4 YUV to AR30/RA30 wrote row padding

---
 src/yuv_p16_ar30.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yuv_p16_ar30.rs b/src/yuv_p16_ar30.rs
index 948fe19..0725ec5 100644
--- a/src/yuv_p16_ar30.rs
+++ b/src/yuv_p16_ar30.rs
@@ -173,6 +173,7 @@ fn yuv_p16_to_image_ar30<
                 .zip(image.v_plane.chunks_exact(image.v_stride as usize));
         }
         iter.for_each(|(((rgba, y_plane), u_plane), v_plane)| {
+            let rgba = &mut rgba[0..image.width as usize * 4];
             for (((rgba, &y_src), &u_src), &v_src) in rgba
                 .chunks_exact_mut(4)
                 .zip(y_plane.iter())
-- 
2.43.0


From 878a711c73950deb640d395c907a5034c55e9549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 32/37] fix: 4:2:2 YUVA to RGBA used row padding as the odd
 last column

---
 src/yuv_p16_rgba_alpha.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/yuv_p16_rgba_alpha.rs b/src/yuv_p16_rgba_alpha.rs
index 73400f5..8ae4a58 100644
--- a/src/yuv_p16_rgba_alpha.rs
+++ b/src/yuv_p16_rgba_alpha.rs
@@ -353,7 +353,13 @@ fn yuv_p16_to_image_alpha_ant<
                 .zip(image.v_plane.chunks_exact(image.v_stride as usize));
         }
         iter.for_each(|((((rgba, y_plane), a_plane), u_plane), v_plane)| {
-            process_halved_chroma_row(y_plane, u_plane, v_plane, a_plane, rgba);
+            process_halved_chroma_row(
+                &y_plane[0..image.width as usize],
+                &u_plane[0..(image.width as usize).div_ceil(2)],
+                &v_plane[0..(image.width as usize).div_ceil(2)],
+                &a_plane[0..image.width as usize],
+                &mut rgba[0..image.width as usize * channels],
+            );
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
         let iter;
-- 
2.43.0


From 25cc13425723b9721905959b1a31cdf1b4adcaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:25 +0000
Subject: [PATCH 33/37] fix: SIMD fast bi-planar YUV to RGB wrapped bright
 greens with wide custom matrices

---
 src/avx2/yuv_nv_to_rgba_fast.rs        |  8 ++++----
 src/avx2/yuv_nv_to_rgba_fast420.rs     | 16 ++++++++--------
 src/avx512bw/yuv_nv_to_rgba_fast420.rs | 16 ++++++++--------
 src/sse/yuv_nv_to_rgba_fast.rs         |  8 ++++----
 src/sse/yuv_nv_to_rgba_fast420.rs      | 16 ++++++++--------
 5 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/avx2/yuv_nv_to_rgba_fast.rs b/src/avx2/yuv_nv_to_rgba_fast.rs
index 105ecc2..b81bf7d 100644
--- a/src/avx2/yuv_nv_to_rgba_fast.rs
+++ b/src/avx2/yuv_nv_to_rgba_fast.rs
@@ -169,11 +169,11 @@ unsafe fn avx_yuv_nv_to_rgba_fast_impl<
 
         let mut r_high0 = _mm256_adds_epi16(y_gh, r_c_hi);
         let mut b_high0 = _mm256_adds_epi16(y_gh, b_c_hi);
-        let mut g_high0 = _mm256_sub_epi16(y_gh, g_c_hi);
+        let mut g_high0 = _mm256_subs_epi16(y_gh, g_c_hi);
 
         let mut r_low0 = _mm256_adds_epi16(y_gl, r_c_lo);
         let mut b_low0 = _mm256_adds_epi16(y_gl, b_c_lo);
-        let mut g_low0 = _mm256_sub_epi16(y_gl, g_c_lo);
+        let mut g_low0 = _mm256_subs_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
         b_low0 = _mm256_srai_epi16::<6>(b_low0);
@@ -304,11 +304,11 @@ unsafe fn avx_yuv_nv_to_rgba_fast_impl<
 
         let mut r_high0 = _mm256_adds_epi16(y_gh, r_c_hi);
         let mut b_high0 = _mm256_adds_epi16(y_gh, b_c_hi);
-        let mut g_high0 = _mm256_sub_epi16(y_gh, g_c_hi);
+        let mut g_high0 = _mm256_subs_epi16(y_gh, g_c_hi);
 
         let mut r_low0 = _mm256_adds_epi16(y_gl, r_c_lo);
         let mut b_low0 = _mm256_adds_epi16(y_gl, b_c_lo);
-        let mut g_low0 = _mm256_sub_epi16(y_gl, g_c_lo);
+        let mut g_low0 = _mm256_subs_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
         b_low0 = _mm256_srai_epi16::<6>(b_low0);
diff --git a/src/avx2/yuv_nv_to_rgba_fast420.rs b/src/avx2/yuv_nv_to_rgba_fast420.rs
index 0fa03cb..6584a10 100644
--- a/src/avx2/yuv_nv_to_rgba_fast420.rs
+++ b/src/avx2/yuv_nv_to_rgba_fast420.rs
@@ -127,11 +127,11 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
 
         let mut r_high0 = _mm256_adds_epi16(y_g0, r_c_hi);
         let mut b_high0 = _mm256_adds_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm256_sub_epi16(y_g0, g_c_hi);
+        let mut g_high0 = _mm256_subs_epi16(y_g0, g_c_hi);
 
         let mut r_high1 = _mm256_adds_epi16(y_g1, r_c_hi);
         let mut b_high1 = _mm256_adds_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm256_sub_epi16(y_g1, g_c_hi);
+        let mut g_high1 = _mm256_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm256_unpacklo_epi8(y_values0, _mm256_setzero_si256());
         let y_lo1 = _mm256_unpacklo_epi8(y_values1, _mm256_setzero_si256());
@@ -141,11 +141,11 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
 
         let mut r_low0 = _mm256_adds_epi16(y_gl0, r_c_lo);
         let mut b_low0 = _mm256_adds_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm256_sub_epi16(y_gl0, g_c_lo);
+        let mut g_low0 = _mm256_subs_epi16(y_gl0, g_c_lo);
 
         let mut r_low1 = _mm256_adds_epi16(y_gl1, r_c_lo);
         let mut b_low1 = _mm256_adds_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm256_sub_epi16(y_gl1, g_c_lo);
+        let mut g_low1 = _mm256_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
         b_low0 = _mm256_srai_epi16::<6>(b_low0);
@@ -251,11 +251,11 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
 
         let mut r_high0 = _mm256_adds_epi16(y_g0, r_c_hi);
         let mut b_high0 = _mm256_adds_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm256_sub_epi16(y_g0, g_c_hi);
+        let mut g_high0 = _mm256_subs_epi16(y_g0, g_c_hi);
 
         let mut r_high1 = _mm256_adds_epi16(y_g1, r_c_hi);
         let mut b_high1 = _mm256_adds_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm256_sub_epi16(y_g1, g_c_hi);
+        let mut g_high1 = _mm256_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm256_unpacklo_epi8(y_values0, _mm256_setzero_si256());
         let y_lo1 = _mm256_unpacklo_epi8(y_values1, _mm256_setzero_si256());
@@ -265,11 +265,11 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
 
         let mut r_low0 = _mm256_adds_epi16(y_gl0, r_c_lo);
         let mut b_low0 = _mm256_adds_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm256_sub_epi16(y_gl0, g_c_lo);
+        let mut g_low0 = _mm256_subs_epi16(y_gl0, g_c_lo);
 
         let mut r_low1 = _mm256_adds_epi16(y_gl1, r_c_lo);
         let mut b_low1 = _mm256_adds_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm256_sub_epi16(y_gl1, g_c_lo);
+        let mut g_low1 = _mm256_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
         b_low0 = _mm256_srai_epi16::<6>(b_low0);
diff --git a/src/avx512bw/yuv_nv_to_rgba_fast420.rs b/src/avx512bw/yuv_nv_to_rgba_fast420.rs
index 0f2ed1d..7e52afc 100644
--- a/src/avx512bw/yuv_nv_to_rgba_fast420.rs
+++ b/src/avx512bw/yuv_nv_to_rgba_fast420.rs
@@ -179,11 +179,11 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
 
         let mut r_high0 = _mm512_adds_epi16(y_g0, r_c_hi);
         let mut b_high0 = _mm512_adds_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm512_sub_epi16(y_g0, g_c_hi);
+        let mut g_high0 = _mm512_subs_epi16(y_g0, g_c_hi);
 
         let mut r_high1 = _mm512_adds_epi16(y_g1, r_c_hi);
         let mut b_high1 = _mm512_adds_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm512_sub_epi16(y_g1, g_c_hi);
+        let mut g_high1 = _mm512_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm512_unpacklo_epi8(y_values0, _mm512_setzero_si512());
         let y_lo1 = _mm512_unpacklo_epi8(y_values1, _mm512_setzero_si512());
@@ -193,11 +193,11 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
 
         let mut r_low0 = _mm512_adds_epi16(y_gl0, r_c_lo);
         let mut b_low0 = _mm512_adds_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm512_sub_epi16(y_gl0, g_c_lo);
+        let mut g_low0 = _mm512_subs_epi16(y_gl0, g_c_lo);
 
         let mut r_low1 = _mm512_adds_epi16(y_gl1, r_c_lo);
         let mut b_low1 = _mm512_adds_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm512_sub_epi16(y_gl1, g_c_lo);
+        let mut g_low1 = _mm512_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm512_srai_epi16::<6>(r_low0);
         b_low0 = _mm512_srai_epi16::<6>(b_low0);
@@ -303,11 +303,11 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
 
         let mut r_high0 = _mm512_adds_epi16(y_g0, r_c_hi);
         let mut b_high0 = _mm512_adds_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm512_sub_epi16(y_g0, g_c_hi);
+        let mut g_high0 = _mm512_subs_epi16(y_g0, g_c_hi);
 
         let mut r_high1 = _mm512_adds_epi16(y_g1, r_c_hi);
         let mut b_high1 = _mm512_adds_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm512_sub_epi16(y_g1, g_c_hi);
+        let mut g_high1 = _mm512_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm512_unpacklo_epi8(y_values0, _mm512_setzero_si512());
         let y_lo1 = _mm512_unpacklo_epi8(y_values1, _mm512_setzero_si512());
@@ -317,11 +317,11 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
 
         let mut r_low0 = _mm512_adds_epi16(y_gl0, r_c_lo);
         let mut b_low0 = _mm512_adds_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm512_sub_epi16(y_gl0, g_c_lo);
+        let mut g_low0 = _mm512_subs_epi16(y_gl0, g_c_lo);
 
         let mut r_low1 = _mm512_adds_epi16(y_gl1, r_c_lo);
         let mut b_low1 = _mm512_adds_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm512_sub_epi16(y_gl1, g_c_lo);
+        let mut g_low1 = _mm512_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm512_srai_epi16::<6>(r_low0);
         b_low0 = _mm512_srai_epi16::<6>(b_low0);
diff --git a/src/sse/yuv_nv_to_rgba_fast.rs b/src/sse/yuv_nv_to_rgba_fast.rs
index a58c84c..225161d 100644
--- a/src/sse/yuv_nv_to_rgba_fast.rs
+++ b/src/sse/yuv_nv_to_rgba_fast.rs
@@ -153,11 +153,11 @@ unsafe fn sse_yuv_nv_to_rgba_fast_impl<
 
         let mut r_high0 = _mm_adds_epi16(y_gh, r_c_hi);
         let mut b_high0 = _mm_adds_epi16(y_gh, b_c_hi);
-        let mut g_high0 = _mm_sub_epi16(y_gh, g_c_hi);
+        let mut g_high0 = _mm_subs_epi16(y_gh, g_c_hi);
 
         let mut r_low0 = _mm_adds_epi16(y_gl, r_c_lo);
         let mut b_low0 = _mm_adds_epi16(y_gl, b_c_lo);
-        let mut g_low0 = _mm_sub_epi16(y_gl, g_c_lo);
+        let mut g_low0 = _mm_subs_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
         b_low0 = _mm_srai_epi16::<6>(b_low0);
@@ -267,11 +267,11 @@ unsafe fn sse_yuv_nv_to_rgba_fast_impl<
 
         let mut r_high0 = _mm_adds_epi16(y_gh, r_c_hi);
         let mut b_high0 = _mm_adds_epi16(y_gh, b_c_hi);
-        let mut g_high0 = _mm_sub_epi16(y_gh, g_c_hi);
+        let mut g_high0 = _mm_subs_epi16(y_gh, g_c_hi);
 
         let mut r_low0 = _mm_adds_epi16(y_gl, r_c_lo);
         let mut b_low0 = _mm_adds_epi16(y_gl, b_c_lo);
-        let mut g_low0 = _mm_sub_epi16(y_gl, g_c_lo);
+        let mut g_low0 = _mm_subs_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
         b_low0 = _mm_srai_epi16::<6>(b_low0);
diff --git a/src/sse/yuv_nv_to_rgba_fast420.rs b/src/sse/yuv_nv_to_rgba_fast420.rs
index 13c3dc7..5d96025 100644
--- a/src/sse/yuv_nv_to_rgba_fast420.rs
+++ b/src/sse/yuv_nv_to_rgba_fast420.rs
@@ -123,11 +123,11 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
 
         let mut r_high0 = _mm_adds_epi16(y_g0, r_c_hi);
         let mut b_high0 = _mm_adds_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm_sub_epi16(y_g0, g_c_hi);
+        let mut g_high0 = _mm_subs_epi16(y_g0, g_c_hi);
 
         let mut r_high1 = _mm_adds_epi16(y_g1, r_c_hi);
         let mut b_high1 = _mm_adds_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm_sub_epi16(y_g1, g_c_hi);
+        let mut g_high1 = _mm_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm_unpacklo_epi8(y_values0, _mm_setzero_si128());
         let y_lo1 = _mm_unpacklo_epi8(y_values1, _mm_setzero_si128());
@@ -137,11 +137,11 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
 
         let mut r_low0 = _mm_adds_epi16(y_gl0, r_c_lo);
         let mut b_low0 = _mm_adds_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm_sub_epi16(y_gl0, g_c_lo);
+        let mut g_low0 = _mm_subs_epi16(y_gl0, g_c_lo);
 
         let mut r_low1 = _mm_adds_epi16(y_gl1, r_c_lo);
         let mut b_low1 = _mm_adds_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm_sub_epi16(y_gl1, g_c_lo);
+        let mut g_low1 = _mm_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
         b_low0 = _mm_srai_epi16::<6>(b_low0);
@@ -247,11 +247,11 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
 
         let mut r_high0 = _mm_adds_epi16(y_g0, r_c_hi);
         let mut b_high0 = _mm_adds_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm_sub_epi16(y_g0, g_c_hi);
+        let mut g_high0 = _mm_subs_epi16(y_g0, g_c_hi);
 
         let mut r_high1 = _mm_adds_epi16(y_g1, r_c_hi);
         let mut b_high1 = _mm_adds_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm_sub_epi16(y_g1, g_c_hi);
+        let mut g_high1 = _mm_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm_unpacklo_epi8(y_values0, _mm_setzero_si128());
         let y_lo1 = _mm_unpacklo_epi8(y_values1, _mm_setzero_si128());
@@ -261,11 +261,11 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
 
         let mut r_low0 = _mm_adds_epi16(y_gl0, r_c_lo);
         let mut b_low0 = _mm_adds_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm_sub_epi16(y_gl0, g_c_lo);
+        let mut g_low0 = _mm_subs_epi16(y_gl0, g_c_lo);
 
         let mut r_low1 = _mm_adds_epi16(y_gl1, r_c_lo);
         let mut b_low1 = _mm_adds_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm_sub_epi16(y_gl1, g_c_lo);
+        let mut g_low1 = _mm_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
         b_low0 = _mm_srai_epi16::<6>(b_low0);
-- 
2.43.0


From 5a27ecf47948cc6fe2099558f1ce999c14819c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:39 +0000
Subject: [PATCH 34/37] fix: 4:4:4 YUV to packed 4:2:2 wrote wrong chroma on
 x86 SIMD and left gaps after the vector part

---
 src/avx2/avx2_utils.rs |  8 +-------
 src/sse/yuv_to_yuy2.rs | 10 ++--------
 src/yuv_to_yuy2.rs     |  2 +-
 3 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/avx2/avx2_utils.rs b/src/avx2/avx2_utils.rs
index 4def35a..3b621f5 100644
--- a/src/avx2/avx2_utils.rs
+++ b/src/avx2/avx2_utils.rs
@@ -336,12 +336,6 @@ pub(crate) unsafe fn avx2_deinterleave_rgb(
 //     _mm256_permute4x64_epi64::<MASK>(v)
 // }
 
-#[inline(always)]
-pub(crate) unsafe fn avx_pairwise_avg_epi16(a: __m256i, b: __m256i) -> __m256i {
-    let sums = _mm256_hadd_epi16(a, b);
-    _mm256_srli_epi16::<1>(_mm256_add_epi16(sums, _mm256_set1_epi16(1)))
-}
-
 #[inline(always)]
 pub(crate) unsafe fn avx_pairwise_avg_epi16_epi8_j(a: __m256i, f: i8) -> __m256i {
     _mm256_maddubs_epi16(a, _mm256_set1_epi8(f))
@@ -470,7 +464,7 @@ pub(crate) unsafe fn _mm256_havg_epu8(a: __m256i, b: __m256i) -> __m256i {
     let lo = _mm256_srli_epi16::<1>(_mm256_add_epi16(sums_lo, ones_16));
     let sums_hi = _mm256_maddubs_epi16(b, ones);
     let hi = _mm256_srli_epi16::<1>(_mm256_add_epi16(sums_hi, ones_16));
-    avx_pairwise_avg_epi16(lo, hi)
+    avx2_pack_u16(lo, hi)
 }
 
 #[inline(always)]
diff --git a/src/sse/yuv_to_yuy2.rs b/src/sse/yuv_to_yuy2.rs
index bca03a6..b8aa189 100644
--- a/src/sse/yuv_to_yuy2.rs
+++ b/src/sse/yuv_to_yuy2.rs
@@ -142,14 +142,8 @@ unsafe fn yuv_to_yuy2_sse_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 let full_u = _mm_loadu_si128(u_plane.as_ptr().add(u_pos) as *const __m128i);
                 let full_v = _mm_loadu_si128(v_plane.as_ptr().add(v_pos) as *const __m128i);
 
-                let low_u = _mm_getlow_epi8(full_u);
-                let high_u = _mm_gethigh_epi8(full_u);
-                u_pixels = _mm_havg_epu8(low_u, high_u);
-
-                let low_v = _mm_getlow_epi8(full_v);
-                let high_v = _mm_gethigh_epi8(full_v);
-
-                v_pixels = _mm_havg_epu8(low_v, high_v);
+                u_pixels = _mm_havg_epu8(full_u, full_u);
+                v_pixels = _mm_havg_epu8(full_v, full_v);
             } else {
                 u_pixels = _mm_loadu_si64(u_plane.as_ptr().add(u_pos));
                 v_pixels = _mm_loadu_si64(v_plane.as_ptr().add(v_pos));
diff --git a/src/yuv_to_yuy2.rs b/src/yuv_to_yuy2.rs
index 4512b83..cda8390 100644
--- a/src/yuv_to_yuy2.rs
+++ b/src/yuv_to_yuy2.rs
@@ -243,7 +243,7 @@ pub(crate) fn yuv_to_yuy2_impl<
                 .zip(y_src.chunks_exact(2))
                 .zip(u_src.chunks_exact(2))
                 .zip(v_src.chunks_exact(2))
-                .skip(processed)
+                .skip(processed / 2)
             {
                 yuy2[yuy2_target.get_first_y_position()] = y_src[0];
                 yuy2[yuy2_target.get_second_y_position()] = y_src[1];
-- 
2.43.0


From 75fc2a05fd3aeef1c732403b0d15e22a6f26dbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:20 +0000
Subject: [PATCH 35/37] fix: Rotate90 misplaced leftover columns for RGBA, CbCr
 and 16-bit planes

---
 src/geometry.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 08b976b..5f72ee1 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -53,6 +53,17 @@ pub(crate) fn map_ft_result(result: Result<(), TransposeError>) -> Result<(), Yu
     }
 }
 
+/// Reverses the order of the rows of an image.
+///
+/// `fast_transpose` misplaces the leftover columns for some pixel sizes when it has to mirror
+/// the result, so the mirroring is done here.
+fn reverse_rows<T: Copy>(data: &mut [T], stride: usize, row_len: usize, rows: usize) {
+    for i in 0..rows / 2 {
+        let (top, bottom) = data.split_at_mut((rows - 1 - i) * stride);
+        top[i * stride..i * stride + row_len].swap_with_slice(&mut bottom[..row_len]);
+    }
+}
+
 /// Rotates RGBA 8 bit image.
 ///
 /// This rotates any 4 channels image, channel order does not matter.
@@ -87,8 +98,9 @@ pub fn rotate_rgba(
             width,
             height,
             FlipMode::NoFlip,
-            FlopMode::NoFlop,
-        ),
+            FlopMode::Flop,
+        )
+        .map(|_| reverse_rows(dst, dst_stride, height * 4, width)),
         RotationMode::Rotate180 => rotate180_rgba(src, src_stride, dst, dst_stride, width, height),
         RotationMode::Rotate270 => transpose_rgba(
             src,
@@ -189,8 +201,9 @@ pub fn rotate_cbcr(
             width,
             height,
             FlipMode::NoFlip,
-            FlopMode::NoFlop,
-        ),
+            FlopMode::Flop,
+        )
+        .map(|_| reverse_rows(dst, dst_stride, height * 2, width)),
         RotationMode::Rotate180 => {
             rotate180_plane_with_alpha(src, src_stride, dst, dst_stride, width, height)
         }
@@ -293,8 +306,9 @@ pub fn rotate_rgba16(
             width,
             height,
             FlipMode::NoFlip,
-            FlopMode::NoFlop,
-        ),
+            FlopMode::Flop,
+        )
+        .map(|_| reverse_rows(dst, dst_stride, height * 4, width)),
         RotationMode::Rotate180 => {
             rotate180_rgba16(src, src_stride, dst, dst_stride, width, height)
         }
@@ -450,8 +464,9 @@ pub fn rotate_plane16(
             width,
             height,
             FlipMode::NoFlip,
-            FlopMode::NoFlop,
-        ),
+            FlopMode::Flop,
+        )
+        .map(|_| reverse_rows(dst, dst_stride, height, width)),
         RotationMode::Rotate180 => {
             rotate180_plane16(src, src_stride, dst, dst_stride, width, height)
         }
-- 
2.43.0


From 38121fe902f18a2fad55f2be71eadd046fe4468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:47 +0000
Subject: [PATCH 36/37] fix: packed 4:2:2 images with a wrong stride were
 accepted

---
 src/yuv_error.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/yuv_error.rs b/src/yuv_error.rs
index 0f9be9e..dc070e9 100644
--- a/src/yuv_error.rs
+++ b/src/yuv_error.rs
@@ -156,12 +156,15 @@ pub(crate) fn check_yuv_packed422<V>(
         return Err(YuvError::ZeroBaseSize);
     }
     check_overflow_v2(stride as usize, height as usize)?;
-    check_overflow_v2(width as usize, height as usize)?;
-    let full_size = if width % 2 == 0 {
-        2 * width as usize * height as usize
-    } else {
-        2 * (width as usize + 1) * height as usize
-    };
+    let row_size = 2 * (width as usize).next_multiple_of(2);
+    check_overflow_v2(row_size, height as usize)?;
+    let full_size = row_size * height as usize;
+    if stride as usize != row_size {
+        return Err(YuvError::MinimumStrideSizeMismatch(MismatchedSize {
+            expected: row_size,
+            received: stride as usize,
+        }));
+    }
     if data.len() != full_size {
         return Err(YuvError::PackedFrameSizeMismatch(MismatchedSize {
             expected: stride as usize * height as usize,
-- 
2.43.0


From 4e1944ee7bf13d94b8f0c5e9a1cd0bc3035ef3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:17 +0000
Subject: [PATCH 37/37] fix: high bit depth gray to RGB did not validate its
 images

---
 src/y_p16_to_rgb16.rs            | 4 ++++
 src/y_p16_with_alpha_to_rgb16.rs | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/y_p16_to_rgb16.rs b/src/y_p16_to_rgb16.rs
index c017ceb..462a86b 100644
--- a/src/y_p16_to_rgb16.rs
+++ b/src/y_p16_to_rgb16.rs
@@ -28,6 +28,7 @@
  */
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
 use crate::neon::neon_y_p16_to_rgba16_row;
+use crate::yuv_error::check_rgba_destination;
 use crate::yuv_support::*;
 use crate::{YuvError, YuvGrayImage};
 use num_traits::AsPrimitive;
@@ -141,6 +142,9 @@ where
     let max_colors = (1 << bit_depth) - 1;
 
     let channels = cn.get_channels_count();
+
+    check_rgba_destination(rgba16, rgba_stride, image.width, image.height, channels)?;
+    image.check_constraints()?;
     let chroma_range = get_yuv_range(bit_depth, range);
     let kr_kb = matrix.get_kr_kb();
 
diff --git a/src/y_p16_with_alpha_to_rgb16.rs b/src/y_p16_with_alpha_to_rgb16.rs
index fa62d3b..3c0ced0 100644
--- a/src/y_p16_with_alpha_to_rgb16.rs
+++ b/src/y_p16_with_alpha_to_rgb16.rs
@@ -26,6 +26,7 @@
  * OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
+use crate::yuv_error::check_rgba_destination;
 use crate::yuv_support::*;
 use crate::{YuvError, YuvGrayAlphaImage};
 use num_traits::AsPrimitive;
@@ -58,6 +59,7 @@ where
 
     let channels = cn.get_channels_count();
 
+    check_rgba_destination(rgba16, rgba_stride, image.width, image.height, channels)?;
     image.check_constraints()?;
 
     assert!(
-- 
2.43.0

