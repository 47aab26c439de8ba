From f3c4bc3f1d98b7b4d1b34f090a0a824b4bd77e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 01/25] fix: unpremultiply only when the source was actually
 premultiplied

With premultiply_alpha=true and an image whose alpha is constant the
premultiplication is skipped, yet the result was still divided by alpha.
---
 src/scaler.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scaler.rs b/src/scaler.rs
index 1b4d94f..54732c9 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -685,7 +685,7 @@ impl Scaler {
         let mut src_store: std::borrow::Cow<'_, ImageStore<'_, T, N>> =
             std::borrow::Cow::Borrowed(store);
 
-        let mut has_alpha_premultiplied = true;
+        let mut has_alpha_premultiplied = false;
 
         if premultiply_alpha_requested {
             let is_alpha_premultiplication_reasonable =
@@ -762,7 +762,7 @@ impl Scaler {
         let new_size = into.get_size();
         let mut src_store = std::borrow::Cow::Borrowed(store);
 
-        let mut has_alpha_premultiplied = true;
+        let mut has_alpha_premultiplied = false;
 
         if premultiply_alpha_requested {
             let is_alpha_premultiplication_reasonable =
@@ -819,7 +819,7 @@ impl Scaler {
         let new_size = into.get_size();
         let mut src_store = std::borrow::Cow::Borrowed(store);
 
-        let mut has_alpha_premultiplied = true;
+        let mut has_alpha_premultiplied = false;
 
         if premultiply_alpha_requested {
             let is_alpha_premultiplication_reasonable =
-- 
2.43.0


From 1074f33e12adf7105017d2bb4fe956d682c6319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 02/25] fix: u8 alpha premultiplication must leave alpha
 untouched

The scalar, AVX2 and AVX-512 paths multiplied alpha by itself; the SSE and
NEON ones keep it.
---
 src/alpha_handle_u8.rs | 2 +-
 src/avx2/alpha_u8.rs   | 7 ++++++-
 src/avx512/alpha_u8.rs | 7 ++++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/alpha_handle_u8.rs b/src/alpha_handle_u8.rs
index ada0cc9..6f37278 100644
--- a/src/alpha_handle_u8.rs
+++ b/src/alpha_handle_u8.rs
@@ -52,7 +52,7 @@ pub(crate) fn premultiply_alpha_rgba_row_impl(dst: &mut [u8], src: &[u8]) {
         dst[0] = div_by_255(src[0] as u16 * a);
         dst[1] = div_by_255(src[1] as u16 * a);
         dst[2] = div_by_255(src[2] as u16 * a);
-        dst[3] = div_by_255(a * a);
+        dst[3] = src[3];
     }
 }
 
diff --git a/src/avx2/alpha_u8.rs b/src/avx2/alpha_u8.rs
index fd28c6c..a39ee1d 100644
--- a/src/avx2/alpha_u8.rs
+++ b/src/avx2/alpha_u8.rs
@@ -84,7 +84,12 @@ impl AssociateAlphaDefault {
         v_ll = avx2_div_by255(la_lo);
         v_hi = avx2_div_by255(la_hi);
 
-        let values = _mm256_packus_epi16(v_ll, v_hi);
+        // only color channels are associated, alpha stays as is
+        let values = _mm256_blendv_epi8(
+            _mm256_packus_epi16(v_ll, v_hi),
+            rgba0,
+            _mm256_set1_epi32(0xff00_0000u32 as i32),
+        );
 
         let dst_ptr = dst.as_mut_ptr();
         _mm256_storeu_si256(dst_ptr as *mut __m256i, values);
diff --git a/src/avx512/alpha_u8.rs b/src/avx512/alpha_u8.rs
index a2f15ad..be9d3c4 100644
--- a/src/avx512/alpha_u8.rs
+++ b/src/avx512/alpha_u8.rs
@@ -71,7 +71,12 @@ impl AssociateAlphaDefault {
         v_ll = avx512_div_by255(_mm512_mullo_epi16(v_ll, a_lo));
         v_hi = avx512_div_by255(_mm512_mullo_epi16(v_hi, a_hi));
 
-        let values = _mm512_packus_epi16(v_ll, v_hi);
+        // only color channels are associated, alpha stays as is
+        let values = _mm512_mask_blend_epi8(
+            0x8888_8888_8888_8888,
+            _mm512_packus_epi16(v_ll, v_hi),
+            rgba0,
+        );
 
         let dst_ptr = dst.as_mut_ptr();
         _mm512_mask_storeu_epi8(dst_ptr as *mut _, working_mask, values);
-- 
2.43.0


From f546fd28245c058f0704b9dc6f1c2eb75af684ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 03/25] fix: scalar u16 alpha premultiplication must leave
 alpha untouched

---
 src/alpha_handle_u16.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/alpha_handle_u16.rs b/src/alpha_handle_u16.rs
index 92a4880..87c591b 100644
--- a/src/alpha_handle_u16.rs
+++ b/src/alpha_handle_u16.rs
@@ -71,15 +71,15 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
             dst[0] = div_by_1023(src[0] as u32 * a);
             dst[1] = div_by_1023(src[1] as u32 * a);
             dst[2] = div_by_1023(src[2] as u32 * a);
-            dst[3] = div_by_1023(src[3] as u32 * a);
+            dst[3] = src[3];
         }
-    } else if max_colors == 4096 {
+    } else if max_colors == 4095 {
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
             let a = src[3] as u32;
             dst[0] = div_by_4095(src[0] as u32 * a);
             dst[1] = div_by_4095(src[1] as u32 * a);
             dst[2] = div_by_4095(src[2] as u32 * a);
-            dst[3] = div_by_4095(src[3] as u32 * a);
+            dst[3] = src[3];
         }
     } else if max_colors == 65535 {
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
@@ -87,7 +87,7 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
             dst[0] = div_by_65535(src[0] as u32 * a);
             dst[1] = div_by_65535(src[1] as u32 * a);
             dst[2] = div_by_65535(src[2] as u32 * a);
-            dst[3] = div_by_65535(src[3] as u32 * a);
+            dst[3] = src[3];
         }
     } else {
         let recip_max_colors = 1. / max_colors as f32;
@@ -99,7 +99,7 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
                 (((src[1] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
             dst[2] =
                 (((src[2] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
-            dst[3] = (((a * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
+            dst[3] = src[3];
         }
     }
 }
-- 
2.43.0


From f27b27b7cff96426cbc18bb168b270e059fc9af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 04/25] fix: scalar u8 unpremultiply table rows overlap and
 wrap above 255

---
 src/alpha_handle_u8.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/alpha_handle_u8.rs b/src/alpha_handle_u8.rs
index 6f37278..053b07d 100644
--- a/src/alpha_handle_u8.rs
+++ b/src/alpha_handle_u8.rs
@@ -89,10 +89,10 @@ const fn make_unpremultiplication_table() -> [u8; 65536] {
         let mut pixel = 0usize;
         while pixel < 256 {
             if alpha == 0 {
-                buf[alpha * 255 + pixel] = 0;
+                buf[alpha * 256 + pixel] = 0;
             } else {
                 let value = (pixel * 255 + alpha / 2) / alpha;
-                buf[alpha * 255 + pixel] = value as u8;
+                buf[alpha * 256 + pixel] = if value > 255 { 255 } else { value as u8 };
             }
             pixel += 1;
         }
@@ -107,7 +107,7 @@ static UNPREMULTIPLICATION_TABLE: [u8; 65536] = make_unpremultiplication_table()
 pub(crate) fn unpremultiply_alpha_rgba_row_impl(in_place: &mut [u8]) {
     for dst in in_place.chunks_exact_mut(4) {
         let a = dst[3];
-        let z = a as u16 * 255;
+        let z = a as u16 * 256;
         dst[0] = UNPREMULTIPLICATION_TABLE[(z + dst[0] as u16) as usize];
         dst[1] = UNPREMULTIPLICATION_TABLE[(z + dst[1] as u16) as usize];
         dst[2] = UNPREMULTIPLICATION_TABLE[(z + dst[2] as u16) as usize];
-- 
2.43.0


From 48e222b40cab91ee3108527ed2007a089e64e7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 05/25] fix: u16 unpremultiply must not exceed the bit depth

Resampling overshoot makes color > alpha; the quotient was clamped to the
storage type (or, with SSE, to i16::MAX) instead of 2^bit_depth - 1.
---
 src/alpha_handle_u16.rs | 10 ++++++----
 src/avx2/alpha_u16.rs   |  7 +++++++
 src/sse/alpha_u16.rs    | 11 +++++++----
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/alpha_handle_u16.rs b/src/alpha_handle_u16.rs
index 87c591b..6ae0760 100644
--- a/src/alpha_handle_u16.rs
+++ b/src/alpha_handle_u16.rs
@@ -109,10 +109,12 @@ pub(crate) fn unpremultiply_alpha_rgba_row(in_place: &mut [u16], max_colors: u32
         let a = dst[3] as u32;
         if a != 0 {
             let a_recip = 1. / a as f32;
-            dst[0] = ((dst[0] as u32 * max_colors) as f32 * a_recip) as u16;
-            dst[1] = ((dst[1] as u32 * max_colors) as f32 * a_recip) as u16;
-            dst[2] = ((dst[2] as u32 * max_colors) as f32 * a_recip) as u16;
-            dst[3] = ((a * max_colors) as f32 * a_recip) as u16;
+            dst[0] =
+                (((dst[0] as u32 * max_colors) as f32 * a_recip) as u32).min(max_colors) as u16;
+            dst[1] =
+                (((dst[1] as u32 * max_colors) as f32 * a_recip) as u32).min(max_colors) as u16;
+            dst[2] =
+                (((dst[2] as u32 * max_colors) as f32 * a_recip) as u32).min(max_colors) as u16;
         }
     }
 }
diff --git a/src/avx2/alpha_u16.rs b/src/avx2/alpha_u16.rs
index 1a0a0b3..4b5efc0 100644
--- a/src/avx2/alpha_u16.rs
+++ b/src/avx2/alpha_u16.rs
@@ -425,6 +425,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
     let max_colors = (1 << bit_depth) - 1;
 
     let v_scale_colors = _mm256_set1_ps(max_colors as f32);
+    let v_max_colors = _mm256_set1_epi16(max_colors as u16 as i16);
 
     let mut rem = in_place;
 
@@ -452,10 +453,13 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
         high_alpha = _mm256_mul_ps(high_alpha, v_scale_colors);
 
         let mut new_rrr = _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha);
+        new_rrr = _mm256_min_epu16(new_rrr, v_max_colors);
         new_rrr = _mm256_select_si256(is_zero_alpha_mask, pixel.0, new_rrr);
         let mut new_ggg = _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha);
+        new_ggg = _mm256_min_epu16(new_ggg, v_max_colors);
         new_ggg = _mm256_select_si256(is_zero_alpha_mask, pixel.1, new_ggg);
         let mut new_bbb = _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha);
+        new_bbb = _mm256_min_epu16(new_bbb, v_max_colors);
         new_bbb = _mm256_select_si256(is_zero_alpha_mask, pixel.2, new_bbb);
 
         let dst_ptr = dst.as_mut_ptr();
@@ -498,10 +502,13 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
         high_alpha = _mm256_mul_ps(high_alpha, v_scale_colors);
 
         let mut new_rrr = _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha);
+        new_rrr = _mm256_min_epu16(new_rrr, v_max_colors);
         new_rrr = _mm256_select_si256(is_zero_alpha_mask, pixel.0, new_rrr);
         let mut new_ggg = _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha);
+        new_ggg = _mm256_min_epu16(new_ggg, v_max_colors);
         new_ggg = _mm256_select_si256(is_zero_alpha_mask, pixel.1, new_ggg);
         let mut new_bbb = _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha);
+        new_bbb = _mm256_min_epu16(new_bbb, v_max_colors);
         new_bbb = _mm256_select_si256(is_zero_alpha_mask, pixel.2, new_bbb);
 
         let (d_lane0, d_lane1, d_lane2, d_lane3) =
diff --git a/src/sse/alpha_u16.rs b/src/sse/alpha_u16.rs
index a20897d..c491ac4 100644
--- a/src/sse/alpha_u16.rs
+++ b/src/sse/alpha_u16.rs
@@ -43,6 +43,7 @@ unsafe fn sse_unpremultiply_row_u16(
     is_zero_mask: __m128i,
     a_lo_f: __m128,
     a_hi_f: __m128,
+    max_colors: __m128i,
 ) -> __m128i {
     let zeros = _mm_setzero_si128();
     let lo = _mm_unpacklo_epi16(x, zeros);
@@ -57,7 +58,7 @@ unsafe fn sse_unpremultiply_row_u16(
         _mm_mul_ps(_mm_cvtepi32_ps(hi), a_hi_f),
     ));
 
-    let pixel = _mm_packs_epi32(new_lo, new_hi);
+    let pixel = _mm_min_epu16(_mm_packus_epi32(new_lo, new_hi), max_colors);
     _mm_select_si128(is_zero_mask, x, pixel)
 }
 
@@ -122,6 +123,8 @@ struct DisassociateAlphaDefault {}
 impl DisassociateAlphaDefault {
     #[inline(always)]
     unsafe fn disassociate_chunk(&self, in_place: &mut [u16], v_max_colors: __m128) {
+        let max_colors = _mm_cvtps_epi32(v_max_colors);
+        let max_colors = _mm_packus_epi32(max_colors, max_colors);
         let src_ptr = in_place.as_ptr();
         let row0 = _mm_loadu_si128(src_ptr as *const __m128i);
         let row1 = _mm_loadu_si128(src_ptr.add(8) as *const __m128i);
@@ -145,9 +148,9 @@ impl DisassociateAlphaDefault {
             v_max_colors,
         );
 
-        let new_rrrr = sse_unpremultiply_row_u16(rrrr, is_zero_mask, a_lo_f, a_hi_f);
-        let new_gggg = sse_unpremultiply_row_u16(gggg, is_zero_mask, a_lo_f, a_hi_f);
-        let new_bbbb = sse_unpremultiply_row_u16(bbbb, is_zero_mask, a_lo_f, a_hi_f);
+        let new_rrrr = sse_unpremultiply_row_u16(rrrr, is_zero_mask, a_lo_f, a_hi_f, max_colors);
+        let new_gggg = sse_unpremultiply_row_u16(gggg, is_zero_mask, a_lo_f, a_hi_f, max_colors);
+        let new_bbbb = sse_unpremultiply_row_u16(bbbb, is_zero_mask, a_lo_f, a_hi_f, max_colors);
 
         let (rgba0, rgba1, rgba2, rgba3) =
             sse_interleave_rgba_epi16(new_rrrr, new_gggg, new_bbbb, aaaa);
-- 
2.43.0


From 8d3fbbbcb792208512b93f14ab9f1b53215fee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 06/25] fix: 16-bit alpha premultiplication must be unsigned

madd multiplies signed 16-bit values, so samples above 32767 wrapped.
---
 src/avx2/alpha_u16.rs | 12 ++++++------
 src/sse/alpha_u16.rs  | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/avx2/alpha_u16.rs b/src/avx2/alpha_u16.rs
index 4b5efc0..f2992fc 100644
--- a/src/avx2/alpha_u16.rs
+++ b/src/avx2/alpha_u16.rs
@@ -154,12 +154,12 @@ impl<const BIT_DEPTH: usize> Avx2PremultiplyExecutorDefault<BIT_DEPTH> {
         let bl32 = _mm256_unpacklo_epi16(pixel.2, zeros);
         let bh32 = _mm256_unpackhi_epi16(pixel.2, zeros);
 
-        let rl32 = _mm256_madd_epi16(rl32, low_alpha);
-        let rh32 = _mm256_madd_epi16(rh32, high_alpha);
-        let gl32 = _mm256_madd_epi16(gl32, low_alpha);
-        let gh32 = _mm256_madd_epi16(gh32, high_alpha);
-        let bl32 = _mm256_madd_epi16(bl32, low_alpha);
-        let bh32 = _mm256_madd_epi16(bh32, high_alpha);
+        let rl32 = _mm256_mullo_epi32(rl32, low_alpha);
+        let rh32 = _mm256_mullo_epi32(rh32, high_alpha);
+        let gl32 = _mm256_mullo_epi32(gl32, low_alpha);
+        let gh32 = _mm256_mullo_epi32(gh32, high_alpha);
+        let bl32 = _mm256_mullo_epi32(bl32, low_alpha);
+        let bh32 = _mm256_mullo_epi32(bh32, high_alpha);
 
         let lr32 = _mm256_div_by_epi32::<BIT_DEPTH>(rl32);
         let hr32 = _mm256_div_by_epi32::<BIT_DEPTH>(rh32);
diff --git a/src/sse/alpha_u16.rs b/src/sse/alpha_u16.rs
index c491ac4..2c8c472 100644
--- a/src/sse/alpha_u16.rs
+++ b/src/sse/alpha_u16.rs
@@ -315,16 +315,16 @@ impl<const BIT_DEPTH: usize> Sse41PremultiplyExecutorDefault<BIT_DEPTH> {
         let a_hi_f = _mm_unpackhi_epi16(aaaa, zeros);
 
         let new_rrrr = _mm_packus_epi32(
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpacklo_epi16(rrrr, zeros), a_lo_f)),
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpackhi_epi16(rrrr, zeros), a_hi_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpacklo_epi16(rrrr, zeros), a_lo_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpackhi_epi16(rrrr, zeros), a_hi_f)),
         );
         let new_gggg = _mm_packus_epi32(
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpacklo_epi16(gggg, zeros), a_lo_f)),
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpackhi_epi16(gggg, zeros), a_hi_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpacklo_epi16(gggg, zeros), a_lo_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpackhi_epi16(gggg, zeros), a_hi_f)),
         );
         let new_bbbb = _mm_packus_epi32(
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpacklo_epi16(bbbb, zeros), a_lo_f)),
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpackhi_epi16(bbbb, zeros), a_hi_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpacklo_epi16(bbbb, zeros), a_lo_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpackhi_epi16(bbbb, zeros), a_hi_f)),
         );
 
         let (rgba0, rgba1, rgba2, rgba3) =
-- 
2.43.0


From 4f37bcc2e936882a38bfca61b72855936bb24061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 07/25] fix: SSE u16 unpremultiply used the global rayon pool
 under ThreadingPolicy::Single

---
 src/sse/alpha_u16.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/sse/alpha_u16.rs b/src/sse/alpha_u16.rs
index 2c8c472..168643e 100644
--- a/src/sse/alpha_u16.rs
+++ b/src/sse/alpha_u16.rs
@@ -222,15 +222,13 @@ unsafe fn unpremultiply_alpha_sse_rgba_u16_impl(
                 });
         });
     } else {
-        in_place
-            .par_chunks_exact_mut(stride)
-            .for_each(|row| unsafe {
-                unpremultiply_alpha_sse_rgba_u16_row_impl(
-                    &mut row[..width * 4],
-                    bit_depth,
-                    DisassociateAlphaDefault::default(),
-                );
-            });
+        in_place.chunks_exact_mut(stride).for_each(|row| unsafe {
+            unpremultiply_alpha_sse_rgba_u16_row_impl(
+                &mut row[..width * 4],
+                bit_depth,
+                DisassociateAlphaDefault::default(),
+            );
+        });
     }
 }
 
-- 
2.43.0


From ef0ff4837ea8245f7e6813c161830874e45c2e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 08/25] fix: colorspace scalers must honour source and
 destination strides

---
 src/colors/jzazbz_scaler.rs         | 10 ++++++----
 src/colors/lab_scaler.rs            | 10 ++++++----
 src/colors/lch_scaler.rs            | 10 ++++++----
 src/colors/linear_precise_scaler.rs | 10 ++++++----
 src/colors/linear_scaler.rs         | 10 ++++++----
 src/colors/luv_scaler.rs            | 10 ++++++----
 src/colors/oklab_scaler.rs          | 10 ++++++----
 src/colors/sigmoidal_scaler.rs      | 10 ++++++----
 src/colors/xyz_scaler.rs            | 10 ++++++----
 9 files changed, 54 insertions(+), 36 deletions(-)

diff --git a/src/colors/jzazbz_scaler.rs b/src/colors/jzazbz_scaler.rs
index a4d344a..df536d6 100644
--- a/src/colors/jzazbz_scaler.rs
+++ b/src/colors/jzazbz_scaler.rs
@@ -64,7 +64,7 @@ impl JzazbzScaler {
         let lab_stride = store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_jzazbz(
             store.buffer.as_ref(),
-            store.width as u32 * 4u32,
+            store.stride() as u32,
             &mut source_slice,
             lab_stride,
             store.width as u32,
@@ -88,11 +88,12 @@ impl JzazbzScaler {
         store: &ImageStoreMut<'a, f32, 4>,
         into: &mut ImageStoreMut<'a, u8, 4>,
     ) {
+        let into_stride = into.stride() as u32;
         jzazbz_to_rgba(
             store.buffer.borrow(),
             store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32,
             into.buffer.borrow_mut(),
-            store.width as u32 * 4u32,
+            into_stride,
             store.width as u32,
             store.height as u32,
             self.display_luminance,
@@ -151,7 +152,7 @@ impl Scaling for JzazbzScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_jzazbz(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -176,11 +177,12 @@ impl Scaling for JzazbzScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         jzazbz_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.display_luminance,
diff --git a/src/colors/lab_scaler.rs b/src/colors/lab_scaler.rs
index cec1421..620eefb 100644
--- a/src/colors/lab_scaler.rs
+++ b/src/colors/lab_scaler.rs
@@ -54,7 +54,7 @@ impl LabScaler {
         let lab_stride = store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_lab_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * 4u32,
+            store.stride() as u32,
             &mut source_slice,
             lab_stride,
             store.width as u32,
@@ -74,11 +74,12 @@ impl LabScaler {
     }
 
     fn laba_to_srgba<'a>(store: &ImageStoreMut<'a, f32, 4>, into: &mut ImageStoreMut<'a, u8, 4>) {
+        let into_stride = into.stride() as u32;
         lab_with_alpha_to_rgba(
             store.buffer.borrow(),
             store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32,
             into.buffer.borrow_mut(),
-            store.width as u32 * 4u32,
+            into_stride,
             store.width as u32,
             store.height as u32,
             &XYZ_TO_SRGB_D65,
@@ -138,7 +139,7 @@ impl Scaling for LabScaler {
 
         rgb_to_lab(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -162,11 +163,12 @@ impl Scaling for LabScaler {
 
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         lab_to_srgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
diff --git a/src/colors/lch_scaler.rs b/src/colors/lch_scaler.rs
index db1b2d6..7383935 100644
--- a/src/colors/lch_scaler.rs
+++ b/src/colors/lch_scaler.rs
@@ -55,7 +55,7 @@ impl LChScaler {
         let lab_stride = store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_lch_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * 4u32,
+            store.stride() as u32,
             &mut source_slice,
             lab_stride,
             store.width as u32,
@@ -75,11 +75,12 @@ impl LChScaler {
     }
 
     fn lcha_to_srgba<'a>(store: &ImageStoreMut<'a, f32, 4>, into: &mut ImageStoreMut<'a, u8, 4>) {
+        let into_stride = into.stride() as u32;
         lch_with_alpha_to_rgba(
             store.buffer.borrow(),
             store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32,
             into.buffer.borrow_mut(),
-            store.width as u32 * 4u32,
+            into_stride,
             store.width as u32,
             store.height as u32,
             &XYZ_TO_SRGB_D65,
@@ -141,7 +142,7 @@ impl Scaling for LChScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_lch(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -166,11 +167,12 @@ impl Scaling for LChScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         lch_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
diff --git a/src/colors/linear_precise_scaler.rs b/src/colors/linear_precise_scaler.rs
index 417c89b..735f942 100644
--- a/src/colors/linear_precise_scaler.rs
+++ b/src/colors/linear_precise_scaler.rs
@@ -118,7 +118,7 @@ impl Scaling for LinearScaler {
 
         rgb_to_linear(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -141,11 +141,12 @@ impl Scaling for LinearScaler {
             .resize_rgb_f32(&new_immutable_store, &mut new_store)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         linear_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
@@ -191,7 +192,7 @@ impl Scaling for LinearScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_linear(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -215,11 +216,12 @@ impl Scaling for LinearScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         linear_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             TransferFunction::Srgb,
diff --git a/src/colors/linear_scaler.rs b/src/colors/linear_scaler.rs
index 7189346..26dfd87 100644
--- a/src/colors/linear_scaler.rs
+++ b/src/colors/linear_scaler.rs
@@ -118,7 +118,7 @@ impl Scaling for LinearApproxScaler {
 
         rgb_to_linear_u8(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -141,11 +141,12 @@ impl Scaling for LinearApproxScaler {
             .resize_rgb(&new_immutable_store, &mut new_store)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<u8>() as u32;
+        let into_stride = into.stride() as u32;
         linear_u8_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
@@ -195,7 +196,7 @@ impl Scaling for LinearApproxScaler {
 
         rgba_to_linear_u8(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -218,11 +219,12 @@ impl Scaling for LinearApproxScaler {
             .resize_rgba(&new_immutable_store, &mut new_store, premultiply_alpha)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<u8>() as u32;
+        let into_stride = into.stride() as u32;
         linear_u8_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
diff --git a/src/colors/luv_scaler.rs b/src/colors/luv_scaler.rs
index a1df0c8..b52e449 100644
--- a/src/colors/luv_scaler.rs
+++ b/src/colors/luv_scaler.rs
@@ -104,7 +104,7 @@ impl Scaling for LuvScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_luv(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -129,11 +129,12 @@ impl Scaling for LuvScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         luv_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
@@ -183,7 +184,7 @@ impl Scaling for LuvScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_luv_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -208,11 +209,12 @@ impl Scaling for LuvScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         luv_with_alpha_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
diff --git a/src/colors/oklab_scaler.rs b/src/colors/oklab_scaler.rs
index b74f7c4..7541a7f 100644
--- a/src/colors/oklab_scaler.rs
+++ b/src/colors/oklab_scaler.rs
@@ -104,7 +104,7 @@ impl Scaling for OklabScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_oklab(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -128,11 +128,12 @@ impl Scaling for OklabScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         oklab_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
@@ -181,7 +182,7 @@ impl Scaling for OklabScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_oklab(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -205,11 +206,12 @@ impl Scaling for OklabScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         oklab_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
diff --git a/src/colors/sigmoidal_scaler.rs b/src/colors/sigmoidal_scaler.rs
index bf9b963..48d54c5 100644
--- a/src/colors/sigmoidal_scaler.rs
+++ b/src/colors/sigmoidal_scaler.rs
@@ -100,7 +100,7 @@ impl Scaling for SigmoidalScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_sigmoidal(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -123,11 +123,12 @@ impl Scaling for SigmoidalScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         sigmoidal_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
@@ -175,7 +176,7 @@ impl Scaling for SigmoidalScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_sigmoidal(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -198,11 +199,12 @@ impl Scaling for SigmoidalScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         sigmoidal_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
diff --git a/src/colors/xyz_scaler.rs b/src/colors/xyz_scaler.rs
index ae8a32e..2e307da 100644
--- a/src/colors/xyz_scaler.rs
+++ b/src/colors/xyz_scaler.rs
@@ -105,7 +105,7 @@ impl Scaling for XYZScaler {
 
         srgb_to_xyz(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -127,11 +127,12 @@ impl Scaling for XYZScaler {
             .resize_rgb_f32(&new_immutable_store, &mut new_store)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         xyz_to_srgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
@@ -180,7 +181,7 @@ impl Scaling for XYZScaler {
 
         rgba_to_xyz_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -204,11 +205,12 @@ impl Scaling for XYZScaler {
             .resize_rgba_f32(&new_immutable_store, &mut new_store, premultiply_alpha)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         xyz_with_alpha_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
-- 
2.43.0


From cc130c73b55d0e83ea64f00111b76c5210bf1bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 09/25] fix: LinearScaler::resize_rgba ignored the requested
 transfer function

---
 src/colors/linear_precise_scaler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/colors/linear_precise_scaler.rs b/src/colors/linear_precise_scaler.rs
index 735f942..7f52731 100644
--- a/src/colors/linear_precise_scaler.rs
+++ b/src/colors/linear_precise_scaler.rs
@@ -197,7 +197,7 @@ impl Scaling for LinearScaler {
             lab_stride,
             lab_store.width as u32,
             lab_store.height as u32,
-            TransferFunction::Srgb,
+            self.transfer_function,
         );
 
         let new_immutable_store = ImageStore::<f32, COMPONENTS> {
@@ -224,7 +224,7 @@ impl Scaling for LinearScaler {
             into_stride,
             new_store.width as u32,
             new_store.height as u32,
-            TransferFunction::Srgb,
+            self.transfer_function,
         );
 
         Ok(())
-- 
2.43.0


From b0589475b214cd2488eb1771fbef0ddc6db49143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 10/25] fix: do not select AVX2 RGBA8 horizontal kernels on
 CPUs without AVX2

---
 src/rgba_u8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rgba_u8.rs b/src/rgba_u8.rs
index fc6c4a6..319da47 100644
--- a/src/rgba_u8.rs
+++ b/src/rgba_u8.rs
@@ -112,7 +112,7 @@ impl HorizontalConvolutionPass<u8, 4> for ImageStore<'_, u8, 4> {
         }
         #[cfg(all(target_arch = "x86_64", feature = "avx"))]
         {
-            if (std::arch::is_x86_feature_detected!("avx2") || _scale_factor < 8.)
+            if std::arch::is_x86_feature_detected!("avx2")
                 && _options.workload_strategy == crate::WorkloadStrategy::PreferSpeed
             {
                 _dispatcher_4_rows = Some(convolve_horizontal_rgba_avx_rows_4_lb);
-- 
2.43.0


From b22dab3016b2b38b99ba2cf1064d9f01ebae6964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 11/25] fix: nearest resize must honour strides

---
 src/nearest_sampler.rs | 15 ++++++++++-----
 src/resize_ar30.rs     |  2 ++
 src/scaler.rs          |  6 ++++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/nearest_sampler.rs b/src/nearest_sampler.rs
index 945d5bb..fba8c1c 100644
--- a/src/nearest_sampler.rs
+++ b/src/nearest_sampler.rs
@@ -33,9 +33,11 @@ use rayon::ThreadPool;
 
 pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
     src: &[T],
+    src_stride: usize,
     src_width: usize,
     src_height: usize,
     dst: &mut [T],
+    dst_stride: usize,
     dst_width: usize,
     dst_height: usize,
     pool: &Option<ThreadPool>,
@@ -46,15 +48,15 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
     let clip_width = src_width as f32 - 1f32;
     let clip_height = src_height as f32 - 1f32;
 
-    let dst_stride = dst_width * CHANNELS;
-    let src_stride = src_width * CHANNELS;
-
     if let Some(pool) = pool {
         pool.install(|| {
             dst.par_chunks_exact_mut(dst_stride)
                 .enumerate()
                 .for_each(|(y, dst_chunk)| {
-                    for (x, dst) in dst_chunk.chunks_exact_mut(CHANNELS).enumerate() {
+                    for (x, dst) in dst_chunk[..dst_width * CHANNELS]
+                        .chunks_exact_mut(CHANNELS)
+                        .enumerate()
+                    {
                         let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
                             .min(clip_width)
                             .max(0f32) as usize;
@@ -77,7 +79,10 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
         dst.chunks_exact_mut(dst_stride)
             .enumerate()
             .for_each(|(y, dst_chunk)| {
-                for (x, dst) in dst_chunk.chunks_exact_mut(CHANNELS).enumerate() {
+                for (x, dst) in dst_chunk[..dst_width * CHANNELS]
+                    .chunks_exact_mut(CHANNELS)
+                    .enumerate()
+                {
                     let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
                         .min(clip_width)
                         .max(0f32) as usize;
diff --git a/src/resize_ar30.rs b/src/resize_ar30.rs
index 281abf2..7a296ca 100644
--- a/src/resize_ar30.rs
+++ b/src/resize_ar30.rs
@@ -97,9 +97,11 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
         resize_nearest::<u8, 4>(
             src,
             src_stride,
+            src_size.width,
             src_size.height,
             dst,
             dst_stride,
+            dst_size.width,
             dst_size.height,
             &pool,
         );
diff --git a/src/scaler.rs b/src/scaler.rs
index 54732c9..6befafa 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -610,11 +610,14 @@ impl Scaler {
             .get_pool(ImageSize::new(new_size.width, new_size.height));
 
         if self.function == ResamplingFunction::Nearest {
+            let dst_stride = into.stride();
             resize_nearest::<T, N>(
                 store.buffer.as_ref(),
+                store.stride(),
                 store.width,
                 store.height,
                 into.buffer.borrow_mut(),
+                dst_stride,
                 new_size.width,
                 new_size.height,
                 &pool,
@@ -901,11 +904,14 @@ impl Scaler {
             .get_pool(ImageSize::new(new_size.width, new_size.height));
 
         if self.function == ResamplingFunction::Nearest {
+            let dst_stride = into.stride();
             resize_nearest::<T, N>(
                 store.buffer.as_ref(),
+                store.stride(),
                 store.width,
                 store.height,
                 into.buffer.borrow_mut(),
+                dst_stride,
                 new_size.width,
                 new_size.height,
                 &pool,
-- 
2.43.0


From 5b39a49a3b423c4a6db1f9e7037023acaceef724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 12/25] fix: AR30 resize must honour the destination stride in
 every branch

---
 src/resize_ar30.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/resize_ar30.rs b/src/resize_ar30.rs
index 7a296ca..a1bd6a7 100644
--- a/src/resize_ar30.rs
+++ b/src/resize_ar30.rs
@@ -83,8 +83,12 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
     }
 
     if src_size.width == dst_size.width && src_size.height == dst_size.height {
-        for (src, dst) in src.iter().zip(dst.iter_mut()) {
-            *dst = *src;
+        let row_length = src_size.width * 4;
+        for (src, dst) in src
+            .chunks_exact(src_stride)
+            .zip(dst.chunks_exact_mut(dst_stride))
+        {
+            dst[..row_length].copy_from_slice(&src[..row_length]);
         }
         return Ok(());
     }
@@ -121,7 +125,7 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
             src_stride,
             vertical_filters,
             dst,
-            src_stride,
+            dst_stride,
             &pool,
             src_size.width,
             options,
-- 
2.43.0


From 4ada453f01d388be8b19118308bfae9b87a2bf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 13/25] fix: copied stores must keep the stride of the buffer
 they copy

---
 src/image_store.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index b1b1bb0..5357715 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -430,7 +430,7 @@ where
             channels: N,
             width: self.width,
             height: self.height,
-            stride: self.width * N,
+            stride: self.stride(),
             bit_depth: self.bit_depth,
         }
     }
@@ -497,7 +497,7 @@ where
             channels: N,
             width: self.width,
             height: self.height,
-            stride: self.width * N,
+            stride: self.stride(),
             bit_depth: self.bit_depth,
         }
     }
@@ -508,7 +508,7 @@ where
             channels: N,
             width: self.width,
             height: self.height,
-            stride: self.width * N,
+            stride: self.stride(),
             bit_depth: self.bit_depth,
         }
     }
-- 
2.43.0


From 8c0f8b9736e46cf45efcc6f9f3e77be2c1b1e5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 14/25] fix: copied_to_mut must not write destination row
 padding

---
 src/image_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index 5357715..bca2af9 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -443,7 +443,7 @@ where
             .chunks_exact(self.stride())
             .zip(into.buffer.borrow_mut().chunks_exact_mut(into_stride))
         {
-            for (&src, dst) in src_row.iter().zip(dst_row.iter_mut()) {
+            for (&src, dst) in src_row.iter().zip(dst_row.iter_mut()).take(self.width * N) {
                 *dst = src;
             }
         }
-- 
2.43.0


From bf06cc3c7a40a6d6686c27d330658f5ab1977f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 15/25] fix: zero stride is documented as width * N and must be
 accepted

---
 src/image_store.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index bca2af9..e8abf4c 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -229,7 +229,7 @@ where
                 slice_len: self.buffer.borrow().len(),
             }));
         }
-        if self.stride < self.width * N {
+        if self.stride() < self.width * N {
             return Err(PicScaleError::InvalidStride(self.width * N, self.stride));
         }
         Ok(())
@@ -251,7 +251,7 @@ where
                 slice_len: self.buffer.as_ref().len(),
             }));
         }
-        if self.stride < self.width * N {
+        if self.stride() < self.width * N {
             return Err(PicScaleError::InvalidStride(self.width * N, self.stride));
         }
         Ok(())
-- 
2.43.0


From dd3b2c15972d8f48a520682a88d9a842a8af9536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 16/25] fix: image size arithmetic must not wrap

A wrapped width * height * N let a store claim dimensions its buffer does not
have, which the unsafe kernels then trusted.
---
 src/image_store.rs | 52 ++++++++++++++++++++++++----------------------
 src/resize_ar30.rs | 12 +++++++----
 2 files changed, 35 insertions(+), 29 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index e8abf4c..fc1649e 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -131,8 +131,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStore<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -156,8 +156,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStore<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -177,7 +177,7 @@ where
     }
 
     pub fn alloc(width: usize, height: usize) -> ImageStore<'a, T, N> {
-        let vc = vec![T::default(); width * N * height];
+        let vc = vec![T::default(); width.saturating_mul(N).saturating_mul(height)];
         ImageStore::<T, N> {
             buffer: std::borrow::Cow::Owned(vc),
             channels: N,
@@ -219,8 +219,8 @@ where
     T: Clone + Copy + Debug + Default,
 {
     pub(crate) fn validate(&self) -> Result<(), PicScaleError> {
-        let expected_size = self.stride() * self.height;
-        if self.buffer.borrow().len() != self.stride() * self.height {
+        let expected_size = self.stride().saturating_mul(self.height);
+        if self.buffer.borrow().len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width: self.width,
@@ -229,8 +229,9 @@ where
                 slice_len: self.buffer.borrow().len(),
             }));
         }
-        if self.stride() < self.width * N {
-            return Err(PicScaleError::InvalidStride(self.width * N, self.stride));
+        let min_stride = self.width.saturating_mul(N);
+        if self.stride() < min_stride {
+            return Err(PicScaleError::InvalidStride(min_stride, self.stride));
         }
         Ok(())
     }
@@ -241,8 +242,8 @@ where
     T: Clone + Copy + Debug + Default,
 {
     pub(crate) fn validate(&self) -> Result<(), PicScaleError> {
-        let expected_size = self.stride() * self.height;
-        if self.buffer.as_ref().len() != self.stride() * self.height {
+        let expected_size = self.stride().saturating_mul(self.height);
+        if self.buffer.as_ref().len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width: self.width,
@@ -251,8 +252,9 @@ where
                 slice_len: self.buffer.as_ref().len(),
             }));
         }
-        if self.stride() < self.width * N {
-            return Err(PicScaleError::InvalidStride(self.width * N, self.stride));
+        let min_stride = self.width.saturating_mul(N);
+        if self.stride() < min_stride {
+            return Err(PicScaleError::InvalidStride(min_stride, self.stride));
         }
         Ok(())
     }
@@ -270,8 +272,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStoreMut<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -298,8 +300,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStoreMut<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -322,7 +324,7 @@ where
     ///
     /// Always sets bit depth to `0`
     pub fn alloc(width: usize, height: usize) -> ImageStoreMut<'a, T, N> {
-        let vc = vec![T::default(); width * N * height];
+        let vc = vec![T::default(); width.saturating_mul(N).saturating_mul(height)];
         ImageStoreMut::<T, N> {
             buffer: BufferStore::Owned(vc),
             channels: N,
@@ -339,7 +341,7 @@ where
         height: usize,
         bit_depth: usize,
     ) -> ImageStoreMut<'a, T, N> {
-        let vc = vec![T::default(); width * N * height];
+        let vc = vec![T::default(); width.saturating_mul(N).saturating_mul(height)];
         ImageStoreMut::<T, N> {
             buffer: BufferStore::Owned(vc),
             channels: N,
@@ -361,7 +363,7 @@ where
     #[inline]
     pub fn stride(&self) -> usize {
         if self.stride == 0 {
-            return self.width * N;
+            return self.width.saturating_mul(N);
         }
         self.stride
     }
@@ -377,7 +379,7 @@ where
     #[inline]
     pub fn stride(&self) -> usize {
         if self.stride == 0 {
-            return self.width * N;
+            return self.width.saturating_mul(N);
         }
         self.stride
     }
@@ -404,8 +406,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStore<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -471,8 +473,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStoreMut<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
diff --git a/src/resize_ar30.rs b/src/resize_ar30.rs
index a1bd6a7..bd32f0d 100644
--- a/src/resize_ar30.rs
+++ b/src/resize_ar30.rs
@@ -56,9 +56,9 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
         return Err(PicScaleError::DestinationImageIsTooLarge);
     }
 
-    if src.len() != src_stride * src_size.height {
+    if src.len() != src_stride.saturating_mul(src_size.height) {
         return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
-            expected: src_stride * src_size.height,
+            expected: src_stride.saturating_mul(src_size.height),
             width: src_size.width,
             height: src_size.height,
             channels: 4,
@@ -69,9 +69,9 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
         return Err(PicScaleError::InvalidStride(src_size.width * 4, src_stride));
     }
 
-    if dst.len() != dst_stride * dst_size.height {
+    if dst.len() != dst_stride.saturating_mul(dst_size.height) {
         return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
-            expected: dst_stride * dst_size.height,
+            expected: dst_stride.saturating_mul(dst_size.height),
             width: dst_size.width,
             height: dst_size.height,
             channels: 4,
@@ -132,6 +132,10 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
         );
         return Ok(());
     } else if should_do_horizontal && should_do_vertical {
+        if check_image_size_overflow(src_size.width, dst_size.height, 4) {
+            return Err(PicScaleError::DestinationImageIsTooLarge);
+        }
+
         let mut target = vec![0u8; src_size.width * dst_size.height * 4];
 
         let vertical_filters = scaler.generate_weights(src_size.height, dst_size.height);
-- 
2.43.0


From cbdef2fe57bc7cb3b1a7fd36cfdc73569cbb81b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 17/25] fix: keep filter windows and nearest positions inside
 very large images

f32 can't represent every position above 2^24, so a window could end past the
image and was then read with unchecked indexing.
---
 src/nearest_sampler.rs | 20 ++++++++++++--------
 src/scaler.rs          |  6 ++++++
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/nearest_sampler.rs b/src/nearest_sampler.rs
index fba8c1c..a529186 100644
--- a/src/nearest_sampler.rs
+++ b/src/nearest_sampler.rs
@@ -57,12 +57,14 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
                         .chunks_exact_mut(CHANNELS)
                         .enumerate()
                     {
-                        let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
+                        let src_x = (((x as f32 + 0.5f32) * x_scale - 0.5f32)
                             .min(clip_width)
-                            .max(0f32) as usize;
-                        let src_y = ((y as f32 + 0.5f32) * y_scale - 0.5f32)
+                            .max(0f32) as usize)
+                            .min(src_width - 1);
+                        let src_y = (((y as f32 + 0.5f32) * y_scale - 0.5f32)
                             .min(clip_height)
-                            .max(0f32) as usize;
+                            .max(0f32) as usize)
+                            .min(src_height - 1);
                         let src_offset_y = src_y * src_stride;
                         let src_px = src_x * CHANNELS;
                         let offset = src_offset_y + src_px;
@@ -83,12 +85,14 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
                     .chunks_exact_mut(CHANNELS)
                     .enumerate()
                 {
-                    let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
+                    let src_x = (((x as f32 + 0.5f32) * x_scale - 0.5f32)
                         .min(clip_width)
-                        .max(0f32) as usize;
-                    let src_y = ((y as f32 + 0.5f32) * y_scale - 0.5f32)
+                        .max(0f32) as usize)
+                        .min(src_width - 1);
+                    let src_y = (((y as f32 + 0.5f32) * y_scale - 0.5f32)
                         .min(clip_height)
-                        .max(0f32) as usize;
+                        .max(0f32) as usize)
+                        .min(src_height - 1);
                     let src_offset_y = src_y * src_stride;
                     let src_px = src_x * CHANNELS;
                     let offset = src_offset_y + src_px;
diff --git a/src/scaler.rs b/src/scaler.rs
index 6befafa..bf1cce1 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -416,6 +416,9 @@ impl Scaler {
                     .min(start.as_() + kernel_size.as_())
                     .min(in_size.as_())
                     .as_();
+                // `T` can't represent all positions of very large images exactly
+                let start = start.min(in_size - 1);
+                let end = end.min(start + kernel_size).min(in_size).max(start + 1);
 
                 let center = center_x - 0.5.as_();
 
@@ -528,6 +531,9 @@ impl Scaler {
                     .min(start.as_() + kernel_size.as_())
                     .min(in_size.as_())
                     .as_();
+                // `T` can't represent all positions of very large images exactly
+                let start = start.min(in_size - 1);
+                let end = end.min(start + kernel_size).min(in_size).max(start + 1);
 
                 let size = end - start;
 
-- 
2.43.0


From 6759f8dc318ba514900160900be21c431ef901c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:30 +0000
Subject: [PATCH 18/25] fix: color scalers reject images whose size or stride
 does not fit u32 instead of converting the wrong rows

---
 src/colors/jzazbz_scaler.rs         | 34 ++++++++++++++++++++++++-----
 src/colors/lab_scaler.rs            | 34 ++++++++++++++++++++++++-----
 src/colors/lch_scaler.rs            | 34 ++++++++++++++++++++++++-----
 src/colors/linear_precise_scaler.rs | 34 ++++++++++++++++++++++++-----
 src/colors/linear_scaler.rs         | 34 ++++++++++++++++++++++++-----
 src/colors/luv_scaler.rs            | 34 ++++++++++++++++++++++++-----
 src/colors/oklab_scaler.rs          | 34 ++++++++++++++++++++++++-----
 src/colors/sigmoidal_scaler.rs      | 34 ++++++++++++++++++++++++-----
 src/colors/xyz_scaler.rs            | 34 ++++++++++++++++++++++++-----
 src/support.rs                      | 16 ++++++++++++++
 10 files changed, 277 insertions(+), 45 deletions(-)

diff --git a/src/colors/jzazbz_scaler.rs b/src/colors/jzazbz_scaler.rs
index df536d6..72f71e8 100644
--- a/src/colors/jzazbz_scaler.rs
+++ b/src/colors/jzazbz_scaler.rs
@@ -32,7 +32,7 @@ use colorutils_rs::{
 
 use crate::pic_scale_error::PicScaleError;
 use crate::scaler::ScalingF32;
-use crate::support::check_image_size_overflow;
+use crate::support::check_color_image_size_overflow;
 use crate::{ImageStore, ImageStoreMut, ResamplingFunction, Scaler, Scaling, ThreadingPolicy};
 
 #[derive(Debug, Copy, Clone)]
@@ -127,11 +127,23 @@ impl Scaling for JzazbzScaler {
             return Err(PicScaleError::ZeroImageDimensions);
         }
 
-        if check_image_size_overflow(store.width, store.height, store.channels) {
+        if check_color_image_size_overflow(
+            store.width,
+            store.height,
+            store.stride(),
+            3,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::SourceImageIsTooLarge);
         }
 
-        if check_image_size_overflow(new_size.width, new_size.height, store.channels) {
+        if check_color_image_size_overflow(
+            new_size.width,
+            new_size.height,
+            into.stride(),
+            3,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::DestinationImageIsTooLarge);
         }
 
@@ -204,11 +216,23 @@ impl Scaling for JzazbzScaler {
             return Err(PicScaleError::ZeroImageDimensions);
         }
 
-        if check_image_size_overflow(store.width, store.height, store.channels) {
+        if check_color_image_size_overflow(
+            store.width,
+            store.height,
+            store.stride(),
+            4,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::SourceImageIsTooLarge);
         }
 
-        if check_image_size_overflow(new_size.width, new_size.height, store.channels) {
+        if check_color_image_size_overflow(
+            new_size.width,
+            new_size.height,
+            into.stride(),
+            4,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::DestinationImageIsTooLarge);
         }
 
diff --git a/src/colors/lab_scaler.rs b/src/colors/lab_scaler.rs
index 620eefb..62fbeec 100644
--- a/src/colors/lab_scaler.rs
+++ b/src/colors/lab_scaler.rs
@@ -29,7 +29,7 @@
 
 use crate::pic_scale_error::PicScaleError;
 use crate::scaler::{Scaling, ScalingF32};
-use crate::support::check_image_size_overflow;
+use crate::support::check_color_image_size_overflow;
 use crate::{ImageStore, ImageStoreMut, ResamplingFunction, Scaler, ThreadingPolicy};
 use colorutils_rs::{
     lab_to_srgb, lab_with_alpha_to_rgba, rgb_to_lab, rgba_to_lab_with_alpha, TransferFunction,
@@ -113,11 +113,23 @@ impl Scaling for LabScaler {
             return Err(PicScaleError::ZeroImageDimensions);
         }
 
-        if check_image_size_overflow(store.width, store.height, store.channels) {
+        if check_color_image_size_overflow(
+            store.width,
+            store.height,
+            store.stride(),
+            3,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::SourceImageIsTooLarge);
         }
 
-        if check_image_size_overflow(new_size.width, new_size.height, store.channels) {
+        if check_color_image_size_overflow(
+            new_size.width,
+            new_size.height,
+            into.stride(),
+            3,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::DestinationImageIsTooLarge);
         }
 
@@ -188,11 +200,23 @@ impl Scaling for LabScaler {
             return Err(PicScaleError::ZeroImageDimensions);
         }
 
-        if check_image_size_overflow(store.width, store.height, store.channels) {
+        if check_color_image_size_overflow(
+            store.width,
+            store.height,
+            store.stride(),
+            4,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::SourceImageIsTooLarge);
         }
 
-        if check_image_size_overflow(new_size.width, new_size.height, store.channels) {
+        if check_color_image_size_overflow(
+            new_size.width,
+            new_size.height,
+            into.stride(),
+            4,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::DestinationImageIsTooLarge);
         }
 
diff --git a/src/colors/lch_scaler.rs b/src/colors/lch_scaler.rs
index 7383935..ec39ba0 100644
--- a/src/colors/lch_scaler.rs
+++ b/src/colors/lch_scaler.rs
@@ -34,7 +34,7 @@ use colorutils_rs::{
 
 use crate::pic_scale_error::PicScaleError;
 use crate::scaler::ScalingF32;
-use crate::support::check_image_size_overflow;
+use crate::support::check_color_image_size_overflow;
 use crate::{ImageStore, ImageStoreMut, ResamplingFunction, Scaler, Scaling, ThreadingPolicy};
 
 #[derive(Debug, Copy, Clone)]
@@ -114,11 +114,23 @@ impl Scaling for LChScaler {
             return Err(PicScaleError::ZeroImageDimensions);
         }
 
-        if check_image_size_overflow(store.width, store.height, store.channels) {
+        if check_color_image_size_overflow(
+            store.width,
+            store.height,
+            store.stride(),
+            3,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::SourceImageIsTooLarge);
         }
 
-        if check_image_size_overflow(new_size.width, new_size.height, store.channels) {
+        if check_color_image_size_overflow(
+            new_size.width,
+            new_size.height,
+            into.stride(),
+            3,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::DestinationImageIsTooLarge);
         }
 
@@ -194,11 +206,23 @@ impl Scaling for LChScaler {
             return Err(PicScaleError::ZeroImageDimensions);
         }
 
-        if check_image_size_overflow(store.width, store.height, store.channels) {
+        if check_color_image_size_overflow(
+            store.width,
+            store.height,
+            store.stride(),
+            4,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::SourceImageIsTooLarge);
         }
 
-        if check_image_size_overflow(new_size.width, new_size.height, store.channels) {
+        if check_color_image_size_overflow(
+            new_size.width,
+            new_size.height,
+            into.stride(),
+            4,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::DestinationImageIsTooLarge);
         }
 
diff --git a/src/colors/linear_precise_scaler.rs b/src/colors/linear_precise_scaler.rs
index 7f52731..1cb153a 100644
--- a/src/colors/linear_precise_scaler.rs
+++ b/src/colors/linear_precise_scaler.rs
@@ -29,7 +29,7 @@
 
 use crate::pic_scale_error::PicScaleError;
 use crate::scaler::{Scaling, ScalingF32};
-use crate::support::check_image_size_overflow;
+use crate::support::check_color_image_size_overflow;
 use crate::{ImageStore, ImageStoreMut, ResamplingFunction, Scaler, ThreadingPolicy};
 use colorutils_rs::{
     linear_to_rgb, linear_to_rgba, rgb_to_linear, rgba_to_linear, TransferFunction,
@@ -89,11 +89,23 @@ impl Scaling for LinearScaler {
             return Err(PicScaleError::ZeroImageDimensions);
         }
 
-        if check_image_size_overflow(store.width, store.height, store.channels) {
+        if check_color_image_size_overflow(
+            store.width,
+            store.height,
+            store.stride(),
+            3,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::SourceImageIsTooLarge);
         }
 
-        if check_image_size_overflow(new_size.width, new_size.height, store.channels) {
+        if check_color_image_size_overflow(
+            new_size.width,
+            new_size.height,
+            into.stride(),
+            3,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::DestinationImageIsTooLarge);
         }
 
@@ -167,11 +179,23 @@ impl Scaling for LinearScaler {
             return Err(PicScaleError::ZeroImageDimensions);
         }
 
-        if check_image_size_overflow(store.width, store.height, store.channels) {
+        if check_color_image_size_overflow(
+            store.width,
+            store.height,
+            store.stride(),
+            4,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::SourceImageIsTooLarge);
         }
 
-        if check_image_size_overflow(new_size.width, new_size.height, store.channels) {
+        if check_color_image_size_overflow(
+            new_size.width,
+            new_size.height,
+            into.stride(),
+            4,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::DestinationImageIsTooLarge);
         }
 
diff --git a/src/colors/linear_scaler.rs b/src/colors/linear_scaler.rs
index 26dfd87..cf91745 100644
--- a/src/colors/linear_scaler.rs
+++ b/src/colors/linear_scaler.rs
@@ -33,7 +33,7 @@ use colorutils_rs::{
 
 use crate::pic_scale_error::PicScaleError;
 use crate::scaler::Scaling;
-use crate::support::check_image_size_overflow;
+use crate::support::check_color_image_size_overflow;
 use crate::{ImageStore, ImageStoreMut, ResamplingFunction, Scaler, ThreadingPolicy};
 
 #[derive(Debug, Copy, Clone)]
@@ -89,11 +89,23 @@ impl Scaling for LinearApproxScaler {
             return Err(PicScaleError::ZeroImageDimensions);
         }
 
-        if check_image_size_overflow(store.width, store.height, store.channels) {
+        if check_color_image_size_overflow(
+            store.width,
+            store.height,
+            store.stride(),
+            3,
+            std::mem::size_of::<u8>(),
+        ) {
             return Err(PicScaleError::SourceImageIsTooLarge);
         }
 
-        if check_image_size_overflow(new_size.width, new_size.height, store.channels) {
+        if check_color_image_size_overflow(
+            new_size.width,
+            new_size.height,
+            into.stride(),
+            3,
+            std::mem::size_of::<u8>(),
+        ) {
             return Err(PicScaleError::DestinationImageIsTooLarge);
         }
 
@@ -167,11 +179,23 @@ impl Scaling for LinearApproxScaler {
             return Err(PicScaleError::ZeroImageDimensions);
         }
 
-        if check_image_size_overflow(store.width, store.height, store.channels) {
+        if check_color_image_size_overflow(
+            store.width,
+            store.height,
+            store.stride(),
+            4,
+            std::mem::size_of::<u8>(),
+        ) {
             return Err(PicScaleError::SourceImageIsTooLarge);
         }
 
-        if check_image_size_overflow(new_size.width, new_size.height, store.channels) {
+        if check_color_image_size_overflow(
+            new_size.width,
+            new_size.height,
+            into.stride(),
+            4,
+            std::mem::size_of::<u8>(),
+        ) {
             return Err(PicScaleError::DestinationImageIsTooLarge);
         }
 
diff --git a/src/colors/luv_scaler.rs b/src/colors/luv_scaler.rs
index b52e449..106a274 100644
--- a/src/colors/luv_scaler.rs
+++ b/src/colors/luv_scaler.rs
@@ -34,7 +34,7 @@ use colorutils_rs::{
 
 use crate::pic_scale_error::PicScaleError;
 use crate::scaler::ScalingF32;
-use crate::support::check_image_size_overflow;
+use crate::support::check_color_image_size_overflow;
 use crate::{ImageStore, ImageStoreMut, ResamplingFunction, Scaler, Scaling, ThreadingPolicy};
 
 #[derive(Debug, Copy, Clone)]
@@ -76,11 +76,23 @@ impl Scaling for LuvScaler {
             return Err(PicScaleError::ZeroImageDimensions);
         }
 
-        if check_image_size_overflow(store.width, store.height, store.channels) {
+        if check_color_image_size_overflow(
+            store.width,
+            store.height,
+            store.stride(),
+            3,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::SourceImageIsTooLarge);
         }
 
-        if check_image_size_overflow(new_size.width, new_size.height, store.channels) {
+        if check_color_image_size_overflow(
+            new_size.width,
+            new_size.height,
+            into.stride(),
+            3,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::DestinationImageIsTooLarge);
         }
 
@@ -156,11 +168,23 @@ impl Scaling for LuvScaler {
             return Err(PicScaleError::ZeroImageDimensions);
         }
 
-        if check_image_size_overflow(store.width, store.height, store.channels) {
+        if check_color_image_size_overflow(
+            store.width,
+            store.height,
+            store.stride(),
+            4,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::SourceImageIsTooLarge);
         }
 
-        if check_image_size_overflow(new_size.width, new_size.height, store.channels) {
+        if check_color_image_size_overflow(
+            new_size.width,
+            new_size.height,
+            into.stride(),
+            4,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::DestinationImageIsTooLarge);
         }
 
diff --git a/src/colors/oklab_scaler.rs b/src/colors/oklab_scaler.rs
index 7541a7f..b9ac2ea 100644
--- a/src/colors/oklab_scaler.rs
+++ b/src/colors/oklab_scaler.rs
@@ -30,7 +30,7 @@ use colorutils_rs::{oklab_to_rgb, oklab_to_rgba, rgb_to_oklab, rgba_to_oklab, Tr
 
 use crate::pic_scale_error::PicScaleError;
 use crate::scaler::ScalingF32;
-use crate::support::check_image_size_overflow;
+use crate::support::check_color_image_size_overflow;
 use crate::{ImageStore, ImageStoreMut, ResamplingFunction, Scaler, Scaling, ThreadingPolicy};
 
 #[derive(Debug, Copy, Clone)]
@@ -76,11 +76,23 @@ impl Scaling for OklabScaler {
             return Err(PicScaleError::ZeroImageDimensions);
         }
 
-        if check_image_size_overflow(store.width, store.height, store.channels) {
+        if check_color_image_size_overflow(
+            store.width,
+            store.height,
+            store.stride(),
+            3,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::SourceImageIsTooLarge);
         }
 
-        if check_image_size_overflow(new_size.width, new_size.height, store.channels) {
+        if check_color_image_size_overflow(
+            new_size.width,
+            new_size.height,
+            into.stride(),
+            3,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::DestinationImageIsTooLarge);
         }
 
@@ -154,11 +166,23 @@ impl Scaling for OklabScaler {
             return Err(PicScaleError::ZeroImageDimensions);
         }
 
-        if check_image_size_overflow(store.width, store.height, store.channels) {
+        if check_color_image_size_overflow(
+            store.width,
+            store.height,
+            store.stride(),
+            4,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::SourceImageIsTooLarge);
         }
 
-        if check_image_size_overflow(new_size.width, new_size.height, store.channels) {
+        if check_color_image_size_overflow(
+            new_size.width,
+            new_size.height,
+            into.stride(),
+            4,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::DestinationImageIsTooLarge);
         }
 
diff --git a/src/colors/sigmoidal_scaler.rs b/src/colors/sigmoidal_scaler.rs
index 48d54c5..92289be 100644
--- a/src/colors/sigmoidal_scaler.rs
+++ b/src/colors/sigmoidal_scaler.rs
@@ -29,7 +29,7 @@
 
 use crate::pic_scale_error::PicScaleError;
 use crate::scaler::ScalingF32;
-use crate::support::check_image_size_overflow;
+use crate::support::check_color_image_size_overflow;
 use crate::{ImageStore, ImageStoreMut, ResamplingFunction, Scaler, Scaling, ThreadingPolicy};
 use colorutils_rs::{rgb_to_sigmoidal, rgba_to_sigmoidal, sigmoidal_to_rgb, sigmoidal_to_rgba};
 
@@ -72,11 +72,23 @@ impl Scaling for SigmoidalScaler {
             return Err(PicScaleError::ZeroImageDimensions);
         }
 
-        if check_image_size_overflow(store.width, store.height, store.channels) {
+        if check_color_image_size_overflow(
+            store.width,
+            store.height,
+            store.stride(),
+            3,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::SourceImageIsTooLarge);
         }
 
-        if check_image_size_overflow(new_size.width, new_size.height, store.channels) {
+        if check_color_image_size_overflow(
+            new_size.width,
+            new_size.height,
+            into.stride(),
+            3,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::DestinationImageIsTooLarge);
         }
 
@@ -148,11 +160,23 @@ impl Scaling for SigmoidalScaler {
             return Err(PicScaleError::ZeroImageDimensions);
         }
 
-        if check_image_size_overflow(store.width, store.height, store.channels) {
+        if check_color_image_size_overflow(
+            store.width,
+            store.height,
+            store.stride(),
+            4,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::SourceImageIsTooLarge);
         }
 
-        if check_image_size_overflow(new_size.width, new_size.height, store.channels) {
+        if check_color_image_size_overflow(
+            new_size.width,
+            new_size.height,
+            into.stride(),
+            4,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::DestinationImageIsTooLarge);
         }
 
diff --git a/src/colors/xyz_scaler.rs b/src/colors/xyz_scaler.rs
index 2e307da..5a7dc98 100644
--- a/src/colors/xyz_scaler.rs
+++ b/src/colors/xyz_scaler.rs
@@ -34,7 +34,7 @@ use colorutils_rs::{
 
 use crate::pic_scale_error::PicScaleError;
 use crate::scaler::{Scaling, ScalingF32};
-use crate::support::check_image_size_overflow;
+use crate::support::check_color_image_size_overflow;
 use crate::{ImageStore, ImageStoreMut, ResamplingFunction, Scaler, ThreadingPolicy};
 
 #[derive(Debug, Copy, Clone)]
@@ -76,11 +76,23 @@ impl Scaling for XYZScaler {
             return Err(PicScaleError::ZeroImageDimensions);
         }
 
-        if check_image_size_overflow(store.width, store.height, store.channels) {
+        if check_color_image_size_overflow(
+            store.width,
+            store.height,
+            store.stride(),
+            3,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::SourceImageIsTooLarge);
         }
 
-        if check_image_size_overflow(new_size.width, new_size.height, store.channels) {
+        if check_color_image_size_overflow(
+            new_size.width,
+            new_size.height,
+            into.stride(),
+            3,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::DestinationImageIsTooLarge);
         }
 
@@ -152,11 +164,23 @@ impl Scaling for XYZScaler {
             return Err(PicScaleError::ZeroImageDimensions);
         }
 
-        if check_image_size_overflow(store.width, store.height, store.channels) {
+        if check_color_image_size_overflow(
+            store.width,
+            store.height,
+            store.stride(),
+            4,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::SourceImageIsTooLarge);
         }
 
-        if check_image_size_overflow(new_size.width, new_size.height, store.channels) {
+        if check_color_image_size_overflow(
+            new_size.width,
+            new_size.height,
+            into.stride(),
+            4,
+            std::mem::size_of::<f32>(),
+        ) {
             return Err(PicScaleError::DestinationImageIsTooLarge);
         }
 
diff --git a/src/support.rs b/src/support.rs
index 4735c62..8006f92 100644
--- a/src/support.rs
+++ b/src/support.rs
@@ -38,3 +38,19 @@ pub(crate) fn check_image_size_overflow(width: usize, height: usize, chan: usize
     let (_, is_overflowed) = height.overflowing_mul(stride);
     is_overflowed
 }
+
+/// Color conversions take dimensions and strides as `u32`, `component_size` is the size of
+/// a component of the converted image in bytes
+pub(crate) fn check_color_image_size_overflow(
+    width: usize,
+    height: usize,
+    stride: usize,
+    chan: usize,
+    component_size: usize,
+) -> bool {
+    const MAX: usize = u32::MAX as usize;
+    check_image_size_overflow(width, height, chan)
+        || width.saturating_mul(chan * component_size) > MAX
+        || height > MAX
+        || stride > MAX
+}
-- 
2.43.0


From 6da3b92c326210579cbae26597905ea60cd18ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:17 +0000
Subject: [PATCH 19/25] fix: vertical u16 passes read the wrong columns after
 each block of columns

---
 src/avx2/vertical_u16_lb.rs     | 8 ++++----
 src/neon/vertical_u16.rs        | 6 +++---
 src/neon/vertical_u16_lb.rs     | 6 +++---
 src/neon/vertical_u16_lb_f16.rs | 6 +++---
 src/sse/vertical_u16.rs         | 6 +++---
 src/sse/vertical_u16_lb.rs      | 6 +++---
 6 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/avx2/vertical_u16_lb.rs b/src/avx2/vertical_u16_lb.rs
index 6319eb0..a8a94c0 100644
--- a/src/avx2/vertical_u16_lb.rs
+++ b/src/avx2/vertical_u16_lb.rs
@@ -161,7 +161,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
             item1,
         );
 
-        cx = v_dx;
+        cx = v_dx + 32;
     }
 
     let v_px = cx;
@@ -202,7 +202,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
 
         _mm256_storeu_si256(dst.as_mut_ptr() as *mut __m256i, item0);
 
-        cx = v_dx;
+        cx = v_dx + 16;
     }
 
     let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -240,7 +240,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
             _mm256_castsi256_si128(item),
         );
 
-        cx = v_dx;
+        cx = v_dx + 8;
     }
 
     let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -371,7 +371,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
         let u_store0 = _mm_min_epi16(_mm_packus_epi32(v_st, v_st), v_max_colors_sse);
         _mm_storeu_si64(dst.as_mut_ptr() as *mut u8, u_store0);
 
-        cx = v_dx;
+        cx = v_dx + 4;
     }
 
     let tail4 = tail8.chunks_exact_mut(4).into_remainder();
diff --git a/src/neon/vertical_u16.rs b/src/neon/vertical_u16.rs
index 910fc17..1d96eb8 100644
--- a/src/neon/vertical_u16.rs
+++ b/src/neon/vertical_u16.rs
@@ -227,7 +227,7 @@ pub(crate) fn convolve_column_u16(
             let item1 = vcombine_u16(vqmovn_u32(u_store2), vqmovn_u32(u_store3));
             vst1q_u16(dst.as_mut_ptr().add(8), item1);
 
-            k_cx = v_dx;
+            k_cx = v_dx + 16;
         }
 
         let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -346,7 +346,7 @@ pub(crate) fn convolve_column_u16(
             let item = vcombine_u16(vqmovn_u32(u_store0), vqmovn_u32(u_store1));
             vst1q_u16(dst.as_mut_ptr(), item);
 
-            k_cx = v_dx;
+            k_cx = v_dx + 8;
         }
 
         let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -437,7 +437,7 @@ pub(crate) fn convolve_column_u16(
 
             vst1_u16(dst.as_mut_ptr(), vqmovn_u32(u_store0));
 
-            k_cx = v_dx;
+            k_cx = v_dx + 4;
         }
 
         let tail4 = tail8.chunks_exact_mut(4).into_remainder();
diff --git a/src/neon/vertical_u16_lb.rs b/src/neon/vertical_u16_lb.rs
index 9a50ef5..9a9b76b 100644
--- a/src/neon/vertical_u16_lb.rs
+++ b/src/neon/vertical_u16_lb.rs
@@ -192,7 +192,7 @@ pub(crate) fn convolve_column_lb_u16(
             vst1q_u16(dst.as_mut_ptr(), item0);
             vst1q_u16(dst.as_mut_ptr().add(8), item1);
 
-            cx = v_dx;
+            cx = v_dx + 16;
         }
 
         let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -301,7 +301,7 @@ pub(crate) fn convolve_column_lb_u16(
             );
             vst1q_u16(dst.as_mut_ptr(), item);
 
-            cx = v_dx;
+            cx = v_dx + 8;
         }
 
         let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -387,7 +387,7 @@ pub(crate) fn convolve_column_lb_u16(
             );
             vst1_u16(dst.as_mut_ptr(), u_store0);
 
-            cx = v_dx;
+            cx = v_dx + 4;
         }
 
         let tail4 = tail8.chunks_exact_mut(4).into_remainder();
diff --git a/src/neon/vertical_u16_lb_f16.rs b/src/neon/vertical_u16_lb_f16.rs
index 6ec6808..d15c6d1 100644
--- a/src/neon/vertical_u16_lb_f16.rs
+++ b/src/neon/vertical_u16_lb_f16.rs
@@ -192,7 +192,7 @@ unsafe fn convolve_column_lb_u16_f16_impl(
         vst1q_u16(dst.as_mut_ptr(), item0);
         vst1q_u16(dst.as_mut_ptr().add(8), item1);
 
-        cx = v_dx;
+        cx = v_dx + 16;
     }
 
     let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -279,7 +279,7 @@ unsafe fn convolve_column_lb_u16_f16_impl(
         let item = vminq_u16(xvcvtaq_u16_f16(store0), v_max_colors);
         vst1q_u16(dst.as_mut_ptr(), item);
 
-        cx = v_dx;
+        cx = v_dx + 8;
     }
 
     let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -306,7 +306,7 @@ unsafe fn convolve_column_lb_u16_f16_impl(
         let u_store0 = vmin_u16(xvcvta_u16_f16(store0), vget_low_u16(v_max_colors));
         vst1_u16(dst.as_mut_ptr(), u_store0);
 
-        cx = v_dx;
+        cx = v_dx + 4;
     }
 
     let tail4 = tail8.chunks_exact_mut(4).into_remainder();
diff --git a/src/sse/vertical_u16.rs b/src/sse/vertical_u16.rs
index 542a93a..7da26b1 100644
--- a/src/sse/vertical_u16.rs
+++ b/src/sse/vertical_u16.rs
@@ -152,7 +152,7 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item0);
         _mm_storeu_si128(dst.as_mut_ptr().add(8) as *mut __m128i, item1);
 
-        cx = v_dx;
+        cx = v_dx + 16;
     }
 
     let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -192,7 +192,7 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
         let item = _mm_packus_epi32(v_st0, v_st1);
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item);
 
-        cx = v_dx;
+        cx = v_dx + 8;
     }
 
     let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -335,7 +335,7 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
         let u_store0 = _mm_packus_epi32(v_st, v_st);
         _mm_storeu_si64(dst.as_mut_ptr() as *mut u8, u_store0);
 
-        cx = v_dx;
+        cx = v_dx + 4;
     }
 
     let tail4 = tail8.chunks_exact_mut(4).into_remainder();
diff --git a/src/sse/vertical_u16_lb.rs b/src/sse/vertical_u16_lb.rs
index 1ee9d9b..40fa5c8 100644
--- a/src/sse/vertical_u16_lb.rs
+++ b/src/sse/vertical_u16_lb.rs
@@ -119,7 +119,7 @@ unsafe fn convolve_column_lb_u16_impl(
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item0);
         _mm_storeu_si128(dst.as_mut_ptr().add(8) as *mut __m128i, item1);
 
-        cx = v_dx;
+        cx = v_dx + 16;
     }
 
     let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -157,7 +157,7 @@ unsafe fn convolve_column_lb_u16_impl(
         let item = _mm_min_epi16(_mm_packus_epi32(v_st0, v_st1), v_max_colors);
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item);
 
-        cx = v_dx;
+        cx = v_dx + 8;
     }
 
     let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -278,7 +278,7 @@ unsafe fn convolve_column_lb_u16_impl(
         let u_store0 = _mm_min_epi16(_mm_packus_epi32(v_st, v_st), v_max_colors);
         _mm_storeu_si64(dst.as_mut_ptr() as *mut u8, u_store0);
 
-        cx = v_dx;
+        cx = v_dx + 4;
     }
 
     let tail4 = tail8.chunks_exact_mut(4).into_remainder();
-- 
2.43.0


From 69d1816985a774079ddafda192f4ac819b04f149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:28 +0000
Subject: [PATCH 20/25] fix: the last tap of the AVX2 RGB8 pass reads its own
 pixel

---
 src/avx2/rgb_u8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avx2/rgb_u8.rs b/src/avx2/rgb_u8.rs
index bc22d66..e98a658 100644
--- a/src/avx2/rgb_u8.rs
+++ b/src/avx2/rgb_u8.rs
@@ -468,7 +468,7 @@ unsafe fn add_one_weight<const HAS_DOT: bool>(
 ) -> __m128i {
     const COMPONENTS: usize = 3;
     let src_ptr = src.get_unchecked((start_x * COMPONENTS)..).as_ptr();
-    let base_pixel = _mm_loadu_si16(src.as_ptr());
+    let base_pixel = _mm_loadu_si16(src_ptr);
     let m_vl = _mm_insert_epi8::<2>(base_pixel, src_ptr.add(2).read_unaligned() as i32);
     let lo = _mm_unpacklo_epi8(m_vl, _mm_setzero_si128());
     _mm_dot16_avx_epi32::<HAS_DOT>(
-- 
2.43.0


From 1f1d44fb0dee48cdaed320d5285e973bf410e784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:28 +0000
Subject: [PATCH 21/25] fix: eight weights are loaded from a slice of eight

---
 src/avx2/rgba_u16_lb.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avx2/rgba_u16_lb.rs b/src/avx2/rgba_u16_lb.rs
index 62fb13a..7e81ad3 100644
--- a/src/avx2/rgba_u16_lb.rs
+++ b/src/avx2/rgba_u16_lb.rs
@@ -268,7 +268,7 @@ unsafe fn convolve_horizontal_rgba_avx_rows_4_lb_impl<const D: bool>(
         let src3 = src2.get_unchecked(src_stride..);
 
         while jx + 8 < bounds_size {
-            let w_ptr = weights.get_unchecked(jx..(jx + 4));
+            let w_ptr = weights.get_unchecked(jx..(jx + 8));
             let wl = _mm256_castsi128_si256(_mm_loadu_si128(w_ptr.as_ptr() as *const _));
             let w0 = _mm256_shuffle_epi8(
                 _mm256_permutevar8x32_epi32(wl, permute_avx_weights),
@@ -452,7 +452,7 @@ unsafe fn convolve_horizontal_rgba_vnni_u16_row_impl<const D: bool>(
         );
 
         while jx + 8 < bounds_size {
-            let w_ptr = weights.get_unchecked(jx..(jx + 4));
+            let w_ptr = weights.get_unchecked(jx..(jx + 8));
             let wl = _mm256_castsi128_si256(_mm_loadu_si128(w_ptr.as_ptr() as *const _));
             let w0 = _mm256_shuffle_epi8(
                 _mm256_permutevar8x32_epi32(wl, permute_avx_weights),
-- 
2.43.0


From 9b241a4234692ab7999c653dee984ffc6f8f0f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:27 +0000
Subject: [PATCH 22/25] fix: the portable half-float passes leave the row
 padding alone

---
 src/f16.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/f16.rs b/src/f16.rs
index cc0dae9..977a693 100644
--- a/src/f16.rs
+++ b/src/f16.rs
@@ -67,7 +67,7 @@ use core::{f16, f32};
 use rayon::ThreadPool;
 
 fn convolve_horizontal_rgba_4_row_f16<const CHANNELS: usize>(
-    _: usize,
+    dst_width: usize,
     _: usize,
     filter_weights: &FilterWeights<f32>,
     src: &[f16],
@@ -85,13 +85,19 @@ fn convolve_horizontal_rgba_4_row_f16<const CHANNELS: usize>(
         filter_weights,
         8,
     );
-    for (dst, src) in dst.iter_mut().zip(transient_dst.iter()) {
-        *dst = *src as f16;
+    // the transient rows carry no padding of their own to give back
+    for (dst, src) in dst
+        .chunks_mut(dst_stride)
+        .zip(transient_dst.chunks(dst_stride))
+    {
+        for (dst, src) in dst.iter_mut().zip(src.iter()).take(dst_width * CHANNELS) {
+            *dst = *src as f16;
+        }
     }
 }
 
 fn convolve_horizontal_rgb_native_row_f16<const CHANNELS: usize>(
-    _: usize,
+    dst_width: usize,
     _: usize,
     filter_weights: &FilterWeights<f32>,
     src: &[f16],
@@ -105,7 +111,11 @@ fn convolve_horizontal_rgb_native_row_f16<const CHANNELS: usize>(
         filter_weights,
         8,
     );
-    for (dst, src) in dst.iter_mut().zip(transient_dst.iter()) {
+    for (dst, src) in dst
+        .iter_mut()
+        .zip(transient_dst.iter())
+        .take(dst_width * CHANNELS)
+    {
         *dst = *src as f16;
     }
 }
-- 
2.43.0


From 800bce9343ee8dbc49bb189ffd2141db5360ffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:33 +0000
Subject: [PATCH 23/25] fix: the f32 plane row pass steps over the sixteen taps
 it has summed

---
 src/sse/plane_f32.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sse/plane_f32.rs b/src/sse/plane_f32.rs
index 7c83a9a..c80c729 100644
--- a/src/sse/plane_f32.rs
+++ b/src/sse/plane_f32.rs
@@ -186,7 +186,7 @@ unsafe fn convolve_horizontal_plane_sse_row_one_impl<const FMA: bool>(
             let read_weights3 = _mm_loadu_ps(ptr.add(12));
             let weights = (read_weights0, read_weights1, read_weights2, read_weights3);
             store = conv_horiz_plane_16_f32!(bounds_start, src, weights, store, FMA);
-            jx += 8;
+            jx += 16;
         }
 
         while jx + 8 < bounds.size {
-- 
2.43.0


From 884babb062751b296bc253b67dae1f2d76933b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:33 +0000
Subject: [PATCH 24/25] fix: the AVX2 low-precision RGBA8 pass weighs the alpha
 of the fifth tap with its own weight

---
 src/avx2/rgba_u8_lb.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avx2/rgba_u8_lb.rs b/src/avx2/rgba_u8_lb.rs
index d9663d3..fd4267e 100644
--- a/src/avx2/rgba_u8_lb.rs
+++ b/src/avx2/rgba_u8_lb.rs
@@ -154,7 +154,7 @@ unsafe fn convolve_horizontal_rgba_avx_rows_4_impl(
             let w7 = w_ptr[7];
 
             let weights0 = _mm256_setr_epi16(
-                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w5, w5, w5, w5, w5,
+                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w4, w5, w5, w5, w5,
             );
             let weights1 = _mm256_setr_epi16(
                 w2, w2, w2, w2, w3, w3, w3, w3, w6, w6, w6, w6, w7, w7, w7, w7,
@@ -363,7 +363,7 @@ unsafe fn convolve_horizontal_rgba_avx_rows_one_impl(
             let w7 = w_ptr[7];
 
             let weights0 = _mm256_setr_epi16(
-                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w5, w5, w5, w5, w5,
+                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w4, w5, w5, w5, w5,
             );
             let weights1 = _mm256_setr_epi16(
                 w2, w2, w2, w2, w3, w3, w3, w3, w6, w6, w6, w6, w7, w7, w7, w7,
-- 
2.43.0


From 4cf6639f5e23a13aa0b84067e27b3a28d09e43d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:33 +0000
Subject: [PATCH 25/25] fix: the SSE RGBA16 float pass reads each pixel of a
 group once

---
 src/sse/rgba_u16.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/rgba_u16.rs b/src/sse/rgba_u16.rs
index 78d1574..afc9c38 100644
--- a/src/sse/rgba_u16.rs
+++ b/src/sse/rgba_u16.rs
@@ -70,7 +70,7 @@ unsafe fn conv_horiz_rgba_2_u16<const FMA: bool>(
     );
     _mm_prefer_fma_ps::<FMA>(
         acc,
-        _mm_cvtepi32_ps(_mm_unpacklo_epi16(rgba_pixel, _mm_setzero_si128())),
+        _mm_cvtepi32_ps(_mm_unpackhi_epi16(rgba_pixel, _mm_setzero_si128())),
         w1,
     )
 }
@@ -108,7 +108,7 @@ unsafe fn conv_horiz_rgba_4_u16<const FMA: bool>(
     );
     _mm_prefer_fma_ps::<FMA>(
         acc,
-        _mm_cvtepi32_ps(_mm_unpackhi_epi16(rgba_pixel0, _mm_setzero_si128())),
+        _mm_cvtepi32_ps(_mm_unpacklo_epi16(rgba_pixel0, _mm_setzero_si128())),
         w0,
     )
 }
-- 
2.43.0

