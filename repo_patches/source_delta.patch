From b34fc9b12477f740a8ae9b83cc0e78f153bb255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:43 +0000
Subject: [PATCH 01/30] fix: cap PSNR at 100 for nearly identical planes

The documentation promises a cap of 100, but it was only applied to identical
planes: a single differing sample in a large or high bit depth plane scored
above 100, that is better than identical input.
---
 av_metrics/src/video/psnr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/psnr.rs b/av_metrics/src/video/psnr.rs
index 9c1b19d..b11a9ec 100644
--- a/av_metrics/src/video/psnr.rs
+++ b/av_metrics/src/video/psnr.rs
@@ -179,8 +179,10 @@ fn calculate_psnr(metrics: PsnrMetrics) -> f64 {
     if metrics.sq_err <= f64::EPSILON {
         return 100.0;
     }
-    10.0 * ((metrics.sample_max.pow(2) as f64).log10() + (metrics.n_pixels as f64).log10()
-        - metrics.sq_err.log10())
+    let psnr = 10.0
+        * ((metrics.sample_max.pow(2) as f64).log10() + (metrics.n_pixels as f64).log10()
+            - metrics.sq_err.log10());
+    psnr.min(100.0)
 }
 
 /// Calculate the squared error for a `Plane` by comparing the original (uncompressed)
-- 
2.43.0


From 691fc9d02b5ac6023e1c30a04c22ec594e886dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:56 +0000
Subject: [PATCH 02/30] fix: metrics read the visible samples of a plane and
 nothing else

PSNR summed the squared error over alignment padding, SSIM, MS-SSIM and
CIEDE2000 indexed the padded sample buffer by the plane width, and PSNR-HVS
ignored the plane origin. Every plane whose stride differs from its width or
which has padding at its top or left was scored from the wrong samples.
---
 av_metrics/src/video/ciede/mod.rs | 18 ++++++++++--------
 av_metrics/src/video/psnr.rs      |  6 +++---
 av_metrics/src/video/psnr_hvs.rs  | 10 ++++++----
 av_metrics/src/video/ssim.rs      |  6 +++++-
 4 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index f021df6..796d377 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -117,14 +117,16 @@ impl VideoMetric for Ciede2000 {
         let dec = chroma_sampling.get_decimation().unwrap_or((1, 1));
         let y_width = frame1.planes[0].cfg.width;
         let y_height = frame1.planes[0].cfg.height;
+        let y_stride = frame1.planes[0].cfg.stride;
+        let c_stride = frame1.planes[1].cfg.stride;
         let c_width = frame1.planes[1].cfg.width;
         let delta_e_row_fn = get_delta_e_row_fn(bit_depth, dec.0, self.use_simd);
         // let mut delta_e_vec: Vec<f32> = vec![0.0; y_width * y_height];
 
         let delta_e_per_line = (0..y_height).into_par_iter().map(|i| {
-            let y_start = i * y_width;
+            let y_start = i * y_stride;
             let y_end = y_start + y_width;
-            let c_start = (i >> dec.1) * c_width;
+            let c_start = (i >> dec.1) * c_stride;
             let c_end = c_start + c_width;
 
             let y_range = y_start..y_end;
@@ -135,14 +137,14 @@ impl VideoMetric for Ciede2000 {
             unsafe {
                 delta_e_row_fn(
                     FrameRow {
-                        y: &frame1.planes[0].data[y_range.clone()],
-                        u: &frame1.planes[1].data[c_range.clone()],
-                        v: &frame1.planes[2].data[c_range.clone()],
+                        y: &frame1.planes[0].data_origin()[y_range.clone()],
+                        u: &frame1.planes[1].data_origin()[c_range.clone()],
+                        v: &frame1.planes[2].data_origin()[c_range.clone()],
                     },
                     FrameRow {
-                        y: &frame2.planes[0].data[y_range],
-                        u: &frame2.planes[1].data[c_range.clone()],
-                        v: &frame2.planes[2].data[c_range],
+                        y: &frame2.planes[0].data_origin()[y_range],
+                        u: &frame2.planes[1].data_origin()[c_range.clone()],
+                        v: &frame2.planes[2].data_origin()[c_range],
                     },
                     &mut delta_e_vec[..],
                 );
diff --git a/av_metrics/src/video/psnr.rs b/av_metrics/src/video/psnr.rs
index b11a9ec..d2f4b3e 100644
--- a/av_metrics/src/video/psnr.rs
+++ b/av_metrics/src/video/psnr.rs
@@ -189,9 +189,9 @@ fn calculate_psnr(metrics: PsnrMetrics) -> f64 {
 /// to the compressed version.
 fn calculate_plane_total_squared_error<T: Pixel>(plane1: &Plane<T>, plane2: &Plane<T>) -> f64 {
     plane1
-        .data
-        .iter()
-        .zip(plane2.data.iter())
+        .rows_iter()
+        .zip(plane2.rows_iter())
+        .flat_map(|(row1, row2)| row1.iter().zip(row2.iter()))
         .map(|(a, b)| (i32::cast_from(*a) - i32::cast_from(*b)).unsigned_abs() as u64)
         .map(|err| err * err)
         .sum::<u64>() as f64
diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index ee12d06..2ee2825 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -216,8 +216,10 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
     let mut p2 = [0i16; 8 * 8];
     let mut dct_p1 = [0i32; 8 * 8];
     let mut dct_p2 = [0i32; 8 * 8];
-    assert!(plane1.data.len() >= stride * height);
-    assert!(plane2.data.len() >= stride * height);
+    let data1 = plane1.data_origin();
+    let data2 = plane2.data_origin();
+    assert!(data1.len() >= stride * (height - 1) + width);
+    assert!(data2.len() >= stride * (height - 1) + width);
     for y in (0..(height - STEP)).step_by(STEP) {
         for x in (0..(width - STEP)).step_by(STEP) {
             let mut p1_means = [0.0; 4];
@@ -233,8 +235,8 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
 
             for i in 0..8 {
                 for j in 0..8 {
-                    p1[i * 8 + j] = i16::cast_from(plane1.data[(y + i) * stride + x + j]);
-                    p2[i * 8 + j] = i16::cast_from(plane2.data[(y + i) * stride + x + j]);
+                    p1[i * 8 + j] = i16::cast_from(data1[(y + i) * stride + x + j]);
+                    p2[i * 8 + j] = i16::cast_from(data2[(y + i) * stride + x + j]);
 
                     let sub = ((i & 12) >> 2) + ((j & 12) >> 1);
                     p1_gmean += p1[i * 8 + j] as f64;
diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 5339631..310675c 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -472,7 +472,11 @@ fn build_gaussian_kernel(sigma: f64, max_len: usize, kernel_weight: usize) -> Ve
 }
 
 fn plane_to_vec<T: Pixel>(input: &Plane<T>) -> Vec<u32> {
-    input.data.iter().map(|pix| u32::cast_from(*pix)).collect()
+    input
+        .rows_iter()
+        .flatten()
+        .map(|pix| u32::cast_from(*pix))
+        .collect()
 }
 
 // This acts differently from downscaling a plane, and is what
-- 
2.43.0


From 3fd8efae8c53b0aca33f5da6d7aff0bec05f1093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:56 +0000
Subject: [PATCH 03/30] fix: SSIM and MS-SSIM of identical input are never NaN

The mean over all windows can exceed 1 by rounding, and the logarithm of the
negative remainder was NaN.
---
 av_metrics/src/video/ssim.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 310675c..f11fad2 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -503,5 +503,6 @@ fn msssim_downscale(input: &[u32], input_width: usize, input_height: usize) -> V
 }
 
 fn log10_convert(score: f64, weight: f64) -> f64 {
-    10.0 * (weight.log10() - (weight - score).log10())
+    // Rounding can lift the score of identical input slightly above its weight.
+    10.0 * (weight.log10() - (weight - score).max(0.0).log10())
 }
-- 
2.43.0


From ab3a73bca2819228a96680a2e25cef7b9592619b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 04/30] fix: MS-SSIM of negatively correlated planes is not NaN

A negative contrast-structure mean was raised to a fractional power. Clamp the
means at zero, as other MS-SSIM implementations do.
---
 av_metrics/src/video/ssim.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index f11fad2..b076881 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -439,9 +439,10 @@ fn calculate_plane_msssim<T: Pixel>(plane1: &Plane<T>, plane2: &Plane<T>, bit_de
     cs.iter()
         .zip(MS_WEIGHT.iter())
         .take(4)
-        .map(|(cs, weight)| cs.powf(*weight))
+        // A negative mean has no real power: such planes share no structure at all.
+        .map(|(cs, weight)| cs.max(0.0).powf(*weight))
         .fold(1.0, |acc, val| acc * val)
-        * ssim[4].powf(MS_WEIGHT[4])
+        * ssim[4].max(0.0).powf(MS_WEIGHT[4])
 }
 
 fn build_gaussian_kernel(sigma: f64, max_len: usize, kernel_weight: usize) -> Vec<i64> {
-- 
2.43.0


From 71486d0264a81ea0e95a236bdaef20d315bc8f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 05/30] fix: score monochrome frames with PSNR-HVS, SSIM and
 MS-SSIM

The chroma planes of monochrome frames are empty, which made these metrics
panic. Empty planes cannot differ, so treat them as identical.
---
 av_metrics/src/video/mod.rs      |  5 +++++
 av_metrics/src/video/psnr_hvs.rs |  6 +++++-
 av_metrics/src/video/ssim.rs     | 17 ++++++++++++++++-
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index 24300a2..fc0a67a 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -44,6 +44,11 @@ impl<T: Pixel> PlaneCompare for Plane<T> {
     }
 }
 
+/// Whether the plane has no samples, as the chroma planes of monochrome video.
+pub(crate) fn is_empty_plane<T: Pixel>(plane: &Plane<T>) -> bool {
+    plane.cfg.width == 0 || plane.cfg.height == 0
+}
+
 pub use v_frame::pixel::ChromaSampling;
 
 pub(crate) trait ChromaWeight {
diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index 2ee2825..eee2f4e 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -18,7 +18,7 @@ use v_frame::frame::Frame;
 use v_frame::plane::Plane;
 use v_frame::prelude::ChromaSampling;
 
-use super::FrameCompare;
+use super::{is_empty_plane, FrameCompare};
 
 /// Calculates the PSNR-HVS score between two videos. Higher is better.
 #[inline]
@@ -176,6 +176,10 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
     bit_depth: usize,
 ) -> f64 {
     const STEP: usize = 7;
+    if is_empty_plane(plane1) {
+        // There is nothing that could differ.
+        return 0.0;
+    }
     let mut result = 0.0;
     let mut pixels = 0usize;
     let csf = match plane_idx {
diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index b076881..24257f1 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -22,7 +22,7 @@ use v_frame::frame::Frame;
 use v_frame::plane::Plane;
 use v_frame::prelude::ChromaSampling;
 
-use super::FrameCompare;
+use super::{is_empty_plane, FrameCompare};
 
 /// Calculates the SSIM score between two videos. Higher is better.
 #[inline]
@@ -114,6 +114,11 @@ impl VideoMetric for Ssim {
             });
 
             s.spawn(|_| {
+                if is_empty_plane(&frame1.planes[1]) {
+                    // There is nothing that could differ.
+                    u = 1.0;
+                    return;
+                }
                 let u_kernel = build_gaussian_kernel(
                     frame1.planes[1].cfg.height as f64 * 1.5 / 256.0,
                     cmp::min(frame1.planes[1].cfg.width, frame1.planes[1].cfg.height),
@@ -129,6 +134,11 @@ impl VideoMetric for Ssim {
             });
 
             s.spawn(|_| {
+                if is_empty_plane(&frame1.planes[2]) {
+                    // There is nothing that could differ.
+                    v = 1.0;
+                    return;
+                }
                 let v_kernel = build_gaussian_kernel(
                     frame1.planes[2].cfg.height as f64 * 1.5 / 256.0,
                     cmp::min(frame1.planes[2].cfg.width, frame1.planes[2].cfg.height),
@@ -409,6 +419,11 @@ fn calculate_plane_msssim<T: Pixel>(plane1: &Plane<T>, plane2: &Plane<T>, bit_de
     // They don't add up to 1 due to rounding done in the paper.
     const MS_WEIGHT: [f64; 5] = [0.0448, 0.2856, 0.3001, 0.2363, 0.1333];
 
+    if is_empty_plane(plane1) {
+        // There is nothing that could differ.
+        return 1.0;
+    }
+
     let mut sample_max = (1 << bit_depth) - 1;
     let mut ssim = [0.0; 5];
     let mut cs = [0.0; 5];
-- 
2.43.0


From 75b122b26fbee5ac30899e21d0a01d1e26970e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 06/30] fix: CIEDE2000 returns an error for unsupported bit
 depths

It reached unreachable!() instead.
---
 av_metrics/src/video/ciede/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index 796d377..9040bf1 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -114,6 +114,12 @@ impl VideoMetric for Ciede2000 {
 
         frame1.can_compare(frame2)?;
 
+        if !matches!(bit_depth, 8 | 10 | 12) {
+            return Err(Box::new(MetricsError::UnsupportedInput {
+                reason: "CIEDE2000 supports bit depths of 8, 10 and 12 only",
+            }));
+        }
+
         let dec = chroma_sampling.get_decimation().unwrap_or((1, 1));
         let y_width = frame1.planes[0].cfg.width;
         let y_height = frame1.planes[0].cfg.height;
-- 
2.43.0


From e4c7e56d4f449f0504cefb20ec47dd6ef0ea1534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 07/30] fix: CIEDE2000 compares the luma of monochrome frames

Without chroma samples no color at all was compared and every pair of
monochrome frames scored 100. Use neutral chroma for them.
---
 av_metrics/src/video/ciede/mod.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index 9040bf1..1de5727 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -126,6 +126,9 @@ impl VideoMetric for Ciede2000 {
         let y_stride = frame1.planes[0].cfg.stride;
         let c_stride = frame1.planes[1].cfg.stride;
         let c_width = frame1.planes[1].cfg.width;
+        // Monochrome video has no chroma samples, all of its colors are neutral.
+        let neutral = vec![T::cast_from(1u16 << (bit_depth - 1)); (y_width + 1) / 2];
+        let neutral = is_empty_plane(&frame1.planes[1]).then_some(&neutral[..]);
         let delta_e_row_fn = get_delta_e_row_fn(bit_depth, dec.0, self.use_simd);
         // let mut delta_e_vec: Vec<f32> = vec![0.0; y_width * y_height];
 
@@ -144,13 +147,13 @@ impl VideoMetric for Ciede2000 {
                 delta_e_row_fn(
                     FrameRow {
                         y: &frame1.planes[0].data_origin()[y_range.clone()],
-                        u: &frame1.planes[1].data_origin()[c_range.clone()],
-                        v: &frame1.planes[2].data_origin()[c_range.clone()],
+                        u: neutral.unwrap_or(&frame1.planes[1].data_origin()[c_range.clone()]),
+                        v: neutral.unwrap_or(&frame1.planes[2].data_origin()[c_range.clone()]),
                     },
                     FrameRow {
                         y: &frame2.planes[0].data_origin()[y_range],
-                        u: &frame2.planes[1].data_origin()[c_range.clone()],
-                        v: &frame2.planes[2].data_origin()[c_range],
+                        u: neutral.unwrap_or(&frame2.planes[1].data_origin()[c_range.clone()]),
+                        v: neutral.unwrap_or(&frame2.planes[2].data_origin()[c_range]),
                     },
                     &mut delta_e_vec[..],
                 );
@@ -344,7 +347,7 @@ impl DeltaEScalar for BD12_444 {}
 use self::avx2::*;
 use std::error::Error;
 
-use super::FrameCompare;
+use super::{is_empty_plane, FrameCompare};
 
 #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
 mod avx2 {
-- 
2.43.0


From f6b2706fbea3575637a2ed47e09e8aaec6ef8734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:59 +0000
Subject: [PATCH 08/30] fix: PSNR-HVS and MS-SSIM return an error for planes
 they cannot process

PSNR-HVS needs at least one 8x8 block in every plane and underflowed without
one, MS-SSIM needs at least one pixel at its fifth scale and returned NaN
without one.
---
 av_metrics/src/video/mod.rs      | 19 +++++++++++++++++++
 av_metrics/src/video/psnr_hvs.rs |  3 ++-
 av_metrics/src/video/ssim.rs     |  3 ++-
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index fc0a67a..6ebb910 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -44,6 +44,25 @@ impl<T: Pixel> PlaneCompare for Plane<T> {
     }
 }
 
+/// Returns an error if the frame has a plane that is smaller than `size` in any direction.
+/// The empty chroma planes of monochrome video are fine.
+pub(crate) fn check_min_plane_size<T: Pixel>(
+    frame: &Frame<T>,
+    size: usize,
+) -> Result<(), MetricsError> {
+    let too_small = |plane: &Plane<T>| plane.cfg.width < size || plane.cfg.height < size;
+    if too_small(&frame.planes[0])
+        || frame.planes[1..]
+            .iter()
+            .any(|plane| !is_empty_plane(plane) && too_small(plane))
+    {
+        return Err(MetricsError::UnsupportedInput {
+            reason: "Video resolution is too small for this metric",
+        });
+    }
+    Ok(())
+}
+
 /// Whether the plane has no samples, as the chroma planes of monochrome video.
 pub(crate) fn is_empty_plane<T: Pixel>(plane: &Plane<T>) -> bool {
     plane.cfg.width == 0 || plane.cfg.height == 0
diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index eee2f4e..63d33b8 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -18,7 +18,7 @@ use v_frame::frame::Frame;
 use v_frame::plane::Plane;
 use v_frame::prelude::ChromaSampling;
 
-use super::{is_empty_plane, FrameCompare};
+use super::{check_min_plane_size, is_empty_plane, FrameCompare};
 
 /// Calculates the PSNR-HVS score between two videos. Higher is better.
 #[inline]
@@ -84,6 +84,7 @@ impl VideoMetric for PsnrHvs {
         }
 
         frame1.can_compare(frame2)?;
+        check_min_plane_size(frame1, 8)?;
 
         let mut y = 0.0;
         let mut u = 0.0;
diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 24257f1..59585bd 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -22,7 +22,7 @@ use v_frame::frame::Frame;
 use v_frame::plane::Plane;
 use v_frame::prelude::ChromaSampling;
 
-use super::{is_empty_plane, FrameCompare};
+use super::{check_min_plane_size, is_empty_plane, FrameCompare};
 
 /// Calculates the SSIM score between two videos. Higher is better.
 #[inline]
@@ -255,6 +255,7 @@ impl VideoMetric for MsSsim {
         }
 
         frame1.can_compare(frame2)?;
+        check_min_plane_size(frame1, 16)?;
 
         let mut y = 0.0;
         let mut u = 0.0;
-- 
2.43.0


From 9e4e9fc0a23be0d0d31fb230fd30f82bdd2b1745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:28 +0000
Subject: [PATCH 09/30] fix: PSNR-HVS does not overflow above 12 bits

Samples were truncated to 16 bits signed and the transform and the squared
coefficients to 32 bits, which overflows for bit depths above 12.
---
 av_metrics/src/video/psnr_hvs.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index 63d33b8..6c39ed9 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -217,10 +217,10 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
     let height = plane1.cfg.height;
     let width = plane1.cfg.width;
     let stride = plane1.cfg.stride;
-    let mut p1 = [0i16; 8 * 8];
-    let mut p2 = [0i16; 8 * 8];
-    let mut dct_p1 = [0i32; 8 * 8];
-    let mut dct_p2 = [0i32; 8 * 8];
+    let mut p1 = [0i32; 8 * 8];
+    let mut p2 = [0i32; 8 * 8];
+    let mut dct_p1 = [0i64; 8 * 8];
+    let mut dct_p2 = [0i64; 8 * 8];
     let data1 = plane1.data_origin();
     let data2 = plane2.data_origin();
     assert!(data1.len() >= stride * (height - 1) + width);
@@ -240,8 +240,8 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
 
             for i in 0..8 {
                 for j in 0..8 {
-                    p1[i * 8 + j] = i16::cast_from(data1[(y + i) * stride + x + j]);
-                    p2[i * 8 + j] = i16::cast_from(data2[(y + i) * stride + x + j]);
+                    p1[i * 8 + j] = i32::cast_from(data1[(y + i) * stride + x + j]);
+                    p2[i * 8 + j] = i32::cast_from(data2[(y + i) * stride + x + j]);
 
                     let sub = ((i & 12) >> 2) + ((j & 12) >> 1);
                     p1_gmean += p1[i * 8 + j] as f64;
@@ -284,10 +284,10 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
             }
 
             p1.iter().copied().enumerate().for_each(|(i, v)| {
-                dct_p1[i] = v as i32;
+                dct_p1[i] = v as i64;
             });
             p2.iter().copied().enumerate().for_each(|(i, v)| {
-                dct_p2[i] = v as i32;
+                dct_p2[i] = v as i64;
             });
             od_bin_fdct8x8(&mut dct_p1);
             od_bin_fdct8x8(&mut dct_p2);
@@ -329,7 +329,7 @@ fn log10_convert(score: f64, weight: f64) -> f64 {
 const DCT_STRIDE: usize = 8;
 
 // Based on daala's version. It is different from the 8x8 DCT we use during encoding.
-fn od_bin_fdct8x8(data: &mut [i32]) {
+fn od_bin_fdct8x8(data: &mut [i64]) {
     assert!(data.len() >= 64);
     let mut z = [0; 64];
     for i in 0..8 {
@@ -341,7 +341,7 @@ fn od_bin_fdct8x8(data: &mut [i32]) {
 }
 
 #[allow(clippy::identity_op)]
-fn od_bin_fdct8(y: &mut [i32], x: &[i32]) {
+fn od_bin_fdct8(y: &mut [i64], x: &[i64]) {
     assert!(y.len() >= 8);
     assert!(x.len() > 7 * DCT_STRIDE);
     let mut t = [0; 8];
@@ -408,9 +408,9 @@ fn od_bin_fdct8(y: &mut [i32], x: &[i32]) {
 /// This will not work for `b == 0`, however currently this is only used for
 /// `b == 1` anyway.
 #[inline(always)]
-fn od_dct_rshift(a: i32, b: u32) -> i32 {
+fn od_dct_rshift(a: i64, b: u32) -> i64 {
     debug_assert!(b > 0);
-    debug_assert!(b <= 32);
+    debug_assert!(b <= 64);
 
-    ((a as u32 >> (32 - b)) as i32 + a) >> b
+    ((a as u64 >> (64 - b)) as i64 + a) >> b
 }
-- 
2.43.0


From b51f93a02c961a379925371169567260f1d82336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:02 +0000
Subject: [PATCH 10/30] fix: MS-SSIM does not overflow above 13 bits

At the coarsest scale the second moments need up to 68 bits.
---
 av_metrics/src/video/ssim.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 59585bd..de109aa 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -306,9 +306,9 @@ impl VideoMetric for MsSsim {
 struct SsimMoments {
     mux: i64,
     muy: i64,
-    x2: i64,
-    xy: i64,
-    y2: i64,
+    x2: i128,
+    xy: i128,
+    y2: i128,
     w: i64,
 }
 
@@ -370,9 +370,9 @@ fn calculate_plane_ssim_internal(
                     let pix2 = line2[target_x] as i64;
                     moments.mux += window * pix1;
                     moments.muy += window * pix2;
-                    moments.x2 += window * pix1 * pix1;
-                    moments.xy += window * pix1 * pix2;
-                    moments.y2 += window * pix2 * pix2;
+                    moments.x2 += (window * pix1 * pix1) as i128;
+                    moments.xy += (window * pix1 * pix2) as i128;
+                    moments.y2 += (window * pix2 * pix2) as i128;
                     moments.w += window;
                 }
                 buf[x] = moments;
@@ -389,9 +389,9 @@ fn calculate_plane_ssim_internal(
                     let window = vert_kernel[k];
                     moments.mux += window * buf.mux;
                     moments.muy += window * buf.muy;
-                    moments.x2 += window * buf.x2;
-                    moments.xy += window * buf.xy;
-                    moments.y2 += window * buf.y2;
+                    moments.x2 += window as i128 * buf.x2;
+                    moments.xy += window as i128 * buf.xy;
+                    moments.y2 += window as i128 * buf.y2;
                     moments.w += window * buf.w;
                 }
                 let w = moments.w as f64;
-- 
2.43.0


From 224e89ed054d73151e1255237f5e1b66f0503e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:10 +0000
Subject: [PATCH 11/30] fix: realigned chroma is written at the plane's stride
 and origin

Vertically sited chroma was stored with the plane width as stride, which
scrambled every plane whose stride differs from its width.
---
 av_metrics/src/video/decode.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index c51455b..7753a95 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -129,13 +129,14 @@ pub fn convert_chroma_data<T: Pixel>(
         convert_u16
     };
 
-    let output_data = &mut plane_data.data;
     let width = plane_data.cfg.width;
     let height = plane_data.cfg.height;
+    let stride = plane_data.cfg.stride;
+    let output_data = plane_data.data_origin_mut();
     for y in 0..height {
         // Filter: [4 -17 114 35 -9 1]/128, derived from a 6-tap Lanczos window.
         let in_row = &source[(y * source_stride)..];
-        let out_row = &mut output_data[(y * width)..];
+        let out_row = &mut output_data[(y * stride)..];
         let breakpoint = cmp::min(width, 2);
         for x in 0..breakpoint {
             out_row[x] = T::cast_from(clamp(
-- 
2.43.0


From 6f291abdb0add566980f64b142503b0f21aca3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:10 +0000
Subject: [PATCH 12/30] fix: realign chroma planes narrower than five samples

The width minus the filter reach underflowed below three samples, and for
three and four samples the samples to the left were indexed below zero.
---
 av_metrics/src/video/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index 7753a95..d16f81e 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -151,7 +151,7 @@ pub fn convert_chroma_data<T: Pixel>(
                 (1 << bit_depth) - 1,
             ));
         }
-        let breakpoint2 = width - 3;
+        let breakpoint2 = cmp::max(width.saturating_sub(3), breakpoint);
         for x in breakpoint..breakpoint2 {
             out_row[x] = T::cast_from(clamp(
                 (4 * get_pixel(in_row, x - 2) - 17 * get_pixel(in_row, x - 1)
-- 
2.43.0


From 54c57de09ab3dfee79ad872ffb6d8da13bcce0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:11 +0000
Subject: [PATCH 13/30] fix: decode monochrome Y4M video

Converting the absent chroma of a monochrome frame panicked on the stride of
the empty plane.
---
 av_metrics/src/video/decode.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index d16f81e..c8c756e 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -2,7 +2,7 @@
 //! Prebuilt decoders are included in the `av-metrics-decoders` crate.
 
 use crate::video::pixel::Pixel;
-use crate::video::{ChromaSamplePosition, ChromaSampling};
+use crate::video::{is_empty_plane, ChromaSamplePosition, ChromaSampling};
 use std::cmp;
 use v_frame::frame::Frame;
 use v_frame::pixel::CastFromPrimitive;
@@ -110,6 +110,11 @@ pub fn convert_chroma_data<T: Pixel>(
     source_stride: usize,
     source_bytewidth: usize,
 ) {
+    if is_empty_plane(plane_data) {
+        // Monochrome video has no chroma to convert.
+        return;
+    }
+
     if chroma_pos != ChromaSamplePosition::Vertical {
         // TODO: Also convert Interpolated chromas
         plane_data.copy_from_raw_u8(source, source_stride, source_bytewidth);
-- 
2.43.0


From 18a54706b41feafd72503cc000f599056cf34aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:11 +0000
Subject: [PATCH 14/30] fix: read_specific_frame stops at the end of the video

It kept asking the decoder for every missing frame, practically forever for
large frame numbers.
---
 av_metrics/src/video/decode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index c8c756e..c4b928b 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -24,9 +24,9 @@ pub trait Decoder: Send {
     fn read_specific_frame<T: Pixel>(&mut self, frame_number: usize) -> Option<Frame<T>> {
         let mut frame_no = 0;
         while frame_no <= frame_number {
-            let frame = self.read_video_frame();
-            if frame_no == frame_number && frame.is_some() {
-                return frame;
+            let frame = self.read_video_frame()?;
+            if frame_no == frame_number {
+                return Some(frame);
             }
             frame_no += 1;
         }
-- 
2.43.0


From 8e24fad8d7a4c719994b51f519a198faaf569b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 15/30] fix: decoded frames have the size of the video

Frames were allocated with their size rounded up to multiples of 8, so that
the metrics counted samples that do not exist, and videos of different size
that round to the same size were compared without an error.
---
 av_metrics_decoders/src/ffmpeg.rs      |  3 +--
 av_metrics_decoders/src/lib.rs         | 21 +++++++++++++++++++++
 av_metrics_decoders/src/vapoursynth.rs |  8 ++------
 av_metrics_decoders/src/y4m.rs         |  2 +-
 4 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index 3843143..1659862 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -105,11 +105,10 @@ impl FfmpegDecoder {
     }
 
     fn decode_frame<T: Pixel>(&self, decoded: &frame::Video) -> Frame<T> {
-        let mut f: Frame<T> = Frame::new_with_padding(
+        let mut f: Frame<T> = crate::new_frame(
             self.video_details.width,
             self.video_details.height,
             self.video_details.chroma_sampling,
-            0,
         );
         let width = self.video_details.width;
         let height = self.video_details.height;
diff --git a/av_metrics_decoders/src/lib.rs b/av_metrics_decoders/src/lib.rs
index 42d6655..7b9b3bc 100644
--- a/av_metrics_decoders/src/lib.rs
+++ b/av_metrics_decoders/src/lib.rs
@@ -35,3 +35,24 @@ pub use crate::vapoursynth::{VapoursynthDecoder, VapoursynthDecoderPlugin};
 
 pub use av_metrics::video::decode::{Decoder, VideoDetails};
 pub use av_metrics::video::{CastFromPrimitive, ChromaSampling, Frame, Pixel, Plane};
+
+/// Creates a frame whose planes have exactly the given size.
+///
+/// `Frame::new_with_padding` would round the size up to multiples of 8, and the added samples
+/// would be part of the picture for everything that looks at the frame.
+#[allow(dead_code)] // not used if no decoder is enabled
+pub(crate) fn new_frame<T: Pixel>(
+    width: usize,
+    height: usize,
+    chroma_sampling: ChromaSampling,
+) -> Frame<T> {
+    let (xdec, ydec) = chroma_sampling.get_decimation().unwrap_or((0, 0));
+    let (chroma_width, chroma_height) = chroma_sampling.get_chroma_dimensions(width, height);
+    Frame {
+        planes: [
+            Plane::new(width, height, 0, 0, 0, 0),
+            Plane::new(chroma_width, chroma_height, xdec, ydec, 0, 0),
+            Plane::new(chroma_width, chroma_height, xdec, ydec, 0, 0),
+        ],
+    }
+}
diff --git a/av_metrics_decoders/src/vapoursynth.rs b/av_metrics_decoders/src/vapoursynth.rs
index f4ec911..1fc3a4b 100644
--- a/av_metrics_decoders/src/vapoursynth.rs
+++ b/av_metrics_decoders/src/vapoursynth.rs
@@ -127,12 +127,8 @@ impl Decoder for VapoursynthDecoder {
             panic!("Unsupported bit depth");
         }
 
-        let mut f: av_metrics::video::Frame<T> = av_metrics::video::Frame::new_with_padding(
-            details.width,
-            details.height,
-            details.chroma_sampling,
-            0,
-        );
+        let mut f: av_metrics::video::Frame<T> =
+            crate::new_frame(details.width, details.height, details.chroma_sampling);
 
         {
             let frame = self.get_node().unwrap().get_frame(self.cur_frame);
diff --git a/av_metrics_decoders/src/y4m.rs b/av_metrics_decoders/src/y4m.rs
index 81cbb83..26da966 100644
--- a/av_metrics_decoders/src/y4m.rs
+++ b/av_metrics_decoders/src/y4m.rs
@@ -75,7 +75,7 @@ where
         let height = self.inner.get_height();
         let bytes = self.inner.get_bytes_per_sample();
         self.inner.read_frame().ok().map(|frame| {
-            let mut f: Frame<T> = Frame::new_with_padding(width, height, chroma_sampling, 0);
+            let mut f: Frame<T> = crate::new_frame(width, height, chroma_sampling);
 
             let (chroma_width, _) = chroma_sampling.get_chroma_dimensions(width, height);
             f.planes[0].copy_from_raw_u8(frame.get_y_plane(), width * bytes, bytes);
-- 
2.43.0


From 73f3c7fe9a6b0a4b65f79e05e61af7c8044a527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 16/30] fix: honor the line size of frames decoded by FFmpeg

FFmpeg pads the lines of decoded frames for most codecs and widths. Reading
them with the visible width as line size sheared the picture.
---
 av_metrics_decoders/src/ffmpeg.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index 1659862..a84bba7 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -110,21 +110,15 @@ impl FfmpegDecoder {
             self.video_details.height,
             self.video_details.chroma_sampling,
         );
-        let width = self.video_details.width;
-        let height = self.video_details.height;
         let bit_depth = self.video_details.bit_depth;
         let bytes = if bit_depth > 8 { 2 } else { 1 };
-        let (chroma_width, _) = self
-            .video_details
-            .chroma_sampling
-            .get_chroma_dimensions(width, height);
-        f.planes[0].copy_from_raw_u8(decoded.data(0), width * bytes, bytes);
+        f.planes[0].copy_from_raw_u8(decoded.data(0), decoded.stride(0), bytes);
         convert_chroma_data(
             &mut f.planes[1],
             self.video_details.chroma_sample_position,
             bit_depth,
             decoded.data(1),
-            chroma_width * bytes,
+            decoded.stride(1),
             bytes,
         );
         convert_chroma_data(
@@ -132,7 +126,7 @@ impl FfmpegDecoder {
             self.video_details.chroma_sample_position,
             bit_depth,
             decoded.data(2),
-            chroma_width * bytes,
+            decoded.stride(2),
             bytes,
         );
         f
-- 
2.43.0


From 5646421660fb775141d733c8d76af82b4407cc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:34 +0000
Subject: [PATCH 17/30] fix: a frame limit larger than the video does not
 exhaust memory

Space for one result per frame of the limit was reserved up front, which
panics or aborts for limits such as usize::MAX.
---
 av_metrics/src/video/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index 6ebb910..0ad4406 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -208,7 +208,7 @@ trait VideoMetric: Send + Sync {
             });
 
             use rayon::prelude::*;
-            let mut metrics = Vec::with_capacity(frame_limit.unwrap_or(0));
+            let mut metrics = Vec::new();
             let mut process_error = Ok(());
             loop {
                 let working_set: Vec<_> = (0..num_threads)
-- 
2.43.0


From 418ad35297e2243fb5213d28312f9aa9e4123a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:48 +0000
Subject: [PATCH 18/30] fix: a frame that cannot be compared ends the
 calculation with its error

After an error the results were abandoned while the decoding thread was still
waiting for room in the channel, so every call with more remaining frames than
the channel holds never returned. Release the receiver first, and report what
is wrong with the frames instead of the resulting failure to send. Do not dump
the samples of whole frames into the message, which panicked for monochrome.
---
 av_metrics/src/video/mod.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index 0ad4406..812aa84 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -193,10 +193,7 @@ trait VideoMetric: Send + Sync {
                     if let (Some(frame1), Some(frame2)) = (frame1, frame2) {
                         progress_callback(decoded);
                         if let Err(e) = send.send((frame1, frame2)) {
-                            let (frame1, frame2) = e.into_inner();
-                            return Err(format!(
-                                "Error sending\n\nframe1: {frame1:?}\n\nframe2: {frame2:?}"
-                            ));
+                            return Err(format!("Error sending frame {decoded}: {e}"));
                         }
                     } else {
                         break;
@@ -222,9 +219,7 @@ trait VideoMetric: Send + Sync {
                                     vid_info.bit_depth,
                                     vid_info.chroma_sampling,
                                 )
-                                .map_err(|e| {
-                                    format!("\n\n{e} on\n\nframe1: {f1:?}\n\nand\n\nframe2: {f2:?}")
-                                })
+                                .map_err(|e| e.to_string())
                             })
                             .ok()
                     })
@@ -242,6 +237,10 @@ trait VideoMetric: Send + Sync {
 
             out = metrics;
 
+            // The sender may be waiting for a frame to be received, which will not happen
+            // anymore after an error.
+            drop(recv);
+
             (
                 send_result
                     .join()
@@ -252,14 +251,14 @@ trait VideoMetric: Send + Sync {
 
         match scope_result {
             Ok((send_error, process_error)) => {
-                if let Err(error) = send_error {
-                    return Err(MetricsError::SendError { reason: error }.into());
-                }
-
                 if let Err(error) = process_error {
                     return Err(MetricsError::ProcessError { reason: error }.into());
                 }
 
+                if let Err(error) = send_error {
+                    return Err(MetricsError::SendError { reason: error }.into());
+                }
+
                 if out.is_empty() {
                     return Err(MetricsError::UnsupportedInput {
                         reason: "No readable frames found in one or more input files",
-- 
2.43.0


From 2c35a0a953799c8aae38d3cace3b6374f4346bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 19/30] fix: --quiet and --frames are off unless given

With clap 4, contains_id is also true for the default value of a flag, so that
results were never printed to the standard output.
---
 av_metrics_tool/src/main.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index 4cbbe21..0ade9c1 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -6,7 +6,7 @@ use av_metrics::video::*;
 use av_metrics_decoders::FfmpegDecoder;
 #[cfg(not(feature = "ffmpeg"))]
 use av_metrics_decoders::Y4MDecoder;
-use clap::{Arg, Command};
+use clap::{Arg, ArgAction, Command};
 use console::style;
 use indicatif::{ProgressBar, ProgressStyle};
 use serde::Serialize;
@@ -74,13 +74,13 @@ fn main() -> Result<(), String> {
             Arg::new("QUIET")
                 .help("Do not output to stdout")
                 .long("quiet")
-                .num_args(0),
+                .action(ArgAction::SetTrue),
         )
         .arg(
             Arg::new("FRAMES")
                 .help("Count the number of frames in a file")
                 .long("frames")
-                .num_args(0),
+                .action(ArgAction::SetTrue),
         )
         .get_matches();
     let base = cli.get_one::<String>("BASE").unwrap();
@@ -106,7 +106,7 @@ fn main() -> Result<(), String> {
             File::create(filename).map_err(|err| err.to_string())?,
         )));
     };
-    if !cli.contains_id("QUIET") {
+    if !cli.get_flag("QUIET") {
         writers.push(OutputType::Stdout(BufWriter::new(std::io::stdout())));
     }
 
@@ -128,8 +128,8 @@ fn main() -> Result<(), String> {
                     base,
                     input,
                     metrics,
-                    cli.contains_id("QUIET"),
-                    cli.contains_id("FRAMES"),
+                    cli.get_flag("QUIET"),
+                    cli.get_flag("FRAMES"),
                 ));
             }
             (InputType::Audio, InputType::Audio) => {
-- 
2.43.0


From 65037ee2eb5aa8774a5bce3abe1ba47d70acbd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:30 +0000
Subject: [PATCH 20/30] fix: unfiltered chroma is copied to the last row of
 every plane

---
 av_metrics/src/video/decode.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index c4b928b..c6b9b57 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -117,7 +117,25 @@ pub fn convert_chroma_data<T: Pixel>(
 
     if chroma_pos != ChromaSamplePosition::Vertical {
         // TODO: Also convert Interpolated chromas
-        plane_data.copy_from_raw_u8(source, source_stride, source_bytewidth);
+        // `Plane::copy_from_raw_u8` skips the last row of planes that have padding before their
+        // rows but not below them, and source rows that are shorter than the stride.
+        let width = plane_data.cfg.width;
+        let height = plane_data.cfg.height;
+        let stride = plane_data.cfg.stride;
+        let output_data = plane_data.data_origin_mut();
+        for y in 0..height {
+            let in_row = &source[(y * source_stride)..][..width * source_bytewidth];
+            let out_row = &mut output_data[(y * stride)..][..width];
+            if source_bytewidth == 1 {
+                for (out, &value) in out_row.iter_mut().zip(in_row) {
+                    *out = T::cast_from(value);
+                }
+            } else {
+                for (out, bytes) in out_row.iter_mut().zip(in_row.chunks_exact(2)) {
+                    *out = T::cast_from(u16::from_le_bytes([bytes[0], bytes[1]]));
+                }
+            }
+        }
         return;
     }
 
-- 
2.43.0


From 9eb8379605ef8e377f891470d22321788b177d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:03 +0000
Subject: [PATCH 21/30] fix: a report that cannot be written makes the tool
 fail

---
 av_metrics_tool/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index 0ade9c1..f82bb31 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -146,6 +146,7 @@ fn main() -> Result<(), String> {
 
     for writer in writers.iter_mut() {
         report.print(writer)?;
+        writer.flush().map_err(|err| err.to_string())?;
     }
 
     Ok(())
-- 
2.43.0


From da4251edf42f8789251384544d99bfc49f272c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:09 +0000
Subject: [PATCH 22/30] fix: file names cannot break the columns of CSV and
 Markdown reports

---
 av_metrics_tool/src/main.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index f82bb31..bf9bcd0 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -321,7 +321,7 @@ impl Report<'_> {
                     writeln!(
                         w,
                         "{},{},{},{},{},{},{}",
-                        cmp.filename,
+                        csv_field(&cmp.filename),
                         cmp.psnr.map(|v| v.avg).unwrap_or(-0.0),
                         cmp.apsnr.map(|v| v.avg).unwrap_or(-0.0),
                         cmp.psnr_hvs.map(|v| v.avg).unwrap_or(-0.0),
@@ -343,7 +343,7 @@ impl Report<'_> {
                     writeln!(
                         w,
                         "|{}|{}|{}|{}|{}|{}|{}|",
-                        cmp.filename,
+                        cmp.filename.replace('|', "\\|"),
                         cmp.psnr.map(|v| v.avg).unwrap_or(-0.0),
                         cmp.apsnr.map(|v| v.avg).unwrap_or(-0.0),
                         cmp.psnr_hvs.map(|v| v.avg).unwrap_or(-0.0),
@@ -379,6 +379,15 @@ impl Report<'_> {
     }
 }
 
+/// Quotes a CSV field that would otherwise not be read as a single field.
+fn csv_field(field: &str) -> String {
+    if field.contains([',', '"', '\n', '\r']) {
+        format!("\"{}\"", field.replace('"', "\"\""))
+    } else {
+        field.to_owned()
+    }
+}
+
 enum OutputType {
     JSON(BufWriter<File>),
     CSV(BufWriter<File>),
-- 
2.43.0


From 05bd3e0982dde52426f97816998ceb3e3330b252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:12 +0000
Subject: [PATCH 23/30] fix: counting frames of videos with different bit
 depths does not panic

---
 av_metrics_tool/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index bf9bcd0..2cdc385 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -294,7 +294,7 @@ fn total_frames<P: AsRef<Path>>(input1: P, input2: P) -> u64 {
         get_decoder(input1).expect("Failed to open input file 1 for counting frames");
     let mut decoder2 =
         get_decoder(input2).expect("Failed to open input file 2 for counting frames");
-    if decoder1.get_bit_depth() > 8 {
+    if decoder1.get_bit_depth().max(decoder2.get_bit_depth()) > 8 {
         count_frames::<_, u16>(&mut decoder1, &mut decoder2)
     } else {
         count_frames::<_, u8>(&mut decoder1, &mut decoder2)
-- 
2.43.0


From 084d176190a62b04e4aee14d69a6dff464bc3831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:27 +0000
Subject: [PATCH 24/30] fix: frames decoded by FFmpeg keep their own size

---
 av_metrics_decoders/src/ffmpeg.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index a84bba7..4323343 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -106,8 +106,8 @@ impl FfmpegDecoder {
 
     fn decode_frame<T: Pixel>(&self, decoded: &frame::Video) -> Frame<T> {
         let mut f: Frame<T> = crate::new_frame(
-            self.video_details.width,
-            self.video_details.height,
+            decoded.width() as usize,
+            decoded.height() as usize,
             self.video_details.chroma_sampling,
         );
         let bit_depth = self.video_details.bit_depth;
-- 
2.43.0


From 254383460c7cb20fb5a6e6497cce3c8f3033d56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 25/30] fix: FFmpeg frames in another format than the stream's
 do not panic

---
 av_metrics_decoders/src/ffmpeg.rs | 39 +++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index 4323343..926ef59 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -22,6 +22,7 @@ pub struct FfmpegDecoder {
     stream_index: usize,
     end_of_stream: bool,
     eof_sent: bool,
+    finished: bool,
 }
 
 impl FfmpegDecoder {
@@ -101,9 +102,39 @@ impl FfmpegDecoder {
             stream_index,
             end_of_stream: false,
             eof_sent: false,
+            finished: false,
         })
     }
 
+    /// Whether frames in this format have the bit depth and the sampling of the video.
+    ///
+    /// The format can change within a stream.
+    fn can_represent(&self, format: format::pixel::Pixel) -> bool {
+        let depth_and_sampling = match format {
+            format::pixel::Pixel::YUV420P | format::pixel::Pixel::YUVJ420P => {
+                (8, ChromaSampling::Cs420)
+            }
+            format::pixel::Pixel::YUV422P | format::pixel::Pixel::YUVJ422P => {
+                (8, ChromaSampling::Cs422)
+            }
+            format::pixel::Pixel::YUV444P | format::pixel::Pixel::YUVJ444P => {
+                (8, ChromaSampling::Cs444)
+            }
+            format::pixel::Pixel::YUV420P10LE => (10, ChromaSampling::Cs420),
+            format::pixel::Pixel::YUV422P10LE => (10, ChromaSampling::Cs422),
+            format::pixel::Pixel::YUV444P10LE => (10, ChromaSampling::Cs444),
+            format::pixel::Pixel::YUV420P12LE => (12, ChromaSampling::Cs420),
+            format::pixel::Pixel::YUV422P12LE => (12, ChromaSampling::Cs422),
+            format::pixel::Pixel::YUV444P12LE => (12, ChromaSampling::Cs444),
+            _ => return false,
+        };
+        depth_and_sampling
+            == (
+                self.video_details.bit_depth,
+                self.video_details.chroma_sampling,
+            )
+    }
+
     fn decode_frame<T: Pixel>(&self, decoded: &frame::Video) -> Frame<T> {
         let mut f: Frame<T> = crate::new_frame(
             decoded.width() as usize,
@@ -147,6 +178,9 @@ impl Decoder for FfmpegDecoder {
         // but noooooo.
         //
         // Reference: https://ffmpeg.org/doxygen/trunk/api-h264-test_8c_source.html#l00110
+        if self.finished {
+            return None;
+        }
         loop {
             // This iterator is actually really stupid... it doesn't reset itself after each `new`.
             // But that solves our lifetime hell issues, ironically.
@@ -183,6 +217,11 @@ impl Decoder for FfmpegDecoder {
                 }
 
                 if self.decoder.receive_frame(&mut decoded).is_ok() {
+                    if !self.can_represent(decoded.format()) {
+                        // There is no way to report the change, and no way to go on.
+                        self.finished = true;
+                        return None;
+                    }
                     let f = self.decode_frame(&decoded);
                     self.frameno += 1;
                     return Some(f);
-- 
2.43.0


From 1c8d13da0629d4c1f108d866455a37750ee21675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 26/30] fix: the vapoursynth feature builds

---
 av_metrics_decoders/src/vapoursynth.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/av_metrics_decoders/src/vapoursynth.rs b/av_metrics_decoders/src/vapoursynth.rs
index 1fc3a4b..06c3ff6 100644
--- a/av_metrics_decoders/src/vapoursynth.rs
+++ b/av_metrics_decoders/src/vapoursynth.rs
@@ -233,9 +233,12 @@ impl Decoder for VapoursynthDecoder {
     }
 }
 
+/// The Vapoursynth plugin that decodes video files
 #[derive(Clone, Copy, Debug, Default, PartialEq)]
 pub enum VapoursynthDecoderPlugin {
+    /// `LWLibavSource` of L-SMASH Works
     #[default]
     LSmash,
+    /// `VideoSource` of BestSource
     BestSource,
 }
-- 
2.43.0


From bc6b1ddd3c993d550d4f4b9060f4f4792337beb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 27/30] fix: VapourSynth output that cannot be represented is
 an error

---
 av_metrics_decoders/src/vapoursynth.rs | 35 ++++++++++++++++++++------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/av_metrics_decoders/src/vapoursynth.rs b/av_metrics_decoders/src/vapoursynth.rs
index 06c3ff6..9222540 100644
--- a/av_metrics_decoders/src/vapoursynth.rs
+++ b/av_metrics_decoders/src/vapoursynth.rs
@@ -59,11 +59,7 @@ clip.set_output(0)
         );
         let env = Environment::from_script(&script)?;
         let this = Self { env, cur_frame: 0 };
-        this.get_node()?;
-        ensure!(
-            this.get_format()?.sample_type() == SampleType::Integer,
-            "Currently only integer input is supported"
-        );
+        this.check_output()?;
         Ok(this)
     }
 
@@ -71,12 +67,35 @@ clip.set_output(0)
     pub fn new_from_script(filename: &Path) -> Result<Self> {
         let env = Environment::from_file(filename, EvalFlags::SetWorkingDir)?;
         let this = Self { env, cur_frame: 0 };
-        this.get_node()?;
+        this.check_output()?;
+        Ok(this)
+    }
+
+    /// Checks that there is an output, and that its frames can be represented.
+    fn check_output(&self) -> Result<()> {
+        let format = self.get_format()?;
         ensure!(
-            this.get_format()?.sample_type() == SampleType::Integer,
+            format.sample_type() == SampleType::Integer,
             "Currently only integer input is supported"
         );
-        Ok(this)
+        ensure!(
+            format.bits_per_sample() <= 16,
+            "Bit depths above 16 are not supported"
+        );
+        ensure!(
+            format.color_family() != ColorFamily::Compat,
+            "Packed formats are not supported"
+        );
+        ensure!(
+            matches!(
+                (format.sub_sampling_w(), format.sub_sampling_h()),
+                (0, 0) | (1, 0) | (1, 1)
+            ),
+            "Unsupported chroma subsampling"
+        );
+        self.get_resolution()?;
+        self.get_frame_rate()?;
+        Ok(())
     }
 
     fn get_node(&self) -> Result<Node<'_>> {
-- 
2.43.0


From 6f57ac3d257304cb95d32fd062f2b4f35694dc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:13 +0000
Subject: [PATCH 28/30] fix: opening video files with VapourSynth handles
 missing files and line breaks in names

---
 av_metrics_decoders/src/vapoursynth.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/av_metrics_decoders/src/vapoursynth.rs b/av_metrics_decoders/src/vapoursynth.rs
index 9222540..64bc88f 100644
--- a/av_metrics_decoders/src/vapoursynth.rs
+++ b/av_metrics_decoders/src/vapoursynth.rs
@@ -31,12 +31,13 @@ impl VapoursynthDecoder {
         plugin: VapoursynthDecoderPlugin,
     ) -> Result<Self> {
         let escaped_filename = filename
-            .canonicalize()
-            .unwrap()
+            .canonicalize()?
             .to_string_lossy()
             .trim_start_matches(r"\\?\")
             .replace('\\', "\\\\")
-            .replace('"', "\\\"");
+            .replace('"', "\\\"")
+            .replace('\n', "\\n")
+            .replace('\r', "\\r");
         let script = format!(
             r#"
 import vapoursynth as vs
-- 
2.43.0


From 6fde17ff78fbdfd745933f1baf9c717458cf4455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:04 +0000
Subject: [PATCH 29/30] fix: frames with different memory layouts can be
 compared

The metrics rejected them because of a different resolution, and CIEDE2000 used
the stride of the first chroma plane for the second.
---
 av_metrics/src/video/ciede/mod.rs | 31 ++++++++++++++-----------------
 av_metrics/src/video/mod.rs       |  7 ++++++-
 av_metrics/src/video/psnr_hvs.rs  | 11 ++++++-----
 3 files changed, 26 insertions(+), 23 deletions(-)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index 1de5727..21488da 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -93,6 +93,7 @@ impl Default for Ciede2000 {
 
 use rayon::prelude::*;
 use v_frame::frame::Frame;
+use v_frame::plane::Plane;
 use v_frame::prelude::ChromaSampling;
 
 impl VideoMetric for Ciede2000 {
@@ -123,9 +124,6 @@ impl VideoMetric for Ciede2000 {
         let dec = chroma_sampling.get_decimation().unwrap_or((1, 1));
         let y_width = frame1.planes[0].cfg.width;
         let y_height = frame1.planes[0].cfg.height;
-        let y_stride = frame1.planes[0].cfg.stride;
-        let c_stride = frame1.planes[1].cfg.stride;
-        let c_width = frame1.planes[1].cfg.width;
         // Monochrome video has no chroma samples, all of its colors are neutral.
         let neutral = vec![T::cast_from(1u16 << (bit_depth - 1)); (y_width + 1) / 2];
         let neutral = is_empty_plane(&frame1.planes[1]).then_some(&neutral[..]);
@@ -133,27 +131,21 @@ impl VideoMetric for Ciede2000 {
         // let mut delta_e_vec: Vec<f32> = vec![0.0; y_width * y_height];
 
         let delta_e_per_line = (0..y_height).into_par_iter().map(|i| {
-            let y_start = i * y_stride;
-            let y_end = y_start + y_width;
-            let c_start = (i >> dec.1) * c_stride;
-            let c_end = c_start + c_width;
+            let chroma = |plane| neutral.unwrap_or_else(|| visible_row(plane, i >> dec.1));
 
-            let y_range = y_start..y_end;
-            let c_range = c_start..c_end;
-
-            let mut delta_e_vec = vec![0.0; y_end - y_start];
+            let mut delta_e_vec = vec![0.0; y_width];
 
             unsafe {
                 delta_e_row_fn(
                     FrameRow {
-                        y: &frame1.planes[0].data_origin()[y_range.clone()],
-                        u: neutral.unwrap_or(&frame1.planes[1].data_origin()[c_range.clone()]),
-                        v: neutral.unwrap_or(&frame1.planes[2].data_origin()[c_range.clone()]),
+                        y: visible_row(&frame1.planes[0], i),
+                        u: chroma(&frame1.planes[1]),
+                        v: chroma(&frame1.planes[2]),
                     },
                     FrameRow {
-                        y: &frame2.planes[0].data_origin()[y_range],
-                        u: neutral.unwrap_or(&frame2.planes[1].data_origin()[c_range.clone()]),
-                        v: neutral.unwrap_or(&frame2.planes[2].data_origin()[c_range]),
+                        y: visible_row(&frame2.planes[0], i),
+                        u: chroma(&frame2.planes[1]),
+                        v: chroma(&frame2.planes[2]),
                     },
                     &mut delta_e_vec[..],
                 );
@@ -191,6 +183,11 @@ pub(crate) struct FrameRow<'a, T: Pixel> {
     v: &'a [T],
 }
 
+/// The visible samples of a row.
+fn visible_row<T: Pixel>(plane: &Plane<T>, y: usize) -> &[T] {
+    &plane.data_origin()[y * plane.cfg.stride..][..plane.cfg.width]
+}
+
 type DeltaERowFn<T> = unsafe fn(FrameRow<T>, FrameRow<T>, &mut [f32]);
 
 fn get_delta_e_row_fn<T: Pixel>(bit_depth: usize, xdec: usize, simd: bool) -> DeltaERowFn<T> {
diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index 812aa84..f35c07c 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -35,7 +35,12 @@ pub(crate) trait PlaneCompare {
 
 impl<T: Pixel> PlaneCompare for Plane<T> {
     fn can_compare(&self, other: &Self) -> Result<(), MetricsError> {
-        if self.cfg != other.cfg {
+        // How the samples are laid out in memory makes no difference.
+        let geometry = |plane: &Self| {
+            let cfg = &plane.cfg;
+            (cfg.width, cfg.height, cfg.xdec, cfg.ydec)
+        };
+        if geometry(self) != geometry(other) {
             return Err(MetricsError::InputMismatch {
                 reason: "Video resolution does not match",
             });
diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index 6c39ed9..6bdd11c 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -216,15 +216,16 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
 
     let height = plane1.cfg.height;
     let width = plane1.cfg.width;
-    let stride = plane1.cfg.stride;
+    let stride1 = plane1.cfg.stride;
+    let stride2 = plane2.cfg.stride;
     let mut p1 = [0i32; 8 * 8];
     let mut p2 = [0i32; 8 * 8];
     let mut dct_p1 = [0i64; 8 * 8];
     let mut dct_p2 = [0i64; 8 * 8];
     let data1 = plane1.data_origin();
     let data2 = plane2.data_origin();
-    assert!(data1.len() >= stride * (height - 1) + width);
-    assert!(data2.len() >= stride * (height - 1) + width);
+    assert!(data1.len() >= stride1 * (height - 1) + width);
+    assert!(data2.len() >= stride2 * (height - 1) + width);
     for y in (0..(height - STEP)).step_by(STEP) {
         for x in (0..(width - STEP)).step_by(STEP) {
             let mut p1_means = [0.0; 4];
@@ -240,8 +241,8 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
 
             for i in 0..8 {
                 for j in 0..8 {
-                    p1[i * 8 + j] = i32::cast_from(data1[(y + i) * stride + x + j]);
-                    p2[i * 8 + j] = i32::cast_from(data2[(y + i) * stride + x + j]);
+                    p1[i * 8 + j] = i32::cast_from(data1[(y + i) * stride1 + x + j]);
+                    p2[i * 8 + j] = i32::cast_from(data2[(y + i) * stride2 + x + j]);
 
                     let sub = ((i & 12) >> 2) + ((j & 12) >> 1);
                     p1_gmean += p1[i * 8 + j] as f64;
-- 
2.43.0


From 12c92fef32dbcc5e8aee84dc7696fa72bc6fd809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 30/30] fix: CIEDE2000 of samples beyond the bit depth

Two-byte samples can hold more than the stated bit depth allows, as those
of damaged or carelessly written files do. The scalar conversion panicked
for them (the lookup tables of pow_2_4 end at 16.0) and the vectorised one
returned another score. Treat them as the largest value of the depth.
---
 av_metrics/src/video/ciede/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index 21488da..d23ae4d 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -263,11 +263,13 @@ where
 pub(crate) trait DeltaEScalar: Colorspace {
     fn delta_e_scalar(yuv1: (u16, u16, u16), yuv2: (u16, u16, u16)) -> f32 {
         let scale = (1 << (Self::BIT_DEPTH - 8)) as f32;
+        // The conversion only covers samples that fit the bit depth.
+        let sample = |value: u16| value.min((1 << Self::BIT_DEPTH) - 1) as f32;
         let yuv_to_rgb = |yuv: (u16, u16, u16)| {
             // Assumes BT.709
-            let y = (yuv.0 as f32 - 16. * scale) * (1. / (219. * scale));
-            let u = (yuv.1 as f32 - 128. * scale) * (1. / (224. * scale));
-            let v = (yuv.2 as f32 - 128. * scale) * (1. / (224. * scale));
+            let y = (sample(yuv.0) - 16. * scale) * (1. / (219. * scale));
+            let u = (sample(yuv.1) - 128. * scale) * (1. / (224. * scale));
+            let v = (sample(yuv.2) - 128. * scale) * (1. / (224. * scale));
 
             // [-0.804677, 1.81723]
             let r = y + 1.28033 * v;
@@ -363,16 +365,18 @@ mod avx2 {
             unsafe fn set1(val: f32) -> __m256 {
                 _mm256_set1_ps(val)
             }
+            // The conversion only covers samples that fit the bit depth.
+            let max = set1(((1 << Self::BIT_DEPTH) - 1) as f32);
             let y = _mm256_mul_ps(
-                _mm256_sub_ps(yuv.0, set1(16. * scale)),
+                _mm256_sub_ps(_mm256_min_ps(yuv.0, max), set1(16. * scale)),
                 set1(1. / (219. * scale)),
             );
             let u = _mm256_mul_ps(
-                _mm256_sub_ps(yuv.1, set1(128. * scale)),
+                _mm256_sub_ps(_mm256_min_ps(yuv.1, max), set1(128. * scale)),
                 set1(1. / (224. * scale)),
             );
             let v = _mm256_mul_ps(
-                _mm256_sub_ps(yuv.2, set1(128. * scale)),
+                _mm256_sub_ps(_mm256_min_ps(yuv.2, max), set1(128. * scale)),
                 set1(1. / (224. * scale)),
             );
 
-- 
2.43.0

