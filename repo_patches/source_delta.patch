From 84084b36c6802ef02a3ff1f15b3ec9a58adf97ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:13 +0000
Subject: [PATCH 01/55] fix: keep T.35 metadata with the frame it was sent with

Metadata was taken out of the queue when a frame was first looked at, and so
was lost for frames coded hidden and shown later, for frames whose look-up
was retried after more input arrived, and attached to the wrong frame when a
keyframe cut a group.
---
 src/api/internal.rs | 14 +++++++-------
 src/rate.rs         |  3 ++-
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/api/internal.rs b/src/api/internal.rs
index 153610c..c388c7b 100644
--- a/src/api/internal.rs
+++ b/src/api/internal.rs
@@ -538,12 +538,6 @@ impl<T: Pixel> ContextInner<T> {
       return Err(EncoderStatus::NeedMoreData);
     }
 
-    let t35_metadata = if let Some(t35) = self.t35_q.remove(&input_frameno) {
-      t35
-    } else {
-      Box::new([])
-    };
-
     if output_frameno_in_gop > 0 {
       let next_keyframe_input_frameno = self.next_keyframe_input_frameno(
         self.gop_input_frameno_start[&output_frameno],
@@ -579,7 +573,7 @@ impl<T: Pixel> ContextInner<T> {
             output_frameno_in_gop,
             next_keyframe_input_frameno,
             self.config.error_resilient,
-            t35_metadata,
+            Box::new([]),
           );
           assert!(fi.is_none());
           return Ok(fi);
@@ -594,6 +588,11 @@ impl<T: Pixel> ContextInner<T> {
       }
     }
 
+    // The same input frame may be coded as a hidden frame first and be shown
+    // later: keep the metadata around until its packet is output.
+    let t35_metadata =
+      self.t35_q.get(&input_frameno).cloned().unwrap_or_default();
+
     // Now that we know the input_frameno, look up the correct frame type
     let frame_type = if self.keyframes.contains(&input_frameno) {
       FrameType::KEY
@@ -1531,6 +1530,7 @@ impl<T: Pixel> ContextInner<T> {
     if let Ok(ref mut pkt) = ret {
       self.garbage_collect(pkt.input_frameno);
       pkt.opaque = self.opaque_q.remove(&pkt.input_frameno);
+      self.t35_q.remove(&pkt.input_frameno);
     }
 
     ret
diff --git a/src/rate.rs b/src/rate.rs
index 365e0a4..1a5f44f 100644
--- a/src/rate.rs
+++ b/src/rate.rs
@@ -1095,7 +1095,8 @@ impl RCState {
         droppable = false;
       }
       if fti == FRAME_SUBTYPE_SEF {
-        debug_assert!(bits == SEF_BITS);
+        // Metadata may accompany the frame header.
+        debug_assert!(bits >= SEF_BITS);
         debug_assert!(show_frame);
         // Please don't make trial encodes of a SEF.
         debug_assert!(!trial);
-- 
2.43.0


From 163525f7b777ef97ddea967374315848c8e67daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:57 +0000
Subject: [PATCH 02/55] fix: apply self-guided restoration also when CDEF is
 disabled

The filter was chosen and signalled but not applied to the encoder's
reconstruction, so that decoders drifted away from it.
---
 src/lrf.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/lrf.rs b/src/lrf.rs
index 7a3d083..1e2c4f9 100644
--- a/src/lrf.rs
+++ b/src/lrf.rs
@@ -1542,10 +1542,6 @@ impl RestorationState {
               );
             }
             RestorationFilter::Sgrproj { set, xqd } => {
-              if !fi.sequence.enable_cdef {
-                continue;
-              }
-
               setup_integral_image(
                 &mut stripe_filter_buffer,
                 STRIPE_IMAGE_STRIDE,
-- 
2.43.0


From 515b672c40f116eda5ed7d139c9719784587b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:57 +0000
Subject: [PATCH 03/55] fix: avoid overflow in transform-domain distortion of
 12-bit video

---
 src/encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 5c85320..e359294 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1626,14 +1626,14 @@ pub fn encode_tx_block<T: Pixel, W: Writer>(
         .iter()
         .zip(rcoeffs.iter())
         .map(|(&a, &b)| {
-          let c = i32::cast_from(a) - i32::cast_from(b);
+          let c = (i32::cast_from(a) - i32::cast_from(b)) as i64;
           (c * c) as u64
         })
         .sum::<u64>()
         + coeffs[rcoeffs.len()..]
           .iter()
           .map(|&a| {
-            let c = i32::cast_from(a);
+            let c = i32::cast_from(a) as i64;
             (c * c) as u64
           })
           .sum::<u64>();
-- 
2.43.0


From 13b539f4df404dfe21a2d60cdbe3eaecd794ac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:57 +0000
Subject: [PATCH 04/55] fix: 8-bit video in 16-bit pixels must not use the
 10/12-bit kernels

The inverse transform, intra prediction, motion compensation and CDEF
assembly for 16-bit pixels is wrong at a bit depth of 8; fall back to the
Rust versions there, as prep_8tap, mc_avg and cdef_find_dir already do.
---
 src/asm/x86/cdef.rs              | 3 ++-
 src/asm/x86/mc.rs                | 3 ++-
 src/asm/x86/predict.rs           | 3 ++-
 src/asm/x86/transform/inverse.rs | 4 +++-
 4 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/asm/x86/cdef.rs b/src/asm/x86/cdef.rs
index 3e98050..c5dff17 100644
--- a/src/asm/x86/cdef.rs
+++ b/src/asm/x86/cdef.rs
@@ -112,7 +112,7 @@ pub(crate) unsafe fn cdef_filter_block<T: Pixel>(
           None => call_rust(dst),
         }
       }
-      PixelType::U16 => {
+      PixelType::U16 if bit_depth > 8 => {
         match CDEF_FILTER_HBD_FNS[cpu.as_index()][decimate_index(xdec, ydec)] {
           Some(func) => {
             (func)(
@@ -130,6 +130,7 @@ pub(crate) unsafe fn cdef_filter_block<T: Pixel>(
           None => call_rust(dst),
         }
       }
+      _ => call_rust(dst),
     }
     #[cfg(feature = "check_asm")]
     {
diff --git a/src/asm/x86/mc.rs b/src/asm/x86/mc.rs
index ac32b93..e944546 100644
--- a/src/asm/x86/mc.rs
+++ b/src/asm/x86/mc.rs
@@ -138,7 +138,7 @@ pub fn put_8tap<T: Pixel>(
           None => call_rust(dst),
         }
       }
-      PixelType::U16 => {
+      PixelType::U16 if bit_depth > 8 => {
         match PUT_HBD_FNS[cpu.as_index()][get_2d_mode_idx(mode_x, mode_y)] {
           Some(func) => (func)(
             dst.data_ptr_mut() as *mut _,
@@ -154,6 +154,7 @@ pub fn put_8tap<T: Pixel>(
           None => call_rust(dst),
         }
       }
+      _ => call_rust(dst),
     }
   }
   #[cfg(feature = "check_asm")]
diff --git a/src/asm/x86/predict.rs b/src/asm/x86/predict.rs
index 4db6955..6b578c0 100644
--- a/src/asm/x86/predict.rs
+++ b/src/asm/x86/predict.rs
@@ -550,7 +550,7 @@ pub fn dispatch_predict_intra<T: Pixel>(
           call_rust(dst)
         }
       }
-      PixelType::U16 => {
+      PixelType::U16 if bit_depth > 8 => {
         let dst_ptr = dst.data_ptr_mut() as *mut _;
         let edge_ptr = edge_buf.top_left_ptr() as *const _;
         let bd_max = (1 << bit_depth) - 1;
@@ -864,6 +864,7 @@ pub fn dispatch_predict_intra<T: Pixel>(
           call_rust(dst)
         }
       }
+      _ => call_rust(dst),
     }
   }
 }
diff --git a/src/asm/x86/transform/inverse.rs b/src/asm/x86/transform/inverse.rs
index 31bcefc..9522c1f 100644
--- a/src/asm/x86/transform/inverse.rs
+++ b/src/asm/x86/transform/inverse.rs
@@ -47,7 +47,7 @@ pub fn inverse_transform_add<T: Pixel>(
         );
       }
     }
-    PixelType::U16 => {
+    PixelType::U16 if bd == 12 => {
       if let Some(func) = INV_TXFM_HBD_FNS_12[cpu.as_index()][tx_size][tx_type]
       {
         return call_inverse_hbd_func(
@@ -61,6 +61,8 @@ pub fn inverse_transform_add<T: Pixel>(
         );
       }
     }
+    // There are no kernels for 8-bit content stored in 16-bit pixels.
+    PixelType::U16 => {}
   };
 
   rust::inverse_transform_add(input, output, eob, tx_size, tx_type, bd, cpu);
-- 
2.43.0


From 4664549e4bf4ea707084786e2898c996ddfff533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:23 +0000
Subject: [PATCH 05/55] fix: do not panic when the frame rate asks for more
 tiles than fit

---
 src/tiling/tiler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tiling/tiler.rs b/src/tiling/tiler.rs
index 9d6b28a..a38b7d8 100644
--- a/src/tiling/tiler.rs
+++ b/src/tiling/tiler.rs
@@ -126,7 +126,8 @@ impl TilingInfo {
       min_tiles_ratelimit_log2.saturating_sub(tile_cols_log2);
     let tile_rows_log2 = tile_rows_log2
       .max(min_tile_rows_log2)
-      .clamp(min_tile_rows_ratelimit_log2, max_tile_rows_log2);
+      .max(min_tile_rows_ratelimit_log2)
+      .min(max_tile_rows_log2);
     let tile_height_sb = sb_rows.align_power_of_two_and_shift(tile_rows_log2);
 
     let rows = frame_height_sb.div_ceil(tile_height_sb);
-- 
2.43.0


From d7a7df810923f9080fb1a518cf2a65c73ef1c980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:23 +0000
Subject: [PATCH 06/55] fix: use the finest tile layout when the requested
 number needs it

---
 src/encoder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index e359294..c308cdb 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -248,9 +248,7 @@ impl Sequence {
     if config.tiles > 0 {
       let mut tile_rows_log2 = 0;
       let mut tile_cols_log2 = 0;
-      while (tile_rows_log2 < tiling.max_tile_rows_log2)
-        || (tile_cols_log2 < tiling.max_tile_cols_log2)
-      {
+      loop {
         tiling = TilingInfo::from_target_tiles(
           sb_size_log2,
           config.width,
@@ -261,7 +259,10 @@ impl Sequence {
           config.chroma_sampling == ChromaSampling::Cs422,
         );
 
-        if tiling.rows * tiling.cols >= config.tiles {
+        if tiling.rows * tiling.cols >= config.tiles
+          || (tile_rows_log2 >= tiling.max_tile_rows_log2
+            && tile_cols_log2 >= tiling.max_tile_cols_log2)
+        {
           break;
         };
 
-- 
2.43.0


From 9fbba8f4d44dc251683fa219070e05a3073db571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:23 +0000
Subject: [PATCH 07/55] fix: check the level limits against the frame rate, not
 its inverse

The display rate was computed from the frame duration, and the picture
size limit of level 4.1 had a digit too many.
---
 src/api/config/mod.rs | 4 ++--
 src/levels.rs         | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/api/config/mod.rs b/src/api/config/mod.rs
index aef2c45..11defef 100644
--- a/src/api/config/mod.rs
+++ b/src/api/config/mod.rs
@@ -422,8 +422,8 @@ impl Config {
         if config.height > AV1_LEVEL_MAX_V_SIZE[level_idx as usize] {
           return Err(LevelConstraintsExceeded);
         }
-        if ((config.width * config.height) as u64 * config.time_base.num)
-          .div_ceil(config.time_base.den)
+        if ((config.width * config.height) as u64 * config.time_base.den)
+          .div_ceil(config.time_base.num)
           > AV1_LEVEL_MAX_DISPLAY_RATE[level_idx as usize] as u64
         {
           return Err(LevelConstraintsExceeded);
diff --git a/src/levels.rs b/src/levels.rs
index 63fbff0..9f88956 100644
--- a/src/levels.rs
+++ b/src/levels.rs
@@ -32,7 +32,7 @@ pub static AV1_LEVEL_MAX_PIC_SIZE: [usize; 32] = [
   0, 0, 665856,  // 3.0
   1065024, // 3.1
   0, 0, 2359296,  // 4.0
-  23592960, // 4.1
+  2359296, // 4.1
   0, 0, 8912896,  // 5.0
   8912896,  // 5.1
   8912896,  // 5.2
-- 
2.43.0


From 7b95ed24980507032c1ad72089ae1390eea066b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:55 +0000
Subject: [PATCH 08/55] fix: keep 4:2:2 tile layouts codable for large pictures

Rounding the tile width to even can rule out the uniform spacing syntax;
the other syntax limits the tile height, and taller tiles were written as
a corrupt frame header.
---
 src/tiling/tiler.rs | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/tiling/tiler.rs b/src/tiling/tiler.rs
index a38b7d8..eb1751a 100644
--- a/src/tiling/tiler.rs
+++ b/src/tiling/tiler.rs
@@ -118,16 +118,50 @@ impl TilingInfo {
     let cols = frame_width_sb.div_ceil(tile_width_sb);
 
     // Adjust tile_cols_log2 in case of rounding tile_width_sb to even.
+    let target_cols_log2 = tile_cols_log2;
     let tile_cols_log2 = Self::tile_log2(1, cols).unwrap();
     assert!(tile_cols_log2 >= min_tile_cols_log2);
 
     let min_tile_rows_log2 = min_tiles_log2.saturating_sub(tile_cols_log2);
     let min_tile_rows_ratelimit_log2 =
       min_tiles_ratelimit_log2.saturating_sub(tile_cols_log2);
-    let tile_rows_log2 = tile_rows_log2
+    let target_rows_log2 = tile_rows_log2;
+    let mut tile_rows_log2 = tile_rows_log2
       .max(min_tile_rows_log2)
       .max(min_tile_rows_ratelimit_log2)
       .min(max_tile_rows_log2);
+
+    // A tile width rounded to even may rule out the uniform spacing syntax,
+    // and the other syntax has a tighter limit on the tile height.
+    if sb_cols.align_power_of_two_and_shift(tile_cols_log2) != tile_width_sb
+      && min_tiles_log2 > 0
+    {
+      let max_tile_area_sb = (sb_cols * sb_rows) >> (min_tiles_log2 + 1);
+      let max_tile_height_sb =
+        (max_tile_area_sb / tile_width_sb.min(sb_cols)).max(1);
+      while tile_rows_log2 < max_tile_rows_log2
+        && sb_rows.align_power_of_two_and_shift(tile_rows_log2)
+          > max_tile_height_sb
+      {
+        tile_rows_log2 += 1;
+      }
+      if sb_rows.align_power_of_two_and_shift(tile_rows_log2)
+        > max_tile_height_sb
+        && target_cols_log2 < max_tile_cols_log2
+      {
+        // Not even the most rows will do, narrower tiles are needed.
+        return Self::from_target_tiles(
+          sb_size_log2,
+          frame_width,
+          frame_height,
+          frame_rate,
+          target_cols_log2 + 1,
+          target_rows_log2,
+          is_422_p,
+        );
+      }
+    }
+
     let tile_height_sb = sb_rows.align_power_of_two_and_shift(tile_rows_log2);
 
     let rows = frame_height_sb.div_ceil(tile_height_sb);
-- 
2.43.0


From 10f4e1889e583c12e908cf3d6c6fa83e568a60ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:39 +0000
Subject: [PATCH 09/55] fix: refuse bit depths other than 8, 10 and 12

Any other depth was accepted and made the encoder panic on the first frame.
---
 src/api/config/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/api/config/mod.rs b/src/api/config/mod.rs
index 11defef..86cfdeb 100644
--- a/src/api/config/mod.rs
+++ b/src/api/config/mod.rs
@@ -53,6 +53,9 @@ pub enum InvalidConfig {
   /// The render height (height adjusted based on the aspect ratio) is invalid.
   #[error("invalid render height {0} (expected >= 1, <= 65535")]
   InvalidRenderHeight(usize),
+  /// The bit depth is invalid.
+  #[error("invalid bit depth {0} (expected 8, 10 or 12)")]
+  InvalidBitDepth(usize),
   /// RDO lookahead frame count is invalid.
   #[error(
     "invalid rdo lookahead frames {actual} (expected <= {max} and >= {min})"
@@ -339,6 +342,10 @@ impl Config {
       return Err(InvalidRenderHeight(render_height));
     }
 
+    if !matches!(config.bit_depth, 8 | 10 | 12) {
+      return Err(InvalidBitDepth(config.bit_depth));
+    }
+
     if config.speed_settings.rdo_lookahead_frames > MAX_RDO_LOOKAHEAD_FRAMES
       || config.speed_settings.rdo_lookahead_frames < 1
     {
-- 
2.43.0


From c7a08d3a19ff49cdbcbdd3e49b85da42105ade57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:39 +0000
Subject: [PATCH 10/55] fix: time bases beyond 31 bits panicked in the scene
 detector

The 32 bit time base was cast to i32; i32::MIN cannot be reduced.
---
 src/api/channel/by_gop.rs | 4 ++--
 src/api/internal.rs       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/api/channel/by_gop.rs b/src/api/channel/by_gop.rs
index 342c7c0..68ff463 100644
--- a/src/api/channel/by_gop.rs
+++ b/src/api/channel/by_gop.rs
@@ -52,8 +52,8 @@ impl<T: Pixel> SceneChange<T> {
       (enc.width, enc.height),
       enc.bit_depth,
       av_scenechange::Rational32::new(
-        enc.time_base.den as i32,
-        enc.time_base.num as i32,
+        enc.time_base.den.min(i32::MAX as u64) as i32,
+        enc.time_base.num.min(i32::MAX as u64) as i32,
       ),
       enc.chroma_sampling,
       lookahead_distance,
diff --git a/src/api/internal.rs b/src/api/internal.rs
index c388c7b..36d0f92 100644
--- a/src/api/internal.rs
+++ b/src/api/internal.rs
@@ -277,8 +277,8 @@ impl<T: Pixel> ContextInner<T> {
       (enc.width, enc.height),
       enc.bit_depth,
       av_scenechange::Rational32::new(
-        enc.time_base.den as i32,
-        enc.time_base.num as i32,
+        enc.time_base.den.min(i32::MAX as u64) as i32,
+        enc.time_base.num.min(i32::MAX as u64) as i32,
       ),
       enc.chroma_sampling,
       lookahead_distance,
-- 
2.43.0


From b9cc9eba1f9317eef286a91a0933e9829fed730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:39 +0000
Subject: [PATCH 11/55] fix: overflow computing the timestamp of a frame

The product of frame number, time unit and time base numerator overflowed
64 bits, which panicked or looked up the wrong film grain segment.
---
 src/encoder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index c308cdb..1203d76 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1280,8 +1280,12 @@ impl<T: Pixel> FrameInvariants<T> {
     // I don't know why this is the base unit for a timestamp but it is. 1/10000000 of a second.
     const TIMESTAMP_BASE_UNIT: u64 = 10_000_000;
 
-    self.input_frameno * TIMESTAMP_BASE_UNIT * self.sequence.time_base.num
-      / self.sequence.time_base.den
+    // The intermediate product does not fit 64 bits for long frame durations.
+    let timestamp = u128::from(self.input_frameno)
+      * u128::from(TIMESTAMP_BASE_UNIT)
+      * u128::from(self.sequence.time_base.num)
+      / u128::from(self.sequence.time_base.den);
+    u64::try_from(timestamp).unwrap_or(u64::MAX)
   }
 }
 
-- 
2.43.0


From 224d1967db1318f89825e7135fc3cb218997082f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:23 +0000
Subject: [PATCH 12/55] fix: high frame rates made the scene detector panic

Its tile layout cannot be computed when the picture has fewer superblock
rows than the frame rate asks for (640x64 at 90000 frames per second).
---
 src/api/channel/by_gop.rs |  7 ++-----
 src/api/internal.rs       | 33 +++++++++++++++++++++++++++------
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/api/channel/by_gop.rs b/src/api/channel/by_gop.rs
index 68ff463..ff30e77 100644
--- a/src/api/channel/by_gop.rs
+++ b/src/api/channel/by_gop.rs
@@ -11,7 +11,7 @@ use crate::api::channel::data::*;
 use crate::api::config::*;
 use crate::api::util::*;
 use crate::api::EncoderConfig;
-use crate::api::InterConfig;
+use crate::api::{detector_frame_rate, InterConfig};
 
 use crossbeam::channel::*;
 
@@ -51,10 +51,7 @@ impl<T: Pixel> SceneChange<T> {
     let detector = SceneChangeDetector::new(
       (enc.width, enc.height),
       enc.bit_depth,
-      av_scenechange::Rational32::new(
-        enc.time_base.den.min(i32::MAX as u64) as i32,
-        enc.time_base.num.min(i32::MAX as u64) as i32,
-      ),
+      detector_frame_rate(enc),
       enc.chroma_sampling,
       lookahead_distance,
       match enc.speed_settings.scene_detection_mode {
diff --git a/src/api/internal.rs b/src/api/internal.rs
index 36d0f92..25832c0 100644
--- a/src/api/internal.rs
+++ b/src/api/internal.rs
@@ -23,8 +23,8 @@ use crate::rate::{
   FRAME_SUBTYPE_SEF,
 };
 use crate::stats::EncoderStats;
-use crate::tiling::Area;
-use crate::util::Pixel;
+use crate::tiling::{Area, MAX_TILE_RATE, MAX_TILE_ROWS};
+use crate::util::{Fixed, Pixel};
 use arrayvec::ArrayVec;
 use av_scenechange::SceneChangeDetector;
 use std::cmp;
@@ -34,6 +34,30 @@ use std::fs;
 use std::path::PathBuf;
 use std::sync::Arc;
 
+/// The frame rate to report to the scene change detector.
+///
+/// The detector splits the picture into enough tiles for the frame rate, and
+/// panics if the picture does not have that many superblock rows, so the rate
+/// is limited to what one tile per superblock row allows.
+pub(crate) fn detector_frame_rate(
+  enc: &EncoderConfig,
+) -> av_scenechange::Rational32 {
+  let num = enc.time_base.den.min(i32::MAX as u64) as i32;
+  let den = enc.time_base.num.min(i32::MAX as u64) as i32;
+
+  let width = enc.width.align_power_of_two(3);
+  let height = enc.height.align_power_of_two(3);
+  let rows = height.align_power_of_two_and_shift(6).min(MAX_TILE_ROWS);
+  let max_rate = MAX_TILE_RATE * rows.next_power_of_two() as f64
+    / (width * height) as f64;
+
+  if num as f64 / den as f64 > max_rate {
+    av_scenechange::Rational32::from_integer(max_rate as i32)
+  } else {
+    av_scenechange::Rational32::new(num, den)
+  }
+}
+
 /// The set of options that controls frame re-ordering and reference picture
 ///  selection.
 /// The options stored here are invariant over the whole encode.
@@ -276,10 +300,7 @@ impl<T: Pixel> ContextInner<T> {
     let mut keyframe_detector = SceneChangeDetector::new(
       (enc.width, enc.height),
       enc.bit_depth,
-      av_scenechange::Rational32::new(
-        enc.time_base.den.min(i32::MAX as u64) as i32,
-        enc.time_base.num.min(i32::MAX as u64) as i32,
-      ),
+      detector_frame_rate(enc),
       enc.chroma_sampling,
       lookahead_distance,
       match enc.speed_settings.scene_detection_mode {
-- 
2.43.0


From ccd354fb5d2a4b97f8e88376e9cd772b7b97ab1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:14 +0000
Subject: [PATCH 13/55] fix: a damaged statistics record made every later one
 fail

---
 src/rate.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rate.rs b/src/rate.rs
index 1a5f44f..3cd6a16 100644
--- a/src/rate.rs
+++ b/src/rate.rs
@@ -1472,8 +1472,11 @@ impl RCState {
 
     self.des.buffer_fill(buf, 0, TWOPASS_PACKET_SZ);
     self.des.pass2_buffer_pos = 0;
-    let m = self.des.parse_metrics()?;
+    let metrics = self.des.parse_metrics();
+    // Clear the buffer even if the packet is invalid, so that the next packet
+    //  is not mistaken for this one.
     self.des.pass2_buffer_fill = 0;
+    let m = metrics?;
 
     if self.frame_metrics.is_empty() {
       // We're using a whole-file buffer.
-- 
2.43.0


From 856fee75925fa6500b897be2fe6cd228dcf4da05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:01 +0000
Subject: [PATCH 14/55] fix: the second pass asked for statistics before
 knowing how many there are

---
 src/rate.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/rate.rs b/src/rate.rs
index 3cd6a16..4260d2f 100644
--- a/src/rate.rs
+++ b/src/rate.rs
@@ -1428,19 +1428,10 @@ impl RCState {
 
   // Return the size of the first buffer twopass_in expects
   //
-  // It is the summary size (constant) + the number of frame data packets
-  // (variable depending on the configuration) it needs to starts encoding.
+  // It is what is missing of the summary + one frame data packet. Only the
+  // summary tells how many more packets there are to wait for.
   pub(crate) fn twopass_first_packet_size(&self) -> usize {
-    let frames_needed = if !self.frame_metrics.is_empty() {
-      // If we're not using whole-file buffering, we need at least one
-      //  frame per buffer slot.
-      self.reservoir_frame_delay as usize
-    } else {
-      // Otherwise we need just one.
-      1
-    };
-
-    TWOPASS_HEADER_SZ + frames_needed * TWOPASS_PACKET_SZ
+    TWOPASS_HEADER_SZ - self.des.pass2_buffer_fill + TWOPASS_PACKET_SZ
   }
 
   // Return the number of frame data packets to be parsed before
-- 
2.43.0


From 744f93c82e77fb72e61b240a9d99c2adee9d1bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:20 +0000
Subject: [PATCH 15/55] fix: a truncated pass summary was accepted

---
 src/api/config/rate.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/api/config/rate.rs b/src/api/config/rate.rs
index 7dee501..a72f17c 100644
--- a/src/api/config/rate.rs
+++ b/src/api/config/rate.rs
@@ -35,7 +35,9 @@ impl RateControlSummary {
   /// Deserializes a byte slice into a `RateControlSummary`
   pub(crate) fn from_slice(bytes: &[u8]) -> Result<Self, Error> {
     let mut de = RCDeserialize::default();
-    let _ = de.buffer_fill(bytes, 0, TWOPASS_HEADER_SZ);
+    if de.buffer_fill(bytes, 0, TWOPASS_HEADER_SZ) < TWOPASS_HEADER_SZ {
+      return Err(Error::CorruptedSummary("Truncated summary".to_string()));
+    }
 
     de.parse_summary().map_err(Error::CorruptedSummary)
   }
-- 
2.43.0


From 5901cb9f391f5820a54aff96a2c08e606eaf9e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:22 +0000
Subject: [PATCH 16/55] fix: a zero exponent in the pass summary made the
 second pass panic

---
 src/rate.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rate.rs b/src/rate.rs
index 4260d2f..df11585 100644
--- a/src/rate.rs
+++ b/src/rate.rs
@@ -349,6 +349,10 @@ impl RCDeserialize {
 
     for exp in s.exp.iter_mut() {
       *exp = self.unbuffer_val(1) as u8;
+      // The rate model divides by the exponent.
+      if *exp == 0 {
+        return Err("Got zero exponent".to_string());
+      }
     }
 
     for scale_sum in s.scale_sum.iter_mut() {
-- 
2.43.0


From 61a8ab1985218436739c04e6a18bf3411d4e8e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:09 +0000
Subject: [PATCH 17/55] fix: implausible pass statistics overflowed the rate
 model

---
 src/rate.rs | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/rate.rs b/src/rate.rs
index df11585..748fbed 100644
--- a/src/rate.rs
+++ b/src/rate.rs
@@ -306,6 +306,13 @@ impl RCDeserialize {
       return Err("Invalid frame type".to_string());
     }
     let log_scale_q24 = self.unbuffer_val(4) as i32;
+    // update_state() caps the scale, and a frame takes at least one bit and
+    //  has far less than 2**48 pixels.
+    if fti < FRAME_NSUBTYPES
+      && !(-48 << 24..=16 << 24).contains(&log_scale_q24)
+    {
+      return Err("Invalid scale".to_string());
+    }
     Ok(RCFrameMetrics { log_scale_q24, fti, show_frame })
   }
 
@@ -349,17 +356,22 @@ impl RCDeserialize {
 
     for exp in s.exp.iter_mut() {
       *exp = self.unbuffer_val(1) as u8;
-      // The rate model divides by the exponent.
-      if *exp == 0 {
-        return Err("Got zero exponent".to_string());
+      // The rate model divides by the exponent, see RCState::new() for the
+      //  values it can have.
+      if !(48..=139).contains(exp) {
+        return Err("Got invalid exponent".to_string());
       }
     }
 
-    for scale_sum in s.scale_sum.iter_mut() {
+    for (scale_sum, &n) in s.scale_sum.iter_mut().zip(s.nframes.iter()) {
       *scale_sum = self.unbuffer_val(8);
       if *scale_sum < 0 {
         return Err("Got negative scale sum".to_string());
       }
+      // No frame has a scale above 2**16, in Q24.
+      if *scale_sum > (n as i64).saturating_mul(1 << 40) {
+        return Err("Scale sum too large".to_string());
+      }
     }
     Ok(s)
   }
@@ -867,9 +879,11 @@ impl RCState {
           //  frames of each type we need to add compared to the actual sums in
           //  our window.
           for ftj in 0..FRAME_NSUBTYPES {
-            let scale = scale_window_sum[ftj]
-              + bexp_q24(self.scalefilter[ftj].y[0])
-                * (nframes[ftj] - scale_window_nframes[ftj]) as i64;
+            let scale = scale_window_sum[ftj].saturating_add(
+              bexp_q24(self.scalefilter[ftj].y[0]).saturating_mul(
+                (nframes[ftj] - scale_window_nframes[ftj]) as i64,
+              ),
+            );
             log_scale[ftj] = if nframes[ftj] > 0 {
               blog64(scale) - blog64(nframes[ftj] as i64) - q57(24)
             } else {
@@ -933,11 +947,12 @@ impl RCState {
             + DQP_Q57[ftj];
           // All the fields here are Q57 except for the exponent, which is
           //  Q6.
-          bits += (nframes[ftj] as i64)
-            * bexp64(
+          bits = bits.saturating_add((nframes[ftj] as i64).saturating_mul(
+            bexp64(
               log_scale[ftj] + self.log_npixels
                 - ((log_q + 32) >> 6) * (self.exp[ftj] as i64),
-            );
+            ),
+          ));
         }
         // The number of bits for Show Existing Frame frames is constant.
         bits += (nframes[FRAME_SUBTYPE_SEF] as i64) * SEF_BITS;
-- 
2.43.0


From 4585ad9853977d5fcc1f28ad961ed63629f9ae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:40 +0000
Subject: [PATCH 18/55] fix: two-pass encoding with a negative bitrate was
 accepted and never ready

---
 src/api/config/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/config/mod.rs b/src/api/config/mod.rs
index 86cfdeb..6d66d6e 100644
--- a/src/api/config/mod.rs
+++ b/src/api/config/mod.rs
@@ -441,7 +441,7 @@ impl Config {
     // TODO: add more validation
     let rc = &self.rate_control;
 
-    if (rc.emit_pass_data || rc.summary.is_some()) && config.bitrate == 0 {
+    if (rc.emit_pass_data || rc.summary.is_some()) && config.bitrate <= 0 {
       return Err(TargetBitrateNeeded);
     }
 
-- 
2.43.0


From 65258937b76d0f86d3a7287341111aaa1f61e6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:40 +0000
Subject: [PATCH 19/55] fix: an unreachable target drove the rate model out of
 range

With a minimum quantizer of 0 nothing kept the target quantizer of a frame
above the lowest one it can be coded with, and a bitrate too high to be spent
let the scale estimate sink until the arithmetic overflowed.
---
 src/rate.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/rate.rs b/src/rate.rs
index 748fbed..b4ea088 100644
--- a/src/rate.rs
+++ b/src/rate.rs
@@ -1044,12 +1044,13 @@ impl RCState {
         log_base_q = cmp::min(log_base_q, max_log_base_q);
         log_q = cmp::min(log_q, max_log_q);
       }
-      if self.ac_qi_min > 0 {
-        let (min_log_base_q, min_log_q) =
-          Self::calc_flat_quantizer(self.ac_qi_min, ctx.config.bit_depth, fti);
-        log_base_q = cmp::max(log_base_q, min_log_base_q);
-        log_q = cmp::max(log_q, min_log_q);
-      }
+      // This applies to a minimum of 0, too: update_state() would take the bits
+      //  of a frame we could not code at its target as a lower scale, which
+      //  asks for a lower target the next time, without end.
+      let (min_log_base_q, min_log_q) =
+        Self::calc_flat_quantizer(self.ac_qi_min, ctx.config.bit_depth, fti);
+      log_base_q = cmp::max(log_base_q, min_log_base_q);
+      log_q = cmp::max(log_q, min_log_q);
       QuantizerParameters::new_from_log_q(
         log_base_q,
         log_q,
-- 
2.43.0


From f9f62bfc3f53883c5a06746dd5a8c255de3f5890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:37 +0000
Subject: [PATCH 20/55] fix: the quantizer reported for a show-existing-frame
 packet was that of another frame

---
 src/api/internal.rs | 7 ++++++-
 src/encoder.rs      | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/api/internal.rs b/src/api/internal.rs
index 25832c0..e375256 100644
--- a/src/api/internal.rs
+++ b/src/api/internal.rs
@@ -762,6 +762,7 @@ impl<T: Pixel> ContextInner<T> {
         frame_me_stats: fs.frame_me_stats.clone(),
         output_frameno,
         segmentation: fs.segmentation,
+        base_q_idx: fi.base_q_idx,
       });
       for i in 0..REF_FRAMES {
         if (fi.refresh_frame_flags & (1 << i)) != 0 {
@@ -844,6 +845,7 @@ impl<T: Pixel> ContextInner<T> {
       frame_me_stats: fs.frame_me_stats.clone(),
       output_frameno,
       segmentation: fs.segmentation,
+      base_q_idx: fi.base_q_idx,
     });
     for i in 0..REF_FRAMES {
       if (fi.refresh_frame_flags & (1 << i)) != 0 {
@@ -1346,7 +1348,10 @@ impl<T: Pixel> ContextInner<T> {
 
     let input_frameno = frame_data.fi.input_frameno;
     let frame_type = frame_data.fi.frame_type;
-    let qp = frame_data.fi.base_q_idx;
+    let map_idx = frame_data.fi.frame_to_show_map_idx as usize;
+    let qp = frame_data.fi.rec_buffer.frames[map_idx]
+      .as_ref()
+      .map_or(frame_data.fi.base_q_idx, |rec| rec.base_q_idx);
     let enc_stats = frame_data.fs.enc_stats.clone();
     self.finalize_packet(rec, source, input_frameno, frame_type, qp, enc_stats)
   }
diff --git a/src/encoder.rs b/src/encoder.rs
index 1203d76..22d38ca 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -86,6 +86,7 @@ pub struct ReferenceFrame<T: Pixel> {
   pub frame_me_stats: RefMEStats,
   pub output_frameno: u64,
   pub segmentation: SegmentationState,
+  pub base_q_idx: u8,
 }
 
 #[derive(Debug, Clone, Default)]
@@ -3840,6 +3841,7 @@ pub fn update_rec_buffer<T: Pixel>(
     frame_me_stats: fs.frame_me_stats.clone(),
     output_frameno,
     segmentation: fs.segmentation,
+    base_q_idx: fi.base_q_idx,
   });
   for i in 0..REF_FRAMES {
     if (fi.refresh_frame_flags & (1 << i)) != 0 {
-- 
2.43.0


From e91404c245c78aee43f2011c4b5c4aa45971cf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:56 +0000
Subject: [PATCH 21/55] fix: the container header ignored the configured level
 and chroma sample position

and announced monochrome video with half its chroma subsampling.
---
 src/api/channel/data.rs | 17 +++++++++++++----
 src/api/context.rs      | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/api/channel/data.rs b/src/api/channel/data.rs
index 6b3f65c..90a49e1 100644
--- a/src/api/channel/data.rs
+++ b/src/api/channel/data.rs
@@ -355,14 +355,23 @@ impl<T: Pixel> PacketReceiver<T> {
         bw.write_bit(true)?; // marker
         bw.write::<7, u8>(1)?; // version
         bw.write::<3, u8>(seq.profile)?;
-        bw.write::<5, u8>(31)?; // level
-        bw.write_bit(false)?; // tier
+        bw.write::<5, u8>(seq.level_idx[0])?; // level
+        bw.write_bit(seq.tier[0] != 0)?; // tier
         bw.write_bit(seq.bit_depth > 8)?; // high_bitdepth
         bw.write_bit(seq.bit_depth == 12)?; // twelve_bit
         bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs400)?; // monochrome
         bw.write_bit(seq.chroma_sampling != ChromaSampling::Cs444)?; // chroma_subsampling_x
-        bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs420)?; // chroma_subsampling_y
-        bw.write::<2, u8>(0)?; // chroma_sample_position
+        bw.write_bit(matches!(
+          seq.chroma_sampling,
+          ChromaSampling::Cs420 | ChromaSampling::Cs400
+        ))?; // chroma_subsampling_y
+        bw.write::<2, u8>(
+          if seq.chroma_sampling == ChromaSampling::Cs420 {
+            seq.chroma_sample_position as u8
+          } else {
+            0
+          },
+        )?; // chroma_sample_position
         bw.write::<3, u8>(0)?; // reserved
         bw.write_bit(false)?; // initial_presentation_delay_present
 
diff --git a/src/api/context.rs b/src/api/context.rs
index 6aa6a8b..bbec2c9 100644
--- a/src/api/context.rs
+++ b/src/api/context.rs
@@ -347,14 +347,23 @@ impl<T: Pixel> Context<T> {
         bw.write_bit(true)?; // marker
         bw.write::<7, u8>(1)?; // version
         bw.write::<3, u8>(seq.profile)?;
-        bw.write::<5, u8>(31)?; // level
-        bw.write_bit(false)?; // tier
+        bw.write::<5, u8>(seq.level_idx[0])?; // level
+        bw.write_bit(seq.tier[0] != 0)?; // tier
         bw.write_bit(seq.bit_depth > 8)?; // high_bitdepth
         bw.write_bit(seq.bit_depth == 12)?; // twelve_bit
         bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs400)?; // monochrome
         bw.write_bit(seq.chroma_sampling != ChromaSampling::Cs444)?; // chroma_subsampling_x
-        bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs420)?; // chroma_subsampling_y
-        bw.write::<2, u8>(0)?; // chroma_sample_position
+        bw.write_bit(matches!(
+          seq.chroma_sampling,
+          ChromaSampling::Cs420 | ChromaSampling::Cs400
+        ))?; // chroma_subsampling_y
+        bw.write::<2, u8>(
+          if seq.chroma_sampling == ChromaSampling::Cs420 {
+            seq.chroma_sample_position as u8
+          } else {
+            0
+          },
+        )?; // chroma_sample_position
         bw.write::<3, u8>(0)?; // reserved
         bw.write_bit(false)?; // initial_presentation_delay_present
 
-- 
2.43.0


From e90cb38dae024ff7c16ffeb99f95fbb33a99aec5 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 19:47:00 +0000
Subject: [PATCH 22/55] fix: film grain: write only what the header announced

Chroma scaling points are not coded for monochrome video, with chroma
scaling from luma, and for 4:2:0 video without luma points, but the
coefficients and multipliers of the table's chroma points still were: the
frame header could not be decoded.
---
 src/header.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 4217285..28112cf 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -861,18 +861,25 @@ impl<W: io::Write> UncompressedHeader for BitWriter<W, BigEndian> {
           } else {
             false
           };
-        if !(fi.sequence.chroma_sampling == ChromaSampling::Cs400
+        // Chroma scaling points the stream cannot carry are dropped, along with
+        // everything that depends on them.
+        let no_chroma_points = fi.sequence.chroma_sampling
+          == ChromaSampling::Cs400
           || chroma_scaling_from_luma
           || (fi.sequence.chroma_sampling == ChromaSampling::Cs420
-            && grain_params.scaling_points_y.is_empty()))
-        {
-          self.write::<4, u8>(grain_params.scaling_points_cb.len() as u8)?;
-          for point in &grain_params.scaling_points_cb {
+            && grain_params.scaling_points_y.is_empty());
+        let scaling_points_cb: &[[u8; 2]] =
+          if no_chroma_points { &[] } else { &grain_params.scaling_points_cb };
+        let scaling_points_cr: &[[u8; 2]] =
+          if no_chroma_points { &[] } else { &grain_params.scaling_points_cr };
+        if !no_chroma_points {
+          self.write::<4, u8>(scaling_points_cb.len() as u8)?;
+          for point in scaling_points_cb {
             self.write::<8, u8>(point[0])?;
             self.write::<8, u8>(point[1])?;
           }
-          self.write::<4, u8>(grain_params.scaling_points_cr.len() as u8)?;
-          for point in &grain_params.scaling_points_cr {
+          self.write::<4, u8>(scaling_points_cr.len() as u8)?;
+          for point in scaling_points_cr {
             self.write::<8, u8>(point[0])?;
             self.write::<8, u8>(point[1])?;
           }
@@ -897,7 +904,7 @@ impl<W: io::Write> UncompressedHeader for BitWriter<W, BigEndian> {
         }
 
         if chroma_scaling_from_luma
-          || !grain_params.scaling_points_cb.is_empty()
+          || !scaling_points_cb.is_empty()
         {
           for i in 0..num_pos_chroma {
             self.write::<8, u8>(
@@ -906,7 +913,7 @@ impl<W: io::Write> UncompressedHeader for BitWriter<W, BigEndian> {
           }
         }
         if chroma_scaling_from_luma
-          || !grain_params.scaling_points_cr.is_empty()
+          || !scaling_points_cr.is_empty()
         {
           for i in 0..num_pos_chroma {
             self.write::<8, u8>(
@@ -917,12 +924,12 @@ impl<W: io::Write> UncompressedHeader for BitWriter<W, BigEndian> {
 
         self.write::<2, u8>(grain_params.ar_coeff_shift - 6)?;
         self.write::<2, u8>(grain_params.grain_scale_shift)?;
-        if !grain_params.scaling_points_cb.is_empty() {
+        if !scaling_points_cb.is_empty() {
           self.write::<8, u8>(grain_params.cb_mult)?;
           self.write::<8, u8>(grain_params.cb_luma_mult)?;
           self.write::<9, u16>(grain_params.cb_offset)?;
         }
-        if !grain_params.scaling_points_cr.is_empty() {
+        if !scaling_points_cr.is_empty() {
           self.write::<8, u8>(grain_params.cr_mult)?;
           self.write::<8, u8>(grain_params.cr_luma_mult)?;
           self.write::<9, u16>(grain_params.cr_offset)?;
-- 
2.43.0


From 62def343ca01bc1aa9b823f72c859c31b2faf717 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 19:48:26 +0000
Subject: [PATCH 23/55] fix: refuse film grain tables the bitstream cannot
 express

Out-of-range parameters, missing coefficients and unordered scaling points
passed the configuration check and then panicked while coding or produced
frame headers that could not be decoded.
---
 src/api/config/mod.rs | 48 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/api/config/mod.rs b/src/api/config/mod.rs
index 6d66d6e..a19e4dc 100644
--- a/src/api/config/mod.rs
+++ b/src/api/config/mod.rs
@@ -130,6 +130,10 @@ pub enum InvalidConfig {
   /// The configuration exceeded the specified level constraints.
   #[error("Constraints exceeded for specified level")]
   LevelConstraintsExceeded,
+
+  /// A segment of the film grain table cannot be expressed in the bitstream.
+  #[error("invalid film grain table segment")]
+  InvalidFilmGrain,
 }
 
 /// Contains the encoder configuration.
@@ -214,6 +218,43 @@ fn check_tile_log2(n: usize) -> bool {
   ((1 << tile_log2) - n) == 0 || n == 0
 }
 
+/// Whether the parameters of a film grain table segment are within the limits
+/// of the bitstream.
+fn is_film_grain_valid(
+  segment: &GrainTableSegment, chroma_sampling: ChromaSampling,
+) -> bool {
+  let no_chroma_points = chroma_sampling == ChromaSampling::Cs400
+    || segment.chroma_scaling_from_luma
+    || (chroma_sampling == ChromaSampling::Cs420
+      && segment.scaling_points_y.is_empty());
+  let has_cb = !no_chroma_points && !segment.scaling_points_cb.is_empty();
+  let has_cr = !no_chroma_points && !segment.scaling_points_cr.is_empty();
+  let from_luma = segment.chroma_scaling_from_luma
+    && chroma_sampling != ChromaSampling::Cs400;
+
+  let lag = segment.ar_coeff_lag as usize;
+  let num_pos_luma = 2 * lag * (lag + 1);
+  let num_pos_chroma =
+    num_pos_luma + usize::from(!segment.scaling_points_y.is_empty());
+  let increasing =
+    |points: &[[u8; 2]]| points.windows(2).all(|p| p[0][0] < p[1][0]);
+
+  (8..=11).contains(&segment.scaling_shift)
+    && segment.ar_coeff_lag <= 3
+    && (6..=9).contains(&segment.ar_coeff_shift)
+    && segment.grain_scale_shift <= 3
+    && segment.cb_offset < 512
+    && segment.cr_offset < 512
+    && increasing(&segment.scaling_points_y)
+    && (!has_cb || increasing(&segment.scaling_points_cb))
+    && (!has_cr || increasing(&segment.scaling_points_cr))
+    && (chroma_sampling != ChromaSampling::Cs420 || has_cb == has_cr)
+    && (segment.scaling_points_y.is_empty()
+      || segment.ar_coeffs_y.len() >= num_pos_luma)
+    && (!(from_luma || has_cb) || segment.ar_coeffs_cb.len() >= num_pos_chroma)
+    && (!(from_luma || has_cr) || segment.ar_coeffs_cr.len() >= num_pos_chroma)
+}
+
 impl Config {
   pub(crate) fn new_inner<T: Pixel>(
     &self,
@@ -438,6 +479,13 @@ impl Config {
       }
     }
 
+    if let Some(table) = &config.film_grain_params {
+      if !table.iter().all(|s| is_film_grain_valid(s, config.chroma_sampling))
+      {
+        return Err(InvalidFilmGrain);
+      }
+    }
+
     // TODO: add more validation
     let rc = &self.rate_control;
 
-- 
2.43.0


From cf134d40d1ab05e67ba1b9ddc06cbb4607f6999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:29 +0000
Subject: [PATCH 24/55] fix: C API: a record length beyond c_int overflowed
 instead of failing

---
 src/capi.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index 44011d7..e62ad6b 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -460,11 +460,17 @@ unsafe fn decode_slice<'a>(
 
   let buf = slice::from_raw_parts(*data, *len as usize);
   let (len_bytes, rest) = buf.split_at(std::mem::size_of::<u64>());
-  let buf_len = u64::from_be_bytes(len_bytes.try_into().unwrap()) as usize;
-  let full_len = buf_len + 8;
-  if buf_len > rest.len() {
-    return (full_len as c_int, None);
+  let buf_len = u64::from_be_bytes(len_bytes.try_into().unwrap());
+  if buf_len > rest.len() as u64 {
+    // No buffer can hold more than what the return value can express.
+    let needed = buf_len
+      .checked_add(8)
+      .and_then(|full_len| c_int::try_from(full_len).ok())
+      .unwrap_or(-1);
+    return (needed, None);
   }
+  let buf_len = buf_len as usize;
+  let full_len = buf_len + 8;
 
   *len -= full_len;
   *data = (*data).offset(full_len.try_into().unwrap());
-- 
2.43.0


From 2c77f6429c860171e8f975494e959edcbf370982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:29 +0000
Subject: [PATCH 25/55] fix: C API: a successful rav1e_twopass_in() kept the
 previous status

---
 src/capi.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/capi.rs b/src/capi.rs
index e62ad6b..5920138 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -1116,7 +1116,10 @@ pub unsafe extern fn rav1e_twopass_in(
   let buf_slice = slice::from_raw_parts(buf, buf_size as usize);
   let r = (*ctx).ctx.twopass_in(buf_slice);
   match r {
-    Ok(v) => v as c_int,
+    Ok(v) => {
+      (*ctx).last_err = None;
+      v as c_int
+    }
     Err(v) => {
       (*ctx).last_err = Some(v);
       -1
-- 
2.43.0


From 0348cfca2650ba5e3e322cbfd54d221d003adff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:29 +0000
Subject: [PATCH 26/55] fix: C API: a level below 2.0 underflowed

---
 src/capi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capi.rs b/src/capi.rs
index 5920138..9a84605 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -738,7 +738,7 @@ unsafe fn option_match(
         _ => {
           let (major, minor) =
             scan_fmt!(value, "{}.{}", u8, u8).map_err(|_| ())?;
-          if major > 7 || minor > 3 {
+          if !(2..=7).contains(&major) || minor > 3 {
             return Err(());
           }
           Some(((major - 2) << 2) + minor)
-- 
2.43.0


From 5a9d63840d000d63afc33c38cbc082504bc27670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:29 +0000
Subject: [PATCH 27/55] fix: C API: filling a frame that was sent before
 panicked

---
 src/capi.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/capi.rs b/src/capi.rs
index 9a84605..e7937f9 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -1269,7 +1269,8 @@ fn rav1e_frame_fill_plane_internal<T: rav1e::Pixel>(
   f: &mut Arc<rav1e::Frame<T>>, plane: c_int, data_slice: &[u8],
   stride: ptrdiff_t, bytewidth: c_int,
 ) {
-  let input = Arc::get_mut(f).unwrap();
+  // The encoder may still hold the picture it was sent.
+  let input = Arc::make_mut(f);
   input.planes[plane as usize].copy_from_raw_u8(
     data_slice,
     stride as usize,
-- 
2.43.0


From 51d9ed05471b976d27145224fcd2c1b564db8666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:12 +0000
Subject: [PATCH 28/55] fix: channel: dropping a receiver while encoding
 aborted the process

---
 src/api/channel/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/api/channel/mod.rs b/src/api/channel/mod.rs
index d81ccb9..250f925 100644
--- a/src/api/channel/mod.rs
+++ b/src/api/channel/mod.rs
@@ -189,7 +189,8 @@ impl RcFirstPass for Sender<RcData> {
   fn send_pass_data(&mut self, rc_state: &mut RCState) {
     if let Some(data) = rc_state.emit_frame_data() {
       let data = data.to_vec().into_boxed_slice();
-      self.send(RcData::Frame(data)).unwrap();
+      // The receiver may have lost interest.
+      let _ = self.send(RcData::Frame(data));
     } else {
       unreachable!(
         "The encoder received more frames than its internal
@@ -200,7 +201,7 @@ impl RcFirstPass for Sender<RcData> {
   fn send_pass_summary(&mut self, rc_state: &mut RCState) {
     let data = rc_state.emit_summary();
     let data = data.to_vec().into_boxed_slice();
-    self.send(RcData::Summary(data)).unwrap();
+    let _ = self.send(RcData::Summary(data));
   }
 }
 
@@ -315,7 +316,10 @@ impl Config {
           // this call should return either Ok or Err(Encoded)
           let has_pass_data = match inner.receive_packet() {
             Ok(p) => {
-              send_packet.send(p).unwrap();
+              // Nobody waits for the packets any more.
+              if send_packet.send(p).is_err() {
+                return;
+              }
               true
             }
             Err(EncoderStatus::Encoded) => true,
@@ -340,7 +344,9 @@ impl Config {
         let has_pass_data = match r {
           Ok(p) => {
             // warn!("Sending out {}", p.input_frameno);
-            send_packet.send(p).unwrap();
+            if send_packet.send(p).is_err() {
+              return;
+            }
             true
           }
           Err(EncoderStatus::LimitReached) => break,
-- 
2.43.0


From 16caa9a54c1a799b03e3ff56ee903667fb489fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:12 +0000
Subject: [PATCH 29/55] fix: channel: missing or damaged pass data aborted the
 process

---
 src/api/channel/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/api/channel/mod.rs b/src/api/channel/mod.rs
index 250f925..54bc3d1 100644
--- a/src/api/channel/mod.rs
+++ b/src/api/channel/mod.rs
@@ -229,9 +229,9 @@ impl RcSecondPass for Receiver<RcData> {
         inner
           .rc_state
           .parse_frame_data_packet(data.as_ref())
-          .unwrap_or_else(|_| todo!("Error reporting"));
+          .map_err(|_| ())?;
       } else {
-        todo!("Error reporting");
+        return Err(());
       }
     }
 
@@ -309,7 +309,10 @@ impl Config {
       for f in receive_frame.iter() {
         // info!("frame in {}", inner.frame_count);
         while !inner.needs_more_fi_lookahead() {
-          receive_rc_pass2.feed_pass_data(&mut inner).unwrap();
+          // The stream ends here if the pass data does.
+          if receive_rc_pass2.feed_pass_data(&mut inner).is_err() {
+            return;
+          }
           // needs_more_fi_lookahead() should guard for missing output_frameno
           // already.
           //
@@ -323,7 +326,7 @@ impl Config {
               true
             }
             Err(EncoderStatus::Encoded) => true,
-            Err(EncoderStatus::NotReady) => todo!("Error reporting"),
+            Err(EncoderStatus::NotReady) => return,
             _ => unreachable!(),
           };
           if has_pass_data {
@@ -339,7 +342,9 @@ impl Config {
       let _ = inner.send_frame(None, None);
 
       loop {
-        receive_rc_pass2.feed_pass_data(&mut inner).unwrap();
+        if receive_rc_pass2.feed_pass_data(&mut inner).is_err() {
+          return;
+        }
         let r = inner.receive_packet();
         let has_pass_data = match r {
           Ok(p) => {
@@ -351,7 +356,7 @@ impl Config {
           }
           Err(EncoderStatus::LimitReached) => break,
           Err(EncoderStatus::Encoded) => true,
-          Err(EncoderStatus::NotReady) => todo!("Error reporting"),
+          Err(EncoderStatus::NotReady) => return,
           _ => unreachable!(),
         };
 
-- 
2.43.0


From 126a7b14ebc6bc2d5a7f24cee7d1066901c42c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:12 +0000
Subject: [PATCH 30/55] fix: channel: a flush was ignored and the stream never
 ended

---
 src/api/channel/data.rs | 22 ++++++++++++++--------
 src/api/channel/mod.rs  |  4 ++++
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/api/channel/data.rs b/src/api/channel/data.rs
index 90a49e1..8500bf1 100644
--- a/src/api/channel/data.rs
+++ b/src/api/channel/data.rs
@@ -233,11 +233,14 @@ impl<T: Pixel> FrameSender<T> {
   pub fn try_send<F: IntoFrame<T>>(
     &mut self, frame: F,
   ) -> Result<(), TrySendError<FrameInput<T>>> {
-    if self.limit <= self.count {
-      Err(TrySendError::Full(frame.into()))
+    let frame = frame.into();
+    let is_frame = frame.0.is_some();
+    // A flush is not a frame.
+    if is_frame && self.limit <= self.count {
+      Err(TrySendError::Full(frame))
     } else {
-      let r = self.sender.try_send(frame.into()).map_err(TrySendError::from);
-      if r.is_ok() {
+      let r = self.sender.try_send(frame).map_err(TrySendError::from);
+      if is_frame && r.is_ok() {
         self.count += 1;
       }
       r
@@ -250,11 +253,14 @@ impl<T: Pixel> FrameSender<T> {
   pub fn send<F: IntoFrame<T>>(
     &mut self, frame: F,
   ) -> Result<(), SendError<FrameInput<T>>> {
-    if self.limit <= self.count {
-      Err(SendError(frame.into()))
+    let frame = frame.into();
+    let is_frame = frame.0.is_some();
+    // A flush is not a frame.
+    if is_frame && self.limit <= self.count {
+      Err(SendError(frame))
     } else {
-      let r = self.sender.send(frame.into()).map_err(SendError::from);
-      if r.is_ok() {
+      let r = self.sender.send(frame).map_err(SendError::from);
+      if is_frame && r.is_ok() {
         self.count += 1;
       }
       r
diff --git a/src/api/channel/mod.rs b/src/api/channel/mod.rs
index 54bc3d1..c5a2055 100644
--- a/src/api/channel/mod.rs
+++ b/src/api/channel/mod.rs
@@ -335,6 +335,10 @@ impl Config {
         }
 
         let (frame, params) = f;
+        // Sending no frame flushes the encoder.
+        if frame.is_none() {
+          break;
+        }
         let _ = inner.send_frame(frame, params); // TODO make sure it cannot fail.
       }
 
-- 
2.43.0


From b32706d75bc40e031cb7eb5215e0a20017b5c39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:14 +0000
Subject: [PATCH 31/55] fix: channel: a second frame in still picture mode
 aborted the process

---
 src/api/channel/by_gop.rs | 3 ++-
 src/api/channel/mod.rs    | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/api/channel/by_gop.rs b/src/api/channel/by_gop.rs
index ff30e77..51464c5 100644
--- a/src/api/channel/by_gop.rs
+++ b/src/api/channel/by_gop.rs
@@ -343,7 +343,8 @@ impl Config {
 
     // TODO: make it user-settable
     let input_len = self.enc.speed_settings.rdo_lookahead_frames as usize * 4;
-    let frame_limit = i32::MAX as u64;
+    let frame_limit =
+      if self.enc.still_picture { 1 } else { i32::MAX as u64 };
 
     let (send_frame, receive_frame) = bounded(input_len);
     let (send_packet, receive_packet) = unbounded();
diff --git a/src/api/channel/mod.rs b/src/api/channel/mod.rs
index c5a2055..2d36d70 100644
--- a/src/api/channel/mod.rs
+++ b/src/api/channel/mod.rs
@@ -295,6 +295,8 @@ impl Config {
     } else {
       (None, None, i32::MAX as u64)
     };
+    let frame_limit =
+      if self.enc.still_picture { frame_limit.min(1) } else { frame_limit };
 
     let config = Arc::new(self.enc.clone());
 
-- 
2.43.0


From aa50bc94931515addc2b542219dabe8c57f00318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:14 +0000
Subject: [PATCH 32/55] fix: channel: encoders waiting for frames kept others
 from using the pool

---
 src/api/channel/mod.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/api/channel/mod.rs b/src/api/channel/mod.rs
index 2d36d70..6c03115 100644
--- a/src/api/channel/mod.rs
+++ b/src/api/channel/mod.rs
@@ -174,6 +174,16 @@ impl Config {
   }
 }
 
+/// Runs `op` in the thread pool, if there is one.
+fn install<R: Send>(
+  pool: &Option<Arc<ThreadPool>>, op: impl FnOnce() -> R + Send,
+) -> R {
+  match pool {
+    Some(pool) => pool.install(op),
+    None => op(),
+  }
+}
+
 trait RcFirstPass {
   fn send_pass_data(&mut self, rc_state: &mut RCState);
   fn send_pass_summary(&mut self, rc_state: &mut RCState);
@@ -307,6 +317,8 @@ impl Config {
 
     let pass_channel = (rc_data_sender, rc_data_receiver);
 
+    // The loop blocks on the channels: it has a thread of its own, so that it
+    // does not keep others from using the pool, and only the work is done there.
     let run = move || {
       for f in receive_frame.iter() {
         // info!("frame in {}", inner.frame_count);
@@ -319,7 +331,8 @@ impl Config {
           // already.
           //
           // this call should return either Ok or Err(Encoded)
-          let has_pass_data = match inner.receive_packet() {
+          let has_pass_data = match install(&pool, || inner.receive_packet())
+          {
             Ok(p) => {
               // Nobody waits for the packets any more.
               if send_packet.send(p).is_err() {
@@ -341,17 +354,18 @@ impl Config {
         if frame.is_none() {
           break;
         }
-        let _ = inner.send_frame(frame, params); // TODO make sure it cannot fail.
+        // TODO make sure it cannot fail.
+        let _ = install(&pool, || inner.send_frame(frame, params));
       }
 
       inner.limit = Some(inner.frame_count);
-      let _ = inner.send_frame(None, None);
+      let _ = install(&pool, || inner.send_frame(None, None));
 
       loop {
         if receive_rc_pass2.feed_pass_data(&mut inner).is_err() {
           return;
         }
-        let r = inner.receive_packet();
+        let r = install(&pool, || inner.receive_packet());
         let has_pass_data = match r {
           Ok(p) => {
             // warn!("Sending out {}", p.input_frameno);
@@ -374,11 +388,7 @@ impl Config {
       send_rc_pass1.send_pass_summary(&mut inner.rc_state);
     };
 
-    if let Some(pool) = pool {
-      pool.spawn(run);
-    } else {
-      rayon::spawn(run);
-    }
+    std::thread::spawn(run);
 
     Ok((channel, pass_channel))
   }
-- 
2.43.0


From f740c38df1a11965517b915b8ecda7e6c6ba570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:45 +0000
Subject: [PATCH 33/55] fix: channel: encoding by GOP stalled without a large
 enough pool

---
 src/api/channel/by_gop.rs | 65 ++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/src/api/channel/by_gop.rs b/src/api/channel/by_gop.rs
index 51464c5..1eb9fa7 100644
--- a/src/api/channel/by_gop.rs
+++ b/src/api/channel/by_gop.rs
@@ -8,6 +8,7 @@
 // PATENTS file, you can obtain it at www.aomedia.org/license/patent.
 
 use crate::api::channel::data::*;
+use crate::api::channel::install;
 use crate::api::config::*;
 use crate::api::util::*;
 use crate::api::EncoderConfig;
@@ -21,6 +22,7 @@ use av_scenechange::SceneChangeDetector;
 
 use std::collections::BTreeMap;
 use std::sync::Arc;
+use std::thread::Scope;
 
 struct SubGop<T: Pixel> {
   frames: Vec<Arc<Frame<T>>>,
@@ -148,8 +150,8 @@ impl<T: Pixel> WorkerPoolRecv<T> {
   }
 }
 
-fn workerpool<T: Pixel>(
-  s: &rayon::ScopeFifo, workers: usize, mut cfg: Config,
+fn workerpool<'scope, T: Pixel>(
+  s: &'scope Scope<'scope, '_>, workers: usize, mut cfg: Config,
 ) -> (WorkerPoolSend<T>, WorkerPoolRecv<T>) {
   let (send_workers, recv_workers) = bounded(workers);
   let (send_reassemble, recv_reassemble) = unbounded();
@@ -163,7 +165,7 @@ fn workerpool<T: Pixel>(
     let send_back = send_workers.clone();
 
     let cfg = cfg.clone();
-    s.spawn_fifo(move |_| {
+    s.spawn(move || {
       for wl in recv_workload.iter() {
         match wl {
           Some(wl) => {
@@ -171,7 +173,7 @@ fn workerpool<T: Pixel>(
             for s in wl.s_recv.iter() {
               for f in s.frames {
                 while !inner.needs_more_fi_lookahead() {
-                  let r = inner.receive_packet();
+                  let r = install(&cfg.pool, || inner.receive_packet());
                   match r {
                     Ok(p) => {
                       wl.send.send(p).unwrap();
@@ -180,15 +182,15 @@ fn workerpool<T: Pixel>(
                     _ => todo!("Error management {:?}", r),
                   }
                 }
-                let _ = inner.send_frame(Some(f), None);
+                let _ = install(&cfg.pool, || inner.send_frame(Some(f), None));
               }
             }
 
             inner.limit = Some(inner.frame_count);
-            let _ = inner.send_frame(None, None);
+            let _ = install(&cfg.pool, || inner.send_frame(None, None));
 
             loop {
-              match inner.receive_packet() {
+              match install(&cfg.pool, || inner.receive_packet()) {
                 Ok(p) => wl.send.send(p).unwrap(),
                 Err(EncoderStatus::LimitReached) => break,
                 Err(EncoderStatus::Encoded) => {}
@@ -215,11 +217,11 @@ fn workerpool<T: Pixel>(
   )
 }
 
-fn reassemble<P: Pixel>(
-  pool: WorkerPoolRecv<P>, s: &rayon::ScopeFifo,
+fn reassemble<'scope, P: Pixel>(
+  pool: WorkerPoolRecv<P>, s: &'scope Scope<'scope, '_>,
   send_packet: Sender<Packet<P>>,
 ) {
-  s.spawn_fifo(move |_| {
+  s.spawn(move || {
     let mut pending = BTreeMap::new();
     let mut last_idx = 0;
     let mut packet_index = 0;
@@ -254,8 +256,8 @@ fn reassemble<P: Pixel>(
 
 impl Config {
   // Group the incoming frames in Gops, emit a SubGop at time.
-  fn scenechange<T: Pixel>(
-    &self, s: &rayon::ScopeFifo, r: Receiver<FrameInput<T>>,
+  fn scenechange<'scope, T: Pixel>(
+    &self, s: &'scope Scope<'scope, '_>, r: Receiver<FrameInput<T>>,
   ) -> Receiver<SubGop<T>> {
     let inter_cfg = InterConfig::new(&self.enc);
     let pyramid_size = inter_cfg.keyframe_lookahead_distance() as usize;
@@ -264,7 +266,9 @@ impl Config {
 
     let mut sc = SceneChange::new(pyramid_size, &self.enc);
 
-    s.spawn_fifo(move |_| {
+    let pool = self.pool.clone();
+
+    s.spawn(move || {
       let mut lookahead = Vec::new();
       for f in r.iter() {
         let (frame, _params) = f;
@@ -276,7 +280,9 @@ impl Config {
           continue;
         }
 
-        if let Some((split_pos, end_gop)) = sc.split(&lookahead) {
+        if let Some((split_pos, end_gop)) =
+          install(&pool, || sc.split(&lookahead))
+        {
           let rem = lookahead.split_off(split_pos);
           let _ = send.send(SubGop { frames: lookahead, end_gop });
 
@@ -285,7 +291,9 @@ impl Config {
       }
 
       while lookahead.len() > lookahead_distance {
-        if let Some((split_pos, end_gop)) = sc.split(&lookahead) {
+        if let Some((split_pos, end_gop)) =
+          install(&pool, || sc.split(&lookahead))
+        {
           let rem = lookahead.split_off(split_pos);
           let _ = send.send(SubGop { frames: lookahead, end_gop });
 
@@ -302,13 +310,13 @@ impl Config {
   }
 
   /// Encode the subgops, dispatch each Gop to an available worker
-  fn encode<T: Pixel>(
-    &self, s: &rayon::ScopeFifo, workers: usize, r: Receiver<SubGop<T>>,
-    send_packet: Sender<Packet<T>>,
+  fn encode<'scope, T: Pixel>(
+    &self, s: &'scope Scope<'scope, '_>, workers: usize,
+    r: Receiver<SubGop<T>>, send_packet: Sender<Packet<T>>,
   ) {
     let (mut workers, recv) = workerpool(s, workers, self.clone());
 
-    s.spawn_fifo(move |_| {
+    s.spawn(move || {
       let mut sg_send = workers.get_worker().unwrap();
       for sb in r.iter() {
         let end_gop = sb.end_gop;
@@ -343,29 +351,24 @@ impl Config {
 
     // TODO: make it user-settable
     let input_len = self.enc.speed_settings.rdo_lookahead_frames as usize * 4;
-    let frame_limit =
-      if self.enc.still_picture { 1 } else { i32::MAX as u64 };
+    let frame_limit = if self.enc.still_picture { 1 } else { i32::MAX as u64 };
 
     let (send_frame, receive_frame) = bounded(input_len);
     let (send_packet, receive_packet) = unbounded();
 
-    let cfg = self.clone();
-
-    let pool = self.new_thread_pool();
+    let mut cfg = self.clone();
+    cfg.pool = self.new_thread_pool();
 
-    // TODO: move the accounting threads outside the threadpool
+    // The stages block on the channels: they have threads of their own and use
+    // the pool for the work only, or they would need a pool larger than them.
     let run = move || {
-      let _ = rayon::scope_fifo(|s| {
+      std::thread::scope(|s| {
         let sg_recv = cfg.scenechange(s, receive_frame);
         cfg.encode(s, slots, sg_recv, send_packet);
       });
     };
 
-    if let Some(pool) = pool {
-      pool.spawn_fifo(run);
-    } else {
-      rayon::spawn_fifo(run);
-    }
+    std::thread::spawn(run);
 
     let channel = (
       FrameSender::new(frame_limit, send_frame, Arc::new(self.enc.clone())),
-- 
2.43.0


From 4be22e383e60a3f03dfdb3dc2c6711eaadfc920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:45 +0000
Subject: [PATCH 34/55] fix: channel: a flush panicked when encoding by GOP

---
 src/api/channel/by_gop.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/api/channel/by_gop.rs b/src/api/channel/by_gop.rs
index 1eb9fa7..34faa24 100644
--- a/src/api/channel/by_gop.rs
+++ b/src/api/channel/by_gop.rs
@@ -273,7 +273,9 @@ impl Config {
       for f in r.iter() {
         let (frame, _params) = f;
 
-        lookahead.push(frame.unwrap());
+        // Sending no frame flushes the encoder.
+        let Some(frame) = frame else { break };
+        lookahead.push(frame);
 
         // we need at least lookahead_distance frames to reason
         if lookahead.len() < lookahead_distance {
-- 
2.43.0


From 658e654553b28545867b7afc0351e1f2a7c0f8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:36 +0000
Subject: [PATCH 35/55] fix: channel: a flush or a single frame in the second
 pass ended the stream

The number of frames is known in the second pass, so the loop goes on asking
for packets when the last frame is in: it then gets LimitReached, or
NeedMoreData before the first and only frame was given to the encoder.
---
 src/api/channel/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/api/channel/mod.rs b/src/api/channel/mod.rs
index 6c03115..e6e15e0 100644
--- a/src/api/channel/mod.rs
+++ b/src/api/channel/mod.rs
@@ -342,6 +342,11 @@ impl Config {
             }
             Err(EncoderStatus::Encoded) => true,
             Err(EncoderStatus::NotReady) => return,
+            // With the number of frames known from the first pass, there may
+            // be nothing to encode any more, or yet.
+            Err(EncoderStatus::LimitReached | EncoderStatus::NeedMoreData) => {
+              break
+            }
             _ => unreachable!(),
           };
           if has_pass_data {
-- 
2.43.0


From 68a046b6c5b856201787d1c5a0493de8763de81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 36/55] fix: CLI: advanced options named an unknown conflicting
 option

---
 src/bin/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/common.rs b/src/bin/common.rs
index 7fa0ed4..ea7044e 100644
--- a/src/bin/common.rs
+++ b/src/bin/common.rs
@@ -322,7 +322,7 @@ pub enum Commands {
     #[clap(long, short, value_parser)]
     save_config: Option<PathBuf>,
     /// Load the encoder configuration from a toml file
-    #[clap(long, short, value_parser, conflicts_with = "save-config")]
+    #[clap(long, short, value_parser, conflicts_with = "save_config")]
     load_config: Option<PathBuf>,
   },
 }
-- 
2.43.0


From d02733bf2ada69de8b4350a4f76f9b3b8f005d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 37/55] fix: CLI: levels below 2.0 underflowed instead of being
 refused

---
 src/bin/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/common.rs b/src/bin/common.rs
index ea7044e..a1f20ba 100644
--- a/src/bin/common.rs
+++ b/src/bin/common.rs
@@ -562,7 +562,7 @@ fn parse_config(matches: &CliOptions) -> Result<EncoderConfig, CliError> {
       _ => {
         let (major, minor) = scan_fmt!(level_str, "{}.{}", u8, u8)
           .expect("Could not parse AV1 level");
-        if major > 7 || minor > 3 {
+        if !(2..=7).contains(&major) || minor > 3 {
           panic!("Invalid AV1 level")
         }
         Some(((major - 2) << 2) + minor)
-- 
2.43.0


From 7415b02691bd6e499be225b4e8e47488bba361b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:00 +0000
Subject: [PATCH 38/55] fix: CLI: a frame rate given without a time scale was
 always refused

---
 src/bin/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/common.rs b/src/bin/common.rs
index a1f20ba..f8ad2be 100644
--- a/src/bin/common.rs
+++ b/src/bin/common.rs
@@ -232,7 +232,7 @@ pub struct CliOptions {
   #[clap(
     long,
     value_parser,
-    default_value_t = 0,
+    default_value_t = 1,
     help_heading = "VIDEO METADATA"
   )]
   pub time_scale: u64,
-- 
2.43.0


From a74b92991eef8835f80747757d2c2f2c12e6873c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:00 +0000
Subject: [PATCH 39/55] fix: CLI: a huge frame limit exhausted memory

---
 src/bin/stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/stats.rs b/src/bin/stats.rs
index 7a592cb..f90d14e 100644
--- a/src/bin/stats.rs
+++ b/src/bin/stats.rs
@@ -99,7 +99,7 @@ impl ProgressInfo {
       frame_rate,
       total_frames,
       time_started: Instant::now(),
-      frame_info: Vec::with_capacity(total_frames.unwrap_or_default()),
+      frame_info: Vec::new(),
       encoded_size: 0,
       metrics_enabled,
     }
-- 
2.43.0


From ed8dd135bb261cd4523ea36be9d97eb5033f77a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:18 +0000
Subject: [PATCH 40/55] fix: CLI: a damaged length in a statistics file
 exhausted memory

---
 src/bin/rav1e.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/bin/rav1e.rs b/src/bin/rav1e.rs
index bf1e970..54e47de 100644
--- a/src/bin/rav1e.rs
+++ b/src/bin/rav1e.rs
@@ -107,6 +107,17 @@ impl<D: Decoder> Source<D> {
   }
 }
 
+// Read a record of a two-pass data file. The length comes from the file, so
+// nothing is allocated before the data is known to be there.
+fn read_pass_record(file: &mut File, len: u64) -> std::io::Result<Vec<u8>> {
+  let mut data = Vec::new();
+  file.take(len).read_to_end(&mut data)?;
+  if data.len() as u64 != len {
+    return Err(std::io::ErrorKind::UnexpectedEof.into());
+  }
+  Ok(data)
+}
+
 // Encode and write a frame.
 // Returns frame information in a `Result`.
 #[profiling::function]
@@ -128,10 +139,7 @@ fn process_frame<T: Pixel, D: Decoder>(
       passfile
         .read_exact(&mut buflen)
         .map_err(|e| e.context("Unable to read the two-pass data file."))?;
-      let mut data = vec![0u8; u64::from_be_bytes(buflen) as usize];
-
-      passfile
-        .read_exact(&mut data)
+      let data = read_pass_record(passfile, u64::from_be_bytes(buflen))
         .map_err(|e| e.context("Unable to read the two-pass data file."))?;
 
       ctx
@@ -457,10 +465,7 @@ fn run() -> Result<(), error::CliError> {
       let mut buflen = [0u8; 8];
       f.read_exact(&mut buflen)
         .map_err(|e| e.context("Summary data too short"))?;
-      let len = i64::from_be_bytes(buflen);
-      let mut buf = vec![0u8; len as usize];
-
-      f.read_exact(&mut buf)
+      let buf = read_pass_record(&mut f, u64::from_be_bytes(buflen))
         .map_err(|e| e.context("Summary data too short"))?;
 
       rc = RateControlConfig::from_summary_slice(&buf)
-- 
2.43.0


From 4ecdf4b63e47c0c24ccce8c90e592ae33af63dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:18 +0000
Subject: [PATCH 41/55] fix: CLI: quiet encodes ignored a failure to write the
 end of the output

---
 src/bin/rav1e.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/rav1e.rs b/src/bin/rav1e.rs
index 54e47de..0fd025d 100644
--- a/src/bin/rav1e.rs
+++ b/src/bin/rav1e.rs
@@ -271,6 +271,7 @@ fn do_encode<T: Pixel, D: Decoder>(
       output.flush().unwrap();
     }
   }
+  output.flush().map_err(|e| e.context("Unable to write the output"))?;
   if verbose != Verboseness::Quiet {
     if verbose == Verboseness::Verbose {
       // Clear out the temporary progress indicator
-- 
2.43.0


From 7cfa7623cfa627aa1ca465b4e28cf2b1c3c884b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:34 +0000
Subject: [PATCH 42/55] fix: CLI: the pixel range of a loaded configuration was
 dropped

---
 src/bin/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/common.rs b/src/bin/common.rs
index f8ad2be..0a6ce54 100644
--- a/src/bin/common.rs
+++ b/src/bin/common.rs
@@ -464,6 +464,7 @@ pub fn parse_cli() -> Result<ParsedCliOptions, CliError> {
     rec,
   };
 
+  let config_loaded = enc.is_some();
   let enc = enc.map_or_else(|| parse_config(&matches), Ok)?;
 
   let verbose = if matches.quiet {
@@ -494,7 +495,7 @@ pub fn parse_cli() -> Result<ParsedCliOptions, CliError> {
     io,
     enc,
     limit,
-    color_range_specified: matches.range.is_some(),
+    color_range_specified: config_loaded || matches.range.is_some(),
     override_time_base: matches.frame_rate.is_some(),
     metrics_enabled,
     skip: matches.skip,
-- 
2.43.0


From cf3787a0f4818e3acbbf8d9957b5d1ea4edf8765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:19 +0000
Subject: [PATCH 43/55] fix: CLI: damaged or unreadable input ended the encode
 as if it were complete

---
 src/bin/rav1e.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin/rav1e.rs b/src/bin/rav1e.rs
index 0fd025d..13c575b 100644
--- a/src/bin/rav1e.rs
+++ b/src/bin/rav1e.rs
@@ -24,7 +24,7 @@ use crate::stats::*;
 use rav1e::config::CpuFeatureLevel;
 use rav1e::prelude::*;
 
-use crate::decoder::{Decoder, FrameBuilder, VideoDetails};
+use crate::decoder::{DecodeError, Decoder, FrameBuilder, VideoDetails};
 use crate::muxer::*;
 use std::fs::File;
 use std::io::{Read, Seek, Write};
@@ -99,9 +99,10 @@ impl<D: Decoder> Source<D> {
         self.count += 1;
         let _ = ctx.send_frame(Some(Arc::new(frame)));
       }
-      _ => {
+      Err(DecodeError::EOF) => {
         ctx.flush();
       }
+      Err(_) => return Err(CliError::new("Could not read the input video")),
     };
     Ok(())
   }
-- 
2.43.0


From b545c63c7896a90f9dd792b09a5d24361528fea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:19 +0000
Subject: [PATCH 44/55] fix: CLI: saving the configuration with photon noise
 panicked

---
 src/bin/rav1e.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/rav1e.rs b/src/bin/rav1e.rs
index 13c575b..72d9b2c 100644
--- a/src/bin/rav1e.rs
+++ b/src/bin/rav1e.rs
@@ -441,7 +441,8 @@ fn run() -> Result<(), error::CliError> {
   if cli.photon_noise > 0 && cli.enc.film_grain_params.is_none() {
     cli.enc.film_grain_params = Some(vec![generate_photon_noise_params(
       0,
-      u64::MAX,
+      // The largest time a saved configuration can hold.
+      i64::MAX as u64,
       NoiseGenArgs {
         iso_setting: cli.photon_noise as u32 * 100,
         width: video_info.width as u32,
-- 
2.43.0


From 918e92e7d67001113b4839224337e0f8bd592d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:27 +0000
Subject: [PATCH 45/55] fix: CLI: computing all metrics of monochrome video
 panicked

---
 src/bin/rav1e.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bin/rav1e.rs b/src/bin/rav1e.rs
index 72d9b2c..ca8ee7c 100644
--- a/src/bin/rav1e.rs
+++ b/src/bin/rav1e.rs
@@ -542,6 +542,13 @@ fn run() -> Result<(), error::CliError> {
     }
   }
 
+  if video_info.chroma_sampling == ChromaSampling::Cs400
+    && cli.metrics_enabled == MetricsEnabled::All
+  {
+    warn!("Only PSNR is available for monochrome video");
+    cli.metrics_enabled = MetricsEnabled::Psnr;
+  }
+
   let progress = ProgressInfo::new(
     Rational { num: video_info.time_base.den, den: video_info.time_base.num },
     if cli.limit == 0 { None } else { Some(cli.limit) },
-- 
2.43.0


From 99a51ed3aefa8ecf4c97520ce470ea341f52a337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:32 +0000
Subject: [PATCH 46/55] fix: CLI: an unlimited keyframe interval dropped the
 minimum interval

---
 src/bin/common.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bin/common.rs b/src/bin/common.rs
index 0a6ce54..5387a95 100644
--- a/src/bin/common.rs
+++ b/src/bin/common.rs
@@ -542,11 +542,16 @@ fn parse_config(matches: &CliOptions) -> Result<EncoderConfig, CliError> {
   let speed = matches.speed;
   let scene_detection_speed = matches.scd_speed;
   let max_interval = matches.keyint;
-  let min_interval = matches.min_keyint.min(max_interval);
+  // No limit on the maximum interval does not limit the minimum one either.
+  let min_interval = if max_interval == 0 {
+    matches.min_keyint
+  } else {
+    matches.min_keyint.min(max_interval)
+  };
 
   if speed > 10 {
     panic!("Speed must be between 0-10");
-  } else if min_interval > max_interval {
+  } else if max_interval != 0 && min_interval > max_interval {
     panic!("Maximum keyframe interval must be greater than or equal to minimum keyframe interval");
   }
 
-- 
2.43.0


From 824aef02aa19edff0cf4a0de895ebc9e6a515181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:00 +0000
Subject: [PATCH 47/55] fix: CLI: the estimated size failed without frames or
 with a huge limit

---
 src/bin/stats.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bin/stats.rs b/src/bin/stats.rs
index f90d14e..e3be6e7 100644
--- a/src/bin/stats.rs
+++ b/src/bin/stats.rs
@@ -135,7 +135,12 @@ impl ProgressInfo {
   pub fn estimated_size(&self) -> usize {
     self
       .total_frames
-      .map(|frames| self.encoded_size * frames / self.frames_encoded())
+      .map(|frames| {
+        // With no frames so far there is nothing to extrapolate from.
+        let encoded = self.frames_encoded().max(1) as u128;
+        let size = self.encoded_size as u128 * frames as u128 / encoded;
+        size.try_into().unwrap_or(usize::MAX)
+      })
       .unwrap_or_default()
   }
 
-- 
2.43.0


From 2e225464cfb3c250fb1ee1de92f49332ac59fd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:03 +0000
Subject: [PATCH 48/55] fix: CLI: metrics of 8-bit video with the high bitdepth
 code path panicked

---
 src/bin/stats.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/bin/stats.rs b/src/bin/stats.rs
index e3be6e7..6e50715 100644
--- a/src/bin/stats.rs
+++ b/src/bin/stats.rs
@@ -744,10 +744,41 @@ pub enum MetricsEnabled {
   All,
 }
 
+/// The same picture with samples of 8 bits.
+fn to_8bit<T: Pixel>(frame: &Frame<T>) -> Frame<u8> {
+  Frame {
+    planes: [0, 1, 2].map(|i| {
+      let src = &frame.planes[i];
+      let cfg = &src.cfg;
+      let mut dst =
+        Plane::new(cfg.width, cfg.height, cfg.xdec, cfg.ydec, 0, 0);
+      let stride = dst.cfg.stride;
+      if stride > 0 {
+        for (d, s) in
+          dst.data_origin_mut().chunks_mut(stride).zip(src.rows_iter())
+        {
+          for (d, s) in d.iter_mut().zip(s) {
+            *d = u8::cast_from(*s);
+          }
+        }
+      }
+      dst
+    }),
+  }
+}
+
 pub fn calculate_frame_metrics<T: Pixel>(
   frame1: &Frame<T>, frame2: &Frame<T>, bit_depth: usize, cs: ChromaSampling,
   metrics: MetricsEnabled,
 ) -> QualityMetrics {
+  // The metrics take 8-bit video in 8-bit samples only.
+  if metrics != MetricsEnabled::None
+    && bit_depth == 8
+    && std::mem::size_of::<T>() > 1
+  {
+    let (frame1, frame2) = (to_8bit(frame1), to_8bit(frame2));
+    return calculate_frame_metrics(&frame1, &frame2, bit_depth, cs, metrics);
+  }
   match metrics {
     MetricsEnabled::None => QualityMetrics::default(),
     MetricsEnabled::Psnr => QualityMetrics {
-- 
2.43.0


From 3afecac76973d656629843f990727a3a7cb60ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:12 +0000
Subject: [PATCH 49/55] fix: the identity matrix was accepted with subsampled
 chroma

---
 src/api/config/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/api/config/mod.rs b/src/api/config/mod.rs
index a19e4dc..f67cc14 100644
--- a/src/api/config/mod.rs
+++ b/src/api/config/mod.rs
@@ -13,6 +13,7 @@ use rayon::{ThreadPool, ThreadPoolBuilder};
 use std::sync::Arc;
 
 use crate::api::{ChromaSampling, Context, ContextInner, PixelRange};
+use crate::color::MatrixCoefficients;
 use crate::util::Pixel;
 
 mod encoder;
@@ -437,6 +438,17 @@ impl Config {
       return Err(InvalidOptionWithStillPicture("enable_timing_info"));
     }
 
+    // The identity matrix is for 4:4:4 only: decoders reject it with chroma
+    // subsampling and with monochrome, which counts as subsampled.
+    // <https://aomediacodec.github.io/av1-spec/#color-config-semantics>
+    if let Some(color_description) = config.color_description {
+      if color_description.matrix_coefficients == MatrixCoefficients::Identity
+        && config.chroma_sampling != ChromaSampling::Cs444
+      {
+        return Err(ColorConfigurationMismatch);
+      }
+    }
+
     // <https://aomediacodec.github.io/av1-spec/#color-config-syntax>
     if let Some(color_description) = config.color_description {
       if config.chroma_sampling != ChromaSampling::Cs400
-- 
2.43.0


From 217649a4cd2e626bd71711bd90755b94d7d3611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 50/55] fix: scene detection kept the cost map of every frame
 when nobody took it

---
 src/api/internal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/api/internal.rs b/src/api/internal.rs
index e375256..f909baa 100644
--- a/src/api/internal.rs
+++ b/src/api/internal.rs
@@ -318,7 +318,10 @@ impl<T: Pixel> ContextInner<T> {
       enc.max_key_frame_interval as usize,
       av_scenechange::CpuFeatureLevel::default(),
     );
-    keyframe_detector.enable_cache();
+    // Only temporal RDO takes the cached costs back out.
+    if enc.temporal_rdo() {
+      keyframe_detector.enable_cache();
+    }
 
     ContextInner {
       frame_count: 0,
-- 
2.43.0


From 24b7717720f7440839e2469dcde30282880a206b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:49 +0000
Subject: [PATCH 51/55] fix: EncoderStats counted transform sizes and
 partitions that were not chosen

The pixels of a block were counted as those of one of its transforms, and
the bottom-up partition search counted every candidate it encoded.
---
 src/encoder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 22d38ca..1353210 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -2174,7 +2174,10 @@ pub fn encode_block_post_cdef<T: Pixel, W: Writer>(
   }
 
   if let Some(enc_stats) = enc_stats {
-    let pixels = tx_size.area();
+    // The part of the block that lies within the tile
+    let width_mi = bsize.width_mi().min(ts.mi_width - tile_bo.0.x);
+    let height_mi = bsize.height_mi().min(ts.mi_height - tile_bo.0.y);
+    let pixels = width_mi * height_mi * MI_SIZE * MI_SIZE;
     enc_stats.block_size_counts[bsize as usize] += pixels;
     enc_stats.tx_type_counts[tx_type as usize] += pixels;
     enc_stats.luma_pred_mode_counts[luma_mode as usize] += pixels;
@@ -2685,6 +2688,7 @@ fn encode_partition_bottomup<T: Pixel, W: Writer>(
   let cw_checkpoint = cw.checkpoint(&tile_bo, fi.sequence.chroma_sampling);
   let w_pre_checkpoint = w_pre_cdef.checkpoint();
   let w_post_checkpoint = w_post_cdef.checkpoint();
+  let stats_checkpoint = enc_stats.clone();
 
   // Code the whole block
   if !must_split {
@@ -2773,6 +2777,7 @@ fn encode_partition_bottomup<T: Pixel, W: Writer>(
       cw.rollback(&cw_checkpoint);
       w_pre_cdef.rollback(&w_pre_checkpoint);
       w_post_cdef.rollback(&w_post_checkpoint);
+      enc_stats.clone_from(&stats_checkpoint);
 
       let subsize = bsize.subsize(partition).unwrap();
       let hbsw = subsize.width_mi(); // Half the block size width in blocks
@@ -2858,6 +2863,7 @@ fn encode_partition_bottomup<T: Pixel, W: Writer>(
       cw.rollback(&cw_checkpoint);
       w_pre_cdef.rollback(&w_pre_checkpoint);
       w_post_cdef.rollback(&w_post_checkpoint);
+      enc_stats.clone_from(&stats_checkpoint);
 
       assert!(best_partition != PartitionType::PARTITION_NONE || !must_split);
       let subsize = bsize.subsize(best_partition).unwrap();
-- 
2.43.0


From 2c0e3b603b0e1df900cabfcd6d415824ca108526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:28 +0000
Subject: [PATCH 52/55] fix: CLI: the reported bitrate ignored --frame-rate

---
 src/bin/rav1e-ch.rs | 2 +-
 src/bin/rav1e.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/rav1e-ch.rs b/src/bin/rav1e-ch.rs
index 00eb393..4069a82 100644
--- a/src/bin/rav1e-ch.rs
+++ b/src/bin/rav1e-ch.rs
@@ -551,7 +551,7 @@ fn run() -> Result<(), error::CliError> {
   }
 
   let progress = ProgressInfo::new(
-    Rational { num: video_info.time_base.den, den: video_info.time_base.num },
+    Rational { num: cli.enc.time_base.den, den: cli.enc.time_base.num },
     if cli.limit == 0 { None } else { Some(cli.limit) },
     cli.metrics_enabled,
   );
diff --git a/src/bin/rav1e.rs b/src/bin/rav1e.rs
index ca8ee7c..dd8e472 100644
--- a/src/bin/rav1e.rs
+++ b/src/bin/rav1e.rs
@@ -550,7 +550,7 @@ fn run() -> Result<(), error::CliError> {
   }
 
   let progress = ProgressInfo::new(
-    Rational { num: video_info.time_base.den, den: video_info.time_base.num },
+    Rational { num: cli.enc.time_base.den, den: cli.enc.time_base.num },
     if cli.limit == 0 { None } else { Some(cli.limit) },
     cli.metrics_enabled,
   );
-- 
2.43.0


From e932748f98dfa80f7c17d980985d140b2bc5c922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:28 +0000
Subject: [PATCH 53/55] fix: CLI: --metrics panicked on pictures smaller than a
 block of PSNR HVS

---
 src/bin/rav1e-ch.rs | 10 ++++++++++
 src/bin/rav1e.rs    | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/bin/rav1e-ch.rs b/src/bin/rav1e-ch.rs
index 4069a82..2335560 100644
--- a/src/bin/rav1e-ch.rs
+++ b/src/bin/rav1e-ch.rs
@@ -550,6 +550,16 @@ fn run() -> Result<(), error::CliError> {
     }
   }
 
+  // PSNR HVS compares blocks of 8x8 samples.
+  let (xdec, ydec) =
+    video_info.chroma_sampling.get_decimation().unwrap_or((0, 0));
+  if (video_info.width < 8 << xdec || video_info.height < 8 << ydec)
+    && cli.metrics_enabled == MetricsEnabled::All
+  {
+    warn!("Only PSNR is available for video this small");
+    cli.metrics_enabled = MetricsEnabled::Psnr;
+  }
+
   let progress = ProgressInfo::new(
     Rational { num: cli.enc.time_base.den, den: cli.enc.time_base.num },
     if cli.limit == 0 { None } else { Some(cli.limit) },
diff --git a/src/bin/rav1e.rs b/src/bin/rav1e.rs
index dd8e472..bd153e2 100644
--- a/src/bin/rav1e.rs
+++ b/src/bin/rav1e.rs
@@ -549,6 +549,16 @@ fn run() -> Result<(), error::CliError> {
     cli.metrics_enabled = MetricsEnabled::Psnr;
   }
 
+  // PSNR HVS compares blocks of 8x8 samples.
+  let (xdec, ydec) =
+    video_info.chroma_sampling.get_decimation().unwrap_or((0, 0));
+  if (video_info.width < 8 << xdec || video_info.height < 8 << ydec)
+    && cli.metrics_enabled == MetricsEnabled::All
+  {
+    warn!("Only PSNR is available for video this small");
+    cli.metrics_enabled = MetricsEnabled::Psnr;
+  }
+
   let progress = ProgressInfo::new(
     Rational { num: cli.enc.time_base.den, den: cli.enc.time_base.num },
     if cli.limit == 0 { None } else { Some(cli.limit) },
-- 
2.43.0


From 7be4e031e241c40a60374dfbac60d54b94985ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:28 +0000
Subject: [PATCH 54/55] fix: CLI: metrics counted the frame's padding as part
 of the picture

---
 src/bin/rav1e-ch.rs |  3 +-
 src/bin/rav1e.rs    |  3 +-
 src/bin/stats.rs    | 72 +++++++++++++++++++++++++++++----------------
 3 files changed, 49 insertions(+), 29 deletions(-)

diff --git a/src/bin/rav1e-ch.rs b/src/bin/rav1e-ch.rs
index 2335560..0b97204 100644
--- a/src/bin/rav1e-ch.rs
+++ b/src/bin/rav1e-ch.rs
@@ -242,8 +242,7 @@ fn do_encode<T: Pixel, D: Decoder>(
         }
         let summary = build_frame_summary(
           pkt,
-          y4m_details.bit_depth,
-          y4m_details.chroma_sampling,
+          y4m_details,
           metrics_enabled,
         );
 
diff --git a/src/bin/rav1e.rs b/src/bin/rav1e.rs
index bd153e2..81ae18b 100644
--- a/src/bin/rav1e.rs
+++ b/src/bin/rav1e.rs
@@ -164,8 +164,7 @@ fn process_frame<T: Pixel, D: Decoder>(
       }
       frame_summaries.push(build_frame_summary(
         pkt,
-        y4m_details.bit_depth,
-        y4m_details.chroma_sampling,
+        y4m_details,
         metrics_cli,
       ));
       Ok((Some(frame_summaries), true))
diff --git a/src/bin/stats.rs b/src/bin/stats.rs
index 6e50715..08fc3c8 100644
--- a/src/bin/stats.rs
+++ b/src/bin/stats.rs
@@ -8,6 +8,7 @@
 // PATENTS file, you can obtain it at www.aomedia.org/license/patent.
 
 use av_metrics::video::*;
+use crate::decoder::VideoDetails;
 use rav1e::data::EncoderStats;
 use rav1e::prelude::*;
 use std::fmt;
@@ -29,16 +30,14 @@ pub struct FrameSummary {
 
 #[profiling::function]
 pub fn build_frame_summary<T: Pixel>(
-  packets: Packet<T>, bit_depth: usize, chroma_sampling: ChromaSampling,
-  metrics_cli: MetricsEnabled,
+  packets: Packet<T>, video_info: VideoDetails, metrics_cli: MetricsEnabled,
 ) -> FrameSummary {
   let metrics_input_frame: &Frame<T> = packets.source.as_ref().unwrap();
   let metrics_output_frame: &Frame<T> = packets.rec.as_ref().unwrap();
   let encode_metrics: QualityMetrics = calculate_frame_metrics(
     metrics_input_frame,
     metrics_output_frame,
-    bit_depth,
-    chroma_sampling,
+    video_info,
     metrics_cli,
   );
   FrameSummary {
@@ -744,41 +743,64 @@ pub enum MetricsEnabled {
   All,
 }
 
-/// The same picture with samples of 8 bits.
-fn to_8bit<T: Pixel>(frame: &Frame<T>) -> Frame<u8> {
+/// The picture alone. The metrics would count everything else in the frame,
+/// the padding and what aligns its size, as samples of it.
+fn picture<T: Pixel, U: Pixel>(
+  frame: &Frame<T>, width: usize, height: usize,
+) -> Frame<U> {
   Frame {
     planes: [0, 1, 2].map(|i| {
       let src = &frame.planes[i];
       let cfg = &src.cfg;
-      let mut dst =
-        Plane::new(cfg.width, cfg.height, cfg.xdec, cfg.ydec, 0, 0);
-      let stride = dst.cfg.stride;
-      if stride > 0 {
-        for (d, s) in
-          dst.data_origin_mut().chunks_mut(stride).zip(src.rows_iter())
-        {
-          for (d, s) in d.iter_mut().zip(s) {
-            *d = u8::cast_from(*s);
-          }
-        }
+      if cfg.width == 0 || cfg.height == 0 {
+        return Plane::new(cfg.width, cfg.height, cfg.xdec, cfg.ydec, 0, 0);
       }
+      let width = (width + cfg.xdec) >> cfg.xdec;
+      let height = (height + cfg.ydec) >> cfg.ydec;
+      let samples: Vec<U> = src
+        .rows_iter()
+        .take(height)
+        .flat_map(|row| &row[..width])
+        .map(|s| U::cast_from(u16::cast_from(*s)))
+        .collect();
+      let mut dst = Plane::from_slice(&samples, width);
+      dst.cfg.xdec = cfg.xdec;
+      dst.cfg.ydec = cfg.ydec;
       dst
     }),
   }
 }
 
 pub fn calculate_frame_metrics<T: Pixel>(
-  frame1: &Frame<T>, frame2: &Frame<T>, bit_depth: usize, cs: ChromaSampling,
+  frame1: &Frame<T>, frame2: &Frame<T>, video_info: VideoDetails,
   metrics: MetricsEnabled,
 ) -> QualityMetrics {
-  // The metrics take 8-bit video in 8-bit samples only.
-  if metrics != MetricsEnabled::None
-    && bit_depth == 8
-    && std::mem::size_of::<T>() > 1
-  {
-    let (frame1, frame2) = (to_8bit(frame1), to_8bit(frame2));
-    return calculate_frame_metrics(&frame1, &frame2, bit_depth, cs, metrics);
+  let VideoDetails { width: w, height: h, bit_depth, chroma_sampling: cs, .. } =
+    video_info;
+  match metrics {
+    MetricsEnabled::None => QualityMetrics::default(),
+    // The metrics take 8-bit video in 8-bit samples only.
+    _ if bit_depth == 8 => calculate_picture_metrics::<u8>(
+      &picture(frame1, w, h),
+      &picture(frame2, w, h),
+      bit_depth,
+      cs,
+      metrics,
+    ),
+    _ => calculate_picture_metrics::<u16>(
+      &picture(frame1, w, h),
+      &picture(frame2, w, h),
+      bit_depth,
+      cs,
+      metrics,
+    ),
   }
+}
+
+fn calculate_picture_metrics<T: Pixel>(
+  frame1: &Frame<T>, frame2: &Frame<T>, bit_depth: usize, cs: ChromaSampling,
+  metrics: MetricsEnabled,
+) -> QualityMetrics {
   match metrics {
     MetricsEnabled::None => QualityMetrics::default(),
     MetricsEnabled::Psnr => QualityMetrics {
-- 
2.43.0


From 000674e8ebb5d4740918092220bdceb00b7dd0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:44 +0000
Subject: [PATCH 55/55] fix: blocks at the edge of the picture exceeded the
 partition range

The bottom-up search tried halves of a block that lies across the edge even
when the block itself is too large, and they cannot be split any further.
---
 src/encoder.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 1353210..15c3977 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -2744,10 +2744,15 @@ fn encode_partition_bottomup<T: Pixel, W: Writer>(
     debug_assert!(is_square);
 
     let mut partition_types = ArrayVec::<PartitionType, 3>::new();
-    if bsize
-      <= fi.config.speed_settings.partition.non_square_partition_max_threshold
-      || is_straddle_x
-      || is_straddle_y
+    if bsize <= fi.partition_range.max
+      && (bsize
+        <= fi
+          .config
+          .speed_settings
+          .partition
+          .non_square_partition_max_threshold
+        || is_straddle_x
+        || is_straddle_y)
     {
       if has_cols {
         partition_types.push(PartitionType::PARTITION_HORZ);
-- 
2.43.0

