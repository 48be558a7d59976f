From 7df120ca2fff610a4db2cdbc781b77abbfcee31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:02 +0000
Subject: [PATCH 01/26] fix: reject median_filter radii whose sum with the
 image size overflows u32

---
 src/filter/median.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index 2ebe249..e6cbf9e 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -118,7 +118,9 @@ where
     }
 
     // Safety note: we perform unchecked indexing in several places after checking at type i32 that a coordinate is in bounds
-    if (width + x_radius) > i32::MAX as u32 || (height + y_radius) > i32::MAX as u32 {
+    if width.saturating_add(x_radius) > i32::MAX as u32
+        || height.saturating_add(y_radius) > i32::MAX as u32
+    {
         panic!("(width + x_radius) and (height + y_radius) must both be <= i32::MAX");
     }
 
-- 
2.43.0


From af7f122cb36443eb581f1bd3b4f9953fc017319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:02 +0000
Subject: [PATCH 02/26] fix: compare Kernel data length without truncation or
 overflow

---
 src/kernel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel.rs b/src/kernel.rs
index 70a2c38..40174c3 100644
--- a/src/kernel.rs
+++ b/src/kernel.rs
@@ -23,7 +23,7 @@ where
     /// 2. If `width * height != data.len() as u32`.
     pub const fn new(data: &'a [K], width: u32, height: u32) -> Kernel<'a, K> {
         assert!(width > 0 && height > 0, "width and height must be non-zero");
-        assert!(width * height == data.len() as u32);
+        assert!(width as usize * height as usize == data.len());
         Kernel {
             data,
             width,
-- 
2.43.0


From d2e433bd95974b87dcb14645eb51058ed6774329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:22 +0000
Subject: [PATCH 03/26] fix: interpolation returns the default for NaN
 coordinates instead of reading out of bounds

---
 src/geometric_transformations.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 87ef25e..7da3b69 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -771,7 +771,8 @@ where
     let mut col: [P; 4] = [default, default, default, default];
 
     let (width, height) = image.dimensions();
-    if left < 0f32 || right >= width as f32 || top < 0f32 || bottom >= height as f32 {
+    let inside = left >= 0f32 && right < width as f32 && top >= 0f32 && bottom < height as f32;
+    if !inside {
         default
     } else {
         for row in top as u32..bottom as u32 {
@@ -832,7 +833,8 @@ where
 
     // default if out of bound
     let (width, height) = image.dimensions();
-    if left < 0f32 || right >= width as f32 || top < 0f32 || bottom >= height as f32 {
+    let inside = left >= 0f32 && right < width as f32 && top >= 0f32 && bottom < height as f32;
+    if !inside {
         default
     } else {
         let (tl, tr, bl, br) = unsafe {
-- 
2.43.0


From 2caa5ec5531f99baf057a581c7eaf33310e769d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:23 +0000
Subject: [PATCH 04/26] fix: connected_components reserves room for labels up
 to the pixel count

---
 src/region_labelling.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/region_labelling.rs b/src/region_labelling.rs
index 3a8be91..5a147cb 100644
--- a/src/region_labelling.rs
+++ b/src/region_labelling.rs
@@ -141,7 +141,7 @@ where
         return out;
     }
 
-    let mut forest = DisjointSetForest::new(image_size);
+    let mut forest = DisjointSetForest::new(image_size + 1);
     let mut adj_labels = [0u32; 4];
     let mut next_label = 1;
 
@@ -216,7 +216,7 @@ where
     }
 
     // Make components start at 1
-    let mut output_labels = vec![0u32; image_size];
+    let mut output_labels = vec![0u32; image_size + 1];
     let mut count = 1;
 
     unsafe {
-- 
2.43.0


From 8c4a22f1b76aa9ac32949723071805c21d9b0646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:24 +0000
Subject: [PATCH 05/26] fix: report unusable HoG options as errors instead of
 panicking

---
 src/hog.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/hog.rs b/src/hog.rs
index 793ae09..e25b755 100644
--- a/src/hog.rs
+++ b/src/hog.rs
@@ -87,6 +87,15 @@ impl HogSpec {
         options: HogOptions,
     ) -> Result<(usize, usize), String> {
         let mut errors: Vec<String> = vec![];
+        if options.orientations == 0 {
+            errors.push("number of orientations must be positive".to_string());
+        }
+        if options.cell_side == 0 {
+            errors.push("cell side must be positive".to_string());
+        }
+        if !errors.is_empty() {
+            return Err(Self::invalid_options_message(&errors));
+        }
         if width % options.cell_side != 0 {
             errors.push(format!(
                 "cell side {} does not evenly divide width {}",
@@ -113,6 +122,24 @@ impl HogSpec {
         options: HogOptions,
     ) -> Result<(usize, usize), String> {
         let mut errors: Vec<String> = vec![];
+        if options.block_stride == 0 {
+            errors.push("block stride must be positive".to_string());
+        }
+        if options.block_side > cells_wide {
+            errors.push(format!(
+                "block side {} exceeds cells wide {}",
+                options.block_side, cells_wide
+            ));
+        }
+        if options.block_side > cells_high {
+            errors.push(format!(
+                "block side {} exceeds cells high {}",
+                options.block_side, cells_high
+            ));
+        }
+        if !errors.is_empty() {
+            return Err(Self::invalid_options_message(&errors));
+        }
         if (cells_wide - options.block_side) % options.block_stride != 0 {
             errors.push(format!(
                 "block stride {} does not evenly divide (cells wide {} - block side {})",
@@ -183,7 +210,7 @@ impl HogSpec {
 /// `block_side` long and blocks are staggered by `block_stride`. Assumes that
 /// options are compatible.
 fn num_blocks(num_cells: usize, block_side: usize, block_stride: usize) -> usize {
-    (num_cells + block_stride - block_side) / block_stride
+    (num_cells - block_side) / block_stride + 1
 }
 
 /// Computes the HoG descriptor of an image, or None if the provided
-- 
2.43.0


From fbc0fec041e8e3fae8f70cd1e4f1fc1a0609e56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:24 +0000
Subject: [PATCH 06/26] fix: brief rejects keypoints and test pairs that reach
 outside of the image

---
 src/binary_descriptors/brief.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/binary_descriptors/brief.rs b/src/binary_descriptors/brief.rs
index 4283ce3..cb09f3f 100644
--- a/src/binary_descriptors/brief.rs
+++ b/src/binary_descriptors/brief.rs
@@ -129,15 +129,28 @@ pub(crate) fn brief_impl(
         ));
     }
 
+    // test points outside the patch could lie outside of the image
+    if let Some(test_pair) = test_pairs.iter().find(|t| {
+        t.p0.x >= BRIEF_PATCH_DIAMETER
+            || t.p0.y >= BRIEF_PATCH_DIAMETER
+            || t.p1.x >= BRIEF_PATCH_DIAMETER
+            || t.p1.y >= BRIEF_PATCH_DIAMETER
+    }) {
+        return Err(format!(
+            "Found test pair outside of the {} px patch: {:?}",
+            BRIEF_PATCH_DIAMETER, test_pair
+        ));
+    }
+
     let mut descriptors: Vec<BriefDescriptor> = Vec::with_capacity(keypoints.len());
     let (width, height) = (integral_image.width(), integral_image.height());
 
     for keypoint in keypoints {
         // if the keypoint is too close to the edge, return an error
         if keypoint.x <= BRIEF_PATCH_RADIUS
-            || keypoint.x + BRIEF_PATCH_RADIUS >= width
+            || keypoint.x >= width.saturating_sub(BRIEF_PATCH_RADIUS)
             || keypoint.y <= BRIEF_PATCH_RADIUS
-            || keypoint.y + BRIEF_PATCH_RADIUS >= height
+            || keypoint.y >= height.saturating_sub(BRIEF_PATCH_RADIUS)
         {
             return Err(format!(
                 "Found keypoint within {} px of image edge: ({}, {})",
-- 
2.43.0


From ade9b50e66f2083b522353c5dbfe82754081a7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 07/26] fix: adaptive_threshold accepts block radii of 2^31 and
 above

---
 src/contrast.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/contrast.rs b/src/contrast.rs
index c9024f1..3ace6c8 100644
--- a/src/contrast.rs
+++ b/src/contrast.rs
@@ -26,12 +26,12 @@ pub fn adaptive_threshold(image: &GrayImage, block_radius: u32, delta: i32) -> G
             let current_pixel = image.get_pixel(x, y);
             // Traverse all neighbors in (2 * block_radius + 1) x (2 * block_radius + 1)
             let (y_low, y_high) = (
-                max(0, y as i32 - (block_radius as i32)) as u32,
-                min(image.height() - 1, y + block_radius),
+                y.saturating_sub(block_radius),
+                min(image.height() - 1, y.saturating_add(block_radius)),
             );
             let (x_low, x_high) = (
-                max(0, x as i32 - (block_radius as i32)) as u32,
-                min(image.width() - 1, x + block_radius),
+                x.saturating_sub(block_radius),
+                min(image.width() - 1, x.saturating_add(block_radius)),
             );
 
             // Number of pixels in the block, adjusted for edge cases.
-- 
2.43.0


From bfd0c08f69f1471acefb7728e8174d1e0d5395ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 08/26] fix: flood_fill terminates when the target already has
 the fill color

---
 src/drawing/fill.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drawing/fill.rs b/src/drawing/fill.rs
index 74c05ab..c30e494 100644
--- a/src/drawing/fill.rs
+++ b/src/drawing/fill.rs
@@ -18,6 +18,9 @@ where
     P: Pixel + PartialEq,
 {
     let target = *image.get_pixel(x, y);
+    if target == fill_with {
+        return;
+    }
 
     let mut stack = Vec::new();
 
-- 
2.43.0


From c042eb6150bdc8a61f399f5d54b780215bb8ac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 09/26] fix: BresenhamLineIter terminates for end points at
 i32::MAX

---
 src/drawing/line.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/drawing/line.rs b/src/drawing/line.rs
index 2e8f962..75d53cc 100644
--- a/src/drawing/line.rs
+++ b/src/drawing/line.rs
@@ -62,10 +62,14 @@ impl Iterator for BresenhamLineIter {
                 (self.x, self.y)
             };
 
-            self.x += 1;
+            match self.x.checked_add(1) {
+                Some(x) => self.x = x,
+                // `x` cannot step past `end_x`, so move `end_x` below it instead
+                None => self.end_x = i32::MIN,
+            }
             self.error -= self.dy;
             if self.error < 0f32 {
-                self.y += self.y_step;
+                self.y = self.y.saturating_add(self.y_step);
                 self.error += self.dx;
             }
 
-- 
2.43.0


From 3bc0dc0ac90e8d3eccb46adcdbb8dc14301cd777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:26 +0000
Subject: [PATCH 10/26] fix: draw_filled_rect_mut accepts empty canvases

---
 src/drawing/rect.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drawing/rect.rs b/src/drawing/rect.rs
index ee2c99e..4f20d3e 100644
--- a/src/drawing/rect.rs
+++ b/src/drawing/rect.rs
@@ -52,6 +52,9 @@ pub fn draw_filled_rect_mut<C>(canvas: &mut C, rect: Rect, color: C::Pixel)
 where
     C: Canvas,
 {
+    if canvas.width() == 0 || canvas.height() == 0 {
+        return;
+    }
     let canvas_bounds = Rect::at(0, 0).of_size(canvas.width(), canvas.height());
     if let Some(intersection) = canvas_bounds.intersect(rect) {
         for dy in 0..intersection.height() {
-- 
2.43.0


From c18119e29efa3e1a32e08657aa11ff27eb92943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:26 +0000
Subject: [PATCH 11/26] fix: draw_polygon does not draw on empty canvases

---
 src/drawing/polygon.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/drawing/polygon.rs b/src/drawing/polygon.rs
index b3169f8..a2d38f6 100644
--- a/src/drawing/polygon.rs
+++ b/src/drawing/polygon.rs
@@ -156,6 +156,10 @@ where
 
     let (width, height) = canvas.dimensions();
 
+    if width == 0 || height == 0 {
+        return;
+    }
+
     // Intersect polygon vertical range with image bounds
     y_min = max(0, min(y_min, height as i32 - 1));
     y_max = max(0, min(y_max, height as i32 - 1));
-- 
2.43.0


From aeec643aa41d1dbe4dc3d974647c7505162feabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:27 +0000
Subject: [PATCH 12/26] fix: draw_ellipse terminates for radii whose square
 overflows i32

---
 src/drawing/conics.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drawing/conics.rs b/src/drawing/conics.rs
index 9f4a9e0..81122d0 100644
--- a/src/drawing/conics.rs
+++ b/src/drawing/conics.rs
@@ -124,8 +124,8 @@ where
     F: FnMut(i32, i32, i32, i32),
 {
     let (x0, y0) = center;
-    let w2 = (width_radius * width_radius) as f32;
-    let h2 = (height_radius * height_radius) as f32;
+    let w2 = (width_radius as f32) * (width_radius as f32);
+    let h2 = (height_radius as f32) * (height_radius as f32);
     let mut x = 0;
     let mut y = height_radius;
     let mut px = 0.0;
@@ -150,7 +150,7 @@ where
     }
 
     // Left and right regions.
-    p = h2 * (x as f32 + 0.5).powi(2) + (w2 * (y - 1).pow(2) as f32) - w2 * h2;
+    p = h2 * (x as f32 + 0.5).powi(2) + (w2 * ((y - 1) as f32).powi(2)) - w2 * h2;
     while y > 0 {
         y -= 1;
         py += -2.0 * w2;
-- 
2.43.0


From 02f75a0e51cb3f908ffd0a10a899ece3f6b39001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:27 +0000
Subject: [PATCH 13/26] fix: translate accepts images of width zero and extreme
 offsets

---
 src/geometric_transformations.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 7da3b69..3e6d457 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -472,8 +472,12 @@ where
     let num_channels = P::CHANNEL_COUNT as usize;
     let mut out = Image::new(width, height);
 
+    if width == 0 {
+        return out;
+    }
+
     for y in 0..height {
-        let y_in = cmp::max(0, cmp::min(y as i32 - ty, h - 1));
+        let y_in = cmp::max(0, cmp::min((y as i32).saturating_sub(ty), h - 1));
 
         if tx > 0 {
             let p_min = *image.get_pixel(0, y_in as u32);
-- 
2.43.0


From 9b9e1e9e4bef220886ba58995aa2b54a3a5284fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:28 +0000
Subject: [PATCH 14/26] fix: warps accept outputs of width zero

---
 src/geometric_transformations.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 3e6d457..7431248 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -645,6 +645,9 @@ where
     Fi: Fn(f32, f32) -> P + Send + Sync,
 {
     let width = out.width();
+    if width == 0 {
+        return;
+    }
     let raw_out = out.as_mut();
     let pitch = P::CHANNEL_COUNT as usize * width as usize;
 
-- 
2.43.0


From b314e663eb720f7b907d20b5f680ff834a0ab039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:28 +0000
Subject: [PATCH 15/26] fix: grayscale morphology accepts images of width zero

---
 src/morphology.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/morphology.rs b/src/morphology.rs
index badb683..88c0209 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -542,6 +542,9 @@ fn mask_reduce<F: Fn(u8, u8) -> u8>(
     operator: F,
 ) -> GrayImage {
     let mut result = GrayImage::from_pixel(image.width(), image.height(), Luma([neutral]));
+    if image.width() == 0 {
+        return result;
+    }
     for (y, line_group) in lines!(mask) {
         let y = i64::from(y);
         let line = line_group.collect::<Vec<_>>();
-- 
2.43.0


From 04a1521613b5f32a7db4dce0b6771cd2f414581e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 16/26] fix: canny accepts empty images and non-positive low
 thresholds

---
 src/edges.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/edges.rs b/src/edges.rs
index 38ce3d9..2a211d5 100644
--- a/src/edges.rs
+++ b/src/edges.rs
@@ -60,8 +60,8 @@ fn non_maximum_suppression(
 ) -> Image<Luma<f32>> {
     const RADIANS_TO_DEGREES: f32 = 180f32 / f32::consts::PI;
     let mut out = Image::from_pixel(g.width(), g.height(), Luma([0.0]));
-    for y in 1..g.height() - 1 {
-        for x in 1..g.width() - 1 {
+    for y in 1..g.height().saturating_sub(1) {
+        for x in 1..g.width().saturating_sub(1) {
             let x_gradient = gx[(x, y)][0] as f32;
             let y_gradient = gy[(x, y)][0] as f32;
             let mut angle = (y_gradient).atan2(x_gradient) * RADIANS_TO_DEGREES;
@@ -118,8 +118,8 @@ fn hysteresis(input: &Image<Luma<f32>>, low_thresh: f32, high_thresh: f32) -> Im
     let mut out = Image::from_pixel(input.width(), input.height(), min_brightness);
     // Stack. Possible optimization: Use previously allocated memory, i.e. gx.
     let mut edges = Vec::with_capacity(((input.width() * input.height()) / 2) as usize);
-    for y in 1..input.height() - 1 {
-        for x in 1..input.width() - 1 {
+    for y in 1..input.height().saturating_sub(1) {
+        for x in 1..input.width().saturating_sub(1) {
             let inp_pix = *input.get_pixel(x, y);
             let out_pix = *out.get_pixel(x, y);
             // If the edge strength is higher than high_thresh, mark it as an edge.
@@ -138,6 +138,14 @@ fn hysteresis(input: &Image<Luma<f32>>, low_thresh: f32, high_thresh: f32) -> Im
                     ];
 
                     for neighbor_idx in &neighbor_indices {
+                        // Border pixels have no gradient direction and are never edges.
+                        if neighbor_idx.0 == 0
+                            || neighbor_idx.0 >= input.width() - 1
+                            || neighbor_idx.1 == 0
+                            || neighbor_idx.1 >= input.height() - 1
+                        {
+                            continue;
+                        }
                         let in_neighbor = *input.get_pixel(neighbor_idx.0, neighbor_idx.1);
                         let out_neighbor = *out.get_pixel(neighbor_idx.0, neighbor_idx.1);
                         if in_neighbor[0] >= low_thresh && out_neighbor[0] == 0 {
-- 
2.43.0


From 48a20ca0a3d1928c66fb9fab52692c19acfb3dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 17/26] fix: find_vertical_seam accepts images of height zero

---
 src/seam_carving.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seam_carving.rs b/src/seam_carving.rs
index 44d195c..8bf56d6 100644
--- a/src/seam_carving.rs
+++ b/src/seam_carving.rs
@@ -54,6 +54,9 @@ where
         image.width() >= 2,
         "Cannot find seams if image width is < 2"
     );
+    if height == 0 {
+        return VerticalSeam(vec![]);
+    }
 
     let mut gradients = gradients(
         image,
-- 
2.43.0


From 75a4fcd90842184388524d98567d01c50958b628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:30 +0000
Subject: [PATCH 18/26] fix: enumerate_haar_features accepts frames of side 255

---
 src/haar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/haar.rs b/src/haar.rs
index 8eb7cd3..89f3707 100644
--- a/src/haar.rs
+++ b/src/haar.rs
@@ -327,8 +327,8 @@ impl<T> Size<T> {
 
 // Returns the valid block sizes for a feature of shape `feature_shape` in a frame of size `frame_size`.
 fn block_sizes(feature_shape: Size<Blocks>, frame_size: Size<Pixels>) -> Vec<Size<Pixels>> {
-    (1..frame_size.width / feature_shape.width + 1)
-        .cartesian_product(1..frame_size.height / feature_shape.height + 1)
+    (1..=frame_size.width / feature_shape.width)
+        .cartesian_product(1..=frame_size.height / feature_shape.height)
         .map(|(w, h)| Size::new(w, h))
         .collect()
 }
-- 
2.43.0


From 672c39a5c1f6b585b03ac729084fbaf161e3c6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:30 +0000
Subject: [PATCH 19/26] fix: oriented_fast accepts small images and large edge
 radii

---
 src/corners.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/corners.rs b/src/corners.rs
index 51f17be..9edf3ca 100644
--- a/src/corners.rs
+++ b/src/corners.rs
@@ -178,10 +178,15 @@ pub fn oriented_fast(
     seed: Option<u64>,
 ) -> Vec<OrientedFastCorner> {
     let (width, height) = image.dimensions();
-    let (min_x, max_x) = (edge_radius, width - edge_radius);
-    let (min_y, max_y) = (edge_radius, height - edge_radius);
+    let (min_x, max_x) = (edge_radius, width.saturating_sub(edge_radius));
+    let (min_y, max_y) = (edge_radius, height.saturating_sub(edge_radius));
     let mut corners = vec![];
 
+    // No pixel is far enough from the image border
+    if min_x >= max_x || min_y >= max_y {
+        return vec![];
+    }
+
     let local_threshold = if let Some(t) = threshold {
         t
     } else {
@@ -207,7 +212,7 @@ pub fn oriented_fast(
         let target_corner_fraction = (target_num_corners as f32) / ((width * height) as f32);
         let fraction_idx = (NUM_SAMPLE_POINTS as f32 * (1. - target_corner_fraction)) as usize;
 
-        fast_scores[fraction_idx]
+        fast_scores[fraction_idx.min(fast_scores.len() - 1)]
     };
 
     // Iterate over every pixel in the image and find potential corners.
-- 
2.43.0


From eda37920ae7eccdd623d8251540cea1cc1d4e2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:30 +0000
Subject: [PATCH 20/26] fix: approximate_polygon_dp accepts empty curves

---
 src/geometry.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geometry.rs b/src/geometry.rs
index c904efd..8254e94 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -31,6 +31,10 @@ where
         panic!("epsilon must be greater than 0.0");
     }
 
+    if curve.is_empty() {
+        return vec![];
+    }
+
     // Find the point with the maximum distance
     let mut dmax = 0.0;
     let mut index = 0;
-- 
2.43.0


From 47355e564283496d444baacfa052dd48afd0eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 21/26] fix: template bounds assertions do not overflow for
 empty templates

---
 src/template_matching.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/template_matching.rs b/src/template_matching.rs
index e51a2fb..e5125ab 100644
--- a/src/template_matching.rs
+++ b/src/template_matching.rs
@@ -420,8 +420,8 @@ impl<'a> ImageTemplate<'a> {
     }
     unsafe fn slide_window_at(&self, (x, y): (u32, u32), mut for_each: impl FnMut(f32, f32)) {
         let (image, template) = (self.image, self.template);
-        debug_assert!(x + template.width() - 1 < image.width());
-        debug_assert!(y + template.height() - 1 < image.height());
+        debug_assert!(x + template.width() <= image.width());
+        debug_assert!(y + template.height() <= image.height());
 
         for dy in 0..template.height() {
             for dx in 0..template.width() {
@@ -457,8 +457,8 @@ impl<'a> ImageTemplateMask<'a> {
     unsafe fn slide_window_at(&self, (x, y): (u32, u32), mut for_each: impl FnMut(f32, f32, f32)) {
         let Self { mask, inner } = self;
         let (image, template) = (inner.image, inner.template);
-        debug_assert!(x + template.width() - 1 < image.width());
-        debug_assert!(y + template.height() - 1 < image.height());
+        debug_assert!(x + template.width() <= image.width());
+        debug_assert!(y + template.height() <= image.height());
 
         for dy in 0..template.height() {
             for dx in 0..template.width() {
-- 
2.43.0


From 3aaea10c57f7e2d3be6d335288c8921292c7d4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:14 +0000
Subject: [PATCH 22/26] fix: replace and overlay cover the last row and column
 and read from the top image

---
 src/compose.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/compose.rs b/src/compose.rs
index ce70659..a523c04 100644
--- a/src/compose.rs
+++ b/src/compose.rs
@@ -215,8 +215,8 @@ where
     assert!(x < bottom.width());
     assert!(y < bottom.height());
 
-    let x_end = min(bottom.width() - 1, x + top.width());
-    let y_end = min(bottom.height() - 1, y + top.height());
+    let x_end = min(bottom.width(), x.saturating_add(top.width()));
+    let y_end = min(bottom.height(), y.saturating_add(top.height()));
 
     for y_bot in y..y_end {
         for x_bot in x..x_end {
@@ -262,13 +262,13 @@ where
     assert!(x < bottom.width());
     assert!(y < bottom.height());
 
-    let x_end = min(bottom.width() - 1, x + top.width());
-    let y_end = min(bottom.height() - 1, y + top.height());
+    let x_end = min(bottom.width(), x.saturating_add(top.width()));
+    let y_end = min(bottom.height(), y.saturating_add(top.height()));
 
     for y_bot in y..y_end {
         for x_bot in x..x_end {
             let mut bottom_pixel = *bottom.get_pixel(x_bot, y_bot);
-            let top_pixel = bottom.get_pixel(x_bot - x, y_bot - y);
+            let top_pixel = top.get_pixel(x_bot - x, y_bot - y);
 
             bottom_pixel.blend(top_pixel);
 
-- 
2.43.0


From e59b5b79c853b55eade6972dc1f8192f44ce3181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 23/26] fix: map_pixels2 rejects images of different dimensions

---
 src/map.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index 61f28b7..839dc32 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -351,9 +351,14 @@ where
     R: Pixel,
     F: Fn(P, Q) -> R,
 {
+    assert_eq!(
+        image1.dimensions(),
+        image2.dimensions(),
+        "the two images must have the same dimensions"
+    );
     Image::from_vec(
         image1.width(),
-        image2.height(),
+        image1.height(),
         image1
             .pixels()
             .zip(image2.pixels())
-- 
2.43.0


From 8de3739891da92fa9da72f89ea730ab21bb50229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 24/26] fix: crop rejects rectangles whose far corner overflows
 u32

---
 src/compose.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compose.rs b/src/compose.rs
index a523c04..fcd48a1 100644
--- a/src/compose.rs
+++ b/src/compose.rs
@@ -39,8 +39,8 @@ pub fn crop<P>(image: &Image<P>, rect: Rect) -> Image<P>
 where
     P: Pixel,
 {
-    assert!(rect.x + rect.width <= image.width());
-    assert!(rect.y + rect.height <= image.height());
+    assert!(rect.x <= image.width() && rect.width <= image.width() - rect.x);
+    assert!(rect.y <= image.height() && rect.height <= image.height() - rect.y);
 
     Image::from_fn(rect.width, rect.height, |x, y| {
         *image.get_pixel(rect.x + x, rect.y + y)
@@ -53,8 +53,8 @@ where
     P: Pixel + Send + Sync,
     P::Subpixel: Send + Sync,
 {
-    assert!(rect.x + rect.width <= image.width());
-    assert!(rect.y + rect.height <= image.height());
+    assert!(rect.x <= image.width() && rect.width <= image.width() - rect.x);
+    assert!(rect.y <= image.height() && rect.height <= image.height() - rect.y);
 
     Image::from_par_fn(rect.width, rect.height, |x, y| {
         *image.get_pixel(rect.x + x, rect.y + y)
-- 
2.43.0


From 93c25ec4760df230ee7f88ccd7ebe7bb810389ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:39 +0000
Subject: [PATCH 25/26] fix: projections whose last matrix entry is zero keep
 finite inverses

---
 src/geometric_transformations.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 7431248..609b578 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -682,6 +682,10 @@ fn class_from_matrix(mx: [f32; 9]) -> TransformationClass {
 }
 
 fn normalize(mx: [f32; 9]) -> [f32; 9] {
+    // The last entry of an invertible matrix can be zero: there is no representative with a one there.
+    if mx[8] == 0.0 {
+        return mx;
+    }
     [
         mx[0] / mx[8],
         mx[1] / mx[8],
-- 
2.43.0


From cc29e252853e695d4c547927e5e1b7a709cd458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:53 +0000
Subject: [PATCH 26/26] fix: approximate_polygon_dp recurses forever when
 rounding puts an end point off its own line

---
 src/geometry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 8254e94..d01dafe 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -40,7 +40,7 @@ where
     let mut index = 0;
     let end = curve.len() - 1;
     let line = Line::from_points(curve[0].to_f64(), curve[end].to_f64());
-    for (i, point) in curve.iter().enumerate().skip(1) {
+    for (i, point) in curve.iter().enumerate().take(end).skip(1) {
         let d = line.distance_from_point(point.to_f64());
         if d > dmax {
             index = i;
-- 
2.43.0

