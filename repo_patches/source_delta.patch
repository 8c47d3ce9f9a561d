From e87abcb0cd09461dbd1841605c324404a46af6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:26 +0000
Subject: [PATCH 01/25] fix: cloned Image must not point into pixels owned by
 the original

---
 src/rows.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/rows.rs b/src/rows.rs
index 80254a1..01d9cbd 100644
--- a/src/rows.rs
+++ b/src/rows.rs
@@ -51,9 +51,20 @@ impl Clone for DynamicRows<'_, '_> {
             height: self.height,
             f_pixels: self.f_pixels.clone(),
             pixels: match &self.pixels {
-                PixelsSource::Pixels { rows, pixels } => PixelsSource::Pixels {
+                PixelsSource::Pixels { rows, pixels: Some(pixels) } => {
+                    // owned pixels are copied, so the row pointers must point into the copy
+                    let old_start = pixels.as_slice().as_ptr();
+                    let pixels = pixels.clone();
+                    let new_start = pixels.as_slice().as_ptr();
+                    let rows = rows.as_slice().iter().map(move |row| {
+                        // Safety: rows always point into the pixels
+                        Pointer(new_start.wrapping_offset(unsafe { row.0.offset_from(old_start) }))
+                    }).collect();
+                    PixelsSource::Pixels { rows: SeaCow::boxed(rows), pixels: Some(pixels) }
+                },
+                PixelsSource::Pixels { rows, pixels: None } => PixelsSource::Pixels {
                     rows: rows.clone(),
-                    pixels: pixels.clone(),
+                    pixels: None,
                 },
                 PixelsSource::Callback(_) => {
                     let area = self.width as usize * self.height as usize;
-- 
2.43.0


From c9c9e8644def9d0dcf9309725c285a9be8f8452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:26 +0000
Subject: [PATCH 02/25] fix: reject NaN in set_output_gamma

---
 src/quant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quant.rs b/src/quant.rs
index be31257..ca50e08 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -144,7 +144,7 @@ impl QuantizationResult {
 
     /// The default is sRGB gamma (~1/2.2)
     pub fn set_output_gamma(&mut self, value: f64) -> Result<(), Error> {
-        if value <= 0. || value >= 1. {
+        if !(value > 0. && value < 1.) {
             return Err(ValueOutOfRange);
         }
 
-- 
2.43.0


From a53f53214d9399c79fa8dcf7d5eaced385a069d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:26 +0000
Subject: [PATCH 03/25] fix: palette read before remapping was stale after
 set_output_gamma and altered later results

---
 src/quant.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quant.rs b/src/quant.rs
index ca50e08..eed7358 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -149,6 +149,7 @@ impl QuantizationResult {
         }
 
         self.remapped = None;
+        self.int_palette.count = 0;
         self.gamma = value;
 
         Ok(())
@@ -208,7 +209,8 @@ impl QuantizationResult {
             &remap.int_palette
         } else {
             if self.int_palette.count == 0 {
-                self.palette.init_int_palette(&mut self.int_palette, self.gamma, self.min_posterization_output);
+                // it's only a preview of the palette, it must not affect colors used for remapping or another gamma
+                self.palette.clone().init_int_palette(&mut self.int_palette, self.gamma, self.min_posterization_output);
             }
             &self.int_palette
         }
-- 
2.43.0


From 2f23ece134640200c661256a2f2cdc0ca786e123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:26 +0000
Subject: [PATCH 04/25] fix: don't read uninitialized row when preparing
 dithering of later chunks

---
 src/remap.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/remap.rs b/src/remap.rs
index 78fca5b..6abe6ec 100644
--- a/src/remap.rs
+++ b/src/remap.rs
@@ -208,7 +208,8 @@ pub(crate) fn remap_to_palette_floyd(input_image: &mut Image, mut output_pixels:
                     let bg_pixels = background.as_mut().map(|b| b.row_f(&mut temp_row, row as _)).unwrap_or(&[]);
                     let dither_map = dither_map.get(row * width .. row * width + width).unwrap_or(&[]);
                     let scan_forward = row & 1 == 0;
-                    dither_row(row_pixels, &mut discard_row, width as u32, dither_map, base_dithering_level, max_dither_error, n, palette, transparent_index, bg_pixels, guess_from_remapped_pixels, &mut diffusion, scan_forward);
+                    // discard_row is uninitialized, so it can't be used for guessing
+                    dither_row(row_pixels, &mut discard_row, width as u32, dither_map, base_dithering_level, max_dither_error, n, palette, transparent_index, bg_pixels, false, &mut diffusion, scan_forward);
                 }
             }
             // parallel remap makes progress not very useful
-- 
2.43.0


From 17c28a124a35a4a19186ee3b708ac3fe46c0352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:26 +0000
Subject: [PATCH 05/25] fix: progress callback asking to stop during palette
 search must abort

---
 src/quant.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/quant.rs b/src/quant.rs
index eed7358..f51034f 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -397,7 +397,8 @@ pub(crate) fn find_best_palette(attr: &Attributes, target_mse: f64, target_mse_i
             target_mse_overshoot = 1.;
             trials_left -= 5 + fails_in_a_row;
         }
-        if attr.progress(overall_done) || trials_left <= 0 {
+        if attr.progress(overall_done) { return Err(Aborted); }
+        if trials_left <= 0 {
             break best_palette;
         }
     }.ok_or(ValueOutOfRange)?;
@@ -416,9 +417,7 @@ fn refine_palette(palette: &mut PalF, attr: &Attributes, hist: &mut HistogramInt
         while i < iterations {
             let stage_done = f32::from(i) / f32::from(iterations);
             let overall_done = (stage_done * f32::from(attr.progress_stage3)).mul_add(0.89, f32::from(attr.progress_stage1) + f32::from(attr.progress_stage2));
-            if attr.progress(overall_done) {
-                break;
-            }
+            if attr.progress(overall_done) { return Err(Aborted); }
 
             let pal_err = Kmeans::iteration(hist, palette, false)?;
             debug_assert!(pal_err < 1e20);
-- 
2.43.0


From 32c68bb54c75a12a3f2aa020fe8c0d704573f317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:26 +0000
Subject: [PATCH 06/25] fix: histogram with only fixed colors had zero weight
 and made NaN error

---
 src/hist.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hist.rs b/src/hist.rs
index 9ec20e1..2efd996 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -320,7 +320,10 @@ impl Histogram {
 
         // Limit perceptual weight to 1/10th of the image surface area to prevent
         // a single color from dominating all others.
-        let max_perceptual_weight = 0.1 * (temp.iter().map(|t| f64::from(t.weight)).sum::<f64>() / 256.) as f32;
+        let mut max_perceptual_weight = 0.1 * (temp.iter().map(|t| f64::from(t.weight)).sum::<f64>() / 256.) as f32;
+        if max_perceptual_weight <= 0. {
+            max_perceptual_weight = 0.1; // there are only fixed colors
+        }
 
         let lut = gamma_lut(gamma);
         let mut total_perceptual_weight = 0.;
-- 
2.43.0


From 517fe7400be6111fcd127dd966d4ee2119287f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:26 +0000
Subject: [PATCH 07/25] fix: sum counts of colors merged when posterizing the
 histogram

---
 src/hist.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hist.rs b/src/hist.rs
index 2efd996..9587b67 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -242,9 +242,11 @@ impl Histogram {
 
         let new_size = (self.hashmap.len()/3).max(self.hashmap.capacity()/5);
         let old_hashmap = std::mem::replace(&mut self.hashmap, HashMap::with_capacity_and_hasher(new_size, U32Hasher(0)));
-        self.hashmap.extend(old_hashmap.into_iter().map(move |(k, v)| {
-            (k & new_posterize_mask, v)
-        }));
+        for (k, (boost, rgba)) in old_hashmap {
+            self.hashmap.entry(k & new_posterize_mask)
+                .and_modify(move |e| e.0 = e.0.saturating_add(boost))
+                .or_insert((boost, rgba));
+        }
     }
 
     pub(crate) fn add_pixel_rows(&mut self, image: &DynamicRows<'_, '_>, importance_map: Option<&[u8]>, posterize_bits: u8) -> Result<(), Error> {
-- 
2.43.0


From d0ca53ab11778a6a92669e0cd9e6799abd470bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:26 +0000
Subject: [PATCH 08/25] fix: refuse dithered remapping to palettes too large
 for output indices

---
 src/remap.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/remap.rs b/src/remap.rs
index 6abe6ec..d190bc7 100644
--- a/src/remap.rs
+++ b/src/remap.rs
@@ -160,6 +160,9 @@ pub(crate) fn remap_to_palette_floyd(input_image: &mut Image, mut output_pixels:
 
     let n = Nearest::new(palette)?;
     let palette = palette.as_slice();
+    if palette.len() > PalIndexRemap::MAX as usize + 1 {
+        return Err(Error::Unsupported);
+    }
 
     let mut background = input_image.background.as_mut().map(|bg| {
         bg.px.prepare_iter(&mut temp_row, true)?;
-- 
2.43.0


From 156366c800a2fa40710919c21e1c0251a12bd66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:26 +0000
Subject: [PATCH 09/25] fix: RGB of fully transparent pixels affected grouping
 of colors

---
 src/hist.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hist.rs b/src/hist.rs
index 9587b67..e7a258b 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -211,9 +211,9 @@ impl Histogram {
             return;
         }
 
-        let px_int = if rgba.a != 0 {
-            self.posterize_mask() & unsafe { RGBAInt { rgba }.int }
-        } else { 0 };
+        let (px_int, rgba) = if rgba.a != 0 {
+            (self.posterize_mask() & unsafe { RGBAInt { rgba }.int }, rgba)
+        } else { (0, RGBA::default()) };
 
         self.hashmap.entry(px_int)
             // it can overflow on images over 2^24 pixels large
-- 
2.43.0


From a88d6353256ec1e952229c5f9e38806778d89adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:26 +0000
Subject: [PATCH 10/25] fix: duplicate fixed colors took place of other colors

---
 src/hist.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/hist.rs b/src/hist.rs
index e7a258b..dbf9994 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -112,9 +112,9 @@ impl Histogram {
         self.gamma = image.gamma();
 
         if !image.fixed_colors.is_empty() {
-            self.fixed_colors.extend(image.fixed_colors.iter().copied().enumerate().map(|(idx, rgba)| {
-               HashColor { rgba, index: idx as _ }
-            }));
+            for &rgba in &image.fixed_colors {
+                self.insert_fixed_color(rgba);
+            }
         }
 
         if attr.progress(f32::from(attr.progress_stage1) * 0.40) {
@@ -171,12 +171,18 @@ impl Histogram {
             self.gamma = Some(gamma);
         }
 
-        let idx = self.fixed_colors.len();
-        self.fixed_colors.insert(HashColor { rgba, index: idx as _ });
+        self.insert_fixed_color(rgba);
 
         Ok(())
     }
 
+    fn insert_fixed_color(&mut self, rgba: RGBA) {
+        // all fully transparent colors are the same
+        let rgba = if rgba.a != 0 { rgba } else { RGBA::default() };
+        let index = self.fixed_colors.len() as _;
+        self.fixed_colors.insert(HashColor { rgba, index });
+    }
+
     /// Generate palette for all images/colors added to the histogram.
     ///
     /// Palette generated using this function won't be improved during remapping.
@@ -418,12 +424,19 @@ impl std::hash::Hasher for U32Hasher {
 }
 
 /// ignores the index
-#[derive(PartialEq, Debug)]
+#[derive(Debug)]
 pub(crate) struct HashColor {
     pub rgba: RGBA,
     pub index: PalIndex,
 }
 
+impl PartialEq for HashColor {
+    #[inline]
+    fn eq(&self, other: &Self) -> bool {
+        self.rgba == other.rgba
+    }
+}
+
 #[allow(clippy::derived_hash_with_manual_eq)]
 impl Hash for HashColor {
     #[inline]
-- 
2.43.0


From 1450144182e7f491da69fddf80518e259369aaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:56 +0000
Subject: [PATCH 11/25] fix: C setters truncated out-of-range values to 8 bits
 instead of rejecting them

---
 imagequant-sys/src/ffi.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index 42bde26..509bc3a 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -234,7 +234,8 @@ pub extern "C" fn liq_get_max_colors(attr: &liq_attr) -> c_uint {
 #[inline(never)]
 pub extern "C" fn liq_set_min_posterization(attr: &mut liq_attr, bits: c_int) -> liq_error {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return Error::InvalidPointer; }
-    attr.inner.set_min_posterization(bits as u8).err().unwrap_or(LIQ_OK)
+    let Ok(bits) = bits.try_into() else { return Error::ValueOutOfRange };
+    attr.inner.set_min_posterization(bits).err().unwrap_or(LIQ_OK)
 }
 
 #[no_mangle]
@@ -261,7 +262,8 @@ pub extern "C" fn liq_get_speed(attr: &liq_attr) -> c_uint {
 #[inline(never)]
 pub extern "C" fn liq_set_quality(attr: &mut liq_attr, minimum: c_uint, target: c_uint) -> liq_error {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return Error::InvalidPointer; }
-    attr.inner.set_quality(minimum as u8, target as u8).err().unwrap_or(LIQ_OK)
+    let (Ok(minimum), Ok(target)) = (minimum.try_into(), target.try_into()) else { return Error::ValueOutOfRange };
+    attr.inner.set_quality(minimum, target).err().unwrap_or(LIQ_OK)
 }
 
 #[no_mangle]
-- 
2.43.0


From af03f286c4f09db826cdf7c1d4889571bff4057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:56 +0000
Subject: [PATCH 12/25] fix: check attr handle in liq_set_speed and
 liq_image_create_custom

---
 imagequant-sys/src/ffi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index 509bc3a..6b10b28 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -248,6 +248,7 @@ pub extern "C" fn liq_get_min_posterization(attr: &liq_attr) -> c_uint {
 #[no_mangle]
 #[inline(never)]
 pub extern "C" fn liq_set_speed(attr: &mut liq_attr, speed: c_int) -> liq_error {
+    if bad_object!(attr, LIQ_ATTR_MAGIC) { return Error::InvalidPointer; }
     attr.inner.set_speed(speed).err().unwrap_or(LIQ_OK)
 }
 
@@ -571,6 +572,7 @@ pub(crate) fn check_image_size(attr: &liq_attr, width: u32, height: u32) -> bool
 #[inline(never)]
 pub unsafe extern "C" fn liq_image_create_custom(attr: &liq_attr, row_callback: liq_image_get_rgba_row_callback, user_info: AnySyncSendPtr, width: c_uint, height: c_uint, gamma: f64)
  -> Option<Box<liq_image<'static>>> {
+    if bad_object!(attr, LIQ_ATTR_MAGIC) { return None; }
     let cb: Box<dyn Fn(&mut [MaybeUninit<RGBA>], usize) + Send + Sync> = Box::new(move |row, y| row_callback(row.as_mut_ptr(), y as _, row.len() as _, user_info));
     liq_image_create_custom_impl(&attr.inner, cb, width as _, height as _, gamma)
         .map(move |inner| Box::new(liq_image {
-- 
2.43.0


From 6dd9100be11b3b4b65a1bf88ab31675c9a1b29aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:56 +0000
Subject: [PATCH 13/25] fix: C quantize functions left result pointer
 uninitialized when given a bad handle

---
 imagequant-sys/src/ffi.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index 6b10b28..d36914a 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -515,6 +515,8 @@ pub extern "C" fn liq_get_remapping_quality(result: &liq_result) -> c_int {
 #[no_mangle]
 #[inline(never)]
 pub extern "C" fn liq_image_quantize(img: &mut liq_image, attr: &mut liq_attr, write_only_output: &mut MaybeUninit<Option<Box<liq_result>>>) -> liq_error {
+    if unsafe { liq_received_invalid_pointer(write_only_output.as_ptr().cast()) } { return Error::InvalidPointer; }
+    write_only_output.write(None);
     if bad_object!(attr, LIQ_ATTR_MAGIC) ||
        bad_object!(img, LIQ_IMAGE_MAGIC) { return Error::InvalidPointer; }
     let attr = &mut attr.inner;
@@ -531,6 +533,8 @@ pub extern "C" fn liq_image_quantize(img: &mut liq_image, attr: &mut liq_attr, w
 #[no_mangle]
 #[inline(never)]
 pub extern "C" fn liq_histogram_quantize(hist: &mut liq_histogram, attr: &liq_attr, write_only_output: &mut MaybeUninit<Option<Box<liq_result>>>) -> liq_error {
+    if unsafe { liq_received_invalid_pointer(write_only_output.as_ptr().cast()) } { return Error::InvalidPointer; }
+    write_only_output.write(None);
     if bad_object!(attr, LIQ_ATTR_MAGIC) ||
        bad_object!(hist, LIQ_HISTOGRAM_MAGIC) { return Error::InvalidPointer; }
     let attr = &attr.inner;
-- 
2.43.0


From c48d5f9bc08b373a5c4be984274bec19a9e5a02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:56 +0000
Subject: [PATCH 14/25] fix: don't take ownership of already released pixels

---
 src/rows.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rows.rs b/src/rows.rs
index 01d9cbd..a5af7ac 100644
--- a/src/rows.rs
+++ b/src/rows.rs
@@ -228,6 +228,13 @@ impl<'pixels, 'rows> DynamicRows<'pixels, 'rows> {
     /// Not recommended
     #[cfg(feature = "_internal_c_ffi")]
     pub(crate) unsafe fn set_memory_ownership(&mut self, own_rows: bool, own_pixels: bool, free_fn: unsafe extern "C" fn(*mut std::os::raw::c_void)) -> Result<(), Error> {
+        if let PixelsSource::Pixels { rows, .. } = &self.pixels {
+            // the source has been already released
+            if rows.as_slice().is_empty() {
+                return Err(Error::Unsupported);
+            }
+        }
+
         if own_rows {
             match &mut self.pixels {
                 PixelsSource::Pixels { rows, .. } => rows.make_owned(free_fn),
-- 
2.43.0


From e390916d7b81bfc2740c8cb1fa1e8e9b8f3665a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:56 +0000
Subject: [PATCH 15/25] fix: liq_image_set_background leaked memory, and
 deallocated invalid handles

---
 imagequant-sys/src/ffi.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index d36914a..c4ead1b 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -361,11 +361,14 @@ pub extern "C" fn liq_image_destroy(_: Option<Box<liq_image>>) {}
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_image_set_background<'pixels>(img: &mut liq_image<'pixels>, background: Box<liq_image<'pixels>>) -> liq_error {
+pub unsafe extern "C" fn liq_image_set_background<'pixels>(img: &mut liq_image<'pixels>, background: *mut liq_image<'pixels>) -> liq_error {
     if bad_object!(img, LIQ_IMAGE_MAGIC) ||
-       bad_object!(background, LIQ_IMAGE_MAGIC) { return Error::InvalidPointer; }
-    let background = unsafe { ManuallyDrop::take(&mut ManuallyDrop::new(background).inner) };
-    img.inner.set_background(background).err().unwrap_or(LIQ_OK)
+       liq_received_invalid_pointer(background.cast()) || (*background).magic_header != LIQ_IMAGE_MAGIC { return Error::InvalidPointer; }
+    let mut background = Box::from_raw(background);
+    let background_inner = ManuallyDrop::take(&mut background.inner);
+    background.magic_header = LIQ_FREED_MAGIC; // inner has been moved out
+    drop(background);
+    img.inner.set_background(background_inner).err().unwrap_or(LIQ_OK)
 }
 
 #[no_mangle]
-- 
2.43.0


From 3cb62c5489bffa75c018848970f2f7a6bc9b9e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:56 +0000
Subject: [PATCH 16/25] fix: NULL callback in C API crashed instead of
 disabling the callback

---
 imagequant-sys/src/ffi.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index c4ead1b..eef524f 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -176,17 +176,17 @@ unsafe impl Sync for AnySyncSendPtr {}
 
 #[no_mangle]
 #[inline(never)]
-pub unsafe extern "C" fn liq_attr_set_progress_callback(attr: &mut liq_attr, callback: liq_progress_callback_function, user_info: AnySyncSendPtr) {
+pub unsafe extern "C" fn liq_attr_set_progress_callback(attr: &mut liq_attr, callback: Option<liq_progress_callback_function>, user_info: AnySyncSendPtr) {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return; }
-    let cb = move |f| if callback(f, user_info) == 0 { ControlFlow::Break} else { ControlFlow::Continue};
+    let cb = move |f| if callback.map_or(1, |callback| callback(f, user_info)) == 0 { ControlFlow::Break} else { ControlFlow::Continue};
     attr.inner.set_progress_callback(cb);
 }
 
 #[no_mangle]
 #[inline(never)]
-pub unsafe extern "C" fn liq_result_set_progress_callback(result: &mut liq_result, callback: liq_progress_callback_function, user_info: AnySyncSendPtr) {
+pub unsafe extern "C" fn liq_result_set_progress_callback(result: &mut liq_result, callback: Option<liq_progress_callback_function>, user_info: AnySyncSendPtr) {
     if bad_object!(result, LIQ_RESULT_MAGIC) { return; }
-    result.inner.set_progress_callback(move |f| if callback(f, user_info) == 0 { ControlFlow::Break} else { ControlFlow::Continue});
+    result.inner.set_progress_callback(move |f| if callback.map_or(1, |callback| callback(f, user_info)) == 0 { ControlFlow::Break} else { ControlFlow::Continue});
 }
 
 #[allow(clippy::cast_ptr_alignment)]
@@ -200,10 +200,10 @@ unsafe fn attr_to_liq_attr_ptr(ptr: &Attributes) -> &liq_attr {
 
 #[no_mangle]
 #[inline(never)]
-pub unsafe extern "C" fn liq_set_log_callback(attr: &mut liq_attr, callback: liq_log_callback_function, user_info: AnySyncSendPtr) {
+pub unsafe extern "C" fn liq_set_log_callback(attr: &mut liq_attr, callback: Option<liq_log_callback_function>, user_info: AnySyncSendPtr) {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return; }
     attr.inner.set_log_callback(move |attr, msg| {
-        if let Ok(tmp) = CString::new(msg) {
+        if let (Some(callback), Ok(tmp)) = (callback, CString::new(msg)) {
             callback(attr_to_liq_attr_ptr(attr), tmp.as_ptr(), user_info);
         }
     });
@@ -211,9 +211,11 @@ pub unsafe extern "C" fn liq_set_log_callback(attr: &mut liq_attr, callback: liq
 
 #[no_mangle]
 #[inline(never)]
-pub unsafe extern "C" fn liq_set_log_flush_callback(attr: &mut liq_attr, callback: liq_log_flush_callback_function, user_info: AnySyncSendPtr) {
+pub unsafe extern "C" fn liq_set_log_flush_callback(attr: &mut liq_attr, callback: Option<liq_log_flush_callback_function>, user_info: AnySyncSendPtr) {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return; }
-    attr.inner.set_log_flush_callback(move |attr| callback(attr_to_liq_attr_ptr(attr), user_info));
+    attr.inner.set_log_flush_callback(move |attr| if let Some(callback) = callback {
+        callback(attr_to_liq_attr_ptr(attr), user_info);
+    });
 }
 
 #[no_mangle]
-- 
2.43.0


From 7bd456e02436d0e8bc6fe9d05c4ac4f6939e9f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:56 +0000
Subject: [PATCH 17/25] fix: validate gamma in Histogram::add_fixed_color

---
 src/hist.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hist.rs b/src/hist.rs
index dbf9994..fce96b1 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -167,6 +167,10 @@ impl Histogram {
             return Err(Unsupported);
         }
 
+        if !(0. ..=1.).contains(&gamma) {
+            return Err(ValueOutOfRange);
+        }
+
         if self.gamma.is_none() && gamma > 0. {
             self.gamma = Some(gamma);
         }
-- 
2.43.0


From 18719f5d42b433fd2247c53d8a5f4e5a01c0fb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:56 +0000
Subject: [PATCH 18/25] fix: adding image with too many fixed colors to a
 histogram must fail as documented

---
 src/hist.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hist.rs b/src/hist.rs
index fce96b1..503ba80 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -105,6 +105,9 @@ impl Histogram {
     pub fn add_image(&mut self, attr: &Attributes, image: &mut Image) -> Result<(), Error> {
         let width = image.width();
         let height = image.height();
+        if !self.fixed_colors.is_empty() && self.fixed_colors.len() + image.fixed_colors.len() > MAX_COLORS {
+            return Err(BufferTooSmall);
+        }
         if image.importance_map.is_none() && attr.use_contrast_maps {
             image.contrast_maps()?;
         }
-- 
2.43.0


From a8975c70ee2329b68d810c1eb16ba4f1ccce47f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:56 +0000
Subject: [PATCH 19/25] fix: dithering overwrote importance map set by the user

---
 src/image.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 9c17ed9..73c9ced 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -243,10 +243,8 @@ impl<'pixels> Image<'pixels> {
             return Ok(()); // shrug
         }
 
-        let noise = if let Some(n) = self.importance_map.as_deref_mut() { n } else {
-            let vec = try_zero_vec(width * height)?;
-            self.importance_map.get_or_insert_with(move || vec.into_boxed_slice())
-        };
+        let mut noise_map = try_zero_vec(width * height)?.into_boxed_slice();
+        let noise = &mut noise_map[..];
 
         let edges = if let Some(e) = self.edges.as_mut() { e } else {
             let vec = try_zero_vec(width * height)?;
@@ -301,6 +299,8 @@ impl<'pixels> Image<'pixels> {
         for (edges, noise) in edges.iter_mut().zip(noise) {
             *edges = (*noise).min(*edges);
         }
+        // keep importance map set by the user
+        self.importance_map.get_or_insert(noise_map);
         Ok(())
     }
 
-- 
2.43.0


From 5572e0ed44dbbd2d61a6fd9ea30b8333d7c5a0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:42 +0000
Subject: [PATCH 20/25] fix: fixed colors also present in the image were
 duplicated when posterizing

---
 src/hist.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hist.rs b/src/hist.rs
index 503ba80..ea50db5 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -293,11 +293,17 @@ impl Histogram {
 
         // Fixed colors will be put into normal hashmap, but with very high weight,
         // and temporarily 0 means this fixed max weight
+        let posterize_mask = self.posterize_mask();
         for &HashColor { rgba, .. } in &self.fixed_colors {
             let px_int = if rgba.a != 0 {
                 unsafe { RGBAInt { rgba }.int }
             } else { 0 };
 
+            // the same color in the image has been added with reduced precision, and must not be duplicated
+            let posterized_int = px_int & posterize_mask;
+            if self.hashmap.get(&posterized_int).map_or(false, |(_, color)| *color == rgba) {
+                self.hashmap.remove(&posterized_int);
+            }
             self.hashmap.insert(px_int, (0, rgba));
         }
 
-- 
2.43.0


From 4163183572e6756c41c876c90a82618db728d7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:31 +0000
Subject: [PATCH 21/25] fix: weights overflowed to infinity and made NaN
 palette after many search trials

---
 src/kmeans.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kmeans.rs b/src/kmeans.rs
index e0c508f..381d42b 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -95,6 +95,8 @@ impl Kmeans {
                 let (_, new_diff) = n.search(&f_pixel(px.0 + px.0 - remapped.0), matched);
                 diff = new_diff;
                 item.adjusted_weight = 2.0f32.mul_add(item.adjusted_weight, item.perceptual_weight) * (0.5 + diff);
+                // repeated many times it could overflow (sums of weights have to be finite too)
+                item.adjusted_weight = item.adjusted_weight.min(1e30);
             }
             debug_assert!(f64::from(diff) < 1e20);
             self.update_color(px, item.adjusted_weight, matched);
-- 
2.43.0


From 300c987e5c0a4074062a93421cc652665628f594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:59 +0000
Subject: [PATCH 22/25] fix: histogram must not be modified by an aborted
 add_image

---
 src/hist.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hist.rs b/src/hist.rs
index ea50db5..40fb88a 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -112,6 +112,10 @@ impl Histogram {
             image.contrast_maps()?;
         }
 
+        if attr.progress(f32::from(attr.progress_stage1) * 0.40) {
+            return Err(Aborted); // bow can free the RGBA source if copy has been made in f_pixels
+        }
+
         self.gamma = image.gamma();
 
         if !image.fixed_colors.is_empty() {
@@ -120,10 +124,6 @@ impl Histogram {
             }
         }
 
-        if attr.progress(f32::from(attr.progress_stage1) * 0.40) {
-            return Err(Aborted); // bow can free the RGBA source if copy has been made in f_pixels
-        }
-
         let posterize_bits = attr.posterize_bits();
         let surface_area = height * width;
         let estimated_colors = (surface_area / (posterize_bits as usize + if surface_area > 512 * 512 { 7 } else { 5 })).min(250_000);
-- 
2.43.0


From 8ae9430cc25baab5b1870ff8ac3ffc25561b8e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:43 +0000
Subject: [PATCH 23/25] fix: C API functions crashed on NULL handle, because
 fields were read before the check

---
 imagequant-sys/src/ffi.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index eef524f..c52db6a 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -18,11 +18,17 @@ use std::ptr;
 
 pub use imagequant::Error as liq_error;
 
+/// C programs may pass `NULL` where Rust declares a reference. Without this marker the compiler may assume that
+/// references to the object are dereferenceable, and read its fields before `bad_object!` has checked the pointer.
+#[derive(Default)]
+pub(crate) struct MaybeNull(std::cell::UnsafeCell<()>, std::marker::PhantomPinned);
+
 #[repr(C)]
 pub struct liq_attr {
     magic_header: MagicTag,
     inner: Attributes,
     c_api_free: unsafe extern "C" fn(*mut c_void),
+    maybe_null: MaybeNull,
 }
 
 #[repr(C)]
@@ -30,18 +36,21 @@ pub struct liq_image<'pixels> {
     magic_header: MagicTag,
     inner: ManuallyDrop<Image<'pixels>>,
     c_api_free: unsafe extern "C" fn(*mut c_void),
+    maybe_null: MaybeNull,
 }
 
 #[repr(C)]
 pub struct liq_result {
     magic_header: MagicTag,
     inner: QuantizationResult,
+    maybe_null: MaybeNull,
 }
 
 #[repr(C)]
 pub struct liq_histogram {
     magic_header: MagicTag,
     inner: Histogram,
+    maybe_null: MaybeNull,
 }
 
 pub type liq_palette = Palette;
@@ -294,6 +303,7 @@ pub extern "C" fn liq_quantize_image(attr: &mut liq_attr, img: &mut liq_image) -
     attr.quantize(img).ok().map(|inner| Box::new(liq_result {
         magic_header: LIQ_RESULT_MAGIC,
         inner,
+        maybe_null: MaybeNull::default(),
     }))
 }
 
@@ -422,6 +432,7 @@ pub extern "C" fn liq_histogram_create(attr: &liq_attr) -> Option<Box<liq_histog
     Some(Box::new(liq_histogram {
         magic_header: LIQ_HISTOGRAM_MAGIC,
         inner: Histogram::new(&attr.inner),
+        maybe_null: MaybeNull::default(),
     }))
 }
 
@@ -437,6 +448,7 @@ pub extern "C" fn liq_attr_create_with_allocator(_unused: *mut c_void, free: uns
         magic_header: LIQ_ATTR_MAGIC,
         inner: Attributes::new(),
         c_api_free: free,
+        maybe_null: MaybeNull::default(),
     });
     debug_assert_eq!(std::ptr::addr_of!(*attr), unsafe { attr_to_liq_attr_ptr(&attr.inner) } as *const liq_attr);
     Some(attr)
@@ -457,6 +469,7 @@ pub extern "C" fn liq_attr_copy(attr: &liq_attr) -> Option<Box<liq_attr>> {
         magic_header: LIQ_ATTR_MAGIC,
         inner: attr.inner.clone(),
         c_api_free: attr.c_api_free,
+        maybe_null: MaybeNull::default(),
     }))
 }
 
@@ -531,6 +544,7 @@ pub extern "C" fn liq_image_quantize(img: &mut liq_image, attr: &mut liq_attr, w
         .map(|inner| liq_result {
             magic_header: LIQ_RESULT_MAGIC,
             inner,
+            maybe_null: MaybeNull::default(),
         });
     store_boxed_result(res, write_only_output)
 }
@@ -549,6 +563,7 @@ pub extern "C" fn liq_histogram_quantize(hist: &mut liq_histogram, attr: &liq_at
         .map(|inner| liq_result {
             magic_header: LIQ_RESULT_MAGIC,
             inner,
+            maybe_null: MaybeNull::default(),
         });
     store_boxed_result(res, write_only_output)
 }
@@ -588,6 +603,7 @@ pub unsafe extern "C" fn liq_image_create_custom(attr: &liq_attr, row_callback:
             magic_header: LIQ_IMAGE_MAGIC,
             inner: ManuallyDrop::new(inner),
             c_api_free: attr.c_api_free,
+            maybe_null: MaybeNull::default(),
         }))
 }
 
@@ -602,6 +618,7 @@ pub unsafe extern "C" fn liq_image_create_rgba_rows<'rows>(attr: &liq_attr, rows
             magic_header: LIQ_IMAGE_MAGIC,
             inner: ManuallyDrop::new(inner),
             c_api_free: attr.c_api_free,
+            maybe_null: MaybeNull::default(),
         }))
 }
 
@@ -616,6 +633,7 @@ pub unsafe extern "C" fn liq_image_create_rgba<'pixels>(attr: &liq_attr, pixels:
             magic_header: LIQ_IMAGE_MAGIC,
             inner: ManuallyDrop::new(inner),
             c_api_free: attr.c_api_free,
+            maybe_null: MaybeNull::default(),
         }))
 }
 
-- 
2.43.0


From 3c534be052e101f8b2bd8309caed49efd1ce965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:07 +0000
Subject: [PATCH 24/25] fix: don't reject a palette because of the overshoot of
 the target quality

---
 src/quant.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quant.rs b/src/quant.rs
index f51034f..56d55ec 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -372,7 +372,9 @@ pub(crate) fn find_best_palette(attr: &Attributes, target_mse: f64, target_mse_i
     let mut palette_error = None;
     let mut palette = loop {
         let max_mse_per_color = target_mse.max(palette_error.unwrap_or(quality_to_mse(1))).max(quality_to_mse(51)) * 1.2;
-        let mut new_palette = mediancut(&mut hist, max_colors, target_mse * target_mse_overshoot, max_mse_per_color)?
+        // it must not stop adding colors at an error that would be rejected later
+        let target_mse_with_overshoot = (target_mse * target_mse_overshoot).min(max_mse.unwrap_or(f64::MAX));
+        let mut new_palette = mediancut(&mut hist, max_colors, target_mse_with_overshoot, max_mse_per_color)?
             .with_fixed_colors(attr.max_colors, &hist.fixed_colors);
 
         let stage_done = (f32::from(trials_left.max(0)) / f32::from(total_trials + 1)).mul_add(-(f32::from(trials_left.max(0)) / f32::from(total_trials + 1)), 1.);
-- 
2.43.0


From 269c920694774bdcb6e34ba4258313a8ef2bc3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:20 +0000
Subject: [PATCH 25/25] fix: area of the image can exceed 32 bits

---
 src/quant.rs | 2 +-
 src/remap.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quant.rs b/src/quant.rs
index 56d55ec..0e99ec6 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -118,7 +118,7 @@ impl QuantizationResult {
     }
 
     fn optionally_generate_dither_map(use_dither_map: DitherMapMode, image: &mut Image<'_>, uses_background: bool, output_pixels: &mut RowBitmapMut<'_, MaybeUninit<PalIndexRemap>>, palette: &mut PalF) -> Result<Option<f64>, Error> {
-        let is_image_huge = (image.px.width * image.px.height) > 2000 * 2000;
+        let is_image_huge = image.width() * image.height() > 2000 * 2000;
         let allow_dither_map = use_dither_map == DitherMapMode::Always || (!is_image_huge && use_dither_map != DitherMapMode::None);
         let generate_dither_map = allow_dither_map && image.dither_map.is_none();
         if !generate_dither_map {
diff --git a/src/remap.rs b/src/remap.rs
index d190bc7..17eb767 100644
--- a/src/remap.rs
+++ b/src/remap.rs
@@ -97,7 +97,7 @@ pub(crate) fn remap_to_palette<'x, 'b: 'x>(px: &mut DynamicRows, background: Opt
         .map(|t| t.0.into_inner().0)
         .reduce(Kmeans::merge) { kmeans.finalize(palette); }
 
-    let remapping_error = remapping_error / f64::from(px.width * px.height);
+    let remapping_error = remapping_error / (f64::from(px.width) * f64::from(px.height));
     Ok((remapping_error, unsafe { output_pixels.assume_init() }))
 }
 
-- 
2.43.0

