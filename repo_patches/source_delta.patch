From 5401377916da2918d842b756fb22b10ab5d9c6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 01/13] fix: io::write reports storage errors and does not
 touch the file before the image is encoded

image's save() drops its BufWriter without flushing, so a full disk went
unnoticed, and created the file before checking the format.
---
 src/io/mod.rs | 59 +++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 53 insertions(+), 6 deletions(-)

diff --git a/src/io/mod.rs b/src/io/mod.rs
index 4fc2b27..325270f 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -22,8 +22,13 @@
 use crate::error::{ImgIoError, ImgIoResult};
 use crate::image::{Image, BaseImage};
 
+use std::fs::File;
+use std::io::{Cursor, Write};
+use std::path::Path;
+
+use image::codecs::{bmp, farbfeld, gif, ico, jpeg, png, pnm, tga, tiff};
 use image::io::Reader;
-use image::{GenericImageView, ColorType, ImageBuffer};
+use image::{GenericImageView, ColorType, ImageBuffer, ImageEncoder, ImageFormat};
 
 /// Extracts channels and alpha from an `image::ColorType`
 fn from_color_type(color: ColorType) -> ImgIoResult<(u8, bool)> {
@@ -46,7 +51,49 @@ pub fn read(filename: &str) -> ImgIoResult<Image<u8>> {
     Ok(Image::from_slice(width, height, channels, alpha, img.as_bytes()))
 }
 
-/// Writes an RGB(A)8 or Gray(A)8 `Image<u8>` into an image file. A wrapper around `image::io::Reader::save()`
+/// Encodes pixel data into the image format denoted by the extension of `filename`
+fn encode(data: &[u8], width: u32, height: u32, color: ColorType, filename: &str) -> ImgIoResult<Vec<u8>> {
+    let mut buf = Vec::new();
+
+    match ImageFormat::from_path(filename)? {
+        ImageFormat::Png => png::PngEncoder::new(&mut buf).write_image(data, width, height, color)?,
+        ImageFormat::Jpeg => jpeg::JpegEncoder::new(&mut buf).write_image(data, width, height, color)?,
+        ImageFormat::Gif => gif::GifEncoder::new(&mut buf).encode(data, width, height, color)?,
+        ImageFormat::Ico => ico::IcoEncoder::new(&mut buf).write_image(data, width, height, color)?,
+        ImageFormat::Bmp => bmp::BmpEncoder::new(&mut buf).write_image(data, width, height, color)?,
+        ImageFormat::Tga => tga::TgaEncoder::new(&mut buf).write_image(data, width, height, color)?,
+        ImageFormat::Farbfeld => farbfeld::FarbfeldEncoder::new(&mut buf).write_image(data, width, height, color)?,
+        ImageFormat::Tiff => tiff::TiffEncoder::new(Cursor::new(&mut buf)).write_image(data, width, height, color)?,
+        ImageFormat::Pnm => {
+            let ext = Path::new(filename).extension()
+                .and_then(|ext| ext.to_str())
+                .map_or(String::new(), |ext| ext.to_ascii_lowercase());
+            let encoder = pnm::PnmEncoder::new(&mut buf);
+
+            match ext.as_str() {
+                "pbm" => encoder.with_subtype(pnm::PNMSubtype::Bitmap(pnm::SampleEncoding::Binary)),
+                "pgm" => encoder.with_subtype(pnm::PNMSubtype::Graymap(pnm::SampleEncoding::Binary)),
+                "ppm" => encoder.with_subtype(pnm::PNMSubtype::Pixmap(pnm::SampleEncoding::Binary)),
+                "pam" => encoder,
+                _ => return Err(ImgIoError::UnsupportedFileFormatError("unsupported PNM subtype".to_string()))
+            }.write_image(data, width, height, color)?
+        },
+        _ => return Err(ImgIoError::UnsupportedFileFormatError("unsupported file format".to_string()))
+    }
+
+    Ok(buf)
+}
+
+/// Saves pixel data into an image file. The file is only created once the data is known to be
+/// representable in its format, and is complete when this returns successfully
+fn save(data: &[u8], width: u32, height: u32, color: ColorType, filename: &str) -> ImgIoResult<()> {
+    let buf = encode(data, width, height, color, filename)?;
+
+    File::create(filename)?.write_all(&buf)?;
+    Ok(())
+}
+
+/// Writes an RGB(A)8 or Gray(A)8 `Image<u8>` into an image file
 pub fn write(input: &Image<u8>, filename: &str) -> ImgIoResult<()> {
     let (width, height, channels, alpha) = input.info().whca();
 
@@ -55,12 +102,12 @@ pub fn write(input: &Image<u8>, filename: &str) -> ImgIoResult<()> {
             2 => {
                 let img_buf: ImageBuffer<image::LumaA<u8>, &[u8]> = ImageBuffer::from_raw(width, height, input.data())
                     .ok_or_else(|| ImgIoError::ImageWriteError("ImageBuffer Container is not big enough".to_string()))?;
-                img_buf.save(filename)?;
+                save(&img_buf, width, height, ColorType::La8, filename)?;
             },
             4 => {
                 let img_buf: ImageBuffer<image::Rgba<u8>, &[u8]> = ImageBuffer::from_raw(width, height, input.data())
                     .ok_or_else(|| ImgIoError::ImageWriteError("ImageBuffer Container is not big enough".to_string()))?;
-                img_buf.save(filename)?;
+                save(&img_buf, width, height, ColorType::Rgba8, filename)?;
             },
             _ => return Err(ImgIoError::UnsupportedColorTypeError("unsupported color type".to_string()))
         }
@@ -69,12 +116,12 @@ pub fn write(input: &Image<u8>, filename: &str) -> ImgIoResult<()> {
             1 => {
                 let img_buf: ImageBuffer<image::Luma<u8>, &[u8]> = ImageBuffer::from_raw(width, height, input.data())
                     .ok_or_else(|| ImgIoError::ImageWriteError("ImageBuffer Container is not big enough".to_string()))?;
-                img_buf.save(filename)?;
+                save(&img_buf, width, height, ColorType::L8, filename)?;
             },
             3 => {
                 let img_buf: ImageBuffer<image::Rgb<u8>, &[u8]> = ImageBuffer::from_raw(width, height, input.data())
                     .ok_or_else(|| ImgIoError::ImageWriteError("ImageBuffer Container is not big enough".to_string()))?;
-                img_buf.save(filename)?;
+                save(&img_buf, width, height, ColorType::Rgb8, filename)?;
             },
             _ => return Err(ImgIoError::UnsupportedColorTypeError("unsupported color type".to_string()))
         }
-- 
2.43.0


From 5c45a57752a241f4825694cd9fb1ef604b9af2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 02/13] fix: adds_256_u8 processes the last bytes and ignores
 alpha in every layout

---
 src/simd.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/simd.rs b/src/simd.rs
index c4ab1ca..eb8e9fd 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -13,6 +13,7 @@ use std::arch::x86::*;
 #[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
 #[target_feature(enable = "avx2")]
 pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
+    let (channels, alpha) = (input.info().channels as u32, input.info().alpha);
     let num_bytes = input.info().full_size();
     let mut data: Vec<u8> = vec![0; num_bytes as usize];
 
@@ -22,13 +23,20 @@ pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
     // Mask the alpha bit if present
     if input.info().alpha {
         let zeroes_256 = _mm256_setzero_si256();
-        let alpha_mask = _mm256_set1_epi32(-2 * 2_i32.pow(30));
+        let alpha_mask = if channels == 2 {
+            _mm256_set1_epi16(i16::MIN)
+        } else {
+            _mm256_set1_epi32(-2 * 2_i32.pow(30))
+        };
         val_256 = _mm256_blendv_epi8(val_256, zeroes_256, alpha_mask);
     }
 
+    // The alpha mask only fits 2- and 4-channel pixels
+    let vectorize = !alpha || channels == 2 || channels == 4;
+
     // Process 32 bytes at a time
     let mut i = 0;
-    while (i + 32) <= num_bytes {
+    while vectorize && (i + 32) <= num_bytes {
         // Load 32-byte chunk into 256-bit SIMD register
         let chunk = _mm256_loadu_si256(input.data().as_ptr().
             offset(i as isize) as *const _);
@@ -47,8 +55,10 @@ pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
     }
 
     // Process the remaining bytes normally
-    if i > num_bytes {
-        for j in (i - 32)..num_bytes {
+    for j in i..num_bytes {
+        if alpha && j % channels == channels - 1 {
+            data[j as usize] = input.data()[j as usize];
+        } else {
             data[j as usize] = (input.data()[j as usize] as i16 + val).clamp(0, 255) as u8;
         }
     }
-- 
2.43.0


From f20bd679314ff660ac4aa9801bf378692f7e106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 03/13] fix: adds_n_256_u8 processes the last pixels and stays
 inside the image

---
 src/simd.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/simd.rs b/src/simd.rs
index eb8e9fd..7e33212 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -110,8 +110,12 @@ pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
         step = 32;
     }
 
+    // The masks only fit 3-channel pixels without and 4-channel pixels with an alpha channel
+    let vectorize = input.info().channels == if input.info().alpha { 4 } else { 3 };
+
+    // Every access is 32 bytes wide, even if only 30 of them are used
     let mut i = 0;
-    while (i + step) <= num_bytes {
+    while vectorize && (i + 32) <= num_bytes {
         let chunk = _mm256_loadu_si256(input.data().as_ptr().
             offset(i as isize) as *const _);
 
@@ -126,11 +130,10 @@ pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
         i += step;
     }
 
-    if i > num_bytes {
-        for j in ((i - step)..num_bytes).step_by(input.info().channels as usize) {
-            let index = j as usize + n as usize;
-            data[index] = (input.data()[index] as i16 + val).clamp(0, 255) as u8;
-        }
+    // Process the remaining bytes normally
+    data[(i as usize)..].copy_from_slice(&input.data()[(i as usize)..(num_bytes as usize)]);
+    for j in ((i + n as u32)..num_bytes).step_by(input.info().channels as usize) {
+        data[j as usize] = (input.data()[j as usize] as i16 + val).clamp(0, 255) as u8;
     }
 
     Image::from_vec(input.info().width, input.info().height, input.info().channels,
-- 
2.43.0


From 666afbb5867ac4076673bc4359b957777d4bd4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 04/13] fix: vectorized grayscale average processes all pixels
 and equals the scalar one

---
 src/colorspace.rs |  5 +++--
 src/simd.rs       | 46 +++++++++++++++++++++++++++++-----------------
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/colorspace.rs b/src/colorspace.rs
index e58c3e3..bd1ac91 100644
--- a/src/colorspace.rs
+++ b/src/colorspace.rs
@@ -3,7 +3,7 @@
 use std::cmp;
 
 use crate::enums::White;
-use crate::image::Image;
+use crate::image::{BaseImage, Image};
 use crate::util;
 use crate::util::constants::{GAMMA, SRGB_TO_XYZ_MAT, XYZ_TO_SRGB_MAT};
 
@@ -14,7 +14,8 @@ use crate::simd;
 pub fn rgb_to_grayscale(input: &Image<u8>) -> Image<u8> {
     #[cfg(feature = "simd")]
     {
-        if is_x86_feature_detected!("avx2") {
+        // The vectorized average only handles 3 color channels
+        if is_x86_feature_detected!("avx2") && input.info().channels_non_alpha() == 3 {
             simd::avg_checked_256_u8(input)
         } else {
             rgb_to_grayscale_norm(input)
diff --git a/src/simd.rs b/src/simd.rs
index 7e33212..075b089 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -193,6 +193,24 @@ pub unsafe fn deinterleave_4_256_u8(input: &Image<u8>, offset: usize) -> (__m256
     (r_256, g_256, b_256, a_256)
 }
 
+/// Computes the average of three vectors of 8-bit integers, rounded down
+#[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
+#[target_feature(enable = "avx2")]
+unsafe fn avg_3_epu8(r: __m256i, g: __m256i, b: __m256i) -> __m256i {
+    let zeroes_256 = _mm256_setzero_si256();
+
+    // 16-bit sums; multiplying by 0x5556 / 0x10000 divides every possible sum by 3 exactly
+    let third = _mm256_set1_epi16(0x5556);
+    let sum_lo = _mm256_add_epi16(_mm256_add_epi16(_mm256_unpacklo_epi8(r, zeroes_256),
+                                                   _mm256_unpacklo_epi8(g, zeroes_256)),
+                                  _mm256_unpacklo_epi8(b, zeroes_256));
+    let sum_hi = _mm256_add_epi16(_mm256_add_epi16(_mm256_unpackhi_epi8(r, zeroes_256),
+                                                   _mm256_unpackhi_epi8(g, zeroes_256)),
+                                  _mm256_unpackhi_epi8(b, zeroes_256));
+
+    _mm256_packus_epi16(_mm256_mulhi_epu16(sum_lo, third), _mm256_mulhi_epu16(sum_hi, third))
+}
+
 /// Computes the average of each 3-channel pixel of `input` and returns a grayscale image
 #[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
 #[target_feature(enable = "avx2")]
@@ -206,9 +224,7 @@ pub unsafe fn avg_256_u8(input: &Image<u8>) -> Image<u8> {
     while (i + chunk_size) <= num_bytes {
         let (r, g, b) = deinterleave_3_256_u8(input, i);
 
-        // Approximate average
-        let avg_rg = _mm256_avg_epu8(r, g);
-        let avg_rgb = _mm256_avg_epu8(avg_rg, b);
+        let avg_rgb = avg_3_epu8(r, g, b);
 
         _mm256_storeu_si256(data.as_mut_ptr().offset((i / channels) as isize)
                                 as *mut _, avg_rgb);
@@ -216,11 +232,10 @@ pub unsafe fn avg_256_u8(input: &Image<u8>) -> Image<u8> {
         i += chunk_size;
     }
 
-    if i > num_bytes {
-        for j in ((i - chunk_size)..num_bytes).step_by(3) {
-            let sum = (input.data()[i] + input.data()[i + 1] + input.data()[i + 2]) as f32;
-            data[j / channels] = (sum / 3.0).round() as u8;
-        }
+    // Process the remaining pixels normally
+    for j in (i..num_bytes).step_by(3) {
+        let sum = input.data()[j] as u16 + input.data()[j + 1] as u16 + input.data()[j + 2] as u16;
+        data[j / channels] = (sum / 3) as u8;
     }
 
     Image::from_vec(input.info().width, input.info().height, 1,
@@ -241,9 +256,7 @@ pub unsafe fn avg_alpha_256_u8(input: &Image<u8>) -> Image<u8> {
     while (i + chunk_size) <= num_bytes {
         let (r, g, b, a) = deinterleave_4_256_u8(input, i);
 
-        // Approximate average
-        let avg_rg = _mm256_avg_epu8(r, g);
-        let avg_rgb = _mm256_avg_epu8(avg_rg, b);
+        let avg_rgb = avg_3_epu8(r, g, b);
 
         // Interleave the alpha and grayscale channels
         let unpacked_lo = _mm256_unpacklo_epi8(avg_rgb, a);
@@ -260,12 +273,11 @@ pub unsafe fn avg_alpha_256_u8(input: &Image<u8>) -> Image<u8> {
         i += chunk_size;
     }
 
-    if i > num_bytes {
-        for j in ((i - chunk_size)..num_bytes).step_by(channels) {
-            let sum = (input.data()[i] + input.data()[i + 1] + input.data()[i + 2]) as f32;
-            data[j / 2] = (sum / 3.0).round() as u8;
-            data[j / 2 + 1] = input.data()[i + 3];
-        }
+    // Process the remaining pixels normally
+    for j in (i..num_bytes).step_by(channels) {
+        let sum = input.data()[j] as u16 + input.data()[j + 1] as u16 + input.data()[j + 2] as u16;
+        data[j / 2] = (sum / 3) as u8;
+        data[j / 2 + 1] = input.data()[j + 3];
     }
 
     Image::from_vec(input.info().width, input.info().height, 2,
-- 
2.43.0


From 1fe162019b0538cd2dc7a95641bb3f873e986afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 05/13] fix: vectorized operations do not access memory outside
 images with too little data or other layouts

---
 src/simd.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simd.rs b/src/simd.rs
index 075b089..d779a6b 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -15,6 +15,7 @@ use std::arch::x86::*;
 pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
     let (channels, alpha) = (input.info().channels as u32, input.info().alpha);
     let num_bytes = input.info().full_size();
+    assert!(input.data().len() >= num_bytes as usize, "image data does not fill its dimensions");
     let mut data: Vec<u8> = vec![0; num_bytes as usize];
 
     // Load val into 256-bit SIMD register
@@ -73,6 +74,7 @@ pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
 #[target_feature(enable = "avx2")]
 pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
     let num_bytes = input.info().full_size();
+    assert!(input.data().len() >= num_bytes as usize, "image data does not fill its dimensions");
     let mut data: Vec<u8> = vec![0; num_bytes as usize];
 
     let mut val_256 = _mm256_set1_epi8(val.abs() as i8);
@@ -215,6 +217,7 @@ unsafe fn avg_3_epu8(r: __m256i, g: __m256i, b: __m256i) -> __m256i {
 #[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
 #[target_feature(enable = "avx2")]
 pub unsafe fn avg_256_u8(input: &Image<u8>) -> Image<u8> {
+    assert_eq!(input.info().channels, 3, "input must have 3 channels");
     let channels = input.info().channels as usize;
     let chunk_size = 32 * channels;
     let num_bytes = input.info().full_size() as usize;
@@ -247,6 +250,7 @@ pub unsafe fn avg_256_u8(input: &Image<u8>) -> Image<u8> {
 #[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
 #[target_feature(enable = "avx2")]
 pub unsafe fn avg_alpha_256_u8(input: &Image<u8>) -> Image<u8> {
+    assert_eq!(input.info().channels, 4, "input must have 4 channels");
     let channels = input.info().channels as usize;
     let chunk_size = 32 * channels;
     let num_bytes = input.info().full_size() as usize;
-- 
2.43.0


From a0777289e3bc8893e32ea2013541ab30162692f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 06/13] fix: get_subimage stores its pixels in row-major order,
 as SubImage reads them

---
 src/image/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image/mod.rs b/src/image/mod.rs
index aa14c82..03ae501 100644
--- a/src/image/mod.rs
+++ b/src/image/mod.rs
@@ -293,8 +293,8 @@ impl<T: Number> Image<T> {
 
         let mut data = Vec::new();
 
-        for i in x..(x + width) {
-            for j in y..(y + height) {
+        for j in y..(y + height) {
+            for i in x..(x + width) {
                 data.push(self.get_pixel(i, j));
             }
         }
-- 
2.43.0


From 9d63a8d173c005dd715c2b9a38b5b80ca04d8ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 07/13] fix: multithreaded bilateral_filter uses the layout of
 the converted image, like the sequential one

---
 src/filter/bilateral.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter/bilateral.rs b/src/filter/bilateral.rs
index 9e1639a..2799f6a 100644
--- a/src/filter/bilateral.rs
+++ b/src/filter/bilateral.rs
@@ -42,11 +42,11 @@ pub fn bilateral_filter(input: &Image<u8>, range: f32, spatial: f32, algorithm:
     error::check_non_neg(range, "range")?;
     error::check_non_neg(spatial, "spatial")?;
 
-    let (width, height, channels, alpha) = input.info().whca();
     let size = ((spatial * 4.0) + 1.0) as u32;
     let spatial_mat = util::generate_spatial_mat(size, spatial)?;
 
     let lab = colorspace::srgb_to_lab_f32(&input, &White::D65);
+    let (width, height, channels, alpha) = lab.info().whca();
 
     match algorithm {
         Bilateral::Direct => {
-- 
2.43.0


From 37659af7ba728ca28e33308e34823456d9482ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 08/13] hook: with cfg imgproc_sim, CPU feature detection asks
 the simulator

---
 src/lib.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e1f37f3..b781467 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,19 @@
+#![allow(unexpected_cfgs)]
+
+// Only with `--cfg imgproc_sim`: CPU feature detection also asks the simulator that the library is
+// linked into, which may claim that a feature is missing
+#[cfg(imgproc_sim)]
+macro_rules! is_x86_feature_detected {
+    ($feature:tt) => {{
+        extern "C" {
+            fn imgproc_sim_cpu_has(name: *const u8, len: usize) -> bool;
+        }
+
+        std::is_x86_feature_detected!($feature)
+            && unsafe { imgproc_sim_cpu_has($feature.as_ptr(), $feature.len()) }
+    }};
+}
+
 // Modules
 pub mod colorspace;
 pub mod convert;
-- 
2.43.0


From e0d6d29cdb9886867f32a20ec05233a6f00fc7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 09/13] fix: separate_kernel always returns

The SVD it relied on does not converge (or fails, and is unwrapped) for
many kernels of rank one, for example Gaussian kernels of size 7, so that
gaussian_blur, linear_filter and laplacian_of_gaussian never returned.
Compare the kernel with the outer product of its pivot column and row.
---
 src/util/math.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/util/math.rs b/src/util/math.rs
index b4ee90b..b0620a3 100644
--- a/src/util/math.rs
+++ b/src/util/math.rs
@@ -3,7 +3,6 @@ use crate::image::{Number, SubImage, BaseImage};
 use crate::error::ImgProcResult;
 
 use std::f32::consts::{PI, E};
-use rulinalg::matrix::{Matrix, BaseMatrix};
 
 /// Returns the result of the multiplication of a square matrix by a vector
 pub fn vector_mul<T: Number>(mat: &[T], input: &[T]) -> ImgProcResult<Vec<T>> {
@@ -47,24 +46,39 @@ pub fn vector_mul_mut<T: Number>(mat: &[T], input: &[T], output: &mut Vec<T>) ->
 /// If `kernel` is separable, returns the (vertical kernel, horizontal kernel); otherwise returns None
 pub fn separate_kernel(kernel: &[f32]) -> Option<(Vec<f32>, Vec<f32>)> {
     let size = (kernel.len() as f32).sqrt() as usize;
-    let kernel_mat = Matrix::new(size, size, kernel);
-    let size = kernel_mat.cols();
-    let (s, u, v) = kernel_mat.svd().unwrap();
+    if kernel.is_empty() || size * size != kernel.len() {
+        return None;
+    }
+
+    // A kernel is separable if it is the outer product of one of its columns and one of its rows.
+    // Use the ones that cross in the entry of largest magnitude
+    let mut max = 0;
+    for i in 1..kernel.len() {
+        if kernel[i].abs() > kernel[max].abs() {
+            max = i;
+        }
+    }
+
+    let pivot = kernel[max];
+    if pivot == 0.0 {
+        return None;
+    }
+
+    let scalar = pivot.abs().sqrt();
+    let vertical_kernel: Vec<f32> = (0..size).map(|i| kernel[size * i + max % size] / (scalar * pivot.signum())).collect();
+    let horizontal_kernel: Vec<f32> = (0..size).map(|j| kernel[size * (max / size) + j] / scalar).collect();
 
     // Check if kernel is separable
-    if s.data()[0] != 0.0 {
-        for i in 1..size {
-            if s.data()[i * size + i] != 0.0 {
+    let tolerance = 16.0 * f32::EPSILON * pivot.abs();
+    for i in 0..size {
+        for j in 0..size {
+            let error = (kernel[size * i + j] - vertical_kernel[i] * horizontal_kernel[j]).abs();
+            if error.is_nan() || error > tolerance {
                 return None;
             }
         }
-    } else {
-        return None;
     }
 
-    let scalar = s.data()[0].sqrt();
-    let vertical_kernel = (u.col(0).as_slice().into_matrix() * scalar).into_vec();
-    let horizontal_kernel = (v.transpose().row(0).as_slice().into_matrix() * scalar).into_vec();
     Some((vertical_kernel, horizontal_kernel))
 }
 
-- 
2.43.0


From c2c447aa9769bf2252ea370fa09f0c1b7002d01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 10/13] fix: read resumes interrupted transfers

Some decoders pass an interrupted read on as an error. Read the file
before decoding it.
---
 src/io/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/io/mod.rs b/src/io/mod.rs
index 325270f..9985efb 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -22,7 +22,7 @@
 use crate::error::{ImgIoError, ImgIoResult};
 use crate::image::{Image, BaseImage};
 
-use std::fs::File;
+use std::fs::{self, File};
 use std::io::{Cursor, Write};
 use std::path::Path;
 
@@ -42,9 +42,15 @@ fn from_color_type(color: ColorType) -> ImgIoResult<(u8, bool)> {
 }
 
 // TODO: Fix rotation of JPG images where width < height
-/// Reads an image file into an `Image<u8>`. A wrapper around `image::io::Reader::open()`
+/// Reads an image file into an `Image<u8>`. A wrapper around `image::io::Reader`
 pub fn read(filename: &str) -> ImgIoResult<Image<u8>> {
-    let img = Reader::open(filename)?.decode()?;
+    // Read the whole file before decoding it: not all decoders resume interrupted reads
+    let mut reader = Reader::new(Cursor::new(fs::read(filename)?));
+    if let Ok(format) = ImageFormat::from_path(filename) {
+        reader.set_format(format);
+    }
+
+    let img = reader.decode()?;
     let (width, height) = img.dimensions();
     let (channels, alpha) = from_color_type(img.color())?;
 
-- 
2.43.0


From e9e109c02263ec5f0db2a28e3dd4d165ff4cdf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:33 +0000
Subject: [PATCH 11/13] Revert "fix: multithreaded bilateral_filter uses the
 layout of the converted image, like the sequential one"

No input reaches the difference: layouts for which the conversion changes the number of channels
fail in it already, in both builds. This reverts commit 9d63a8d.
---
 src/filter/bilateral.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter/bilateral.rs b/src/filter/bilateral.rs
index 2799f6a..9e1639a 100644
--- a/src/filter/bilateral.rs
+++ b/src/filter/bilateral.rs
@@ -42,11 +42,11 @@ pub fn bilateral_filter(input: &Image<u8>, range: f32, spatial: f32, algorithm:
     error::check_non_neg(range, "range")?;
     error::check_non_neg(spatial, "spatial")?;
 
+    let (width, height, channels, alpha) = input.info().whca();
     let size = ((spatial * 4.0) + 1.0) as u32;
     let spatial_mat = util::generate_spatial_mat(size, spatial)?;
 
     let lab = colorspace::srgb_to_lab_f32(&input, &White::D65);
-    let (width, height, channels, alpha) = lab.info().whca();
 
     match algorithm {
         Bilateral::Direct => {
-- 
2.43.0


From 299caf29c6ddf0c9793dbbdb98d1c443fd9a3871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:10 +0000
Subject: [PATCH 12/13] fix: refuse to write images without pixels where the
 file could not be decoded

JPEG, BMP and TGA files of images with no rows or no columns were written
successfully but could not be read back, and TIFF with no columns panicked
(division by zero in the encoder).
---
 src/io/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/io/mod.rs b/src/io/mod.rs
index 9985efb..aafcefa 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -60,8 +60,19 @@ pub fn read(filename: &str) -> ImgIoResult<Image<u8>> {
 /// Encodes pixel data into the image format denoted by the extension of `filename`
 fn encode(data: &[u8], width: u32, height: u32, color: ColorType, filename: &str) -> ImgIoResult<Vec<u8>> {
     let mut buf = Vec::new();
+    let format = ImageFormat::from_path(filename)?;
+
+    // These encoders accept images without pixels, but what they write cannot be decoded
+    let holds_empty = match format {
+        ImageFormat::Jpeg | ImageFormat::Bmp | ImageFormat::Tga => false,
+        ImageFormat::Tiff => width > 0,
+        _ => true
+    };
+    if (width == 0 || height == 0) && !holds_empty {
+        return Err(ImgIoError::ImageWriteError(format!("{:?} files cannot hold a {}x{} image", format, width, height)));
+    }
 
-    match ImageFormat::from_path(filename)? {
+    match format {
         ImageFormat::Png => png::PngEncoder::new(&mut buf).write_image(data, width, height, color)?,
         ImageFormat::Jpeg => jpeg::JpegEncoder::new(&mut buf).write_image(data, width, height, color)?,
         ImageFormat::Gif => gif::GifEncoder::new(&mut buf).encode(data, width, height, color)?,
-- 
2.43.0


From 40ff5e919dfa7bdebd4b6ee5dabe32de4c28ccee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:57 +0000
Subject: [PATCH 13/13] fix: rgb_to_grayscale of an image without pixels gives
 an empty image on every path

---
 src/colorspace.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/colorspace.rs b/src/colorspace.rs
index bd1ac91..79f6359 100644
--- a/src/colorspace.rs
+++ b/src/colorspace.rs
@@ -3,7 +3,7 @@
 use std::cmp;
 
 use crate::enums::White;
-use crate::image::{BaseImage, Image};
+use crate::image::{BaseImage, Image, ImageInfo};
 use crate::util;
 use crate::util::constants::{GAMMA, SRGB_TO_XYZ_MAT, XYZ_TO_SRGB_MAT};
 
@@ -27,6 +27,13 @@ pub fn rgb_to_grayscale(input: &Image<u8>) -> Image<u8> {
 }
 
 fn rgb_to_grayscale_norm(input: &Image<u8>) -> Image<u8> {
+    // An image without pixels has no data to tell the number of output channels from
+    if input.info().size() == 0 {
+        let info = input.info();
+        return Image::empty(ImageInfo::new(info.width, info.height, 1 + info.alpha as u8,
+                                           info.alpha));
+    }
+
     input.map_pixels_if_alpha(|channels, p_out| {
         let mut sum = 0;
         for channel in channels.iter() {
-- 
2.43.0

