From 1514828341d956cb2cd5be0547f511e6c079bda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 01/17] verif: cfg-guarded hooks for external verification
 harnesses

---
 openjp2-rs/src/bio.rs          |  7 +++++++
 openjp2-rs/src/cio.rs          |  7 +++++++
 openjp2-rs/src/codec.rs        |  7 +++++++
 openjp2-rs/src/consts.rs       |  7 +++++++
 openjp2-rs/src/dwt.rs          |  7 +++++++
 openjp2-rs/src/event.rs        |  7 +++++++
 openjp2-rs/src/ht_dec.rs       |  7 +++++++
 openjp2-rs/src/image.rs        |  7 +++++++
 openjp2-rs/src/invert.rs       |  7 +++++++
 openjp2-rs/src/j2k.rs          |  7 +++++++
 openjp2-rs/src/jp2.rs          |  7 +++++++
 openjp2-rs/src/lib.rs          |  7 +++++++
 openjp2-rs/src/malloc.rs       |  7 +++++++
 openjp2-rs/src/math.rs         |  7 +++++++
 openjp2-rs/src/mct.rs          |  7 +++++++
 openjp2-rs/src/mqc.rs          |  7 +++++++
 openjp2-rs/src/openjpeg.rs     |  7 +++++++
 openjp2-rs/src/pi.rs           |  7 +++++++
 openjp2-rs/src/sparse_array.rs |  7 +++++++
 openjp2-rs/src/stream.rs       |  7 +++++++
 openjp2-rs/src/t1.rs           |  7 +++++++
 openjp2-rs/src/t2.rs           |  7 +++++++
 openjp2-rs/src/tcd.rs          |  7 +++++++
 openjp2-rs/src/tgt.rs          |  7 +++++++
 src/http.rs                    |  7 +++++++
 src/iiif.rs                    |  7 +++++++
 src/iiif/parse.rs              |  7 +++++++
 src/lib.rs                     | 14 ++++++++++++++
 src/resolve.rs                 |  7 +++++++
 29 files changed, 210 insertions(+)

diff --git a/openjp2-rs/src/bio.rs b/openjp2-rs/src/bio.rs
index f9c709a..73c85d8 100644
--- a/openjp2-rs/src/bio.rs
+++ b/openjp2-rs/src/bio.rs
@@ -193,3 +193,10 @@ pub(crate) unsafe fn opj_bio_inalign(mut bio: *mut opj_bio_t) -> OPJ_BOOL {
     (*bio).ct = 0 as OPJ_UINT32;
     1i32
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/bio.rs"));
+}
diff --git a/openjp2-rs/src/cio.rs b/openjp2-rs/src/cio.rs
index 2b76fac..1d09418 100644
--- a/openjp2-rs/src/cio.rs
+++ b/openjp2-rs/src/cio.rs
@@ -102,3 +102,10 @@ pub(crate) fn opj_read_float(mut p_buffer: *const OPJ_BYTE, mut p_value: *mut OP
     };
     *value = f32::from_be_bytes([src[0], src[1], src[2], src[3]]);
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/cio.rs"));
+}
diff --git a/openjp2-rs/src/codec.rs b/openjp2-rs/src/codec.rs
index 6e68959..d46380b 100644
--- a/openjp2-rs/src/codec.rs
+++ b/openjp2-rs/src/codec.rs
@@ -530,3 +530,10 @@ impl Codec {
         }
     }
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/codec.rs"));
+}
diff --git a/openjp2-rs/src/consts.rs b/openjp2-rs/src/consts.rs
index cc87c62..cc52cc7 100644
--- a/openjp2-rs/src/consts.rs
+++ b/openjp2-rs/src/consts.rs
@@ -685,3 +685,10 @@ mod tests {
         }
     }
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/consts.rs"));
+}
diff --git a/openjp2-rs/src/dwt.rs b/openjp2-rs/src/dwt.rs
index 04f524b..c519f1a 100644
--- a/openjp2-rs/src/dwt.rs
+++ b/openjp2-rs/src/dwt.rs
@@ -2977,3 +2977,10 @@ pub(crate) unsafe fn opj_dwt_decode_real(
         opj_dwt_decode_partial_97(tilec, numres)
     }
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/dwt.rs"));
+}
diff --git a/openjp2-rs/src/event.rs b/openjp2-rs/src/event.rs
index f972160..39ed425 100644
--- a/openjp2-rs/src/event.rs
+++ b/openjp2-rs/src/event.rs
@@ -151,3 +151,10 @@ macro_rules! event_msg {
     }
   };
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/event.rs"));
+}
diff --git a/openjp2-rs/src/ht_dec.rs b/openjp2-rs/src/ht_dec.rs
index cded279..b70bf93 100644
--- a/openjp2-rs/src/ht_dec.rs
+++ b/openjp2-rs/src/ht_dec.rs
@@ -2833,3 +2833,10 @@ pub(crate) unsafe fn opj_t1_ht_decode_cblk(
     }
     1i32
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/ht_dec.rs"));
+}
diff --git a/openjp2-rs/src/image.rs b/openjp2-rs/src/image.rs
index 266db7d..1640d8f 100644
--- a/openjp2-rs/src/image.rs
+++ b/openjp2-rs/src/image.rs
@@ -481,3 +481,10 @@ pub unsafe fn opj_image_tile_create(
     }
     Box::into_raw(image)
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/image.rs"));
+}
diff --git a/openjp2-rs/src/invert.rs b/openjp2-rs/src/invert.rs
index 84f88bc..dacdeca 100644
--- a/openjp2-rs/src/invert.rs
+++ b/openjp2-rs/src/invert.rs
@@ -260,3 +260,10 @@ fn opj_lupInvert(
         }
     }
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/invert.rs"));
+}
diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 7fcf585..0837a11 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -13169,3 +13169,10 @@ pub(crate) fn opj_j2k_write_tile(
         1i32
     }
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/j2k.rs"));
+}
diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 16319a2..889abcf 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -2069,3 +2069,10 @@ pub(crate) unsafe fn opj_jp2_encoder_set_extra_options(
 ) -> bool {
     opj_j2k_encoder_set_extra_options(&mut p_jp2.j2k, options, p_manager)
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/jp2.rs"));
+}
diff --git a/openjp2-rs/src/lib.rs b/openjp2-rs/src/lib.rs
index a0abde3..bf97d98 100644
--- a/openjp2-rs/src/lib.rs
+++ b/openjp2-rs/src/lib.rs
@@ -54,3 +54,10 @@ mod t1_luts;
 mod t2;
 mod tcd;
 mod tgt;
+
+// Entry point of the external verification harnesses.
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/lib.rs"));
+}
diff --git a/openjp2-rs/src/malloc.rs b/openjp2-rs/src/malloc.rs
index 533cc21..af3f9a8 100644
--- a/openjp2-rs/src/malloc.rs
+++ b/openjp2-rs/src/malloc.rs
@@ -189,3 +189,10 @@ pub(crate) unsafe fn opj_realloc(
 pub(crate) unsafe fn opj_free(mut ptr: *mut core::ffi::c_void) {
     free(ptr);
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/malloc.rs"));
+}
diff --git a/openjp2-rs/src/math.rs b/openjp2-rs/src/math.rs
index b077f2b..32252e9 100644
--- a/openjp2-rs/src/math.rs
+++ b/openjp2-rs/src/math.rs
@@ -125,3 +125,10 @@ pub(crate) fn opj_int_sub_no_overflow(mut a: i32, mut b: i32) -> i32 {
 pub(crate) fn opj_int_add_no_overflow(mut a: i32, mut b: i32) -> i32 {
     a.wrapping_add(b)
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/math.rs"));
+}
diff --git a/openjp2-rs/src/mct.rs b/openjp2-rs/src/mct.rs
index ed38713..761a14e 100644
--- a/openjp2-rs/src/mct.rs
+++ b/openjp2-rs/src/mct.rs
@@ -321,3 +321,10 @@ pub(crate) unsafe fn opj_calculate_norms(
         i += 1;
     }
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/mct.rs"));
+}
diff --git a/openjp2-rs/src/mqc.rs b/openjp2-rs/src/mqc.rs
index 51fcd18..869c936 100644
--- a/openjp2-rs/src/mqc.rs
+++ b/openjp2-rs/src/mqc.rs
@@ -767,3 +767,10 @@ pub(crate) fn opj_mqc_byteout(mut mqc: &mut opj_mqc_t) {
         }
     }
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/mqc.rs"));
+}
diff --git a/openjp2-rs/src/openjpeg.rs b/openjp2-rs/src/openjpeg.rs
index bffa9b8..b26b643 100644
--- a/openjp2-rs/src/openjpeg.rs
+++ b/openjp2-rs/src/openjpeg.rs
@@ -700,3 +700,10 @@ pub fn opj_has_thread_support() -> OPJ_BOOL {
 pub fn opj_get_num_cpus() -> core::ffi::c_int {
     1i32
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/openjpeg.rs"));
+}
diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index fef2c2b..7468e12 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -2839,3 +2839,10 @@ pub(crate) unsafe fn opj_pi_next(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
     }
     0i32
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/pi.rs"));
+}
diff --git a/openjp2-rs/src/sparse_array.rs b/openjp2-rs/src/sparse_array.rs
index 9488bbf..f3aa2f9 100644
--- a/openjp2-rs/src/sparse_array.rs
+++ b/openjp2-rs/src/sparse_array.rs
@@ -534,3 +534,10 @@ pub(crate) unsafe fn opj_sparse_array_int32_write(
         0i32,
     )
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/sparse_array.rs"));
+}
diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index 042b02d..b378403 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -569,3 +569,10 @@ pub(crate) fn opj_stream_has_seek(mut p_stream: *const opj_stream_private_t) ->
     let p_stream = unsafe { &*p_stream };
     p_stream.has_seek() as _
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/stream.rs"));
+}
diff --git a/openjp2-rs/src/t1.rs b/openjp2-rs/src/t1.rs
index 79d3657..da71b45 100644
--- a/openjp2-rs/src/t1.rs
+++ b/openjp2-rs/src/t1.rs
@@ -2921,3 +2921,10 @@ fn opj_t1_encode_cblk(
         cumwmsedec
     }
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/t1.rs"));
+}
diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index 202c528..42fc674 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -1710,3 +1710,10 @@ unsafe fn opj_t2_init_seg(
   }
     1i32
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/t2.rs"));
+}
diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 67d13cf..746b98f 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -3101,3 +3101,10 @@ pub(crate) unsafe fn opj_tcd_marker_info_destroy(
     };
 }
 // -----------------------------------------------------------------------
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/tcd.rs"));
+}
diff --git a/openjp2-rs/src/tgt.rs b/openjp2-rs/src/tgt.rs
index 21579b5..0f934cd 100644
--- a/openjp2-rs/src/tgt.rs
+++ b/openjp2-rs/src/tgt.rs
@@ -390,3 +390,10 @@ pub(crate) unsafe fn opj_tgt_decode(
         0i32
     }) as OPJ_UINT32
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+  use super::*;
+  include!(concat!(env!("LAYA_VERIF_DIR"), "/openjp2/tgt.rs"));
+}
diff --git a/src/http.rs b/src/http.rs
index 70d55f7..5a2d11b 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -185,3 +185,10 @@ mod test {
         );
     }
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/laya/http.rs"));
+}
diff --git a/src/iiif.rs b/src/iiif.rs
index 59ce9c6..16d6759 100644
--- a/src/iiif.rs
+++ b/src/iiif.rs
@@ -163,3 +163,10 @@ impl Format {
         }
     }
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/laya/iiif.rs"));
+}
diff --git a/src/iiif/parse.rs b/src/iiif/parse.rs
index ce16b44..e2609b6 100644
--- a/src/iiif/parse.rs
+++ b/src/iiif/parse.rs
@@ -546,3 +546,10 @@ mod test {
         assert_eq!(result, Err(ParseError::UnrecognisedFormat("TRaFoaMP20230922".into())));
     }
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/laya/parse.rs"));
+}
diff --git a/src/lib.rs b/src/lib.rs
index c2c0ad2..8511df4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -136,6 +136,13 @@ mod hyper_compat {
             }
         }
     }
+
+    #[cfg(laya_verif)]
+    #[allow(unused)]
+    pub mod verif {
+        use super::*;
+        include!(concat!(env!("LAYA_VERIF_DIR"), "/laya/hyper_compat.rs"));
+    }
 }
 
 use std::path::Path;
@@ -176,3 +183,10 @@ pub fn start(path: Box<Path>) {
         .expect("failed to configure IO worker pool")
         .join_all();
 }
+
+// Entry point of the external verification harnesses.
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/laya/lib.rs"));
+}
diff --git a/src/resolve.rs b/src/resolve.rs
index 3bd408a..76b1cbc 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -19,3 +19,10 @@ impl DiskImageSource {
         ImmutableFileBuilder::new(file).build_existing().await
     }
 }
+
+#[cfg(laya_verif)]
+#[allow(unused)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("LAYA_VERIF_DIR"), "/laya/resolve.rs"));
+}
-- 
2.43.0


From 262722c07c84b70c9935cc8b80bd811c8e14a548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:15 +0000
Subject: [PATCH 02/17] fix: reject infinite percentages in IIIF region and
 size parameters

---
 src/iiif/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iiif/parse.rs b/src/iiif/parse.rs
index e2609b6..e2b6d20 100644
--- a/src/iiif/parse.rs
+++ b/src/iiif/parse.rs
@@ -58,7 +58,7 @@ trait SpatialSelector: Copy + Default + FromStr + ToString {
 impl SpatialSelector for f32 {
     fn validate(value: Self, index: usize) -> Result<Self, ParseError> {
         // Image API 3.0, s 4.1: region parameters in percentages ... must be positive
-        if value > 0.0 {
+        if value > 0.0 && value.is_finite() {
             Ok(value)
         } else {
             Err(ParseError::RegionPercentageOutOfBounds { input: value.to_string(), index })
@@ -142,7 +142,7 @@ fn parse_scale_percent(s: &str, upscale: bool) -> Result<Size, ParseError> {
 
     // Image API 3.0, s 4: Size ... parameters in percentages ... must be positive
     // Image API 3.0, s 4.2: n must not be greater than 100 [unless explicitly upscaling].
-    if scale > 0.0 && (scale <= 100.0 || upscale) {
+    if scale > 0.0 && scale.is_finite() && (scale <= 100.0 || upscale) {
         Ok(Size { upscale, scale: Scale::Percentage(scale) })
     } else {
         Err(ParseError::SizePercentageOutOfBounds(s.into()))
-- 
2.43.0


From 0eaee042ff0a0619f8f6976dce2b9e329fdc65bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:23 +0000
Subject: [PATCH 03/17] fix: consume the leading path segment in release builds
 too

The side effect lived inside debug_assert!, so without debug assertions every
segment of an image request was shifted by one and all requests were rejected.
---
 src/http.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 5a2d11b..dcf755b 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -55,7 +55,8 @@ async fn image_request(
 
 fn decode_image_request(path: &str) -> Result<ImageRequest, ImageRequestError> {
     let mut segments = path.split('/');
-    debug_assert!(segments.next().is_some_and(|s| s.is_empty()));
+    let root = segments.next();
+    debug_assert!(root.is_some_and(|s| s.is_empty()));
 
     let identifier = segments
         .next()
-- 
2.43.0


From 710dbac7f36076bb4c83067f48189aee0b6a2b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:23 +0000
Subject: [PATCH 04/17] fix: answer info.json requests with 501 instead of
 panicking

A panic in a connection task takes down the whole executor shard, so any client
could stop the server by asking for an info.json.
---
 src/http.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index dcf755b..77c4ab3 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -138,7 +138,11 @@ impl From<ImageRequestParseError> for ImageRequestError {
 pub enum InfoRequestError {}
 
 fn info_request(path: &str) -> Result<Response<ResponseBody>, Infallible> {
-    unimplemented!()
+    // TODO: image information requests
+    Ok(Response::builder()
+        .status(StatusCode::NOT_IMPLEMENTED)
+        .body(ResponseBody::new("notimplemented"))
+        .unwrap())
 }
 
 fn bad_request<I: Into<Bytes>>(body: I) -> Response<ResponseBody> {
-- 
2.43.0


From bfa0d7118243927de89c582e59f37ec7eff46734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:26 +0000
Subject: [PATCH 05/17] fix: keep image identifiers inside the image directory

The percent-decoded identifier was joined to the image directory as is, so
'%2Fetc%2Fpasswd' or '..%2F..%2Fsecret' opened files outside of it.
---
 src/resolve.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 76b1cbc..b1ac5c4 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -1,7 +1,9 @@
 use std::fmt::Debug;
-use std::path::Path;
+use std::io;
+use std::path::{Component, Path};
 
 use glommio::io::{ImmutableFile, ImmutableFileBuilder};
+use glommio::GlommioError;
 // TODO move to more appropriate module
 
 #[derive(Debug, Clone)]
@@ -15,6 +17,15 @@ impl DiskImageSource {
     }
 
     pub async fn resolve(&self, ident: &str) -> glommio::Result<ImmutableFile, ()> {
+        // The identifier comes from the request URI: it must not name anything outside of the image
+        // directory, neither as an absolute path nor through parent directory components.
+        if !Path::new(ident)
+            .components()
+            .all(|component| matches!(component, Component::Normal(_) | Component::CurDir))
+        {
+            return Err(GlommioError::IoError(io::Error::from(io::ErrorKind::InvalidInput)));
+        }
+
         let file = self.path.join(ident);
         ImmutableFileBuilder::new(file).build_existing().await
     }
-- 
2.43.0


From b9c1d2d0b662a69a945fbfc042e3771a51196c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 06/17] fix: report socket read errors instead of treating them
 as end of stream

---
 src/lib.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8511df4..cafd2c9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -70,12 +70,9 @@ mod hyper_compat {
                     buffer.as_mut_ptr().write_bytes(0, buffer.len());
                     slice::from_raw_parts_mut(buffer.as_mut_ptr() as *mut u8, buffer.len())
                 };
-                Pin::new(&mut self.0).poll_read(cx, read_slice).map(|n| {
-                    if let Ok(n) = n {
-                        buf.advance(n);
-                    }
-                    Ok(())
-                })
+                Pin::new(&mut self.0)
+                    .poll_read(cx, read_slice)
+                    .map_ok(|n| buf.advance(n))
             }
         }
     }
-- 
2.43.0


From 6524698cbe5bd6b8c1690e7346a871fe9b4b7db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 07/17] fix: palette entry capacity no longer overflows u8 with
 16 or more palette columns

---
 openjp2-rs/src/jp2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 889abcf..1bc9380 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -654,7 +654,7 @@ fn opj_jp2_read_pclr(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
     if buf.len() < nr_channels as usize {
         return 0;
     }
-    let mut entries = Vec::with_capacity((nr_channels * nr_channels) as usize);
+    let mut entries = Vec::with_capacity(nr_entries as usize * nr_channels as usize);
     let mut channel = Vec::with_capacity(nr_channels as usize);
     for _ in 0..nr_channels {
         let value = buf.read_u8().expect("Buffer should have enough data");
-- 
2.43.0


From b6f906675b47d5a561fecab045454cf0ca0d34c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 08/17] fix: reject channel definitions that do not define
 channel 0

---
 openjp2-rs/src/jp2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 1bc9380..bd5161d 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -404,7 +404,7 @@ fn opj_jp2_check_color(
         // issue 397
         // ISO 15444-1 states that if cdef is present, it shall contain a complete list of channel
         // definitions.
-        for chan in 1..nr_channels {
+        for chan in 0..nr_channels {
             let has = cdef.info.iter().any(|&x| x.cn as u32 == chan);
             if !has {
                 event_msg!(p_manager, EVT_ERROR, "Incomplete channel definitions.\n",);
-- 
2.43.0


From 4f1e33e3b3a15187dc5655b4475a89c8a7abe55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 09/17] fix: apply palettes into new sample buffers instead of
 the freed old ones

---
 openjp2-rs/src/jp2.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index bd5161d..29dd2fd 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -587,6 +587,16 @@ fn opj_jp2_apply_pclr(
 
         // Palette mapping:
         *new_comp = *old_comp;
+        // The old component keeps its data, the new one gets its own.
+        new_comp.data = std::ptr::null_mut();
+        if !new_comp.alloc_data() {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "Memory allocation failure in opj_jp2_apply_pclr().\n",
+            );
+            return 0;
+        }
         new_comp.prec = channel.size as OPJ_UINT32;
         new_comp.sgnd = channel.sign as OPJ_UINT32;
 
-- 
2.43.0


From 1e1c7c089419bd1db2d47373c80cdaa02fcd1362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 10/17] fix: store the default-range marker of CIELab colour
 boxes without parameters

---
 openjp2-rs/src/jp2.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 29dd2fd..8e0517a 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -908,6 +908,7 @@ fn opj_jp2_read_colr(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
             let mut rb = 0u32;
             let mut ob = 0u32;
             let mut il = 0x443530u32;
+            let mut def = 0x44454600u32;
             let mut icc_profile = Vec::with_capacity(9 * core::mem::size_of::<OPJ_UINT32>());
             icc_profile.write_all(&14u32.to_ne_bytes()).unwrap();
             if buf.len() == 28 {
@@ -932,9 +933,8 @@ fn opj_jp2_read_colr(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
                 il = buf
                     .read_u32::<BigEndian>()
                     .expect("Buffer should have enough data");
-                icc_profile.write_all(&0u32.to_ne_bytes()).unwrap();
+                def = 0;
             } else if !buf.is_empty() {
-                icc_profile.write_all(&0x44454600u32.to_ne_bytes()).unwrap();
                 event_msg!(
                     p_manager,
                     EVT_WARNING,
@@ -942,6 +942,7 @@ fn opj_jp2_read_colr(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
                     total_size,
                 );
             }
+            icc_profile.write_all(&def.to_ne_bytes()).unwrap();
             icc_profile.write_all(&rl.to_ne_bytes()).unwrap();
             icc_profile.write_all(&ol.to_ne_bytes()).unwrap();
             icc_profile.write_all(&ra.to_ne_bytes()).unwrap();
-- 
2.43.0


From 2be318eb1621b2c7a103a7c8ae644facbc9881c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 11/17] fix: cloning an image copies its samples instead of
 sharing the buffers

---
 openjp2-rs/src/image.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openjp2-rs/src/image.rs b/openjp2-rs/src/image.rs
index 1640d8f..aa82e74 100644
--- a/openjp2-rs/src/image.rs
+++ b/openjp2-rs/src/image.rs
@@ -172,6 +172,15 @@ impl Clone for opj_image {
             if let Some(dest) = image.comps_mut() {
                 for (dest, src) in dest.iter_mut().zip(comps) {
                     *dest = *src;
+                    dest.data = std::ptr::null_mut();
+                    if let Some(data) = src.data() {
+                        if !dest.alloc_data() {
+                            break;
+                        }
+                        if let Some(dest) = dest.data_mut() {
+                            dest.copy_from_slice(data);
+                        }
+                    }
                 }
             }
         }
-- 
2.43.0


From 422202c3744a41e4a59c9888350ecda9e90540f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 12/17] fix: copying an ICC profile releases the previous one

---
 openjp2-rs/src/image.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openjp2-rs/src/image.rs b/openjp2-rs/src/image.rs
index aa82e74..e7a802b 100644
--- a/openjp2-rs/src/image.rs
+++ b/openjp2-rs/src/image.rs
@@ -316,6 +316,7 @@ impl opj_image {
             self.clear_icc_profile();
             return true;
         }
+        self.clear_icc_profile();
         if self.alloc_icc_profile(icc_profile.len() as u32) {
             if let Some(dest) = self.icc_profile_mut() {
                 dest.copy_from_slice(icc_profile);
-- 
2.43.0


From ff1b30918e94e8769fa89a02c756d538a7efcf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:41 +0000
Subject: [PATCH 13/17] fix: keep the opacity flag of a channel that a colour
 channel is swapped with

---
 openjp2-rs/src/jp2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 8e0517a..7c27de2 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -782,6 +782,7 @@ fn opj_jp2_apply_cdef(
                 );
             } else {
                 let mut cn_comp = comps[cn as usize];
+                cn_comp.alpha = info.typ;
                 // Swap only if color channel
                 if cn != acn && info.typ == 0 {
                     let acn_comp = &mut comps[acn as usize];
@@ -798,7 +799,6 @@ fn opj_jp2_apply_cdef(
                         // asoc is related to color index. Do not update.
                     }
                 }
-                cn_comp.alpha = info.typ;
                 comps[cn as usize] = cn_comp;
             }
         }
-- 
2.43.0


From c26acd76bb82a4b62d2435e82942c942da083ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:56 +0000
Subject: [PATCH 14/17] fix: a read that reaches the end of the stream returns
 the data it got

---
 openjp2-rs/src/stream.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index b378403..1ebb7fe 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -342,26 +342,24 @@ impl Stream {
     }
 
     pub fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
-        let len = buf.len();
-        match self.m_inner.read_exact(buf) {
-            Ok(_) => {
-                self.m_byte_offset += len as i64;
-                Ok(len)
-            }
-            Err(_err) => {
-                // Maybe EOF, do a partial read.
-                match self.m_inner.read(buf) {
-                    Ok(nb) => {
-                        self.m_byte_offset += nb as i64;
-                        Ok(nb)
-                    }
-                    Err(err) => {
-                        log::trace!("Failed to read from stream: {err}");
-                        Err(err)
+        let mut nb = 0;
+        while nb < buf.len() {
+            match self.m_inner.read(&mut buf[nb..]) {
+                // End of stream, return what was read.
+                Ok(0) => break,
+                Ok(len) => nb += len,
+                Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),
+                Err(err) => {
+                    log::trace!("Failed to read from stream: {err}");
+                    if nb == 0 {
+                        return Err(err);
                     }
+                    break;
                 }
             }
         }
+        self.m_byte_offset += nb as i64;
+        Ok(nb)
     }
 
     pub fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
-- 
2.43.0


From 6e5555ff54b14ce4e0ba9c324328344d52e9ed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:56 +0000
Subject: [PATCH 15/17] fix: support the resolution-position-component-layer
 progression when encoding

---
 openjp2-rs/src/j2k.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 0837a11..8181e02 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -168,6 +168,7 @@ pub(crate) enum ProgressionOrder {
     PCRL,
     RLCP,
     LRCP,
+    RPCL,
 }
 
 impl ProgressionOrder {
@@ -176,6 +177,7 @@ impl ProgressionOrder {
             OPJ_CPRL => Self::CPRL,
             OPJ_PCRL => Self::PCRL,
             OPJ_RLCP => Self::RLCP,
+            OPJ_RPCL => Self::RPCL,
             OPJ_LRCP => Self::LRCP,
             _ => Self::Unknown,
         }
@@ -188,6 +190,7 @@ impl ProgressionOrder {
             Self::PCRL => &[Precinct, Component, Resolution, Layer],
             Self::RLCP => &[Resolution, Layer, Component, Precinct],
             Self::LRCP => &[Layer, Resolution, Component, Precinct],
+            Self::RPCL => &[Resolution, Precinct, Component, Layer],
             Self::Unknown => &[],
         }
     }
@@ -198,6 +201,7 @@ impl ProgressionOrder {
             Self::PCRL => "PCRL",
             Self::RLCP => "RLCP",
             Self::LRCP => "LRCP",
+            Self::RPCL => "RPCL",
             Self::Unknown => "",
         }
     }
-- 
2.43.0


From 8936c02c9736af16d3461dc900021a2eb2c80f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:56 +0000
Subject: [PATCH 16/17] fix: compute precinct sizes of position progressions in
 64 bits

---
 openjp2-rs/src/pi.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index 7468e12..60268d3 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -803,8 +803,8 @@ unsafe fn opj_pi_next_pcrl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                         as *mut opj_pi_resolution_t;
                     levelno = (*comp).numresolutions - 1 - (*pi).resno;
 
-                    if (((*comp).dx << levelno as u64) >> levelno) as u32 != (*comp).dx
-                        || (((*comp).dy << levelno as u64) >> levelno) as u32 != (*comp).dy
+                    if ((((*comp).dx as u64) << levelno) >> levelno) as u32 != (*comp).dx
+                        || ((((*comp).dy as u64) << levelno) >> levelno) as u32 != (*comp).dy
                     {
                         current_block = 15512526488502093901;
                         continue;
@@ -829,8 +829,8 @@ unsafe fn opj_pi_next_pcrl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     rpx = (*res).pdx.wrapping_add(levelno);
                     rpy = (*res).pdy.wrapping_add(levelno);
 
-                    if (((*comp).dx << rpx) as u64 >> rpx) as u32 != (*comp).dx
-                        || (((*comp).dy << rpy) as u64 >> rpy) as u32 != (*comp).dy
+                    if ((((*comp).dx as u64) << rpx) >> rpx) as u32 != (*comp).dx
+                        || ((((*comp).dy as u64) << rpy) >> rpy) as u32 != (*comp).dy
                     {
                         current_block = 15512526488502093901;
                         continue;
@@ -1082,8 +1082,8 @@ unsafe fn opj_pi_next_cprl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                         as *mut opj_pi_resolution_t;
                     levelno = (*comp).numresolutions - 1 - (*pi).resno;
 
-                    if (((*comp).dx << levelno as u64) >> levelno) as u32 != (*comp).dx
-                        || (((*comp).dy << levelno as u64) >> levelno) as u32 != (*comp).dy
+                    if ((((*comp).dx as u64) << levelno) >> levelno) as u32 != (*comp).dx
+                        || ((((*comp).dy as u64) << levelno) >> levelno) as u32 != (*comp).dy
                     {
                         current_block = 3123434771885419771;
                         continue;
@@ -1108,8 +1108,8 @@ unsafe fn opj_pi_next_cprl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     rpx = (*res).pdx.wrapping_add(levelno);
                     rpy = (*res).pdy.wrapping_add(levelno);
 
-                    if (((*comp).dx << rpx) as u64 >> rpx) as u32 != (*comp).dx
-                        || (((*comp).dy << rpy) as u64 >> rpy) as u32 != (*comp).dy
+                    if ((((*comp).dx as u64) << rpx) >> rpx) as u32 != (*comp).dx
+                        || ((((*comp).dy as u64) << rpy) >> rpy) as u32 != (*comp).dy
                     {
                         current_block = 3123434771885419771;
                         continue;
-- 
2.43.0


From 732767d935db9991139dac21d9ba19d252b9e87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:39 +0000
Subject: [PATCH 17/17] fix: drop the destination's colour profile when copying
 an image header without one

---
 openjp2-rs/src/image.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/image.rs b/openjp2-rs/src/image.rs
index e7a802b..ce9cfc8 100644
--- a/openjp2-rs/src/image.rs
+++ b/openjp2-rs/src/image.rs
@@ -457,8 +457,9 @@ pub(crate) fn opj_copy_image_header(
         }
     }
     p_image_dest.color_space = p_image_src.color_space;
-    if let Some(icc_profile) = p_image_src.icc_profile() {
-        if !p_image_dest.copy_icc_profile(icc_profile) {}
+    match p_image_src.icc_profile() {
+        Some(icc_profile) => if !p_image_dest.copy_icc_profile(icc_profile) {},
+        None => p_image_dest.clear_icc_profile(),
     }
 }
 
-- 
2.43.0

