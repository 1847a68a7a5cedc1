From c20a774fd271d0f0b25ebeba828a792bf8645b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:46 +0000
Subject: [PATCH 1/4] verif: guarded (cfg simd_verif) override of CPU feature
 detection

---
 crates/vsimd/src/isa.rs | 41 +++++++++++++++++++++++++++++++++++++++++
 crates/vsimd/src/lib.rs |  1 +
 2 files changed, 42 insertions(+)

diff --git a/crates/vsimd/src/isa.rs b/crates/vsimd/src/isa.rs
index 95dba94..26174ff 100644
--- a/crates/vsimd/src/isa.rs
+++ b/crates/vsimd/src/isa.rs
@@ -92,9 +92,50 @@ unsafe impl InstructionSet for Fallback {
     }
 }
 
+/// Verification hook, compiled only with `--cfg simd_verif`:
+/// hides CPU features above a chosen level from feature detection.
+#[cfg(simd_verif)]
+pub mod verif {
+    use core::sync::atomic::{AtomicU8, Ordering::Relaxed};
+
+    static MAX_LEVEL: AtomicU8 = AtomicU8::new(u8::MAX);
+
+    /// Sets the highest visible level: 0 (none), 1 (sse2), 2 (ssse3), 3 (sse4.1), 4 (avx2).
+    #[inline]
+    pub fn set_max_level(level: u8) {
+        MAX_LEVEL.store(level, Relaxed);
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn is_visible(feature: &str) -> bool {
+        let level = match feature {
+            "sse2" => 1,
+            "ssse3" => 2,
+            "sse4.1" => 3,
+            "avx2" => 4,
+            _ => 0,
+        };
+        level <= MAX_LEVEL.load(Relaxed)
+    }
+}
+
 #[allow(unused_macros)]
 macro_rules! is_feature_detected {
     ($feature:tt) => {{
+        let visible = {
+            #[cfg(simd_verif)]
+            {
+                $crate::isa::verif::is_visible($feature)
+            }
+            #[cfg(not(simd_verif))]
+            {
+                true
+            }
+        };
+        visible && is_feature_detected!(@detect $feature)
+    }};
+    (@detect $feature:tt) => {{
         #[cfg(target_feature = $feature)]
         {
             true
diff --git a/crates/vsimd/src/lib.rs b/crates/vsimd/src/lib.rs
index 09b12ec..ba02db5 100644
--- a/crates/vsimd/src/lib.rs
+++ b/crates/vsimd/src/lib.rs
@@ -19,6 +19,7 @@
     clippy::missing_inline_in_public_items
 )]
 #![warn(clippy::todo)]
+#![allow(unknown_lints, unexpected_cfgs)] // cfg(simd_verif)
 #![allow(
     clippy::inline_always,
     missing_docs,
-- 
2.43.0


From c78392e7acfc3376e1c960e08811f9c62d7d935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 2/4] fix: byte swap operations panicked on SSSE3 and SSE4.1
 machines

unicode-simd dispatches utf16/utf32_swap_endianness to its SSSE3 build on any
x86 CPU without AVX2, but u16x8_bswap, u32x4_bswap and u64x2_bswap demanded
SSE4.1 and hit unreachable!() for 8 or more elements. The shuffle they use only
needs SSSE3.
---
 crates/vsimd/src/simd128.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/crates/vsimd/src/simd128.rs b/crates/vsimd/src/simd128.rs
index 867eca3..4fb20b9 100644
--- a/crates/vsimd/src/simd128.rs
+++ b/crates/vsimd/src/simd128.rs
@@ -1,13 +1,10 @@
 #![allow(clippy::missing_transmute_annotations)]
 
-use crate::isa::{NEON, SSE2, SSE41, WASM128};
+use crate::isa::{NEON, SSE2, SSE41, SSSE3, WASM128};
 use crate::unified;
 use crate::vector::V128;
 use crate::SIMD64;
 
-#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
-use crate::isa::SSSE3;
-
 #[cfg(any(
     any(target_arch = "x86", target_arch = "x86_64"),
     any(all(feature = "unstable", target_arch = "arm"), target_arch = "aarch64"),
@@ -643,10 +640,10 @@ pub unsafe trait SIMD128: SIMD64 {
         }
     }
 
-    /// T1: SSE41, NEON, WASM128
+    /// T1: SSSE3, NEON, WASM128
     #[inline(always)]
     fn u16x8_bswap(self, a: V128) -> V128 {
-        if matches_isa!(Self, SSE41 | WASM128) {
+        if matches_isa!(Self, SSSE3 | WASM128) {
             return self.u8x16_swizzle(a, crate::bswap::SHUFFLE_U16X8);
         }
 
@@ -661,10 +658,10 @@ pub unsafe trait SIMD128: SIMD64 {
         }
     }
 
-    /// T1: SSE41, NEON, WASM128
+    /// T1: SSSE3, NEON, WASM128
     #[inline(always)]
     fn u32x4_bswap(self, a: V128) -> V128 {
-        if matches_isa!(Self, SSE41 | WASM128) {
+        if matches_isa!(Self, SSSE3 | WASM128) {
             return self.u8x16_swizzle(a, crate::bswap::SHUFFLE_U32X4);
         }
 
@@ -679,10 +676,10 @@ pub unsafe trait SIMD128: SIMD64 {
         }
     }
 
-    /// T1: SSE41, NEON, WASM128
+    /// T1: SSSE3, NEON, WASM128
     #[inline(always)]
     fn u64x2_bswap(self, a: V128) -> V128 {
-        if matches_isa!(Self, SSE41 | WASM128) {
+        if matches_isa!(Self, SSSE3 | WASM128) {
             return self.u8x16_swizzle(a, crate::bswap::SHUFFLE_U64X2);
         }
 
-- 
2.43.0


From 6aca9b80b135a42b5e19e128770486f7099e16a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 3/4] fix: par_encode panicked instead of returning Err for a
 short destination

---
 crates/base64-simd/src/parallel.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/base64-simd/src/parallel.rs b/crates/base64-simd/src/parallel.rs
index 285860e..08c6c9a 100644
--- a/crates/base64-simd/src/parallel.rs
+++ b/crates/base64-simd/src/parallel.rs
@@ -21,8 +21,10 @@ impl Base64 {
         }
 
         let encoded_len = encoded_length_unchecked(src.len(), self.config);
+        ensure!(dst.len() >= encoded_len);
+
         let dst = unsafe { dst.into_uninit_slice() };
-        let dst = &mut dst[..encoded_len]; // panic?
+        let dst = &mut dst[..encoded_len];
 
         let chunks = (b + p) / p;
 
-- 
2.43.0


From 395586892daedf7b9c3554dff366af4d7fdd559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:16 +0000
Subject: [PATCH 4/4] verif: guarded (cfg simd_verif, miri) replacement of
 inline assembly in the interpreter

---
 crates/vsimd/src/alsw.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/vsimd/src/alsw.rs b/crates/vsimd/src/alsw.rs
index ead72bf..532043a 100644
--- a/crates/vsimd/src/alsw.rs
+++ b/crates/vsimd/src/alsw.rs
@@ -106,6 +106,12 @@ fn u8xn_avgr<S: Scalable<V>, V: POD>(s: S, a: V, b: V) -> V {
         #[cfg(target_arch = "x86_64")]
         use core::arch::x86_64::*;
 
+        // the interpreter has no inline assembly
+        #[cfg(all(simd_verif, miri))]
+        if matches_isa!(S, AVX2) && is_pod_type!(V, V256) {
+            return s.u8xn_avgr(a, b);
+        }
+
         if matches_isa!(S, AVX2) && is_pod_type!(V, V256) {
             return unsafe { tc(&vpavgb(tc(&a), tc(&b))) };
         }
-- 
2.43.0

