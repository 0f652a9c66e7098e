From be025f51610ebad863e5fb55a730467fccc46738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 1/4] fix: refuse compile-time block sizes that do not fit
 usize

A 20 digit value between 2^64 and 10^20 - 1 was silently taken modulo 2^64.
---
 src/constparse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/constparse.rs b/src/constparse.rs
index f6de70a..c90655d 100644
--- a/src/constparse.rs
+++ b/src/constparse.rs
@@ -12,6 +12,7 @@
 #[derive(Clone, Copy)]
 pub(crate) enum ParseIntError {
     InvalidDigit,
+    Overflow,
 }
 
 const fn parse_byte(b: u8, pow10: usize) -> Result<usize, ParseIntError> {
@@ -78,7 +79,11 @@ pub(crate) const fn parse(b: &str) -> Result<usize, ParseIntError> {
             Ok(d) => d,
         };
 
-        result = result.wrapping_add(r);
+        let (sum, overflow) = result.overflowing_add(r);
+        if overflow {
+            return Err(ParseIntError::Overflow);
+        }
+        result = sum;
 
         index += 1;
         index_const_table += 1;
-- 
2.43.0


From 98f12e754f4b2f8e3768bba97f329a587d3d9cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 2/4] fix: don't panic if the note about MATMUL_NUM_THREADS
 can't be written

With an unparsable value and a stderr that is full or whose reader is gone, the
first call panicked and poisoned the thread pool for all later ones.
---
 src/threading.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/threading.rs b/src/threading.rs
index 128c89c..a9dff91 100644
--- a/src/threading.rs
+++ b/src/threading.rs
@@ -4,6 +4,8 @@
 #[cfg(feature="threading")]
 use std::cmp::min;
 #[cfg(feature="threading")]
+use std::io::Write;
+#[cfg(feature="threading")]
 use std::str::FromStr;
 #[cfg(feature="threading")]
 use once_cell::sync::Lazy;
@@ -64,7 +66,8 @@ static REGISTRY: Lazy<Registry> = Lazy::new(|| {
             if let Ok(nt) = usize::from_str(&s) {
                 nt
             } else {
-                eprintln!("Failed to parse MATMUL_NUM_THREADS");
+                // A plain eprintln would panic if stderr can't be written to
+                let _ = writeln!(std::io::stderr(), "Failed to parse MATMUL_NUM_THREADS");
                 1
             }
         }
-- 
2.43.0


From 71bc3b056aa7946ce790f5d84c267047ba961374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 3/4] fix: don't overflow on unused strides when packing
 complex matrices

The stride of a dimension of length one can be any value, but doubling it
panicked with overflow checks.
---
 src/cgemm_common.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/cgemm_common.rs b/src/cgemm_common.rs
index 59d37d5..b21ad73 100644
--- a/src/cgemm_common.rs
+++ b/src/cgemm_common.rs
@@ -150,6 +150,10 @@ pub(crate) unsafe fn pack_complex<MR, T, TReal>(kc: usize, mc: usize, pack: &mut
 
     assert_eq!(mem::size_of::<T>(), 2 * mem::size_of::<TReal>());
 
+    // Strides in units of TReal. Wrapping, because the stride of a dimension of
+    // length one is never used and can be any value.
+    let (rsa, csa) = (rsa.wrapping_mul(2), csa.wrapping_mul(2));
+
     let mr = MR::VALUE;
     let mut p = 0; // offset into pack
 
@@ -159,15 +163,15 @@ pub(crate) unsafe fn pack_complex<MR, T, TReal>(kc: usize, mc: usize, pack: &mut
         for j in 0..kc {
             // real row
             for i in 0..mr {
-                let a_elt = areal.stride_offset(2 * rsa, i + row_offset)
-                                 .stride_offset(2 * csa, j);
+                let a_elt = areal.stride_offset(rsa, i + row_offset)
+                                 .stride_offset(csa, j);
                 copy_nonoverlapping(a_elt, pack.add(p), 1);
                 p += 1;
             }
             // imag row
             for i in 0..mr {
-                let a_elt = aimag.stride_offset(2 * rsa, i + row_offset)
-                                 .stride_offset(2 * csa, j);
+                let a_elt = aimag.stride_offset(rsa, i + row_offset)
+                                 .stride_offset(csa, j);
                 copy_nonoverlapping(a_elt, pack.add(p), 1);
                 p += 1;
             }
@@ -184,8 +188,8 @@ pub(crate) unsafe fn pack_complex<MR, T, TReal>(kc: usize, mc: usize, pack: &mut
             // real row
             for i in 0..mr {
                 if i < rest {
-                    let a_elt = areal.stride_offset(2 * rsa, i + row_offset)
-                                     .stride_offset(2 * csa, j);
+                    let a_elt = areal.stride_offset(rsa, i + row_offset)
+                                     .stride_offset(csa, j);
                     copy_nonoverlapping(a_elt, pack.add(p), 1);
                 } else {
                     *pack.add(p) = zero;
@@ -195,8 +199,8 @@ pub(crate) unsafe fn pack_complex<MR, T, TReal>(kc: usize, mc: usize, pack: &mut
             // imag row
             for i in 0..mr {
                 if i < rest {
-                    let a_elt = aimag.stride_offset(2 * rsa, i + row_offset)
-                                     .stride_offset(2 * csa, j);
+                    let a_elt = aimag.stride_offset(rsa, i + row_offset)
+                                     .stride_offset(csa, j);
                     copy_nonoverlapping(a_elt, pack.add(p), 1);
                 } else {
                     *pack.add(p) = zero;
-- 
2.43.0


From 60926ff8ef05c23f5f7b5d7fd042f186074cfbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 4/4] fix: don't loop over the rows of a matrix without columns

Unless the compiler removed the empty loops, as in builds without optimization,
a call with n = 0 took time proportional to m, which can be any number.
---
 src/gemm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gemm.rs b/src/gemm.rs
index f7605d5..67a0f8b 100644
--- a/src/gemm.rs
+++ b/src/gemm.rs
@@ -536,6 +536,11 @@ unsafe fn c_to_beta_c<T>(m: usize, n: usize, beta: T,
                          c: *mut T, rsc: isize, csc: isize)
     where T: Element
 {
+    if n == 0 {
+        // no elements; m can be any number
+        return;
+    }
+
     for i in 0..m {
         for j in 0..n {
             let cptr = c.stride_offset(rsc, i)
-- 
2.43.0

