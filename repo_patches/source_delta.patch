From bf1f57844a0102f3340cbc229f6a746099783238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 01/22] fix: sub_matrix accepts every block inside the matrix
 and no other

---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 29a28fe..d76cef1 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -414,7 +414,7 @@ impl<T : Copy> Matrix<T> {
   pub fn sub_matrix(&self, start_row : usize, start_col : usize, end_row : usize, end_col : usize) -> Matrix<T> {
     assert!(start_row < end_row);
     assert!(start_col < end_col);
-    assert!((end_row - start_row) < self.no_rows && (end_col - start_col) < self.cols() && start_row != end_row && start_col != end_col);
+    assert!(end_row <= self.no_rows && end_col <= self.cols());
     let rows = end_row - start_row;
     let cols = end_col - start_col;
     let elems = rows * cols;
-- 
2.43.0


From b79abb193396518d40bafd0f58ad823b597e0e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 02/22] fix: vector_p_norm takes absolute values before the
 power

---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index d76cef1..1a1c142 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -821,7 +821,7 @@ impl<T : Float + ApproxEq<T> + Signed + Copy> Matrix<T> {
 
     let mut s : T = num::zero();
     for i in 0..self.data.len() {
-      s = s + num::abs(self.data[i].powf(p.clone()));
+      s = s + num::abs(self.data[i].clone()).powf(p.clone());
     }
 
     s.powf(num::one::<T>() / p)
-- 
2.43.0


From 09ce3626abed55f573afb28235778561cf86e9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 03/22] fix: pinverse of a wide matrix

---
 src/matrix.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index 1a1c142..5ac1c09 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -775,6 +775,11 @@ impl<T : Float + ApproxEq<T> + Signed + Copy> Matrix<T> {
   }
 
   pub fn pinverse(&self) -> Matrix<T> {
+    // A wide matrix does not have an invertible A' A, but its transpose may: A+ = ((A')+)'.
+    if self.no_rows < self.cols() {
+      return self.t().pinverse().t();
+    }
+
     // A+ = (A' A)^-1 A'
     //    = ((QR)' QR)^-1 A'
     //    = (R'Q'QR)^-1 A'
-- 
2.43.0


From 14fce692129f943130849f2dd13889cb65e85eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 04/22] fix: m! rejects rows of different lengths

---
 src/macros.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index cb4928e..758db79 100755
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -15,9 +15,12 @@ macro_rules! m_one {
 /// Helper macro for m!
 #[macro_export]
 macro_rules! m_rec(
-  ( [ $($row:tt),* ] [$($i:expr),*]) => ({
-     let _rows = 0 $(+ m_one!($row) )*;
+  ( [ $([$($cell:expr),*]),* ] [$($i:expr),*]) => ({
+     let _row_lengths = [$(0 $(+ m_one!($cell))*),*];
+     let _rows = _row_lengths.len();
      let _cols = (0 $(+ m_one!($i))*) / _rows;
+     // All rows must have the same length.
+     assert!(_row_lengths.iter().all(|len| *len == _cols));
      Matrix::new(
        _rows,
        _cols,
-- 
2.43.0


From 50b6dc9c5a626bfaa4586ed728a6d592d2e928c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 05/22] fix: LU solve of a tall system returns one row per
 unknown

---
 src/decomp/lu.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decomp/lu.rs b/src/decomp/lu.rs
index c08bb21..0d166f3 100755
--- a/src/decomp/lu.rs
+++ b/src/decomp/lu.rs
@@ -274,7 +274,9 @@ impl<T : Float + ApproxEq<T> + Signed> LUDecomposition<T> {
       }
     }
 
-    Some(Matrix::new(self.lu.rows(), b.cols(), xdata))
+    // X has one row per column of A.
+    xdata.truncate(n * nx);
+    Some(Matrix::new(n, nx, xdata))
   }
 }
 
-- 
2.43.0


From 8eb6f90adb4d22add4a62b346a96f403dd100cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 06/22] fix: QR solve applies the reflections with their actual
 scaling and returns one row per unknown

---
 src/decomp/qr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index 0f23479..c117abe 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -215,7 +215,7 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
         for i in k..m {
           s = s + self.qr.get_data()[i * self.qr.cols() + k].clone() * xdata[i * nx + j].clone();
         }
-        s = - s / self.qr.get_data()[k * self.qr.cols() + k].clone();
+        s = s / (self.rdiag[k].clone() * self.qr.get_data()[k * self.qr.cols() + k].clone());
         for i in k..m {
           xdata[i * nx + j] = xdata[i * nx + j].clone() + s * self.qr.get_data()[i * self.qr.cols() + k].clone();
         }
@@ -234,7 +234,9 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
       }
     }
 
-    Some(Matrix::new(self.qr.cols(), b.cols(), xdata))
+    // X has one row per column of A.
+    xdata.truncate(n * nx);
+    Some(Matrix::new(n, nx, xdata))
   }
 }
 
-- 
2.43.0


From 8c7710b4622d03f2053f4c8ed36ba64e4ef6bfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 07/22] fix: get_q returns an orthogonal matrix for tall
 matrices

---
 src/decomp/qr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index c117abe..3a6caf3 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -154,7 +154,7 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
     let mut qdata : Vec<T> = vec![num::zero(); m * m];
 
     // Set the diagonal elements to 1
-    for minor in 0..cmp::min(m, n) {
+    for minor in 0..m {
       qdata[minor * m + minor] = num::one();
     }
 
-- 
2.43.0


From f9ec914226ae63434813b437fb6aa8f43dbef5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 08/22] fix: is_full_rank of a wide matrix is false instead of
 a panic

---
 src/decomp/qr.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index 3a6caf3..d507a5f 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -106,6 +106,10 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
   }
 
   pub fn is_full_rank(&self) -> bool {
+    // More columns than rows: the columns cannot be linearly independent.
+    if self.qr.cols() > self.qr.rows() {
+      return false;
+    }
     for j in 0..self.qr.cols() {
       if self.rdiag[j].clone() == num::zero() {
         return false;
-- 
2.43.0


From f15851e494dad16aaca8a586361b24852e31a9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 09/22] fix: SVD rank of a tall matrix

---
 src/decomp/svd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index 17c7fb7..feb1e3e 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -441,7 +441,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
     let max_dim : T = num::cast(cmp::max(self.u.rows(), self.v.rows())).unwrap();
     let tol = max_dim * self.s.get(0, 0) * eps;
     let mut r = 0;
-    for i in 0..self.s.rows() {
+    for i in 0..cmp::min(self.s.rows(), self.s.cols()) {
       if self.s.get(i, i) > tol {
         r += 1;
       }
-- 
2.43.0


From b4fa6ff17436438a85cb45251e8361bd76da00f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 10/22] fix: SVD and eigenvalue tolerances follow the element
 type

---
 src/decomp/eigen.rs | 4 ++--
 src/decomp/svd.rs   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 5859170..5830d93 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -148,7 +148,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
 
     let mut f : T = num::zero();
     let mut tst1 : T = num::zero();
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = T::epsilon();
     for l in 0..n {
       // Find small subdiagonal element
       tst1 = tst1.max(num::abs(ddata[l].clone()) + num::abs(edata[l].clone()));
@@ -353,7 +353,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
     let mut n = nn - 1;
     let low : isize = 0;
     let high = nn - 1;
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = T::epsilon();
     let mut exshift = num::zero();
     let mut p = num::zero();
     let mut q = num::zero();
diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index feb1e3e..05e92a9 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -223,8 +223,8 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
 
     // Main iteration loop for the singular values.
     let pp = p - 1;
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
-    let tiny : T = num::cast(2.0f64.powf(-966.0)).unwrap();
+    let eps : T = T::epsilon();
+    let tiny : T = T::min_positive_value() / eps * num::cast(16.0).unwrap();
     while p > 0 {
       // Here is where a test for too many iterations would go.
 
@@ -437,7 +437,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
   }
 
   pub fn rank(&self) -> usize {
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = T::epsilon();
     let max_dim : T = num::cast(cmp::max(self.u.rows(), self.v.rows())).unwrap();
     let tol = max_dim * self.s.get(0, 0) * eps;
     let mut r = 0;
-- 
2.43.0


From 6cd2d4f30d87feeedac2511af45ea9ef66bbccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 11/22] fix: EigenDecomposition rejects every non-square matrix

---
 src/decomp/eigen.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 5830d93..c6d38af 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -753,6 +753,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
   }
 
   pub fn new(a : &Matrix<T>) -> EigenDecomposition<T> {
+    assert!(a.rows() == a.cols());
     let n = a.cols();
 
     let mut vdata = alloc_dirty_vec(n * n);
-- 
2.43.0


From 53c74f66c420dfece9e823698776c5746854ff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 12/22] fix: nonsymmetric eigenvalue iteration on
 rank-deficient matrices

---
 src/decomp/eigen.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index c6d38af..9fc06ef 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -255,13 +255,22 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
     let low = 0;
     let high = n - 1;
 
+    // A column that is negligible compared to the matrix is as good as zero: normalizing it would only
+    // amplify rounding noise (or fail, if the noise has underflown).
+    let eps : T = T::epsilon();
+    let negligible = eps * eps * hdata.iter().fold(num::zero(), |acc : T, x| acc.max(num::abs(x.clone())));
+
     for m in (low + 1)..high {
       // Scale column.
       let mut scale : T = num::zero();
       for i in m..(high + 1) {
         scale = scale + num::abs(hdata[i * n + (m - 1)].clone());
       }
-      if scale != num::zero() {
+      if scale <= negligible {
+        for i in m..(high + 1) {
+          hdata[i * n + (m - 1)] = num::zero();
+        }
+      } else {
         // Compute Householder transformation.
         let mut h : T = num::zero();
         for i in (m..(high + 1)).rev() {
@@ -388,7 +397,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
         if s == num::zero() {
           s = norm.clone();
         }
-        if num::abs(hdata[(l * nn + (l - 1)) as usize].clone()) < (eps * s) {
+        if num::abs(hdata[(l * nn + (l - 1)) as usize].clone()) < eps * s.max(eps * norm) {
           break;
         }
         l -= 1;
-- 
2.43.0


From 5d4899ddbe0462199a43d53822f26edd2e8057fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 13/22] fix: SVD reflections on rank-deficient matrices

---
 src/decomp/svd.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index 05e92a9..bfc4a12 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -60,6 +60,13 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
     let mut edata = alloc_dirty_vec(n);
     let mut workdata : Vec<T> = alloc_dirty_vec(m);
 
+    // Columns and rows that are negligible compared to the matrix are not worth a reflection: normalizing
+    // them would only amplify rounding noise (or fail, if the noise has underflown).
+    let eps : T = T::epsilon();
+    let tiny : T = T::min_positive_value() / eps * num::cast(16.0).unwrap();
+    let max_elem = adata.iter().fold(num::zero(), |acc : T, x| acc.max(num::abs(x.clone())));
+    let negligible = tiny.min(eps * eps * max_elem);
+
     // Reduce A to bidiagonal form, storing the diagonal elements
     // in s and the super-diagonal elements in e.
     let nct = cmp::min(m - 1, n);
@@ -73,6 +80,9 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
         for i in k..m {
           sdata[k] = hypot(sdata[k].clone(), adata[i * n + k].clone());
         }
+        if sdata[k].clone() <= negligible {
+          sdata[k] = num::zero();
+        }
         if sdata[k].clone() != num::zero() {
           if adata[k * n + k].clone() < num::zero() {
             sdata[k] = - sdata[k].clone();
@@ -115,6 +125,9 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
         for i in (k + 1)..n {
           edata[k] = hypot(edata[k].clone(), edata[i].clone());
         }
+        if edata[k].clone() <= negligible {
+          edata[k] = num::zero();
+        }
         if edata[k].clone() != num::zero() {
           if edata[k + 1].clone() < num::zero() {
             edata[k] = - edata[k].clone();
@@ -223,8 +236,6 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
 
     // Main iteration loop for the singular values.
     let pp = p - 1;
-    let eps : T = T::epsilon();
-    let tiny : T = T::min_positive_value() / eps * num::cast(16.0).unwrap();
     while p > 0 {
       // Here is where a test for too many iterations would go.
 
-- 
2.43.0


From 43aa198e2e4a8733a95a281d04419674194d97df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 14/22] fix: QR reflections of very short columns

---
 src/decomp/qr.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index d507a5f..9a2da10 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -46,16 +46,24 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
   fn perform_householder_reflection(minor : usize, qrdata : &mut Vec<T>, m : usize, n : usize, rdiag : &mut Vec<T>) {
     // Calculate the length of the minor:th minor column vector. As we are dealing with a sub matrix from the diagonal down and right,
     // the column vector corresponds to the row range minor .. (m - 1).
-    let mut x_norm_sqr : T = num::zero();
+    // (Squaring the elements could underflow, so avoid it.)
+    let mut x_norm : T = num::zero();
     for i in minor..m {
-      let c = qrdata[i * n + minor].clone();
-      x_norm_sqr = x_norm_sqr + c * c;
+      x_norm = x_norm.hypot(qrdata[i * n + minor].clone());
+    }
+
+    // A vector this short cannot be normalized with full precision: treat it as zero.
+    if x_norm < T::min_positive_value() / T::epsilon() {
+      x_norm = num::zero();
+      for i in minor..m {
+        qrdata[i * n + minor] = num::zero();
+      }
     }
 
     // We know the size of the reflected coordinate (the lenght of the column vector), but not the sign yet.
     // Reflection will flip the sign of the corresponding coordinate element, so sign of the reflected
     // coordinate will be the opposite of the current coordinate element.
-    let a = if qrdata[minor * n + minor].clone() > num::zero() { - x_norm_sqr.sqrt() } else { x_norm_sqr.sqrt() };
+    let a = if qrdata[minor * n + minor].clone() > num::zero() { - x_norm } else { x_norm };
     rdiag[minor] = a.clone();
 
     // If the length of the column vector is zero, the column is already zero and there's nothing to do.
@@ -95,7 +103,7 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
         for row in minor..m {
           x_dot_u = x_dot_u + qrdata[row * n + minor].clone() * qrdata[row * n + column].clone();
         }
-        let factor = x_dot_u / (a * qrdata[minor * n + minor].clone());
+        let factor = x_dot_u / a / qrdata[minor * n + minor].clone();
 
         // Hx = x + factor * u
         for row in minor..m {
@@ -185,7 +193,7 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
           for row in minor..m {
             x_dot_u = x_dot_u + self.qr.get_data()[row * n + minor].clone() * qdata[row * m + column].clone();
           }
-          let factor = x_dot_u / (self.rdiag[minor].clone() * self.qr.get_data()[minor * n + minor].clone());
+          let factor = x_dot_u / self.rdiag[minor].clone() / self.qr.get_data()[minor * n + minor].clone();
 
           for row in minor..m {
             qdata[row * m + column] = qdata[row * m + column].clone() + factor * self.qr.get_data()[row * n + minor].clone();
@@ -219,7 +227,7 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
         for i in k..m {
           s = s + self.qr.get_data()[i * self.qr.cols() + k].clone() * xdata[i * nx + j].clone();
         }
-        s = s / (self.rdiag[k].clone() * self.qr.get_data()[k * self.qr.cols() + k].clone());
+        s = s / self.rdiag[k].clone() / self.qr.get_data()[k * self.qr.cols() + k].clone();
         for i in k..m {
           xdata[i * nx + j] = xdata[i * nx + j].clone() + s * self.qr.get_data()[i * self.qr.cols() + k].clone();
         }
-- 
2.43.0


From edad01bb28765385c250151e1fa69bd956944abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:35 +0000
Subject: [PATCH 15/22] fix: symmetric eigenvectors of large low-rank matrices
 stay orthogonal

---
 src/decomp/eigen.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 9fc06ef..3595fc0 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -147,8 +147,10 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
     edata[n - 1] = num::zero();
 
     let mut f : T = num::zero();
-    let mut tst1 : T = num::zero();
     let eps : T = T::epsilon();
+    // A subdiagonal element that is negligible compared to the whole matrix is as good as zero: rotations
+    // computed from elements that have underflowed would not be orthogonal.
+    let mut tst1 : T = eps * ddata.iter().chain(edata.iter()).fold(num::zero(), |acc : T, x| acc.max(num::abs(x.clone())));
     for l in 0..n {
       // Find small subdiagonal element
       tst1 = tst1.max(num::abs(ddata[l].clone()) + num::abs(edata[l].clone()));
-- 
2.43.0


From cbb235ac5f28991ce66f3f868c7c0b6dbad34455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:36 +0000
Subject: [PATCH 16/22] fix: eigen shift after 30 iterations scales with the
 matrix

---
 src/decomp/eigen.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 3595fc0..3d36e06 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -510,9 +510,12 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
               hdata[(i * nn + i) as usize] = hdata[(i * nn + i) as usize].clone() - s;
             }
             exshift = exshift + s;
-            w = num::cast(0.964).unwrap();
-            y = w.clone();
+            // The shift is relative to the size of the active block
+            let tmp : T = num::cast(0.964).unwrap();
+            s = num::abs(hdata[(n * nn + (n - 1)) as usize].clone()) + num::abs(hdata[((n - 1) * nn + (n - 2)) as usize].clone());
+            y = tmp * s;
             x = y.clone();
+            w = tmp * s * s;
           }
         }
 
-- 
2.43.0


From 110a568d272839a57a5716b29d17b95047fab217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:08 +0000
Subject: [PATCH 17/22] fix: QR reflections neither overflow nor underflow

---
 src/decomp/qr.rs | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index 9a2da10..987b122 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -87,6 +87,9 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
       // |u|^2 = 2a(a - (qrdata[k * n + k] + a))
       //       = 2a(- qrdata[k * n + k])
       //       = -2a*qrdata[k * n + k]
+      //
+      // (The products could overflow or underflow, so use u/a, whose elements are at most 2.)
+      let u : Vec<T> = (minor..m).map(|row| qrdata[row * n + minor].clone() / a).collect();
 
       // Transform the rest of the columns of the minor:
       // The reflection matrix is:
@@ -96,18 +99,19 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
       //      = x - 2<x,u>/|u|^2 u
       //      = x - 2<x,u>/(-2a*qrdata[k * n + k]) u
       //      = x + <x,u>/(a*qrdata[k * n + k]) u
-      //      = x + factor * u
+      //      = x + <x,u/a>/(qrdata[k * n + k]/a) (u/a)
+      //      = x + factor * (u/a)
       for column in (minor + 1)..n {
-        // factor = <x, u>/(a * qrdata[k * n + k])
+        // factor = <x, u/a>/(qrdata[k * n + k]/a)
         let mut x_dot_u : T = num::zero();
         for row in minor..m {
-          x_dot_u = x_dot_u + qrdata[row * n + minor].clone() * qrdata[row * n + column].clone();
+          x_dot_u = x_dot_u + u[row - minor].clone() * qrdata[row * n + column].clone();
         }
-        let factor = x_dot_u / a / qrdata[minor * n + minor].clone();
+        let factor = x_dot_u / u[0].clone();
 
-        // Hx = x + factor * u
+        // Hx = x + factor * (u/a)
         for row in minor..m {
-          qrdata[row * n + column] = qrdata[row * n + column].clone() + factor * qrdata[row * n + minor].clone();
+          qrdata[row * n + column] = qrdata[row * n + column].clone() + factor * u[row - minor].clone();
         }
       }
     }
@@ -186,17 +190,20 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
         //      = x - 2<x,u>/|u|^2 u
         //      = x - 2<x,u>/(-2a*qrdata[minor * n + minor]) u
         //      = x + <x,u>/(a*qrdata[minor * n + minor]) u
-        //      = x + factor * u
+        //      = x + <x,u/a>/(qrdata[minor * n + minor]/a) (u/a)
+        //      = x + factor * (u/a)
+        // (The products could overflow or underflow, so use u/a, whose elements are at most 2.)
+        let u : Vec<T> = (minor..m).map(|row| self.qr.get_data()[row * n + minor].clone() / self.rdiag[minor].clone()).collect();
         // Iterate over columns k .. (m - 1) of Q.
         for column in minor..m {
           let mut x_dot_u : T = num::zero();
           for row in minor..m {
-            x_dot_u = x_dot_u + self.qr.get_data()[row * n + minor].clone() * qdata[row * m + column].clone();
+            x_dot_u = x_dot_u + u[row - minor].clone() * qdata[row * m + column].clone();
           }
-          let factor = x_dot_u / self.rdiag[minor].clone() / self.qr.get_data()[minor * n + minor].clone();
+          let factor = x_dot_u / u[0].clone();
 
           for row in minor..m {
-            qdata[row * m + column] = qdata[row * m + column].clone() + factor * self.qr.get_data()[row * n + minor].clone();
+            qdata[row * m + column] = qdata[row * m + column].clone() + factor * u[row - minor].clone();
           }
         }
       }
@@ -222,14 +229,16 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
 
     // Compute Y = transpose(Q)*B
     for k in 0..n {
+      // (The products could overflow or underflow, so divide the Householder vector by the diagonal element.)
+      let u : Vec<T> = (k..m).map(|i| self.qr.get_data()[i * n + k].clone() / self.rdiag[k].clone()).collect();
       for j in 0..nx {
         let mut s : T = num::zero();
         for i in k..m {
-          s = s + self.qr.get_data()[i * self.qr.cols() + k].clone() * xdata[i * nx + j].clone();
+          s = s + u[i - k].clone() * xdata[i * nx + j].clone();
         }
-        s = s / self.rdiag[k].clone() / self.qr.get_data()[k * self.qr.cols() + k].clone();
+        s = s / u[0].clone();
         for i in k..m {
-          xdata[i * nx + j] = xdata[i * nx + j].clone() + s * self.qr.get_data()[i * self.qr.cols() + k].clone();
+          xdata[i * nx + j] = xdata[i * nx + j].clone() + s * u[i - k].clone();
         }
       }
     }
-- 
2.43.0


From 6976f39cd4d2119aefb40324f7146f803c02bc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:01 +0000
Subject: [PATCH 18/22] fix: eigendecompositions of very large or very small
 elements

---
 src/decomp/eigen.rs | 20 +++++++++++++++-----
 src/internalutil.rs | 17 +++++++++++++++++
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 3d36e06..82510f0 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -4,7 +4,7 @@ use num::traits::{Float, Signed};
 
 use ApproxEq;
 use Matrix;
-use internalutil::{alloc_dirty_vec, hypot};
+use internalutil::{alloc_dirty_vec, hypot, safe_scale};
 
 /// Eigenvalues and eigenvectors of a real matrix. 
 ///
@@ -771,8 +771,11 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
     let n = a.cols();
 
     let mut vdata = alloc_dirty_vec(n * n);
-    let mut ddata = alloc_dirty_vec(n);
-    let mut edata = alloc_dirty_vec(n);
+    let mut ddata : Vec<T> = alloc_dirty_vec(n);
+    let mut edata : Vec<T> = alloc_dirty_vec(n);
+
+    // The eigenvectors of a multiple of the matrix are the same.
+    let scale = safe_scale(a.get_data());
 
     let mut issymmetric = true;
     let mut j = 0;
@@ -788,7 +791,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
     if issymmetric {
       for i in 0..n {
         for j in 0..n {
-          vdata[i * n + j] = a.get(i, j).clone();
+          vdata[i * n + j] = a.get(i, j).clone() * scale;
         }
       }
 
@@ -797,6 +800,9 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
 
       // Diagonalize.
       EigenDecomposition::tql2(n, &mut edata, &mut ddata, &mut vdata);
+      for i in 0..n {
+        ddata[i] = ddata[i].clone() / scale;
+      }
 
       EigenDecomposition {
         n : n,
@@ -809,7 +815,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
 
       for j in 0..n {
         for i in 0..n {
-          hdata[i * n + j] = a.get(i, j);
+          hdata[i * n + j] = a.get(i, j) * scale;
         }
       }
 
@@ -818,6 +824,10 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
    
       // Reduce Hessenberg to real Schur form.
       EigenDecomposition::hqr2(n, &mut ddata, &mut edata, &mut hdata, &mut vdata);
+      for i in 0..n {
+        ddata[i] = ddata[i].clone() / scale;
+        edata[i] = edata[i].clone() / scale;
+      }
 
       EigenDecomposition {
         n : n,
diff --git a/src/internalutil.rs b/src/internalutil.rs
index ed71a85..3846668 100755
--- a/src/internalutil.rs
+++ b/src/internalutil.rs
@@ -12,6 +12,23 @@ pub fn alloc_dirty_vec<T : Copy>(n : usize) -> Vec<T> {
   v
 }
 
+// A power of two that brings the largest element into a range where the squares of all elements that matter
+// neither overflow nor underflow. One, if it already is.
+pub fn safe_scale<T : Signed + Float>(data : &[T]) -> T {
+  let max_elem = data.iter().fold(num::zero(), |acc : T, x| acc.max(num::abs(x.clone())));
+  let small = T::min_positive_value().sqrt() / T::epsilon();
+  let big = num::one::<T>() / small;
+  let step : T = num::cast(1024.0).unwrap();
+  let mut scale : T = num::one();
+  while max_elem > num::zero() && max_elem * scale < small {
+    scale = scale * step;
+  }
+  while max_elem < T::infinity() && max_elem * scale > big {
+    scale = scale / step;
+  }
+  scale
+}
+
 // Ported from JAMA.
 // sqrt(a^2 + b^2) without under/overflow.
 pub fn hypot<T : Zero + One + Signed + PartialOrd + Float + Clone>(a : T, b : T) -> T {
-- 
2.43.0


From 8753ed022cf0b01ffcfe48a2b621241b1ca499ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:19 +0000
Subject: [PATCH 19/22] fix: pseudoinverses of very large or very small
 elements

---
 src/matrix.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 5ac1c09..99b78e8 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -781,12 +781,12 @@ impl<T : Float + ApproxEq<T> + Signed + Copy> Matrix<T> {
     }
 
     // A+ = (A' A)^-1 A'
-    //    = ((QR)' QR)^-1 A'
-    //    = (R'Q'QR)^-1 A'
-    //    = (R'R)^-1 A'
-    let qr = qr::QRDecomposition::new(self);
-    let r = qr.get_r();
-    (r.t() * &r).inverse().unwrap() * &self.t()
+    //    = ((QR)' QR)^-1 (QR)'
+    //    = (R'Q'QR)^-1 R'Q'
+    //    = R^-1 Q' (for the rows of R that are not zero)
+    // that is, the least squares solution of A*X = I.
+    // (The elements of R'R could overflow or underflow.)
+    qr::QRDecomposition::new(self).solve(&Matrix::id(self.no_rows, self.no_rows)).unwrap()
   }
 
   pub fn vector_euclidean_norm(&self) -> T {
-- 
2.43.0


From fbec70db8bb56ae91c1e68d0cd5db30eb74a817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:19 +0000
Subject: [PATCH 20/22] fix: direct SVD of very large or very small elements

---
 src/decomp/svd.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index bfc4a12..297d938 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -5,7 +5,7 @@ use num::{ Float, Signed };
 
 use ApproxEq;
 use Matrix;
-use internalutil::{alloc_dirty_vec, hypot};
+use internalutil::{alloc_dirty_vec, hypot, safe_scale};
 
 /// Singular Value Decomposition.
 ///
@@ -476,6 +476,10 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
       }
     }
 
+    // The squares must not overflow or underflow. (A multiple of A has the same U and V.)
+    let scale = safe_scale(a.get_data());
+    let a = &a.map(&|&e| e * scale);
+
     // A'A = VS'U'USV'
     //     = VS'SV'
     let ata = a.t().mul(a);
@@ -502,7 +506,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
 
     SVD {
       u : u.clone(),
-      s : s_aug.clone(),
+      s : s_aug.map(&|&e| e / scale),
       v : v.clone()
     }
   }
-- 
2.43.0


From 53f8bd2f27ebd9aac3bb9e641eebbd864d26c25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:59 +0000
Subject: [PATCH 21/22] fix: vector and Frobenius norms of very large or very
 small elements

---
 src/matrix.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index 99b78e8..2e768c2 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -797,6 +797,11 @@ impl<T : Float + ApproxEq<T> + Signed + Copy> Matrix<T> {
       s = s + self.data[i].clone() * self.data[i].clone();
     }
 
+    // The squares may have overflowed or underflowed.
+    if s.is_infinite() || s < T::min_positive_value() / T::epsilon() {
+      return self.data.iter().fold(num::zero(), |acc : T, x| acc.hypot(x.clone()));
+    }
+
     s.sqrt()
   }
 
@@ -829,6 +834,19 @@ impl<T : Float + ApproxEq<T> + Signed + Copy> Matrix<T> {
       s = s + num::abs(self.data[i].clone()).powf(p.clone());
     }
 
+    // The powers may have overflowed or underflowed.
+    if s.is_infinite() || s < T::min_positive_value() / T::epsilon() {
+      let largest = self.vector_inf_norm();
+      if largest == num::zero() || largest.is_infinite() {
+        return largest;
+      }
+      s = num::zero();
+      for i in 0..self.data.len() {
+        s = s + (num::abs(self.data[i].clone()) / largest).powf(p.clone());
+      }
+      return largest * s.powf(num::one::<T>() / p);
+    }
+
     s.powf(num::one::<T>() / p)
   }
 
@@ -838,6 +856,11 @@ impl<T : Float + ApproxEq<T> + Signed + Copy> Matrix<T> {
       s = s + self.data[i].clone() * self.data[i].clone();
     }
 
+    // The squares may have overflowed or underflowed.
+    if s.is_infinite() || s < T::min_positive_value() / T::epsilon() {
+      return self.data.iter().fold(num::zero(), |acc : T, x| acc.hypot(x.clone()));
+    }
+
     s.sqrt()
   }
 
-- 
2.43.0


From b78b12354b33e896ac7a662474bbe627bc42a88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:09 +0000
Subject: [PATCH 22/22] fix: determinants whose partial products overflow or
 underflow

---
 src/decomp/lu.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/decomp/lu.rs b/src/decomp/lu.rs
index 0d166f3..d1e1cc0 100755
--- a/src/decomp/lu.rs
+++ b/src/decomp/lu.rs
@@ -225,8 +225,20 @@ impl<T : Float + ApproxEq<T> + Signed> LUDecomposition<T> {
     assert!(self.lu.rows() == self.lu.cols());
     let n = self.lu.cols();
     let mut d = if self.pospivsign { num::one::<T>() } else { - num::one::<T>() };
+    // The product of some of the diagonal elements may overflow or underflow even if the product of all of them
+    // does not, so keep powers of two apart.
+    let mut exponent = 0;
     for j in 0..n {
-      d = d * self.lu.get_data()[j * n + j].clone();
+      d = normalize(d * normalize(self.lu.get_data()[j * n + j].clone(), &mut exponent), &mut exponent);
+    }
+    let step : T = num::cast(1u64 << 32).unwrap();
+    while exponent > 0 && !d.is_infinite() {
+      d = d * step;
+      exponent -= 1;
+    }
+    while exponent < 0 && d != num::zero() {
+      d = d / step;
+      exponent += 1;
     }
     d
   }
@@ -280,6 +292,21 @@ impl<T : Float + ApproxEq<T> + Signed> LUDecomposition<T> {
   }
 }
 
+// Brings the magnitude of a finite nonzero number between 1 and 2^32, counting the factors of 2^32 taken out.
+fn normalize<T : Float>(x : T, exponent : &mut isize) -> T {
+  let step : T = num::cast(1u64 << 32).unwrap();
+  let mut x = x;
+  while x.abs() >= step && !x.is_infinite() {
+    x = x / step;
+    *exponent += 1;
+  }
+  while x.abs() < num::one() && x != num::zero() {
+    x = x * step;
+    *exponent -= 1;
+  }
+  x
+}
+
 #[test]
 fn test_lu_square() {
   let a = m!(1.0, 2.0, 0.0; 3.0, 6.0, -1.0; 1.0, 2.0, 1.0);
-- 
2.43.0

