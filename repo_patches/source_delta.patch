From f65a46884e03d07328f844006f970e961cf8f048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 1/5] fix: reject dot products of vectors with different
 lengths

The product silently truncated to the shorter operand.
---
 src/linalg/dvector.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linalg/dvector.rs b/src/linalg/dvector.rs
index b597c57..9e72a26 100644
--- a/src/linalg/dvector.rs
+++ b/src/linalg/dvector.rs
@@ -674,6 +674,7 @@ where
     type Output = T;
 
     fn mul(self, rhs: Self) -> T {
+        assert_eq!(self.len(), rhs.len());
         self.0
             .iter()
             .zip(rhs.0.iter())
-- 
2.43.0


From d975441633c49579c09ab78a6aad7fe9eb07a34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 2/5] fix: reject in-place vector addition and subtraction with
 different lengths

A longer right hand side was silently truncated, unlike in `+` and `-`.
---
 src/linalg/dvector.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/linalg/dvector.rs b/src/linalg/dvector.rs
index 9e72a26..b5ae625 100644
--- a/src/linalg/dvector.rs
+++ b/src/linalg/dvector.rs
@@ -597,6 +597,7 @@ where
     Rhs: VectorExpr,
 {
     fn add_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.len(), rhs.len());
         for index in 0..self.len() {
             self.0[index] += rhs.entry(index);
         }
@@ -635,6 +636,7 @@ where
     Rhs: VectorExpr,
 {
     fn sub_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.len(), rhs.len());
         for index in 0..self.len() {
             self.0[index] -= rhs.entry(index);
         }
-- 
2.43.0


From de5807fa090b85c075d15b781267c1a2634c2a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 3/5] fix: reject in-place matrix addition and subtraction with
 different shapes

A larger right hand side was silently cropped, unlike in `+` and `-`.
---
 src/linalg/dmatrix.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/linalg/dmatrix.rs b/src/linalg/dmatrix.rs
index ac88116..c4b5780 100644
--- a/src/linalg/dmatrix.rs
+++ b/src/linalg/dmatrix.rs
@@ -713,6 +713,8 @@ where
     Rhs: MatrixExpr,
 {
     fn add_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.num_rows(), rhs.num_rows());
+        assert_eq!(self.num_cols(), rhs.num_cols());
         let num_cols = self.num_cols();
         for row in 0..self.num_rows() {
             for col in 0..num_cols {
@@ -756,6 +758,8 @@ where
     Rhs: MatrixExpr,
 {
     fn sub_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.num_rows(), rhs.num_rows());
+        assert_eq!(self.num_cols(), rhs.num_cols());
         let num_cols = self.num_cols();
         for row in 0..self.num_rows() {
             for col in 0..num_cols {
-- 
2.43.0


From 0991bd065c9811d9f42c12e61566f3a5eaf533f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 4/5] fix: reject out-of-range matrix positions

A column index past the end of a row addressed an entry of a later row.
---
 src/linalg/dmatrix.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/linalg/dmatrix.rs b/src/linalg/dmatrix.rs
index c4b5780..73aa7ed 100644
--- a/src/linalg/dmatrix.rs
+++ b/src/linalg/dmatrix.rs
@@ -527,6 +527,7 @@ where
     type Entry = T;
 
     fn entry(&self, row: usize, col: usize) -> Self::Entry {
+        assert!(row < self.num_rows && col < self.num_cols);
         self.data[row * self.num_cols + col].clone()
     }
 
@@ -550,6 +551,7 @@ where
     type Entry = T;
 
     fn entry(&self, row: usize, col: usize) -> Self::Entry {
+        assert!(row < self.num_rows && col < self.num_cols);
         self.data[row * self.num_cols + col].clone()
     }
 
@@ -653,6 +655,7 @@ impl<T> Index<[usize; 2]> for DMatrix<T> {
     type Output = T;
 
     fn index(&self, row_and_col: [usize; 2]) -> &Self::Output {
+        assert!(row_and_col[0] < self.num_rows && row_and_col[1] < self.num_cols);
         &self.data[row_and_col[0] * self.num_cols + row_and_col[1]]
     }
 }
@@ -668,6 +671,7 @@ fn test_index_dmatrix() {
 
 impl<T> IndexMut<[usize; 2]> for DMatrix<T> {
     fn index_mut(&mut self, row_and_col: [usize; 2]) -> &mut <Self as Index<[usize; 2]>>::Output {
+        assert!(row_and_col[0] < self.num_rows && row_and_col[1] < self.num_cols);
         &mut self.data[row_and_col[0] * self.num_cols + row_and_col[1]]
     }
 }
-- 
2.43.0


From b1260c80ff61d52f77b31beca51625973b422e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 5/5] fix: compare polynomials regardless of trailing zero
 coefficients

p - p compared unequal to zero, and p + (q - q) unequal to p.
---
 src/algebra/polynomial.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/algebra/polynomial.rs b/src/algebra/polynomial.rs
index 3498866..e51db88 100644
--- a/src/algebra/polynomial.rs
+++ b/src/algebra/polynomial.rs
@@ -12,11 +12,26 @@ let p = Polynomial::from_coefficients(vec![1, 2, 3]); // p(x) = 1 + 2*x + 3*x^2
 assert_eq!(p.eval(2), 1 + 2*2 + 3*4);
 ```
 */
-#[derive(Debug, Clone, Eq, PartialEq)]
+#[derive(Debug, Clone, Eq)]
 pub struct Polynomial<T: Ring> {
     a: Vec<T>,
 }
 
+impl<T: Ring> PartialEq for Polynomial<T> {
+    /// Compares the coefficients, where missing coefficients count as zero.
+    fn eq(&self, other: &Self) -> bool {
+        let zero = T::zero();
+        for i in 0..self.a.len().max(other.a.len()) {
+            let x = if i < self.a.len() { &self.a[i] } else { &zero };
+            let y = if i < other.a.len() { &other.a[i] } else { &zero };
+            if x != y {
+                return false;
+            }
+        }
+        true
+    }
+}
+
 impl<T: Ring> Polynomial<T> {
     /// Creates a new `Polynomial` from a vector of coefficients.
     ///
-- 
2.43.0

