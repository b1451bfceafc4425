From e2b1ce9be79d2e95e91293bd6421603dabbf387b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:50 +0000
Subject: [PATCH 01/12] fix: median used std::vector without including it and
 allocated on the heap

matrix.hpp did not compile on its own, and the library promises no dynamic
memory allocation; sort a std::array copy of the elements instead.
---
 matrix/matrix_median.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/matrix/matrix_median.hpp b/matrix/matrix_median.hpp
index e9a8ca7..a4a7491 100644
--- a/matrix/matrix_median.hpp
+++ b/matrix/matrix_median.hpp
@@ -30,15 +30,14 @@ namespace mlib
 template<typename T,  std::size_t i, std::size_t j>
 T median(const Matrix<T, i, j>& A)
 {
-  std::vector<T> v;
   const std::size_t size = i*j;
-  v.reserve(size);
+  std::array<T, i*j> v{};
 
   for (std::size_t it = 0; it < i; it++)
   {
     for (std::size_t jt = 0; jt < j; jt++)
     {
-      v.push_back(A[it][jt]);
+      v[it*j + jt] = A[it][jt];
     }
   }
 
-- 
2.43.0


From 79c049765b58df3ca9b1f41d21996857ad039268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:50 +0000
Subject: [PATCH 02/12] fix: concatenate of square matrices joined A with
 itself horizontally

---
 matrix/matrix_concatenate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_concatenate.hpp b/matrix/matrix_concatenate.hpp
index e4b9aac..a12ea30 100644
--- a/matrix/matrix_concatenate.hpp
+++ b/matrix/matrix_concatenate.hpp
@@ -60,7 +60,7 @@ std::pair<Matrix<T, (n+n), n>,Matrix<T, n, (n+n)>> concatenate(const Matrix<T, n
     }
     for (std::size_t j = n; j < n+n; j++)
     {
-      result.second[i][j] = A[i][j-n];
+      result.second[i][j] = B[i][j-n];
     }
   }
 
-- 
2.43.0


From 04b89056af924a88c70df0899ef05c4b0f281b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:50 +0000
Subject: [PATCH 03/12] fix: ones<T, i, j> declared a square result and did not
 compile for i != j

---
 matrix/matrix_ones.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_ones.hpp b/matrix/matrix_ones.hpp
index a7613df..a2175b2 100644
--- a/matrix/matrix_ones.hpp
+++ b/matrix/matrix_ones.hpp
@@ -32,7 +32,7 @@ Matrix<unsigned int, i, j> ones()
 }
 
 template<typename T, std::size_t i, std::size_t j = i>
-Matrix<T, i, i> ones()
+Matrix<T, i, j> ones()
 {
   return fill<T, i, j>(1);
 }
-- 
2.43.0


From c37abf604082097df9a6bf4f9f2eaeb41a1f375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:50 +0000
Subject: [PATCH 04/12] fix: dividing a matrix by zero terminated the process

A bare throw outside a handler calls std::terminate; throw the overflow_error
the rest of the library uses, so inv of a singular matrix of any size can be
caught as well.
---
 matrix/matrix_div.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_div.hpp b/matrix/matrix_div.hpp
index dac5658..8f67d57 100644
--- a/matrix/matrix_div.hpp
+++ b/matrix/matrix_div.hpp
@@ -15,6 +15,7 @@
 #ifndef MATRIX_MATRIX_DIV_HPP_
 #define MATRIX_MATRIX_DIV_HPP_
 
+#include <stdexcept>
 #include "matrix_type.hpp"
 
 namespace mlib
@@ -33,7 +34,7 @@ template<typename T, std::size_t n, std::size_t m>
 static Matrix<T, n, m> div(const Matrix<T, n, m>& A, const T scalar)
 {
   if(scalar == 0)
-    throw;
+    throw std::overflow_error("Divide by zero exception");
 
   Matrix<T, n, m> prod{};
 
-- 
2.43.0


From c964c4bddac07c38f3210fdd6b6132167656e84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:50 +0000
Subject: [PATCH 05/12] fix: inv of a singular 1x1 matrix divided by zero
 instead of throwing

---
 matrix/matrix_inv.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_inv.hpp b/matrix/matrix_inv.hpp
index 8a5f19d..d5f41ea 100644
--- a/matrix/matrix_inv.hpp
+++ b/matrix/matrix_inv.hpp
@@ -65,7 +65,12 @@ static Matrix<T, (n-1), (n-1)> getminor(const Matrix<T, n, n>& A, std::size_t i,
 template<typename T>
 Matrix<T, 1, 1> inv(const Matrix<T, 1, 1>& A)
 {
-  return Matrix<T, 1, 1>{ 1/det(A) };
+  const auto detA { det(A) };
+  if (detA == 0)
+  {
+    throw std::overflow_error("Divide by zero exception");
+  }
+  return Matrix<T, 1, 1>{ 1/detA };
 }
 
 
-- 
2.43.0


From 8ebd8eab4f5a54aae98d7dca3ac1d9515f23bb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:50 +0000
Subject: [PATCH 06/12] fix: isIdentity compiled only for unsigned int matrices

---
 matrix/matrix_utils.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/matrix/matrix_utils.hpp b/matrix/matrix_utils.hpp
index d4aefc9..44afb42 100644
--- a/matrix/matrix_utils.hpp
+++ b/matrix/matrix_utils.hpp
@@ -32,9 +32,7 @@ namespace mlib
 template<typename T, std::size_t n>
 bool isIdentity(const Matrix<T, n, n>& A)
 {
-  const auto identity {eye<unsigned int, n>()};
-  const auto uiA {static_cast<Matrix<unsigned int, n, n>>(A)};
-  return (uiA == identity);
+  return (A == eye<T, n>());
 }
 
 
-- 
2.43.0


From 09fe49a64ec0aa1d7b2e4f3a68c5df84e13e1109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:50 +0000
Subject: [PATCH 07/12] fix: compare reported NaN elements as equal to anything

---
 matrix/matrix_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_utils.hpp b/matrix/matrix_utils.hpp
index 44afb42..25bf1b4 100644
--- a/matrix/matrix_utils.hpp
+++ b/matrix/matrix_utils.hpp
@@ -51,7 +51,7 @@ bool compare(const Matrix<T, row, col>& A, const Matrix<T, row, col>& B, const f
   {
     for(std::size_t j = 0; j < col; j++)
     {
-      if(std::abs(A[i][j] - B[i][j]) > epsilon)
+      if(A[i][j] != B[i][j] && !(std::abs(A[i][j] - B[i][j]) <= epsilon))
       {
         return false;
       }
-- 
2.43.0


From d838a57a343f7c780f65cec2d692ab130f4a353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:50 +0000
Subject: [PATCH 08/12] fix: mean of signed integers divided as unsigned

A negative sum was converted to std::size_t before the division.
---
 matrix/matrix_mean.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_mean.hpp b/matrix/matrix_mean.hpp
index 6e803ac..1e2fe7b 100644
--- a/matrix/matrix_mean.hpp
+++ b/matrix/matrix_mean.hpp
@@ -15,6 +15,7 @@
 #ifndef MATRIX_MEAN_HPP_
 #define MATRIX_MEAN_HPP_
 
+#include <cstddef>
 #include "matrix_type.hpp"
 
 namespace mlib
@@ -39,7 +40,7 @@ T mean(const Matrix<T, i, j>& A)
       result += A[it][jt];
     }
   }
-  return (result / (i*j));
+  return (result / static_cast<std::ptrdiff_t>(i*j));
 }
 
 
-- 
2.43.0


From 21154f3653b1e54b4f336d9d25bd3e1c90a2cbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:50 +0000
Subject: [PATCH 09/12] fix: conv2 and conv2_full correlated instead of
 convolving

The documentation promises the result of conv2 in Octave, which applies the
kernel rotated by 180 degrees; only symmetric kernels came out right.
---
 matrix/matrix_conv2.hpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/matrix/matrix_conv2.hpp b/matrix/matrix_conv2.hpp
index 7845dd4..538d707 100644
--- a/matrix/matrix_conv2.hpp
+++ b/matrix/matrix_conv2.hpp
@@ -66,15 +66,15 @@ Matrix<T, i, j> conv2(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
     for(std::size_t jt = 0; jt < j; jt++)
     {
       result[it][jt] = 0;
-      result[it][jt] += ((isOutOfRange(it-1,jt-1)) ? 0 : kernel[0][0] * A[it-1][jt-1]);   
-      result[it][jt] += ((isOutOfRange(it-1,jt))   ? 0 : kernel[0][1] * A[it-1][jt]);
-      result[it][jt] += ((isOutOfRange(it-1,jt+1)) ? 0 : kernel[0][2] * A[it-1][jt+1]);
-      result[it][jt] += ((isOutOfRange(it,jt-1))   ? 0 : kernel[1][0] * A[it][jt-1]);   
+      result[it][jt] += ((isOutOfRange(it-1,jt-1)) ? 0 : kernel[2][2] * A[it-1][jt-1]);   
+      result[it][jt] += ((isOutOfRange(it-1,jt))   ? 0 : kernel[2][1] * A[it-1][jt]);
+      result[it][jt] += ((isOutOfRange(it-1,jt+1)) ? 0 : kernel[2][0] * A[it-1][jt+1]);
+      result[it][jt] += ((isOutOfRange(it,jt-1))   ? 0 : kernel[1][2] * A[it][jt-1]);   
       result[it][jt] += ((isOutOfRange(it,jt))     ? 0 : kernel[1][1] * A[it][jt]);   
-      result[it][jt] += ((isOutOfRange(it,jt+1))   ? 0 : kernel[1][2] * A[it][jt+1]);   
-      result[it][jt] += ((isOutOfRange(it+1,jt-1)) ? 0 : kernel[2][0] * A[it+1][jt-1]);  
-      result[it][jt] += ((isOutOfRange(it+1,jt))   ? 0 : kernel[2][1] * A[it+1][jt]);
-      result[it][jt] += ((isOutOfRange(it+1,jt+1)) ? 0 : kernel[2][2] * A[it+1][jt+1]); 
+      result[it][jt] += ((isOutOfRange(it,jt+1))   ? 0 : kernel[1][0] * A[it][jt+1]);   
+      result[it][jt] += ((isOutOfRange(it+1,jt-1)) ? 0 : kernel[0][2] * A[it+1][jt-1]);  
+      result[it][jt] += ((isOutOfRange(it+1,jt))   ? 0 : kernel[0][1] * A[it+1][jt]);
+      result[it][jt] += ((isOutOfRange(it+1,jt+1)) ? 0 : kernel[0][0] * A[it+1][jt+1]); 
     }
   }
   return result;
@@ -118,15 +118,15 @@ Matrix<T, i+2, j+2> conv2_full(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>&
     for(std::size_t jt = 0; jt < j+2; jt++)
     {
       result[it][jt] = 0;
-      result[it][jt] += ((isOutOfRange(it-1 - offset,jt-1 - offset)) ? 0 : kernel[0][0] * A[it-1 - offset][jt-1 - offset]);   
-      result[it][jt] += ((isOutOfRange(it-1 - offset,jt - offset))   ? 0 : kernel[0][1] * A[it-1 - offset][jt - offset]);
-      result[it][jt] += ((isOutOfRange(it-1 - offset,jt+1 - offset)) ? 0 : kernel[0][2] * A[it-1 - offset][jt+1 - offset]);
-      result[it][jt] += ((isOutOfRange(it - offset,jt-1 - offset))   ? 0 : kernel[1][0] * A[it - offset][jt-1 - offset]);   
+      result[it][jt] += ((isOutOfRange(it-1 - offset,jt-1 - offset)) ? 0 : kernel[2][2] * A[it-1 - offset][jt-1 - offset]);   
+      result[it][jt] += ((isOutOfRange(it-1 - offset,jt - offset))   ? 0 : kernel[2][1] * A[it-1 - offset][jt - offset]);
+      result[it][jt] += ((isOutOfRange(it-1 - offset,jt+1 - offset)) ? 0 : kernel[2][0] * A[it-1 - offset][jt+1 - offset]);
+      result[it][jt] += ((isOutOfRange(it - offset,jt-1 - offset))   ? 0 : kernel[1][2] * A[it - offset][jt-1 - offset]);   
       result[it][jt] += ((isOutOfRange(it - offset,jt - offset))     ? 0 : kernel[1][1] * A[it - offset][jt - offset]);   
-      result[it][jt] += ((isOutOfRange(it - offset,jt+1 - offset))   ? 0 : kernel[1][2] * A[it - offset][jt+1 - offset]);   
-      result[it][jt] += ((isOutOfRange(it+1 - offset,jt-1 - offset)) ? 0 : kernel[2][0] * A[it+1 - offset][jt-1 - offset]);  
-      result[it][jt] += ((isOutOfRange(it+1 - offset,jt - offset))   ? 0 : kernel[2][1] * A[it+1 - offset][jt - offset]);
-      result[it][jt] += ((isOutOfRange(it+1 - offset,jt+1 - offset)) ? 0 : kernel[2][2] * A[it+1 - offset][jt+1 - offset]); 
+      result[it][jt] += ((isOutOfRange(it - offset,jt+1 - offset))   ? 0 : kernel[1][0] * A[it - offset][jt+1 - offset]);   
+      result[it][jt] += ((isOutOfRange(it+1 - offset,jt-1 - offset)) ? 0 : kernel[0][2] * A[it+1 - offset][jt-1 - offset]);  
+      result[it][jt] += ((isOutOfRange(it+1 - offset,jt - offset))   ? 0 : kernel[0][1] * A[it+1 - offset][jt - offset]);
+      result[it][jt] += ((isOutOfRange(it+1 - offset,jt+1 - offset)) ? 0 : kernel[0][0] * A[it+1 - offset][jt+1 - offset]); 
     }
   }
   return result;
-- 
2.43.0


From bdbe5b12c5302d72bddb204304086579105dcb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:50 +0000
Subject: [PATCH 10/12] fix: conv2_valid did not compile for matrices that are
 not square

---
 matrix/matrix_conv2.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_conv2.hpp b/matrix/matrix_conv2.hpp
index 538d707..0e0150a 100644
--- a/matrix/matrix_conv2.hpp
+++ b/matrix/matrix_conv2.hpp
@@ -139,8 +139,16 @@ Matrix<T, i+2, j+2> conv2_full(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>&
 template<typename T, std::size_t i, std::size_t j>
 Matrix<T, i-2, j-2> conv2_valid(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
 {
-  Matrix<T, i-1, i-1> tmp1 = getminor(conv2(A,kernel),i-1,j-1); // conv2 means conv2 with -same option
-  return getminor(tmp1,0,0); // conv2 means conv2 with -same option
+  Matrix<T, i-2, j-2> result{};
+  const auto same = conv2(A,kernel); // conv2 means conv2 with -same option
+  for(std::size_t it = 0; it < i-2; it++)
+  {
+    for(std::size_t jt = 0; jt < j-2; jt++)
+    {
+      result[it][jt] = same[it+1][jt+1];
+    }
+  }
+  return result;
 }
 
 
-- 
2.43.0


From 51e9ded2e5b730138da691904d71219dd7d68d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:50 +0000
Subject: [PATCH 11/12] fix: pow rejected unsigned exponents and overflowed on
 the most negative one

std::abs is ambiguous for unsigned types and undefined for the minimum value;
negate the halved exponent instead.
---
 matrix/matrix_pow.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_pow.hpp b/matrix/matrix_pow.hpp
index 2012179..d14f7c4 100644
--- a/matrix/matrix_pow.hpp
+++ b/matrix/matrix_pow.hpp
@@ -47,12 +47,13 @@ Matrix<T, n, n> pow(Matrix<T, n, n> A, P p)
     if(p < 0)
     {
       A = inv(A);
-      p = std::abs(p);
     }
 
+    const P half = (p < 0) ? -(p/2) : p/2;
+
     auto powA { ones<T, n, n>() };
 
-    powA = pow(A, p/2);
+    powA = pow(A, half);
     if ((p % 2) == 0)
     {
       return powA * powA;
-- 
2.43.0


From d7fe02d11d4a1147f46b4e471bb599def8ca654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:05 +0000
Subject: [PATCH 12/12] fix: ones<i, j>() ignored the row count and returned a
 j x j matrix

The first template parameter was an unnamed unsigned value, so ones<2, 3>()
took 3 for both dimensions.
---
 matrix/matrix_ones.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_ones.hpp b/matrix/matrix_ones.hpp
index a2175b2..48bbaee 100644
--- a/matrix/matrix_ones.hpp
+++ b/matrix/matrix_ones.hpp
@@ -25,7 +25,7 @@ namespace mlib
  *
  * @return matrix with i, j size
  */
-template<unsigned int, std::size_t i, std::size_t j = i>
+template<std::size_t i, std::size_t j = i>
 Matrix<unsigned int, i, j> ones()
 {
   return fill<unsigned int, i, j>(1);
-- 
2.43.0

