From e6893f36eb1088d04731b232b601099e34bfdea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:21 +0000
Subject: [PATCH 01/68] fix: matrix move assignment leaked the target's memory
 and destroyed itself on self-move

---
 include/coeff_matrix_2d.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/coeff_matrix_2d.hpp b/include/coeff_matrix_2d.hpp
index 62605f5..fc78e8c 100644
--- a/include/coeff_matrix_2d.hpp
+++ b/include/coeff_matrix_2d.hpp
@@ -416,12 +416,17 @@ public:
 
   /** Move Assignment operator */
   CoeffMatrix2D &operator=(CoeffMatrix2D &&mat) noexcept {
-    m_data = mat.m_data;
-    m_storage.__set_dimensions(mat.rows(), mat.cols());
-    _capacity = mat._capacity;
-    mat.m_data = nullptr;
-    mat.m_storage.__set_dimensions(0, 0);
-    mat._capacity = 0;
+    if (this != &mat) {
+      /* free memory currently held, if any */
+      if (m_data)
+        delete[] m_data;
+      m_data = mat.m_data;
+      m_storage.__set_dimensions(mat.rows(), mat.cols());
+      _capacity = mat._capacity;
+      mat.m_data = nullptr;
+      mat.m_storage.__set_dimensions(0, 0);
+      mat._capacity = 0;
+    }
     return *this;
   }
 
-- 
2.43.0


From 604a705118e76a1fa5855ff43107d9bc927d4f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:32 +0000
Subject: [PATCH 02/68] fix: a StokesCoeffs instance constructed with order 0
 reported order equal to its degree

---
 include/stokes_coefficients.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stokes_coefficients.hpp b/include/stokes_coefficients.hpp
index f2c3f1f..5ba9574 100644
--- a/include/stokes_coefficients.hpp
+++ b/include/stokes_coefficients.hpp
@@ -133,7 +133,7 @@ public:
   /** Constructor given degree, order, GM and radius R */
   StokesCoeffs(int n, int m=-1, double GM=::iers2010::GMe, double Re=::iers2010::Re)
       : _GM(GM), _Re(Re), _cnormalized(true), m_degree(n), 
-        m_order((m > 0) ? m : n), _Cnm(n + 1, n + 1), _Snm(n + 1, n + 1) {}
+        m_order((m >= 0) ? m : n), _Cnm(n + 1, n + 1), _Snm(n + 1, n + 1) {}
 
   /* @brief Resize to new degree/order, deleting currrent data.
    *
-- 
2.43.0


From b3906f698831e184f0a213f471ce12ab772bf0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:32 +0000
Subject: [PATCH 03/68] fix: scaling Stokes coefficients of degree 0 had no
 effect

---
 include/stokes_coefficients.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/stokes_coefficients.hpp b/include/stokes_coefficients.hpp
index 5ba9574..2c6b284 100644
--- a/include/stokes_coefficients.hpp
+++ b/include/stokes_coefficients.hpp
@@ -199,10 +199,8 @@ public:
 
   /** scale the Cnm and Snm coefficients */
   void scale(double factor) noexcept {
-    if (m_degree) {
-      _Cnm.multiply(factor);
-      _Snm.multiply(factor);
-    }
+    _Cnm.multiply(factor);
+    _Snm.multiply(factor);
   }
 
   /** get the Cnm coefficient */
-- 
2.43.0


From 8abace799e950c9c9de600db595664fc776d8fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:03 +0000
Subject: [PATCH 04/68] fix: unpacking Stokes coefficients left the zero order
 sine coefficients uninitialised

---
 include/stokes_coefficients.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stokes_coefficients.hpp b/include/stokes_coefficients.hpp
index 2c6b284..99e90d0 100644
--- a/include/stokes_coefficients.hpp
+++ b/include/stokes_coefficients.hpp
@@ -282,6 +282,8 @@ public:
     int max_degree = anm.rows()-1;
     StokesCoeffs cs(max_degree, max_order);
     for (int m = 0; m <= max_degree; m++) {
+        /* zero order sine coefficients are not stored in anm */
+        cs.S(m,0) = 0e0;
         for (int l=0; l<m; l++) {
           cs.S(m,l+1) = anm(l,m);
         // (1,1) -> (0,1) m = 1
-- 
2.43.0


From e866896e71383e5c50c20aef6919ed72da7f93bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:56 +0000
Subject: [PATCH 05/68] fix: scratch space of the spherical harmonics expansion
 was one row and column too small

---
 include/gravity.hpp                           |  4 ++--
 .../sh_cunningham_normalized_gradient.cpp     | 20 +++++++++----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/gravity.hpp b/include/gravity.hpp
index 6a5f82a..3be1e71 100644
--- a/include/gravity.hpp
+++ b/include/gravity.hpp
@@ -136,11 +136,11 @@ int normalised_associated_legendre_functions(
  * @param[out] acc Acceleration in cartesian components in [m/s^2]
  * @param[out] gradient Gradient of acceleration in cartesian components
  * @param[in] W   A convinient storage space, as Column-Wise Lower Triangular
- *                matrix off dimensions at least (max_degree+2, max_degree+2).
+ *                matrix off dimensions at least (max_degree+3, max_degree+3).
  *                If not given, then the function will allocate and free the 
  *                required memmory.
  * @param[in] M   A convinient storage space, as Column-Wise Lower Triangular
- *                matrix off dimensions at least (max_degree+2, max_degree+2)
+ *                matrix off dimensions at least (max_degree+3, max_degree+3)
  *                If not given, then the function will allocate and free the 
  *                required memmory.
  * @return        Anything other than zero denotes an error.
diff --git a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
index d349050..2adea1c 100644
--- a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
+++ b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
@@ -65,9 +65,9 @@ struct NormalizedLegendreFactors {
  * @param[out] acc Acceleration in cartesian components in [m/s^2]
  * @param[out] gradient Gradient of acceleration in cartesian components
  * @param[in] W   A convinient storage space, as Column-Wise Lower Triangular
- *                matrix off dimensions at least (max_degree+2, max_degree+2)
+ *                matrix off dimensions at least (max_degree+3, max_degree+3)
  * @param[in] M   A convinient storage space, as Column-Wise Lower Triangular
- *                matrix off dimensions at least (max_degree+2, max_degree+2)
+ *                matrix off dimensions at least (max_degree+3, max_degree+3)
  */
 int sh2gradient_cunningham_impl(
     const dso::StokesCoeffs &cs, const Eigen::Matrix<double, 3, 1> &r,
@@ -89,10 +89,10 @@ int sh2gradient_cunningham_impl(
   assert(cs.max_degree() >= cs.max_order());
   assert(max_degree <= cs.max_degree());
   assert(max_order <= cs.max_order());
-  assert(W.rows() >= max_degree + 2);
-  assert(W.cols() >= max_degree + 2);
-  assert(M.rows() >= max_degree + 2);
-  assert(M.cols() >= max_degree + 2);
+  assert(W.rows() >= max_degree + 3);
+  assert(W.cols() >= max_degree + 3);
+  assert(M.rows() >= max_degree + 3);
+  assert(M.cols() >= max_degree + 3);
 #endif
 
   /* Factors up to degree/order MAX_SIZE_FOR_ALF_FACTORS. Constructed only on
@@ -426,18 +426,18 @@ int dso::sh2gradient_cunningham(
   int delete_mem_pool[] = {0, 0};
   if (!W) {
     W = new dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise>(
-        max_degree + 2, max_degree + 2);
+        max_degree + 3, max_degree + 3);
     delete_mem_pool[0] = 1;
   }
   if (!M) {
     M = new dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise>(
-        max_degree + 2, max_degree + 2);
+        max_degree + 3, max_degree + 3);
     delete_mem_pool[1] = 1;
   }
 
   /* check scratch space */
-  if ((W->rows() < max_degree + 2) || (W->cols() < max_degree + 2) ||
-      (M->rows() < max_degree + 2) || (M->cols() < max_degree + 2)) {
+  if ((W->rows() < max_degree + 3) || (W->cols() < max_degree + 3) ||
+      (M->rows() < max_degree + 3) || (M->cols() < max_degree + 3)) {
     fprintf(stderr,
             "[ERROR] Invalid size of mem pool for spherical harmonics "
             "expansion! (traceback: %s)\n",
-- 
2.43.0


From cf8227bb44bdc82308402a96be6a7f106903d7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:56 +0000
Subject: [PATCH 06/68] fix: spherical harmonics expansion of a degree above
 the factor table must return an error

---
 src/lib/gravity/sh_cunningham_normalized_gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
index 2adea1c..9d72b66 100644
--- a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
+++ b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
@@ -82,7 +82,7 @@ int sh2gradient_cunningham_impl(
             "[ERROR] (Static) Size for NormalizedLegendreFactors must be "
             "augmented to perform computation (traceback: %s)\n",
             __func__);
-    assert(false);
+    return 1;
   }
 
 #ifdef DEBUG
-- 
2.43.0


From 7380aff57b334c614f96eeb49a5cf66a333d4874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:56 +0000
Subject: [PATCH 07/68] fix: gradient of an expansion with order < degree
 missed terms of order+2

---
 src/lib/gravity/sh_cunningham_normalized_gradient.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
index 9d72b66..e15186b 100644
--- a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
+++ b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
@@ -152,6 +152,15 @@ int sh2gradient_cunningham_impl(
       const int m = order + 2;
       M(m, m) = F.f1(m, m) * (x * M(m - 1, m - 1) - y * W(m - 1, m - 1));
       W(m, m) = F.f1(m, m) * (y * M(m - 1, m - 1) + x * W(m - 1, m - 1));
+      /* when order < degree, the gradient needs the rest of this column too */
+      if (order < degree) {
+        M(m + 1, m) = F.f1(m + 1, m) * z * M(m, m);
+        W(m + 1, m) = F.f1(m + 1, m) * z * W(m, m);
+      }
+      for (int n = m + 2; n <= degree + 2; n++) {
+        M(n, m) = F.f1(n, m) * z * M(n - 1, m) + F.f2(n, m) * rr * M(n - 2, m);
+        W(n, m) = F.f1(n, m) * z * W(n - 1, m) + F.f2(n, m) * rr * W(n - 2, m);
+      }
     }
 
     //M.multiply(1e-280);
-- 
2.43.0


From 091250ddbf7f062dec316bf25989d46ea5a9903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:56 +0000
Subject: [PATCH 08/68] fix: scratch space allocated by the spherical harmonics
 expansion leaked when the other one was too small

---
 src/lib/gravity/sh_cunningham_normalized_gradient.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
index e15186b..a52fe7a 100644
--- a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
+++ b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
@@ -451,6 +451,10 @@ int dso::sh2gradient_cunningham(
             "[ERROR] Invalid size of mem pool for spherical harmonics "
             "expansion! (traceback: %s)\n",
             __func__);
+    if (delete_mem_pool[0])
+      delete W;
+    if (delete_mem_pool[1])
+      delete M;
     return 1;
   }
 
-- 
2.43.0


From 5b0476de2dd4947a317f41df5066ac85fc2df833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:56 +0000
Subject: [PATCH 09/68] fix: associated Legendre functions wrote past the end
 of an exactly sized matrix

---
 src/lib/gravity/forward_column_alf.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lib/gravity/forward_column_alf.cpp b/src/lib/gravity/forward_column_alf.cpp
index 2e7731b..cb55cc6 100644
--- a/src/lib/gravity/forward_column_alf.cpp
+++ b/src/lib/gravity/forward_column_alf.cpp
@@ -33,7 +33,8 @@ int dso::normalised_associated_legendre_functions(
 
   /* first two terms */
   P(0, 0) = 1e0;
-  P(1, 1) = std::sqrt(3e0) * u;
+  if (max_order > 0)
+    P(1, 1) = std::sqrt(3e0) * u;
 
   /* loop through columns, m=[0,max_order) */
   for (int m = 0; m < max_order; m++) {
@@ -54,7 +55,8 @@ int dso::normalised_associated_legendre_functions(
   /* last column, m=max_order */
   int m = max_order;
   double *__restrict__ pmm = P.column(m);
-  pmm[1] = anm(m + 1, m) * t * pmm[0];
+  if (max_degree > m)
+    pmm[1] = anm(m + 1, m) * t * pmm[0];
   for (int n = m + 2; n <= max_degree; n++) {
     int k = n - m;
     pmm[k] = anm(n, m) * t * pmm[k - 1] - bnm(n, m) * pmm[k - 2];
@@ -77,7 +79,8 @@ int dso::normalised_associated_legendre_functions(
 
   /* first two terms */
   P(0, 0) = 1e0;
-  P(1, 1) = std::sqrt(3e0) * u;
+  if (max_order > 0)
+    P(1, 1) = std::sqrt(3e0) * u;
 
   const double uinv = 1e0/u;
   /* loop through columns, m=[0,max_order) */
@@ -108,8 +111,10 @@ int dso::normalised_associated_legendre_functions(
   /* sectorial of derivative, n=m */
   dpmm[0] = m * (t/u) * pmm[0];
   /* first value from sectorial, n=m+1*/
-  pmm[1] = anm(m + 1, m) * t * pmm[0];
-  dpmm[1] = uinv * ((m+1)*t*pmm[1] - fnm(m+1,m)*pmm[0]);
+  if (max_degree > m) {
+    pmm[1] = anm(m + 1, m) * t * pmm[0];
+    dpmm[1] = uinv * ((m+1)*t*pmm[1] - fnm(m+1,m)*pmm[0]);
+  }
   for (int n = m + 2; n <= max_degree; n++) {
     int k = n - m;
     pmm[k] = anm(n, m) * t * pmm[k - 1] - bnm(n, m) * pmm[k - 2];
-- 
2.43.0


From df2c7c0b6a2a0466ec887a4741cff2f8e3a381e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:56 +0000
Subject: [PATCH 10/68] fix: integer overflow in the factors of associated
 Legendre functions of degree above 1023

---
 src/lib/gravity/forward_column_alf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/gravity/forward_column_alf.cpp b/src/lib/gravity/forward_column_alf.cpp
index cb55cc6..b1a07ed 100644
--- a/src/lib/gravity/forward_column_alf.cpp
+++ b/src/lib/gravity/forward_column_alf.cpp
@@ -8,13 +8,13 @@ inline double anm(int n, int m) noexcept {
 }
 
 inline double bnm(int n, int m) noexcept {
-  long b1 = (2*n+1)*(n+m-1)*(n-m-1);
-  long b2 = (n-m)*(n+m)*(2*n-3);
+  long b1 = (2L*n+1)*(n+m-1)*(n-m-1);
+  long b2 = (long)(n-m)*(n+m)*(2*n-3);
   return std::sqrt( (double)b1 / (double)b2 );
 }
 
 inline double fnm(int n, int m) noexcept {
-  long f1 = (n * n - m * m) * (2 * n + 1);
+  long f1 = (long)(n * n - m * m) * (2 * n + 1);
   long f2 = 2 * n - 1;
   return std::sqrt((double)f1 / (double)f2);
 }
-- 
2.43.0


From 5a8d67b8fe0de6bf6b9ceba520cea0d0e23e6112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:47 +0000
Subject: [PATCH 11/68] fix: node of a grid index was wrong for x-leading grids
 with different number of points per axis

---
 include/grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/grid.hpp b/include/grid.hpp
index 777c8f7..f0863e4 100644
--- a/include/grid.hpp
+++ b/include/grid.hpp
@@ -84,7 +84,7 @@ public:
   Node xyindex2node(long index) const noexcept {
     if constexpr (LeadingAxis == GridAxis::X) {
       long xi = index / mypts;
-      long yi = index - xi * mxpts;
+      long yi = index - xi * mypts;
       return Node{xi * mxstep + mxstart, yi * mystep + mystart};
     } else {
       int yi = index / mxpts;
-- 
2.43.0


From a97310cf354d2a1b6678574cc57f5ea69343afad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:47 +0000
Subject: [PATCH 12/68] fix: wrong top-right node of the cell surrounding a
 point in x-leading grids

---
 include/grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/grid.hpp b/include/grid.hpp
index f0863e4..786a46e 100644
--- a/include/grid.hpp
+++ b/include/grid.hpp
@@ -48,7 +48,7 @@ private:
     if constexpr (LeadingAxis == GridAxis::X) {
       idx_br = idx_bl + mypts;
       idx_tl = idx_bl + 1;
-      idx_tr = idx_tl + 1;
+      idx_tr = idx_br + 1;
     } else {
       idx_br = idx_bl + 1;
       idx_tl = idx_bl + mxpts;
-- 
2.43.0


From e9f305ecefb422b2d428edbfcd36b3dab3048905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:47 +0000
Subject: [PATCH 13/68] fix: nodes surrounding a point out of the grid's range
 must be reported as such

---
 include/grid.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/grid.hpp b/include/grid.hpp
index 786a46e..482c0ef 100644
--- a/include/grid.hpp
+++ b/include/grid.hpp
@@ -97,8 +97,9 @@ public:
                          long &idx_tl, long &idx_tr) const noexcept {
     idx_bl = line(x, y);
     if (idx_bl < 0)
-      idx_bl = idx_br = idx_tl = idx_tr = -1;
-    surrounding_nodes(idx_bl, idx_br, idx_tl, idx_tr);
+      idx_br = idx_tl = idx_tr = -1;
+    else
+      surrounding_nodes(idx_bl, idx_br, idx_tl, idx_tr);
   }
 
 }; /* class TwoDimGrid */
-- 
2.43.0


From 1a2c4c67afb4522fd7f34f735575a02eee85f984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:47 +0000
Subject: [PATCH 14/68] fix: average running time of a clock was truncated, and
 divided by zero without samples

---
 include/clock.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/clock.hpp b/include/clock.hpp
index be849cd..463c0ac 100644
--- a/include/clock.hpp
+++ b/include/clock.hpp
@@ -23,7 +23,11 @@ struct Clock {
   }
   template <typename T = std::chrono::microseconds>
   double average_running_time() const {
-    return get_total_duration<T>().count() / msamples;
+    if (!msamples)
+      return 0e0;
+    return std::chrono::duration<double, typename T::period>(total_duration)
+               .count() /
+           msamples;
   }
 
   Clock(const char *n) { std::strcpy(mname, n); }
-- 
2.43.0


From 485bdef91a8c1cf2a39f1eb1604fbf5b78022f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:47 +0000
Subject: [PATCH 15/68] fix: a long clock name was written past the end of its
 buffer

---
 include/clock.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/clock.hpp b/include/clock.hpp
index 463c0ac..799641b 100644
--- a/include/clock.hpp
+++ b/include/clock.hpp
@@ -30,7 +30,7 @@ struct Clock {
            msamples;
   }
 
-  Clock(const char *n) { std::strcpy(mname, n); }
+  Clock(const char *n) { std::strncpy(mname, n, sizeof(mname) - 1); }
 
   Clock(const Clock &other) {
     start_time = other.start_time;
-- 
2.43.0


From 301aa2e6c4d25ea7b4b85ba42333fc16df17b74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:34 +0000
Subject: [PATCH 16/68] fix: spherical harmonics expansion of order 0 included
 the terms of order 1

---
 src/lib/gravity/sh_cunningham_normalized_gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
index a52fe7a..dc98d1f 100644
--- a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
+++ b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
@@ -259,7 +259,7 @@ int sh2gradient_cunningham_impl(
   } /* loop over m */
 
   /* order m = 1 (begin summation from smaller terms) */
-  for (int n = degree; n >= 1; --n) {
+  for (int n = degree; order >= 1 && n >= 1; --n) {
     const int m = 1;
     {
       /* acceleration
-- 
2.43.0


From 70a1da47bbf5d0013b8da549727f4b0ec55bf1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:38 +0000
Subject: [PATCH 17/68] fix: inconsistent hours in a C04/20 file ended the
 program instead of an error

---
 src/lib/eop/parse_iers_c0420.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/eop/parse_iers_c0420.cpp b/src/lib/eop/parse_iers_c0420.cpp
index 4919316..2fe7ffd 100644
--- a/src/lib/eop/parse_iers_c0420.cpp
+++ b/src/lib/eop/parse_iers_c0420.cpp
@@ -3,7 +3,7 @@
 #include <cstdio>
 #include <cstring>
 #include <fstream>
-#include <cassert>
+#include <cmath>
 
 namespace {
 constexpr const std::size_t MAX_LINE_CHARS = 256;
@@ -106,7 +106,13 @@ int dso::details::parse_iers_C0420(const char *c04fn,
         /* split the real MJD to integral and fractional part, and verify */
         double imjd;
         double fdays = std::modf(mjd, &imjd);
-        assert(fdays == hours/24e0);
+        if (std::abs(fdays * 24e0 - hours) > .5e0) {
+          fprintf(stderr,
+                  "[ERROR] Hours and MJD do not agree in eop file %s "
+                  "(traceback: %s)\n",
+                  c04fn, __func__);
+          return 2;
+        }
         ct = dso::TwoPartDateUTC(
             (int)imjd,
             dso::FractionalSeconds{fdays * dso::SEC_PER_DAY});
-- 
2.43.0


From 5379950b0cbcbc7b8dbe82c10b503c06c20a305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:44 +0000
Subject: [PATCH 18/68] fix: a copied or moved EOP series kept an iterator into
 the other series

---
 include/eop.hpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/include/eop.hpp b/include/eop.hpp
index 062def8..7bffb3a 100644
--- a/include/eop.hpp
+++ b/include/eop.hpp
@@ -232,6 +232,32 @@ class EopSeries {
   void regularize_impl(int scale) noexcept;
 
 public:
+  EopSeries() noexcept = default;
+
+  /* The iterator of the last position belongs to the vector of one instance;
+   * it must never be copied or moved to another one.
+   */
+  EopSeries(const EopSeries &other) : mvec(other.mvec), last_it(mvec.end()) {}
+  EopSeries(EopSeries &&other) noexcept
+      : mvec(std::move(other.mvec)), last_it(mvec.end()) {
+    other.clear();
+  }
+  EopSeries &operator=(const EopSeries &other) {
+    if (this != &other) {
+      mvec = other.mvec;
+      last_it = mvec.end();
+    }
+    return *this;
+  }
+  EopSeries &operator=(EopSeries &&other) noexcept {
+    if (this != &other) {
+      mvec = std::move(other.mvec);
+      last_it = mvec.end();
+      other.clear();
+    }
+    return *this;
+  }
+
   /** Signal interpolation result */
   enum class EopInterpolationResult : char {
     OutOfBoundsPrior,
@@ -250,7 +276,10 @@ public:
   const auto &give_me_the_vector() const noexcept { return mvec; }
 
   /** Clear all entries in the series */
-  void clear() noexcept { return mvec.clear(); }
+  void clear() noexcept {
+    mvec.clear();
+    last_it = mvec.end();
+  }
 
   /** Get number of epochs/entries in Series */
   int num_entries() const noexcept { return mvec.size(); }
-- 
2.43.0


From 3804c387a9c2b268945f84a83fd125f6c88ea532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:09 +0000
Subject: [PATCH 19/68] fix: derivatives of the fundamental arguments missed
 the factors of the powers of time

---
 include/fundarg.hpp | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/include/fundarg.hpp b/include/fundarg.hpp
index 1dda1fd..dd23260 100644
--- a/include/fundarg.hpp
+++ b/include/fundarg.hpp
@@ -40,11 +40,11 @@ double *fundarg(double tjc, double *fargs) noexcept;
  * @param[in]  t     TT, Julian centuries since J2000
  * @param[out] fargs A 5-element array containing the computed derivatives of 
  *             fundamental arguments, in the following order:
- *    fargs[0] -> d(l)/dt  in [rad / day] 
- *    fargs[1] -> d(lp)/dt in [rad / day]
- *    fargs[2] -> d(f)/dt  in [rad / day]
- *    fargs[3] -> d(d)/dt  in [rad / day]
- *    fargs[4] -> d(om)/dt in [rad / day]
+ *    fargs[0] -> d(l)/dt  in [rad / century] 
+ *    fargs[1] -> d(lp)/dt in [rad / century]
+ *    fargs[2] -> d(f)/dt  in [rad / century]
+ *    fargs[3] -> d(d)/dt  in [rad / century]
+ *    fargs[4] -> d(om)/dt in [rad / century]
  * @return Pointer to the first element in fargs
  */
 double *fundarg_derivs(double tjc, double *fargs) noexcept;
@@ -70,12 +70,13 @@ inline double fal03(double t) noexcept {
 /* @brief Time derivative of mean anomaly of the Moon, i.e. d(fal)/dTT
  *
  * @param[in] t Julian centuries since J2000.0 [TT] or [TDB]
- * @return derivative of mean anomaly of the Moon, [rad/day]
+ * @return derivative of mean anomaly of the Moon, [rad/century]
  */
 inline double dfal03(double t) noexcept {
   const double a =
-      dso::sec2rad(1717915923.2178e0 +
-                   t * (31.8792e0 + t * (0.051635e0 + t * (-0.00024470e0))));
+      dso::sec2rad(
+          1717915923.2178e0 +
+          t * (2e0 * 31.8792e0 + t * (3e0 * 0.051635e0 + t * (4e0 * (-0.00024470e0)))));
   return a;
 }
 
@@ -100,12 +101,13 @@ inline double falp03(double t) noexcept {
 /* @brief Derivative of mean anomaly of the Sun, i.e. d(flap)/dTT
  *
  * @param[in] t Julian centuries since J2000.0 [TT] or [TDB]
- * @return derivative of mean anomaly of the Sun, [rad/day]
+ * @return derivative of mean anomaly of the Sun, [rad/century]
  */
 inline double dfalp03(double t) noexcept {
   const double a =
-      dso::sec2rad(129596581.0481e0 +
-                   t * (-0.5532e0 + t * (0.000136e0 + t * (-0.00001149e0))));
+      dso::sec2rad(
+          129596581.0481e0 +
+          t * (2e0 * (-0.5532e0) + t * (3e0 * 0.000136e0 + t * (4e0 * (-0.00001149e0)))));
   return a;
 }
 
@@ -131,12 +133,13 @@ inline double faf03(double t) noexcept {
  *  the ascending node, i.e. d(faf)/dTT
  *
  * @param[in] t Julian centuries since J2000.0 [TT] or [TDB]
- * @return dF/dTT, in [rad/day] 
+ * @return dF/dTT, in [rad/century] 
  */
 inline double dfaf03(double t) noexcept {
   const double a =
-      dso::sec2rad(1739527262.8478e0 +
-                   t * (-12.7512e0 + t * (-0.001037e0 + t * (0.00000417e0))));
+      dso::sec2rad(
+          1739527262.8478e0 +
+          t * (2e0 * (-12.7512e0) + t * (3e0 * (-0.001037e0) + t * (4e0 * 0.00000417e0))));
   return a;
 }
 
@@ -165,12 +168,13 @@ inline double fad03(double t) noexcept {
  * makes no significant difference.
  *
  * @param[in] t Julian centuries since J2000.0 [TT] or [TDB]
- * @return  d(D)/dTT in [rad/day]
+ * @return  d(D)/dTT in [rad/century]
  */
 inline double dfad03(double t) noexcept {
   const double a =
-      dso::sec2rad(1602961601.2090e0 +
-                   t * (-6.3706e0 + t * (0.006593e0 + t * (-0.00003169e0))));
+      dso::sec2rad(
+          1602961601.2090e0 +
+          t * (2e0 * (-6.3706e0) + t * (3e0 * 0.006593e0 + t * (4e0 * (-0.00003169e0)))));
   return a;
 }
 
@@ -196,12 +200,13 @@ inline double faom03(double t) noexcept {
  * d(Ω)dTT.
  *
  * @param[in] t Julian centuries since J2000.0 [TT] or [TDB]
- * @return d(Ω)/dTT in [rad/day]
+ * @return d(Ω)/dTT in [rad/century]
  */
 inline double dfaom03(double t) noexcept {
   const double a =
-      dso::sec2rad(-6962890.5431e0 +
-                   t * (7.4722e0 + t * (0.007702e0 + t * (-0.00005939e0))));
+      dso::sec2rad(
+          -6962890.5431e0 +
+          t * (2e0 * 7.4722e0 + t * (3e0 * 0.007702e0 + t * (4e0 * (-0.00005939e0)))));
   return a;
 }
 
-- 
2.43.0


From 03941b1fa2261f02b12b8094b8d43a0eb4d4150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:09 +0000
Subject: [PATCH 20/68] fix: derivative of F for an epoch was F itself

---
 include/fundarg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fundarg.hpp b/include/fundarg.hpp
index dd23260..41aef3a 100644
--- a/include/fundarg.hpp
+++ b/include/fundarg.hpp
@@ -372,7 +372,7 @@ inline double faf03(const dso::MjdEpoch &tt) noexcept {
 
 /* @brief Overload of dfaf03 using a MjdEpoch */
 inline double dfaf03(const dso::MjdEpoch &tt) noexcept {
-  return iers2010::faf03(tt.jcenturies_sinceJ2000());
+  return iers2010::dfaf03(tt.jcenturies_sinceJ2000());
 }
 
 /* @brief Overload of fad03 using a MjdEpoch */
-- 
2.43.0


From f1e0f2f8b16ce55fee88f0668c2e5e091f403df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:56 +0000
Subject: [PATCH 21/68] fix: resolving a Doodson number read past the end of a
 string of three characters

---
 src/lib/doodson/doodson_from_chars.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/lib/doodson/doodson_from_chars.cpp b/src/lib/doodson/doodson_from_chars.cpp
index a84c7bb..6549b83 100644
--- a/src/lib/doodson/doodson_from_chars.cpp
+++ b/src/lib/doodson/doodson_from_chars.cpp
@@ -3,6 +3,15 @@
 #include <stdexcept>
 
 dso::DoodsonConstituent dso::DoodsonConstituent::from_chars(const char *cstr) {
+  /* the string may end before its seventh character */
+  if (!cstr[0] || !cstr[1] || !cstr[2] || cstr[3] != '.') {
+    fprintf(stderr,
+            "[ERROR] Failed resolving Doodson number from string: %.7s "
+            "(traceback: %s)\n",
+            cstr, __func__);
+    throw std::runtime_error("[ERROR] Failed resolving Doodson number\n");
+  }
+
   int ints[6] = {
     dso::DoodsonConstituent::char2int(cstr[0]),
     dso::DoodsonConstituent::char2int(cstr[1])-5,
@@ -11,13 +20,5 @@ dso::DoodsonConstituent dso::DoodsonConstituent::from_chars(const char *cstr) {
     dso::DoodsonConstituent::char2int(cstr[5])-5,
     dso::DoodsonConstituent::char2int(cstr[6])-5};
 
-  if (cstr[3]!='.') {
-    fprintf(stderr,
-            "[ERROR] Failed resolving Doodson number from string: %s "
-            "(traceback: %s)\n",
-            cstr, __func__);
-    throw std::runtime_error("[ERROR] Failed resolving Doodson number\n");
-  }
-
   return dso::DoodsonConstituent(ints);
 }
-- 
2.43.0


From bf31cbdc785bad6ef311a6f90105bafbe82f15b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:08 +0000
Subject: [PATCH 22/68] fix: resolving an IERS Doodson string accepted other
 characters than digits and read past its end

---
 .../resolve_iers2010_doodson_string.cpp       | 27 ++++++++-----------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/lib/doodson/resolve_iers2010_doodson_string.cpp b/src/lib/doodson/resolve_iers2010_doodson_string.cpp
index db95d02..4765811 100644
--- a/src/lib/doodson/resolve_iers2010_doodson_string.cpp
+++ b/src/lib/doodson/resolve_iers2010_doodson_string.cpp
@@ -11,26 +11,21 @@ dso::DoodsonConstituent dso::resolve_iers10_doodson_string(const char *cstr) {
   while (*str && *str == ' ')
     ++str;
 
-  ints[0] = *str++ - '0';
-  ints[1] = (*str++ - '0') - 5;
-  ints[2] = (*str++ - '0') - 5;
-  if (*str != '.')
-    error = 1;
-  
-  ++str;
-  ints[3] = (*str++ - '0') - 5;
-  ints[4] = (*str++ - '0') - 5;
-  ints[5] = (*str++ - '0') - 5;
-
-  for (int i = 0; i < 6; i++)
-    if (ints[i] < -9 || ints[i] > 9)
-      error += 1;
+  /* [xxx.xxx], digits only; do not go past the end of a shorter string */
+  for (int i = 0; i < 7 && !error; i++) {
+    if (i == 3)
+      error = (str[i] != '.');
+    else if (str[i] < '0' || str[i] > '9')
+      error = 1;
+    else
+      ints[i - (i > 3)] = (str[i] - '0') - (i ? 5 : 0);
+  }
 
   if (error) {
     fprintf(stderr,
-            "[ERROR] Failed resolving Doodson number from string: %s "
+            "[ERROR] Failed resolving Doodson number from string: %.7s "
             "(traceback: %s)\n",
-            cstr, __func__);
+            str, __func__);
     throw std::runtime_error("[ERROR] Failed resolving Doodson number\n");
   }
 
-- 
2.43.0


From dcb15512a2a681e3abf8aace1f27b65e32c0f409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:08 +0000
Subject: [PATCH 23/68] fix: functions matching ocean tide waves were defined
 outside of their namespace

---
 src/lib/doodson/match_tadal_constituents.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/doodson/match_tadal_constituents.cpp b/src/lib/doodson/match_tadal_constituents.cpp
index c4cccbd..07dcfe1 100644
--- a/src/lib/doodson/match_tadal_constituents.cpp
+++ b/src/lib/doodson/match_tadal_constituents.cpp
@@ -7,7 +7,7 @@
 #endif
 
 const dso::detail::TidalConstituentArrayEntry *
-match_ocean_tide_wave(const char *wave) noexcept {
+dso::detail::match_ocean_tide_wave(const char *wave) noexcept {
   for (const auto &w : dso::detail::OceanicTidalHarmonics) {
     const char *a = w.name();
     const char *b = wave;
@@ -18,7 +18,7 @@ match_ocean_tide_wave(const char *wave) noexcept {
 }
 
 const dso::detail::TidalConstituentArrayEntry *
-match_ocean_tide_wave(const dso::DoodsonConstituent &wave) noexcept {
+dso::detail::match_ocean_tide_wave(const dso::DoodsonConstituent &wave) noexcept {
   for (const auto &w : dso::detail::OceanicTidalHarmonics) {
     if (wave == w._d) return &w;
   }
-- 
2.43.0


From de89b5d083fc24bdb55a1b15834aeef8d4cbe05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:08 +0000
Subject: [PATCH 24/68] fix: the name of a tidal wave was left without a
 terminator when longer than its buffer

---
 include/doodson.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/doodson.hpp b/include/doodson.hpp
index f25a0ec..e6b41f3 100644
--- a/include/doodson.hpp
+++ b/include/doodson.hpp
@@ -216,7 +216,7 @@ public:
    *   [z] -> -1           [l] -> 21
    *   [a] -> 10           [m] -> 22
    *
-   * @param[out] buf A char buffer of size at least 7 where the instance
+   * @param[out] buf A char buffer of size at least 8 where the instance
    *            will be written to.
    * @param[in] use_5s_convention Add +5 to all integers after the first
    *            place (i.e. write the string as: τ,s+5,h+5,p+5,N'+5,ps+5)
@@ -507,7 +507,7 @@ public:
   TidalWave(const DoodsonConstituent &d, double per=0, double hf=0,
             const char *name=nullptr) noexcept
       : _d(d), _per(per), _hf(hf) {
-    if (name) std::strncpy(_n, name, detail::MAX_CHARS_TIDAL_WAVE);
+    if (name) std::strncpy(_n, name, detail::MAX_CHARS_TIDAL_WAVE - 1);
   }
 }; /* TidalWave */
 
-- 
2.43.0


From de7bf39de76f631308effd8b231e992bbf0f6b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:08 +0000
Subject: [PATCH 25/68] fix: the atmospheric wave L2 had the frequency of N2

---
 include/doodson.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/doodson.hpp b/include/doodson.hpp
index e6b41f3..497c892 100644
--- a/include/doodson.hpp
+++ b/include/doodson.hpp
@@ -413,7 +413,7 @@ constexpr static std::array<TidalConstituentArrayEntry, 18>
           28.439729500000, 0.00, "N2"},
           /* extraced from [3] Table 5.1 */
          {/*265.455*/ DoodsonConstituent(2, 1, 0, -1, 0, 0, +2.0e+00), 
-          28.439729500000, 0.00, "L2"},
+          29.528478900000, 0.00, "L2"},
          {/*381.555*/ DoodsonConstituent(3, 3, -4, 0, 0, 0, +0.0e+00),
           44.958935590000, 0.00, "T3"},
           /* S3: the pifactor here is found by trial-and-error using COST-G
-- 
2.43.0


From aa389c90bea969ac110f1bfd5be3d450f25781bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:13 +0000
Subject: [PATCH 26/68] fix: a long value in an ICGEM header was written past
 the end of its buffer

---
 src/lib/icgem/icgemio_read_header.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lib/icgem/icgemio_read_header.cpp b/src/lib/icgem/icgemio_read_header.cpp
index aebf6a8..41c166c 100644
--- a/src/lib/icgem/icgemio_read_header.cpp
+++ b/src/lib/icgem/icgemio_read_header.cpp
@@ -43,6 +43,12 @@ const char *right_trim(char *str) noexcept {
   return right;
 }
 
+/** Copy an argument to a buffer of given size, cut to fit if needed */
+char *copy_argument(char *buf, std::size_t size, const char *arg) noexcept {
+  std::snprintf(buf, size, "%s", arg);
+  return buf;
+}
+
 /** Check if a given line corresponds to a given parameter name (or keyword)
  *
  * Example of ICGEM (header):
@@ -139,7 +145,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "product_type", _filename.c_str(), __func__);
         error = 1;
       } else {
-        right_trim(std::strcpy(_product_type, arg));
+        right_trim(copy_argument(_product_type, sizeof(_product_type), arg));
       }
 
       /* check if this the 'modelname' field (mandatory keyword) */
@@ -151,7 +157,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "modelname", _filename.c_str(), __func__);
         error = 1;
       } else {
-        right_trim(std::strcpy(_modelname, arg));
+        right_trim(copy_argument(_modelname, sizeof(_modelname), arg));
       }
 
       /* check if this the 'earth_gravity_constant' field (mandatory keyword) */
@@ -248,7 +254,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "tide_system", _filename.c_str(), __func__);
         error = 1;
       } else {
-        right_trim(std::strcpy(_tide_system, arg));
+        right_trim(copy_argument(_tide_system, sizeof(_tide_system), arg));
       }
 
       /* check if this the 'norm' field (optional keyword) */
@@ -260,7 +266,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "norm", _filename.c_str(), __func__);
         error = 1;
       } else {
-        right_trim(std::strcpy(_norm, arg));
+        right_trim(copy_argument(_norm, sizeof(_norm), arg));
       }
 
       /* check for format/version */
-- 
2.43.0


From d5dbde33d9a820850c184af756663fff02acfcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:13 +0000
Subject: [PATCH 27/68] fix: words that begin like an ICGEM header keyword were
 taken for it

---
 src/lib/icgem/icgemio_read_header.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/icgem/icgemio_read_header.cpp b/src/lib/icgem/icgemio_read_header.cpp
index 41c166c..07cbe95 100644
--- a/src/lib/icgem/icgemio_read_header.cpp
+++ b/src/lib/icgem/icgemio_read_header.cpp
@@ -1,5 +1,6 @@
 #include "icgemio.hpp"
 #include <cassert>
+#include <cctype>
 #include <charconv>
 #include <cstdio>
 #include <cstdlib>
@@ -82,7 +83,8 @@ int match_header_keyword(const char *parameter, const char *line,
   const char *str = next_non_ws_char(line);
 
   /* does the line start with the parameter_name string ? */
-  if (!std::strncmp(str, parameter, psz)) {
+  if (!std::strncmp(str, parameter, psz) &&
+      (!str[psz] || std::isspace(static_cast<unsigned char>(str[psz])))) {
     /* start of new word after the keyword in line */
     argument = next_non_ws_char(next_ws_char(str));
     return 1;
-- 
2.43.0


From 609efdb42ecd38dc063851a2c4c92f0629162bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:13 +0000
Subject: [PATCH 28/68] fix: error model of an ICGEM file without that keyword
 was uninitialised

---
 include/icgemio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/icgemio.hpp b/include/icgemio.hpp
index 3a18384..4982836 100644
--- a/include/icgemio.hpp
+++ b/include/icgemio.hpp
@@ -78,7 +78,7 @@ private:
    *   both "calibrated_and_formal" 
    * errors are included
    */
-  ErrorModel _errors;
+  ErrorModel _errors{ErrorModel::No};
   /** gravitational constant times mass of the earth [m^3s^-2] */
   double _earth_gravity_constant{0e0};
   /** reference radius of the spherical harmonic development [m] */
-- 
2.43.0


From a34893ddaa3030d777e98f346f0acf33718d8969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:13 +0000
Subject: [PATCH 29/68] fix: Fortran exponents in an ICGEM header were ignored

---
 src/lib/icgem/icgemio_read_header.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/lib/icgem/icgemio_read_header.cpp b/src/lib/icgem/icgemio_read_header.cpp
index 07cbe95..c242755 100644
--- a/src/lib/icgem/icgemio_read_header.cpp
+++ b/src/lib/icgem/icgemio_read_header.cpp
@@ -50,6 +50,19 @@ char *copy_argument(char *buf, std::size_t size, const char *arg) noexcept {
   return buf;
 }
 
+/** Resolve a real number; Fortran exponents (e.g. 1.0D+03) are allowed.
+ *
+ * @return Anything other than 0 denotes an error
+ */
+int parse_real(const char *arg, double &val) noexcept {
+  char buf[bsz];
+  std::snprintf(buf, bsz, "%s", (*arg == '+') ? arg + 1 : arg);
+  for (char *c = buf; *c && *c != ' '; ++c)
+    if (*c == 'D' || *c == 'd')
+      *c = 'e';
+  return std::from_chars(buf, buf + std::strlen(buf), val).ec != std::errc{};
+}
+
 /** Check if a given line corresponds to a given parameter name (or keyword)
  *
  * Example of ICGEM (header):
@@ -171,9 +184,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "earth_gravity_constant", _filename.c_str(), __func__);
         error = 1;
       } else {
-        if ((std::from_chars(arg, arg + std::strlen(arg),
-                             _earth_gravity_constant))
-                .ec != std::errc{}) {
+        if (parse_real(arg, _earth_gravity_constant)) {
           fprintf(stderr,
                   "[ERROR] Failed parsing value for parameter %s in icgem "
                   "%s(traceback: %s)\n",
@@ -191,8 +202,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "radius", _filename.c_str(), __func__);
         error = 1;
       } else {
-        if ((std::from_chars(arg, arg + std::strlen(arg), _radius)).ec !=
-            std::errc{}) {
+        if (parse_real(arg, _radius)) {
           fprintf(stderr,
                   "[ERROR] Failed parsing value for parameter %s in icgem "
                   "%s(traceback: %s)\n",
-- 
2.43.0


From 513fa168533051230bda3540099c05433ac55e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:13 +0000
Subject: [PATCH 30/68] fix: a damaged ICGEM data line was used before the
 error was reported

---
 src/lib/icgem/icgemio_read_data_v1.cpp | 5 ++++-
 src/lib/icgem/icgemio_read_data_v2.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/icgem/icgemio_read_data_v1.cpp b/src/lib/icgem/icgemio_read_data_v1.cpp
index 6bc8e01..ac7d99c 100644
--- a/src/lib/icgem/icgemio_read_data_v1.cpp
+++ b/src/lib/icgem/icgemio_read_data_v1.cpp
@@ -57,7 +57,10 @@ int dso::Icgem::parse_data_v1(int l, int k, const Icgem::Datetime &t,
    */
   while (fin.getline(line, max_data_line) && !error) {
     error += resolve_icgem_data_line_v1(line, err, entry);
-    {
+    /* no such term */
+    if (!error && (entry.order < 0 || entry.degree < entry.order))
+      ++error;
+    if (!error) {
       double C=0e0,S=0e0;
       if (entry.degree <= n && entry.order <= m) {
         /* set maximum degree/order */
diff --git a/src/lib/icgem/icgemio_read_data_v2.cpp b/src/lib/icgem/icgemio_read_data_v2.cpp
index ea10fbc..205c72f 100644
--- a/src/lib/icgem/icgemio_read_data_v2.cpp
+++ b/src/lib/icgem/icgemio_read_data_v2.cpp
@@ -55,7 +55,10 @@ int dso::Icgem::parse_data_v2(int l, int k, const Icgem::Datetime &t,
   /* keep reading coefficients */
   while (fin.getline(line, max_data_line) && !error) {
     error += resolve_icgem_data_line_v2(line, err, entry);
-    {
+    /* no such term */
+    if (!error && (entry.order < 0 || entry.degree < entry.order))
+      ++error;
+    if (!error) {
       int interval_ok = (t >= entry.t0 && t < entry.t1);
       if (interval_ok && entry.degree <= n && entry.order <= m) {
         /* set maximum degree and order collected */
-- 
2.43.0


From 02e505f11035dba6b48350194b8f5e66a4711753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:13 +0000
Subject: [PATCH 31/68] fix: an ICGEM term without its reference epoch ended
 the program instead of an error

---
 src/lib/icgem/icgemio_read_data_v1.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/icgem/icgemio_read_data_v1.cpp b/src/lib/icgem/icgemio_read_data_v1.cpp
index ac7d99c..9377244 100644
--- a/src/lib/icgem/icgemio_read_data_v1.cpp
+++ b/src/lib/icgem/icgemio_read_data_v1.cpp
@@ -84,20 +84,20 @@ int dso::Icgem::parse_data_v1(int l, int k, const Icgem::Datetime &t,
           case DataEntryType::trnd:
             C = entry.C * dt;
             S = entry.S * dt;
-            assert(current_n == entry.degree);
-            assert(current_m == entry.order);
+            if (current_n != entry.degree || current_m != entry.order)
+              ++error;
             break;
           case DataEntryType::asin:
             C = entry.C * std::sin((D2PI / entry.period) * dt);
             S = entry.S * std::sin((D2PI / entry.period) * dt);
-            assert(current_n == entry.degree);
-            assert(current_m == entry.order);
+            if (current_n != entry.degree || current_m != entry.order)
+              ++error;
             break;
           case DataEntryType::acos:
             C = entry.C * std::cos((D2PI / entry.period) * dt);
             S = entry.S * std::cos((D2PI / entry.period) * dt);
-            assert(current_n == entry.degree);
-            assert(current_m == entry.order);
+            if (current_n != entry.degree || current_m != entry.order)
+              ++error;
             break;
           default:
             /* just use current_[nm] to silence compiler warnings on set but 
-- 
2.43.0


From ea5f6fcc5f6df901e9dca43d22e2562c57597dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:37 +0000
Subject: [PATCH 32/68] fix: dates of ICGEM terms were accepted incomplete, and
 read past the end of the line

---
 src/lib/icgem/resolve_igcem_data_date_v1.cpp | 10 ++++++++++
 src/lib/icgem/resolve_igcem_data_date_v2.cpp | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/lib/icgem/resolve_igcem_data_date_v1.cpp b/src/lib/icgem/resolve_igcem_data_date_v1.cpp
index d1e3b10..4010ad9 100644
--- a/src/lib/icgem/resolve_igcem_data_date_v1.cpp
+++ b/src/lib/icgem/resolve_igcem_data_date_v1.cpp
@@ -7,6 +7,16 @@ int dso::resolve_icgem_data_date_v1(const char *line, dso::Icgem::Datetime &t,
   const char *str = line;
   int error = 0;
 
+  /* all digits should be there (the string may be shorter) */
+  for (int i = 0; i < 8; i++) {
+    if (line[i] < '0' || line[i] > '9') {
+      fprintf(stderr,
+              "[ERROR] Failed resolving ICGEM v1 date: %.8s (traceback: %s)\n",
+              line, __func__);
+      return 1;
+    }
+  }
+
   /* Format: yyyymmdd */
   auto res = std::from_chars(str, str + 4, ints[0]);
   if (res.ec != std::errc{})
diff --git a/src/lib/icgem/resolve_igcem_data_date_v2.cpp b/src/lib/icgem/resolve_igcem_data_date_v2.cpp
index 6a96919..c3a492d 100644
--- a/src/lib/icgem/resolve_igcem_data_date_v2.cpp
+++ b/src/lib/icgem/resolve_igcem_data_date_v2.cpp
@@ -7,6 +7,16 @@ int dso::resolve_icgem_data_date_v2(const char *line, dso::Icgem::Datetime &t,
   const char *str = line;
   int error = 0;
 
+  /* all digits should be there (the string may be shorter) */
+  for (int i = 0; i < 13; i++) {
+    if (i == 8 ? (line[i] != '.') : (line[i] < '0' || line[i] > '9')) {
+      fprintf(stderr,
+              "[ERROR] Failed resolving ICGEM v2 date: %.13s (traceback: %s)\n",
+              line, __func__);
+      return 1;
+    }
+  }
+
   /* Format: yyyymmdd.hhmm */
   auto res = std::from_chars(str, str + 4, ints[0]);
   if (res.ec != std::errc{})
-- 
2.43.0


From bee48de1cd466cf5c2c2033ccb2d94319ef7ae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:37 +0000
Subject: [PATCH 33/68] fix: Fortran exponents and plus signs in ICGEM v2 data
 lines

---
 src/lib/icgem/resolve_igcem_data_line_v2.cpp | 30 +++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/lib/icgem/resolve_igcem_data_line_v2.cpp b/src/lib/icgem/resolve_igcem_data_line_v2.cpp
index 03367bb..e5f9ea5 100644
--- a/src/lib/icgem/resolve_igcem_data_line_v2.cpp
+++ b/src/lib/icgem/resolve_igcem_data_line_v2.cpp
@@ -1,9 +1,10 @@
 #include "icgemio.hpp"
+#include <cassert>
 #include <charconv>
 
 namespace {
 const char *skip_ws(const char *line) noexcept {
-  while (*line && *line == ' ')
+  while (*line && (*line == ' ' || *line == '+'))
     ++line;
   return line;
 }
@@ -18,12 +19,39 @@ const char *skip_cols(const char *line, int num_cols) noexcept {
   }
   return skip_ws(str);
 }
+
+/* translate a floating point number printed using FORTRAN's scientific 
+ * notation, to a valid c++ floating point alphanumeric descriptor, i.e.
+ * -.914716531750D-11 to -.914716531750e-11
+ *  The 'transformed' string (at output) is stored in buf.
+ *
+ *  Buf should be large enough so that len characters from line are copied 
+ *  to it.
+ */
+char *for2cpp_format(const char *line, int len, char *buf) noexcept {
+  assert(len <= 256);
+  std::memcpy(buf, line, len * sizeof(char));
+  int i = 1;
+  while (i < len) {
+    if ((buf[i - 1] == 'D' || buf[i - 1] == 'd') &&
+        (buf[i] == '+' || buf[i] == '-')) {
+      buf[i - 1] = 'e';
+    }
+    ++i;
+  }
+  return buf;
+}
 } /* anonymous namespace */
 
 int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
                                     dso::Icgem::DataEntry &entry) noexcept {
   int error = 0;
   int len = std::strlen(line);
+  if (len >= 256)
+    return 1;
+  /* numeric values may be in FORTRAN scientific notation */
+  char buf[256];
+  line = for2cpp_format(line, len + 1, buf);
   const char *c = line;
   int err_cols = 0;
   /* skip number of columns, depending on the Error Model of the file */
-- 
2.43.0


From 9d55370b15d04ab4a4b9505c7970279db268bdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:50 +0000
Subject: [PATCH 34/68] fix: an ICGEM v1 data line of 255 characters ended the
 program

---
 src/lib/icgem/resolve_igcem_data_line_v1.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/icgem/resolve_igcem_data_line_v1.cpp b/src/lib/icgem/resolve_igcem_data_line_v1.cpp
index 8a99cc9..12020aa 100644
--- a/src/lib/icgem/resolve_igcem_data_line_v1.cpp
+++ b/src/lib/icgem/resolve_igcem_data_line_v1.cpp
@@ -29,7 +29,7 @@ const char *skip_cols(const char *line, int num_cols) noexcept {
  *  to it.
  */
 char *for2cpp_format(const char *line, int len, char *buf) noexcept {
-  assert(len < 256);
+  assert(len <= 256);
   std::memcpy(buf, line, len * sizeof(char));
   int i = 1;
   while (i < len) {
@@ -52,6 +52,8 @@ int dso::resolve_icgem_data_line_v1(const char *line, dso::Icgem::ErrorModel er,
   char buf[256];
   int error = 0;
   int len = std::strlen(line);
+  if (len >= 256)
+    return 1;
   const char *c = for2cpp_format(line, len+1, buf);
 
   // const char *c = line;
-- 
2.43.0


From 9e92a8b4a1946028d8138e08ab204456e46e8caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:38 +0000
Subject: [PATCH 35/68] fix: period of an ICGEM v2 term with a damaged date was
 read from an invalid pointer

---
 src/lib/icgem/resolve_igcem_data_line_v2.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lib/icgem/resolve_igcem_data_line_v2.cpp b/src/lib/icgem/resolve_igcem_data_line_v2.cpp
index e5f9ea5..3c0a7a0 100644
--- a/src/lib/icgem/resolve_igcem_data_line_v2.cpp
+++ b/src/lib/icgem/resolve_igcem_data_line_v2.cpp
@@ -214,9 +214,11 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
     if (!error)
       error += resolve_icgem_data_date_v2(skip_ws(ptr), entry.t1, ptr);
     /* resolve period */
-    res = std::from_chars(skip_ws(ptr), line + len, entry.period);
-    if (res.ec != std::errc{})
-      ++error;
+    if (!error) {
+      res = std::from_chars(skip_ws(ptr), line + len, entry.period);
+      if (res.ec != std::errc{})
+        ++error;
+    }
     /* set key */
     entry.key = Icgem::DataEntryType::asin;
 
@@ -259,9 +261,11 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
     if (!error)
       error += resolve_icgem_data_date_v2(skip_ws(ptr), entry.t1, ptr);
     /* resolve period */
-    res = std::from_chars(skip_ws(ptr), line + len, entry.period);
-    if (res.ec != std::errc{})
-      ++error;
+    if (!error) {
+      res = std::from_chars(skip_ws(ptr), line + len, entry.period);
+      if (res.ec != std::errc{})
+        ++error;
+    }
     entry.key = Icgem::DataEntryType::acos;
 
   } else {
-- 
2.43.0


From a22b67cdaf56db2f6d1c525862355e8f45aa1256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:59 +0000
Subject: [PATCH 36/68] fix: an impossible date in an ICGEM file ended the
 program instead of an error

---
 src/lib/icgem/resolve_igcem_data_date_v1.cpp | 16 ++++++++++++----
 src/lib/icgem/resolve_igcem_data_date_v2.cpp | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/lib/icgem/resolve_igcem_data_date_v1.cpp b/src/lib/icgem/resolve_igcem_data_date_v1.cpp
index 4010ad9..695d8e2 100644
--- a/src/lib/icgem/resolve_igcem_data_date_v1.cpp
+++ b/src/lib/icgem/resolve_igcem_data_date_v1.cpp
@@ -1,5 +1,6 @@
 #include "icgemio.hpp"
 #include <charconv>
+#include <exception>
 
 int dso::resolve_icgem_data_date_v1(const char *line, dso::Icgem::Datetime &t,
                                     const char *&ptr) noexcept {
@@ -40,10 +41,17 @@ int dso::resolve_icgem_data_date_v1(const char *line, dso::Icgem::Datetime &t,
     return error;
   }
 
-  /* construct datetime */
-  t = dso::Icgem::Datetime(dso::year(ints[0]), dso::month(ints[1]),
-                           dso::day_of_month(ints[2]), dso::hours(0),
-                           dso::minutes(0), dso::nanoseconds(0));
+  /* construct datetime (throws if there is no such date) */
+  try {
+    t = dso::Icgem::Datetime(dso::year(ints[0]), dso::month(ints[1]),
+                             dso::day_of_month(ints[2]), dso::hours(0),
+                             dso::minutes(0), dso::nanoseconds(0));
+  } catch (std::exception &) {
+    fprintf(stderr,
+            "[ERROR] Invalid date in ICGEM v1: %.13s (traceback: %s)\n", line,
+            __func__);
+    return 1;
+  }
 
   /* set pointer to first, unresolved char */
   ptr = res.ptr;
diff --git a/src/lib/icgem/resolve_igcem_data_date_v2.cpp b/src/lib/icgem/resolve_igcem_data_date_v2.cpp
index c3a492d..a6bf2dc 100644
--- a/src/lib/icgem/resolve_igcem_data_date_v2.cpp
+++ b/src/lib/icgem/resolve_igcem_data_date_v2.cpp
@@ -1,5 +1,6 @@
 #include "icgemio.hpp"
 #include <charconv>
+#include <exception>
 
 int dso::resolve_icgem_data_date_v2(const char *line, dso::Icgem::Datetime &t,
                                     const char *&ptr) noexcept {
@@ -51,10 +52,17 @@ int dso::resolve_icgem_data_date_v2(const char *line, dso::Icgem::Datetime &t,
     return error;
   }
 
-  /* construct datetime */
-  t = dso::Icgem::Datetime(dso::year(ints[0]), dso::month(ints[1]),
-                           dso::day_of_month(ints[2]), dso::hours(ints[3]),
-                           dso::minutes(ints[4]), dso::nanoseconds(0));
+  /* construct datetime (throws if there is no such date) */
+  try {
+    t = dso::Icgem::Datetime(dso::year(ints[0]), dso::month(ints[1]),
+                             dso::day_of_month(ints[2]), dso::hours(ints[3]),
+                             dso::minutes(ints[4]), dso::nanoseconds(0));
+  } catch (std::exception &) {
+    fprintf(stderr,
+            "[ERROR] Invalid date in ICGEM v2: %.13s (traceback: %s)\n", line,
+            __func__);
+    return 1;
+  }
 
   /* set pointer to first, unresolved char */
   ptr = res.ptr;
-- 
2.43.0


From 3f86d409c945c0a5aa7efd16964b33e47b19915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:12 +0000
Subject: [PATCH 37/68] fix: names of AOD1B products: compressed ones lacked
 .gz, and RL needed a path

---
 src/lib/aod1b/aod1bnontidalproductnaming.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/aod1b/aod1bnontidalproductnaming.cpp b/src/lib/aod1b/aod1bnontidalproductnaming.cpp
index e1b7898..b2e33d9 100644
--- a/src/lib/aod1b/aod1bnontidalproductnaming.cpp
+++ b/src/lib/aod1b/aod1bnontidalproductnaming.cpp
@@ -17,7 +17,7 @@ const char *dso::Aod1bNonTidalProductNaming::filename(
   std::sprintf(buf + 18, "_%02d.asc", rl);
   /* add compression (if needed) */
   if (is_compressed) 
-    std::strcpy(buf+27, ".gz");
+    std::strcat(buf, ".gz");
   /* all done */
   return buf;
 }
@@ -25,8 +25,16 @@ const char *dso::Aod1bNonTidalProductNaming::filename(
 int dso::Aod1bNonTidalProductNaming::resolve_rl(const char *fn) noexcept {
   /* Find the last occurrence of '/' to get the filename */
   const char *basename = std::strrchr(fn, '/');
-  ++basename;
+  basename = (basename) ? basename + 1 : fn;
   int rl;
+  /* AOD1B_YYYY-MM-DD_S_RL */
+  if (std::strlen(basename) < 21) {
+    fprintf(
+        stderr,
+        "[ERROR] Failed resolving RL from AOD1B filename %s (traceback: %s)\n",
+        basename, __func__);
+    return -100;
+  }
   const auto j = std::from_chars(basename + 19, basename + 21, rl);
   if (j.ec != std::errc{}) {
     fprintf(
-- 
2.43.0


From 29556b3b21d037b335becc006610e00b3cfbaf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:12 +0000
Subject: [PATCH 38/68] fix: AOD1B headers: unbounded copies, reads past the
 line, exceptions and missing fields

---
 include/aod1b.hpp                   |  24 ++--
 src/lib/aod1b/aod1b_read_header.cpp | 189 +++++++++++++++-------------
 2 files changed, 112 insertions(+), 101 deletions(-)

diff --git a/include/aod1b.hpp b/include/aod1b.hpp
index debb747..880eb6f 100644
--- a/include/aod1b.hpp
+++ b/include/aod1b.hpp
@@ -114,29 +114,29 @@ private:
   /** buffer to store all character/string information in an AOD1B header */
   char charArena[MaxArenaChars];
   /** file type -- should be 999 */
-  int mfile_type;
+  int mfile_type{0};
   /** file format: 0=binary 1=ascii */
-  int mfile_format;
+  int mfile_format{0};
   /** number of header records */
-  int mnum_header_records;
+  int mnum_header_records{0};
   /** number of data records */
-  int mnum_data_records;
+  int mnum_data_records{0};
   /** maximum degree for harmonic coeffs */
-  int mmax_degree;
+  int mmax_degree{-1};
   /** coefficient errors (yes/no) */
-  int mcoeff_errors;
+  int mcoeff_errors{0};
   /** coeff. normalized (yes/no) */
-  int mcoeff_normalized;
+  int mcoeff_normalized{0};
   /** constant gm [m^3/s^2] */
-  double mGM;
+  double mGM{0e0};
   /** constant a [m] */
-  double mRe;
+  double mRe{0e0};
   /** constant flat [-] */
-  double mflat;
+  double mflat{0e0};
   /** constant omega [rad/s] */
-  double momega;
+  double momega{0e0};
   /** number of data sets */
-  int mnum_data_sets;
+  int mnum_data_sets{0};
   /** Reference epoch in TT */
   Datetime<nanoseconds> mtime_epoch;
   /** Time of first data block in TT */
diff --git a/src/lib/aod1b/aod1b_read_header.cpp b/src/lib/aod1b/aod1b_read_header.cpp
index 813c261..d19edb6 100644
--- a/src/lib/aod1b/aod1b_read_header.cpp
+++ b/src/lib/aod1b/aod1b_read_header.cpp
@@ -3,34 +3,63 @@
 #include "datetime/datetime_write.hpp"
 #include <cctype>
 #include <charconv>
+#include <cmath>
 #include <cstdio>
 #include <cstring>
+#include <exception>
 
 namespace {
+/* start of the value, i.e. first non-ws character after the first ':' */
 const char *header_field(const char *line) noexcept {
   const char *c = line;
   while (*c && *c != ':')
     ++c;
-  c = c + 1;
+  if (*c)
+    ++c;
   while (*c && *c == ' ')
     ++c;
   return c;
 }
+/* as above, also set the size of the value (trailing ws not included) */
 const char *header_field(const char *line, int &sz) noexcept {
-  /* start in reverse, find last char that is not ws */
-  const char *c = line + std::strlen(line) - 1;
-  while (*c && *c == ' ')
-  // while (*c && std::isspace(static_cast<unsigned char>(*c)))
-    --c;
-  const char *last = c;
-  /* find delimeter, i.e. ':' */
-  while (*c && *c != ':')
-    --c;
-  /* first non ws character after delimeter */
-  c = header_field(c);
-  sz = (last - c) + 1;
+  const char *c = header_field(line);
+  const char *last = c + std::strlen(c);
+  while (last > c && std::isspace(static_cast<unsigned char>(*(last - 1))))
+    --last;
+  sz = last - c;
   return c;
 }
+/* copy (at most maxsz chars of) the value to a null-terminated string */
+void copy_field(const char *line, char *dest, int maxsz) noexcept {
+  int sz = 0;
+  const char *r = header_field(line, sz);
+  if (sz > maxsz)
+    sz = maxsz;
+  std::memcpy(dest, r, sizeof(char) * sz);
+  dest[sz] = '\0';
+}
+/* parse a date; returns non-zero in case of error */
+int parse_date(const char *str, dso::Datetime<dso::nanoseconds> &t) noexcept {
+  try {
+    t = dso::from_char<dso::YMDFormat::YYYYMMDD, dso::HMSFormat::HHMMSS,
+                       dso::nanoseconds>(str);
+    /* GPST to TT */
+    t = t.gps2tt();
+  } catch (std::exception &) {
+    return 1;
+  }
+  return 0;
+}
+/* resolve a YES/NO field; returns a negative integer in case of error */
+int parse_yes_no(const char *line) noexcept {
+  int sz = 0;
+  const char *r = header_field(line, sz);
+  if (sz == 2 && !std::strncmp("NO", r, 2))
+    return 0;
+  if (sz == 3 && !std::strncmp("YES", r, 3))
+    return 1;
+  return -1;
+}
 } /* unnamed namespace */
 
 int dso::Aod1bIn::read_header() noexcept {
@@ -49,13 +78,19 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
 
   constexpr const int MAXLS = 100;
   constexpr const int MAXL = 124;
+  /* max (absolute) offset in seconds and max year that can make sense */
+  constexpr const double MAX_SEC = 9e9;
+  constexpr const int MAX_YEAR = 9999;
   char line[MAXL];
+
+  /* (re-)reading the header; these must be found in the file */
+  mmax_degree = -1;
+  mGM = mRe = 0e0;
+
   int error = 0, j = 0;
   while (fin.getline(line, MAXL) && (!error) && (++j < MAXLS)) {
     if (!std::strncmp(line, "PRODUCER AGENCY", 15)) {
-      int sz = 0;
-      const char *r = header_field(line + 15, sz);
-      std::memcpy(agency(), r, sizeof(char) * sz);
+      copy_field(line + 15, agency(), 19);
     } else if (!std::strncmp(line, "PRODUCER INSTITUTION", 20)) {
       /* do nothing */
       ;
@@ -96,47 +131,43 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
     } else if (!std::strncmp(line, "REFERENCE DOCUMENTATION", 23)) {
       ;
     } else if (!std::strncmp(line, "SATELLITE NAME", 14)) {
-      int sz = 0;
-      const char *r = header_field(line + 14, sz);
-      std::memcpy(satellite(), r, sizeof(char) * sz);
+      copy_field(line + 14, satellite(), 19);
     } else if (!std::strncmp(line, "SENSOR NAME", 11)) {
-      int sz = 0;
-      const char *r = header_field(line + 11, sz);
-      std::memcpy(sensor(), r, sizeof(char) * sz);
+      copy_field(line + 11, sensor(), 19);
     } else if (!std::strncmp(line, "TIME EPOCH (GPS TIME)", 21)) {
-      time_epoch() =
-          dso::from_char<dso::YMDFormat::YYYYMMDD, dso::HMSFormat::HHMMSS,
-                         dso::nanoseconds>(header_field(line + 21));
-      time_epoch() =  time_epoch().gps2tt();
+      if (parse_date(header_field(line + 21), time_epoch())) {
+        fprintf(stderr,
+                "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
+                "(traceback: %s)\n",
+                line, mfn.c_str(), __func__);
+        ++error;
+      }
     } else if (!std::strncmp(line, "TIME FIRST OBS(SEC PAST EPOCH)", 30)) {
       const char *last = line + std::strlen(line);
-      double sec;
+      double sec = 0e0;
       auto res = std::from_chars(header_field(line + 30), last, sec);
-      if (res.ec != std::errc{}) {
+      if (res.ec != std::errc{} || !(std::abs(sec) < MAX_SEC)) {
         fprintf(stderr,
                 "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
                 "(traceback: %s)\n",
                 line, mfn.c_str(), __func__);
-        ++error;
+        return 1;
       }
       nanoseconds isec(static_cast<nanoseconds::underlying_type>(sec * 1e9));
       first_epoch() = time_epoch().add_seconds(isec);
-      // first_epoch().add_seconds(isec);
       /* validate */
-      while (!std::isdigit(*res.ptr))
+      while (*res.ptr && !std::isdigit(static_cast<unsigned char>(*res.ptr)))
         ++res.ptr;
-      dso::Datetime<dso::nanoseconds> tmp =
-          dso::from_char<dso::YMDFormat::YYYYMMDD, dso::HMSFormat::HHMMSS,
-                         dso::nanoseconds>(res.ptr);
-      if ((tmp=tmp.gps2tt()) != first_epoch()) {
+      dso::Datetime<dso::nanoseconds> tmp;
+      if (parse_date(res.ptr, tmp) || tmp != first_epoch()) {
         fprintf(stderr, "[ERROR] Failed parsing TIME FIRST OBS(SEC PAST EPOCH) field in AOD1B file %s (traceback: %s)\n", mfn.c_str(), __func__);
         return 1;
       }
     } else if (!std::strncmp(line, "TIME FIRST OBS (YEAR START)", 27)) {
       const char *last = line + std::strlen(line);
-      int year;
+      int year = 0;
       auto res = std::from_chars(header_field(line + 27), last, year);
-      if (res.ec != std::errc{}) {
+      if (res.ec != std::errc{} || year < 0 || year > MAX_YEAR) {
         fprintf(stderr,
                 "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
                 "(traceback: %s)\n",
@@ -147,33 +178,31 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
           dso::Datetime<nanoseconds>(dso::year(year), dso::day_of_year(1));
     } else if (!std::strncmp(line, "TIME LAST OBS(SEC PAST EPOCH)", 29)) {
       const char *last = line + std::strlen(line);
-      double sec;
+      double sec = 0e0;
       auto res = std::from_chars(header_field(line + 29), last, sec);
-      if (res.ec != std::errc{}) {
+      if (res.ec != std::errc{} || !(std::abs(sec) < MAX_SEC)) {
         fprintf(stderr,
                 "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
                 "(traceback: %s)\n",
                 line, mfn.c_str(), __func__);
-        ++error;
+        return 1;
       }
       nanoseconds isec(static_cast<nanoseconds::underlying_type>(sec * 1e9));
       last_epoch() = time_epoch().add_seconds(isec);
-      // last_epoch().add_seconds(isec);
       /* validate */
-      while (!std::isdigit(*res.ptr))
+      while (*res.ptr && !std::isdigit(static_cast<unsigned char>(*res.ptr)))
         ++res.ptr;
-      dso::Datetime<dso::nanoseconds> tmp =
-          dso::from_char<dso::YMDFormat::YYYYMMDD, dso::HMSFormat::HHMMSS,
-                         dso::nanoseconds>(res.ptr);
-      if ((tmp=tmp.gps2tt()) != last_epoch()) {
+      dso::Datetime<dso::nanoseconds> tmp;
+      if (parse_date(res.ptr, tmp) || tmp != last_epoch()) {
         fprintf(stderr, "[ERROR] Failed parsing TIME LAST OBS(SEC PAST EPOCH) field in AOD1B file %s (traceback: %s)\n", mfn.c_str(), __func__);
         return 1;
       }
     } else if (!std::strncmp(line, "TIME LAST OBS (YEAR END)", 24)) {
       const char *last = line + std::strlen(line);
-      int year;
+      int year = 0;
       if (std::from_chars(header_field(line + 24), last, year).ec !=
-          std::errc{}) {
+              std::errc{} ||
+          year < 0 || year > MAX_YEAR) {
         fprintf(stderr,
                 "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
                 "(traceback: %s)\n",
@@ -201,19 +230,13 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
     } else if (!std::strncmp(line, "FILENAME", 8)) {
       ;
     } else if (!std::strncmp(line, "PROCESS LEVEL (1A OR 1B)", 24)) {
-      int sz = 0;
-      const char *r = header_field(line + 24, sz);
-      std::memcpy(process_level(), r, sizeof(char) * sz);
+      copy_field(line + 24, process_level(), 3);
     } else if (!std::strncmp(line, "PRESSURE TYPE (SP OR VI)", 24)) {
       /* present in non-tidal loading files */
-      int sz = 0;
-      const char *r = header_field(line + 24, sz);
-      std::memcpy(pressure_type(), r, sizeof(char) * sz);
+      copy_field(line + 24, pressure_type(), 3);
     } else if (!std::strncmp(line, "PRESSURE TYPE (ATM OR OCN)", 26)) {
       /* present in tidal files */
-      int sz = 0;
-      const char *r = header_field(line + 26, sz);
-      std::memcpy(pressure_type(), r, sizeof(char) * sz);
+      copy_field(line + 26, pressure_type(), 3);
     } else if (!std::strncmp(line, "MAXIMUM DEGREE", 14)) {
       const char *last = line + std::strlen(line);
       if (std::from_chars(header_field(line + 14), last, max_degree()).ec !=
@@ -225,21 +248,8 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
         ++error;
       }
     } else if (!std::strncmp(line, "COEFFICIENTS ERRORS (YES/NO)", 28)) {
-      int sz = 0;
-      /* why maybe_unused? 
-       * GCC (at least 14.2), complaines about r being an unused variable, 
-       * even though it is (later) read within an assert macro.
-       * Probably marking it as unused is a god solution (?). At least i can't
-       * think of anything better.
-       */
-      [[maybe_unused]] const char *r = header_field(line + 28, sz);
-      if (sz == 2) {
-        assert(!std::strncmp("NO", r, 2));
-        coeff_errors() = 0;
-      } else if (sz == 3) {
-        assert(!std::strncmp("YES", r, 3));
-        coeff_errors() = 1;
-      } else {
+      coeff_errors() = parse_yes_no(line + 28);
+      if (coeff_errors() < 0) {
         fprintf(
             stderr,
             "[ERROR] Unexpected \'COEFFICIENTS ERRORS\' header line in AOD1B "
@@ -248,15 +258,8 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
         ++error;
       }
     } else if (!std::strncmp(line, "COEFF. NORMALIZED (YES/NO)", 26)) {
-      int sz = 0;
-      [[maybe_unused]] const char *r = header_field(line + 26, sz);
-      if (sz == 2) {
-        assert(!std::strncmp("NO", r, 2));
-        coeff_normalized() = 0;
-      } else if (sz == 3) {
-        assert(!std::strncmp("YES", r, 3));
-        coeff_normalized() = 1;
-      } else {
+      coeff_normalized() = parse_yes_no(line + 26);
+      if (coeff_normalized() < 0) {
         fprintf(stderr,
                 "[ERROR] Unexpected \'COEFF. NORMALIZED\' header line in AOD1B "
                 "file %s (traceback: %s)\n",
@@ -275,7 +278,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
       }
     } else if (!std::strncmp(line, "CONSTANT A [M]", 14)) {
       const char *last = line + std::strlen(line);
-      if (std::from_chars(header_field(line + 22), last, Re()).ec !=
+      if (std::from_chars(header_field(line + 14), last, Re()).ec !=
           std::errc{}) {
         fprintf(stderr,
                 "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
@@ -295,7 +298,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
       }
     } else if (!std::strncmp(line, "CONSTANT OMEGA [RAD/S]", 22)) {
       const char *last = line + std::strlen(line);
-      if (std::from_chars(header_field(line + 17), last, omega()).ec !=
+      if (std::from_chars(header_field(line + 22), last, omega()).ec !=
           std::errc{}) {
         fprintf(stderr,
                 "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
@@ -305,7 +308,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
       }
     } else if (!std::strncmp(line, "NUMBER OF DATA SETS", 19)) {
       const char *last = line + std::strlen(line);
-      if (std::from_chars(header_field(line + 17), last, num_data_sets()).ec !=
+      if (std::from_chars(header_field(line + 19), last, num_data_sets()).ec !=
           std::errc{}) {
         fprintf(stderr,
                 "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
@@ -317,10 +320,8 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
       ;
     } else if (!std::strncmp(line, "PARTIAL TIDE", 12)) {
       /* present in tidal files */
-      int sz = 0;
-      const char *r = header_field(line + 12, sz);
-      char buf[8] = "\0";
-      std::memcpy(buf, r, sizeof(char) * sz);
+      char buf[MAXL];
+      copy_field(line + 12, buf, MAXL - 1);
       const auto *waveptr = dso::find_wave_entry(buf);
       if (!waveptr) {
         fprintf(stderr,
@@ -328,8 +329,9 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
                 "(traceback: %s)\n",
                 mfn.c_str(), __func__);
         ++error;
+      } else {
+        mwave = *waveptr;
       }
-      mwave = *waveptr;
     } else if (!std::strncmp(line, "END OF HEADER", 13)) {
       break;
     } else {
@@ -350,6 +352,15 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
     return 1;
   }
 
+  /* without these we cannot do anything */
+  if (max_degree() < 0 || !(GM() > 0e0) || !(Re() > 0e0)) {
+    fprintf(stderr,
+            "[ERROR] Missing (or erroneous) max degree, GM or radius in header "
+            "of AOD1B file %s (traceback: %s)\n",
+            mfn.c_str(), __func__);
+    return 1;
+  }
+
   /* all done */
   return 0;
 }
-- 
2.43.0


From eb69fd6f57d09d172a90cc5601723baaf5d728f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:13 +0000
Subject: [PATCH 39/68] fix: damaged AOD1B data block headers were read past
 their end or ended the program

---
 .../aod1b/aod1b_parse_data_block_header.cpp   | 38 +++++++++++++------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/lib/aod1b/aod1b_parse_data_block_header.cpp b/src/lib/aod1b/aod1b_parse_data_block_header.cpp
index d08d235..91fd92c 100644
--- a/src/lib/aod1b/aod1b_parse_data_block_header.cpp
+++ b/src/lib/aod1b/aod1b_parse_data_block_header.cpp
@@ -2,6 +2,7 @@
 #include "datetime/datetime_read.hpp"
 #include <charconv>
 #include <cstdio>
+#include <exception>
 
 namespace {
 inline const char *skipws(const char *line) noexcept {
@@ -23,23 +24,36 @@ int dso::Aod1bIn::parse_data_block_header(
 
   auto res = std::from_chars(skipws(str), last, rec.mset_nr);
   error += (res.ec != std::errc{});
-  str = res.ptr + 1;
+  /* skip the ':' character */
+  str = (res.ptr < last) ? res.ptr + 1 : last;
 
   res = std::from_chars(skipws(str), last, rec.mnum_lines);
-  error += (res.ec != std::errc{});
-  str = res.ptr;
+  error += (res.ec != std::errc{} || rec.mnum_lines < 0);
+  str = skipws(res.ptr);
 
-  if (std::strncmp(skipws(str), "COEFFICIENTS FOR ", 17))
+  if (std::strncmp(str, "COEFFICIENTS FOR ", 17))
     ++error;
-  str = skipws(str + 17);
-  rec.mepoch = dso::from_char<dso::YMDFormat::YYYYMMDD, dso::HMSFormat::HHMMSS,
-                              dso::nanoseconds>(str, &res.ptr);
-  /* GPST to TT */
-  rec.mepoch = rec.mepoch.gps2tt();
 
-  str = res.ptr + 1;
-  if (std::strncmp(skipws(str), "OF TYPE", 7))
-    ++error;
+  if (!error) {
+    try {
+      rec.mepoch =
+          dso::from_char<dso::YMDFormat::YYYYMMDD, dso::HMSFormat::HHMMSS,
+                         dso::nanoseconds>(skipws(str + 17), &res.ptr);
+      /* GPST to TT */
+      rec.mepoch = rec.mepoch.gps2tt();
+    } catch (std::exception &) {
+      ++error;
+    }
+  }
+
+  str = skipws(res.ptr);
+  if (error || std::strncmp(str, "OF TYPE", 7)) {
+    fprintf(
+        stderr,
+        "[ERROR] Failed parsing AOD1B block header line [%s] (tracback: %s)\n",
+        line, __func__);
+    return 1;
+  }
   str = skipws(str + 7);
 
   if (!std::strncmp(skipws(str), "atm", 3))
-- 
2.43.0


From 56dfce69c7f01c85997001263d4332ab27c5d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:13 +0000
Subject: [PATCH 40/68] fix: the last data sets of an AOD1B file, and truncated
 ones, were not told from errors

---
 src/lib/aod1b/aod1b_goto_next_block.cpp | 21 +++++++++------------
 src/lib/aod1b/aod1b_skip_header.cpp     | 10 +++-------
 2 files changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/lib/aod1b/aod1b_goto_next_block.cpp b/src/lib/aod1b/aod1b_goto_next_block.cpp
index f2afc55..400b7e6 100644
--- a/src/lib/aod1b/aod1b_goto_next_block.cpp
+++ b/src/lib/aod1b/aod1b_goto_next_block.cpp
@@ -48,10 +48,12 @@ int dso::Aod1bIn::goto_next_block(
   }
 
   constexpr const int MAXL = 124;
-  const int MAXLS = num_data_sets();
   char line[MAXL];
-  int error = 0, j = 0;
-  while (fin.getline(line, MAXL) && (!error) && (++j < MAXLS)) {
+  int error = 0;
+  /* note that the next block of this type may well be the last one in the
+   * file, no matter how many blocks of other types lie in between
+   */
+  while ((!error) && fin.getline(line, MAXL)) {
     /* assuming next line was a data block header */
     if (parse_data_block_header(line, rec)) {
       ++error;
@@ -60,8 +62,8 @@ int dso::Aod1bIn::goto_next_block(
     if (rec.mtype == type)
       return 0;
     /* skip lines untill next block */
-    for (int l = 0; l < rec.mnum_lines; l++)
-      fin.getline(line, MAXL);
+    for (int l = 0; l < rec.mnum_lines && (!error); l++)
+      error += !fin.getline(line, MAXL);
     }
   }
 
@@ -73,11 +75,6 @@ int dso::Aod1bIn::goto_next_block(
     return 1;
   }
 
-  if (!fin.good() || j >= MAXLS) {
-    if (fin.eof())
-      return -1;
-    return 1;
-  }
-
-  return 0;
+  /* no more lines; EOF or a line too large to be read */
+  return fin.eof() ? -1 : 1;
 }
diff --git a/src/lib/aod1b/aod1b_skip_header.cpp b/src/lib/aod1b/aod1b_skip_header.cpp
index 57d0472..d3e29d8 100644
--- a/src/lib/aod1b/aod1b_skip_header.cpp
+++ b/src/lib/aod1b/aod1b_skip_header.cpp
@@ -43,20 +43,16 @@ int dso::Aod1bIn::skip_lines(std::ifstream &fin, int num_lines) const noexcept {
     return 1;
   }
 
-  /* don't even get into trouble if lines are 0 */
-  if (!num_lines) return 0;
-
   /* quick read requested number of lines */
   constexpr const int MAXL = 124;
   char line[MAXL];
-  int linenr = 0;
-  while (fin.getline(line, MAXL) && ++linenr < num_lines)
-
-    if (!fin.good()) {
+  for (int linenr = 0; linenr < num_lines; linenr++) {
+    if (!fin.getline(line, MAXL)) {
       if (fin.eof())
         return -1;
       return 1;
     }
+  }
 
   return 0;
 }
-- 
2.43.0


From 8753cc1a991e420e87c9dc0f38c31323c2f52395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:40 +0000
Subject: [PATCH 41/68] fix: AOD1B coefficients of impossible degree or order
 were stored out of bounds

---
 include/aod1b.hpp                      | 2 +-
 src/lib/aod1b/aod1b_collect_coeffs.cpp | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/aod1b.hpp b/include/aod1b.hpp
index 880eb6f..b5301b4 100644
--- a/include/aod1b.hpp
+++ b/include/aod1b.hpp
@@ -467,7 +467,7 @@ public:
     if (max_degree < 0)
       max_degree = maod->max_degree();
     if (max_order < 0)
-      max_order = maod->max_degree();
+      max_order = max_degree;
     /* collect coefficients */
     if (maod->collect_coeffs(mfin, max_degree, max_order, mheader.mnum_lines,
                              cs, allow_resizing)) {
diff --git a/src/lib/aod1b/aod1b_collect_coeffs.cpp b/src/lib/aod1b/aod1b_collect_coeffs.cpp
index 05a2549..a21f98c 100644
--- a/src/lib/aod1b/aod1b_collect_coeffs.cpp
+++ b/src/lib/aod1b/aod1b_collect_coeffs.cpp
@@ -21,7 +21,8 @@ int dso::Aod1bIn::collect_coeffs(std::ifstream &fin, int max_degree,
     return 1;
   }
 
-  if ((max_degree < max_order) || (max_degree > this->max_degree())) {
+  if ((max_order < 0) || (max_degree < max_order) ||
+      (max_degree > this->max_degree())) {
     fprintf(stderr,
             "[ERROR] Invalid max degree/order given for coefficient parsing; "
             "AOD1B file %s (traceback: %s)\n",
@@ -55,7 +56,7 @@ int dso::Aod1bIn::collect_coeffs(std::ifstream &fin, int max_degree,
   int lines_parsed = 0;
 
   constexpr const int MAXL = 124;
-  char line[MAXL];
+  char line[MAXL] = "";
   int error = 0;
   /* actual degree/order collectedd from file */
   int max_degree_collected = 0;
@@ -70,6 +71,8 @@ int dso::Aod1bIn::collect_coeffs(std::ifstream &fin, int max_degree,
     error += (res.ec != std::errc{});
     res = std::from_chars(skipws(res.ptr), stop, m);
     error += (res.ec != std::errc{});
+    /* we should have a valid degree/order pair */
+    error += (m < 0 || l < m);
     if ((l <= max_degree) && (m <= max_order) && (!error)) {
       res = std::from_chars(skipws(res.ptr), stop, cs.C(l, m));
       error += (res.ec != std::errc{});
@@ -82,7 +85,7 @@ int dso::Aod1bIn::collect_coeffs(std::ifstream &fin, int max_degree,
   }
 
   /* check for errors */
-  if (error || !fin.good()) {
+  if (error || lines_parsed != max_lines) {
     fprintf(stderr,
             "[ERROR] Failed parsing coefficients from AOD1B file %s "
             "(traceback: %s)\n",
-- 
2.43.0


From 388742c664859f2aaa7f181233f8f2b252ca3aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:40 +0000
Subject: [PATCH 42/68] fix: tidal AOD1B files: impossible degrees, damaged
 data set lines and a lower degree alone

---
 src/lib/aod1b/aod1b_get_tidal_wave.cpp | 62 ++++++++++++++++----------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/src/lib/aod1b/aod1b_get_tidal_wave.cpp b/src/lib/aod1b/aod1b_get_tidal_wave.cpp
index f1bab1b..32c0d0d 100644
--- a/src/lib/aod1b/aod1b_get_tidal_wave.cpp
+++ b/src/lib/aod1b/aod1b_get_tidal_wave.cpp
@@ -4,10 +4,30 @@
 
 namespace {
 inline const char *skipws(const char *line) noexcept {
-  while (*line && *line == ' ')
+  while (*line && (*line == ' ' || *line == '+'))
     ++line;
   return line;
 }
+
+/* Resolve a line of type "DATA SET NN:  [LINES] COEFFICIENTS OF TYPE [TYPE]",
+ * where the leading part, up to (and including) ':' and the trailing part
+ * (after [LINES]) are given. Returns the number of lines, or a negative
+ * integer in case of error.
+ */
+int data_set_lines(const char *line, const char *head,
+                   const char *tail) noexcept {
+  int lines = -1;
+  const char *end = line + std::strlen(line);
+  line = skipws(line);
+  if (std::strncmp(line, head, std::strlen(head)))
+    return -1;
+  auto res = std::from_chars(skipws(line + std::strlen(head)), end, lines);
+  if (res.ec != std::errc{})
+    return -1;
+  if (std::strncmp(skipws(res.ptr), tail, std::strlen(tail)))
+    return -1;
+  return lines;
+}
 } /* unnamed namespace */
 
 int dso::Aod1bIn::get_tidal_wave_coeffs(dso::StokesCoeffs &cCs,
@@ -27,7 +47,7 @@ int dso::Aod1bIn::get_tidal_wave_coeffs(dso::StokesCoeffs &cCs,
   if (max_degree < 0)
     max_degree = this->max_degree();
   if (max_order < 0)
-    max_order = this->max_degree();
+    max_order = max_degree;
 
   if ((max_degree < max_order) || (max_degree > this->max_degree())) {
     fprintf(stderr,
@@ -52,20 +72,16 @@ int dso::Aod1bIn::get_tidal_wave_coeffs(dso::StokesCoeffs &cCs,
   sCs.clear();
 
   constexpr const int MAXL = 124;
-  char line[MAXL];
+  char line[MAXL] = "";
   int error = 0;
   int max_lines;
   int lines_parsed = 0;
 
   /* this should be the cos coeffs */
   fin.getline(line, MAXL);
-  const char *end = line + std::strlen(line);
-  if (std::strncmp(skipws(line), "DATA SET 01:", 12))
-    ++error;
-  auto res = std::from_chars(skipws(line + 12), end, max_lines);
-  error += (res.ec != std::errc{});
-  if (std::strncmp(skipws(res.ptr), "COEFFICIENTS OF TYPE cos", 24))
-    ++error;
+  max_lines =
+      data_set_lines(line, "DATA SET 01:", "COEFFICIENTS OF TYPE cos");
+  error += (max_lines < 0);
   if (error) {
     fprintf(stderr,
             "[ERROR] Failed resolving (tidal) header from line %s from AOD1B "
@@ -76,12 +92,14 @@ int dso::Aod1bIn::get_tidal_wave_coeffs(dso::StokesCoeffs &cCs,
 
   /* watch the order in the while condition! */
   while ((lines_parsed < max_lines) && (!error) && fin.getline(line, MAXL)) {
-    int l, m;
+    int l = 0, m = 0;
     const char *stop = line + std::strlen(line);
-    res = std::from_chars(skipws(line), stop, l);
+    auto res = std::from_chars(skipws(line), stop, l);
     error += (res.ec != std::errc{});
     res = std::from_chars(skipws(res.ptr), stop, m);
     error += (res.ec != std::errc{});
+    /* we should have a valid degree/order pair */
+    error += (m < 0 || l < m);
     if ((l <= max_degree) && (m <= max_order) && (!error)) {
       res = std::from_chars(skipws(res.ptr), stop, cCs.C(l, m));
       error += (res.ec != std::errc{});
@@ -92,7 +110,7 @@ int dso::Aod1bIn::get_tidal_wave_coeffs(dso::StokesCoeffs &cCs,
   }
 
   /* check for errors */
-  if (error || !fin.good()) {
+  if (error || lines_parsed != max_lines) {
     fprintf(stderr,
             "[ERROR] Failed parsing coefficients for AOD1B file %s "
             "(traceback: %s)\n",
@@ -103,13 +121,9 @@ int dso::Aod1bIn::get_tidal_wave_coeffs(dso::StokesCoeffs &cCs,
   /* this should be the sin coeffs */
   lines_parsed = 0;
   fin.getline(line, MAXL);
-  end = line + std::strlen(line);
-  if (std::strncmp(skipws(line), "DATA SET 02:", 12))
-    ++error;
-  res = std::from_chars(skipws(line + 12), end, max_lines);
-  error += (res.ec != std::errc{});
-  if (std::strncmp(skipws(res.ptr), "COEFFICIENTS OF TYPE sin", 24))
-    ++error;
+  max_lines =
+      data_set_lines(line, "DATA SET 02:", "COEFFICIENTS OF TYPE sin");
+  error += (max_lines < 0);
   if (error) {
     fprintf(stderr,
             "[ERROR] Failed resolving (tidal) header from line %s from AOD1B "
@@ -120,12 +134,14 @@ int dso::Aod1bIn::get_tidal_wave_coeffs(dso::StokesCoeffs &cCs,
 
   /* watch the order in the while condition! */
   while ((lines_parsed < max_lines) && (!error) && fin.getline(line, MAXL)) {
-    int l, m;
+    int l = 0, m = 0;
     const char *stop = line + std::strlen(line);
-    res = std::from_chars(skipws(line), stop, l);
+    auto res = std::from_chars(skipws(line), stop, l);
     error += (res.ec != std::errc{});
     res = std::from_chars(skipws(res.ptr), stop, m);
     error += (res.ec != std::errc{});
+    /* we should have a valid degree/order pair */
+    error += (m < 0 || l < m);
     if ((l <= max_degree) && (m <= max_order) && (!error)) {
       res = std::from_chars(skipws(res.ptr), stop, sCs.C(l, m));
       error += (res.ec != std::errc{});
@@ -136,7 +152,7 @@ int dso::Aod1bIn::get_tidal_wave_coeffs(dso::StokesCoeffs &cCs,
   }
 
   /* check for errors */
-  if (error || !fin.good()) {
+  if (error || lines_parsed != max_lines) {
     fprintf(stderr,
             "[ERROR] Failed parsing coefficients for AOD1B file %s "
             "(traceback: %s)\n",
-- 
2.43.0


From 916f441d8484b1ebf3077fda137c362bc067f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:02 +0000
Subject: [PATCH 43/68] fix: AOD1B streams: epochs several blocks ahead, end of
 file, failures, and moved streams

---
 include/aod1b.hpp             |   3 +
 include/aod1b_data_stream.hpp | 301 +++++++++++++++-------------------
 2 files changed, 136 insertions(+), 168 deletions(-)

diff --git a/include/aod1b.hpp b/include/aod1b.hpp
index b5301b4..9167573 100644
--- a/include/aod1b.hpp
+++ b/include/aod1b.hpp
@@ -404,6 +404,9 @@ public:
   /** get a const reference to the underlying Aod1bIn instance */
   const Aod1bIn &aod1b() const {return *maod;}
 
+  /** bind to another Aod1bIn instance (of the same file, e.g. after a move) */
+  void rebind(const Aod1bIn &aod) noexcept { maod = &aod; }
+
   /** get current header */
   const Aod1bIn::Aod1bBlockHeader &header() const noexcept { return mheader; }
 
diff --git a/include/aod1b_data_stream.hpp b/include/aod1b_data_stream.hpp
index dfe433b..ad35c8b 100644
--- a/include/aod1b_data_stream.hpp
+++ b/include/aod1b_data_stream.hpp
@@ -54,6 +54,8 @@ private:
    * the mhdrvec array
    */
   StokesCoeffs *mcsvec{nullptr};
+  /** Are the buffered headers and coefficients valid ? */
+  bool mloaded{false};
   /** A directory where more non-tidal AOD1B for later dates are stored
    * (including the one we currently read from). If needed, we may search the
    * directory to feed our stream with more/later data.
@@ -103,109 +105,16 @@ private:
    * to read or skip the next data block (in a next call to the function).
    */
   int hunt_range(const Datetime<nanoseconds> &t) noexcept {
-    /* quick return */
-    if (t >= mhdrvec[0].mepoch && t < mhdrvec[1].mepoch) {
-      return 0;
-    }
-    if (t >= mhdrvec[1].mepoch && t < mhdrvec[2].mepoch) {
-      return 1;
-    }
-    
     /* temp buffer */
     char buf[64];
 
-    /* shit, we don;t have the bounding coeffs!
-     * (a) First, read in one more header/block, and see if we are there yet.
-     * (b) Else, keep on reading until we find a header that is > t (storing
-     * coeffs along the way).
-     * Both are only possible if the iterator is not marked as EOF!
-     * Note that mit holds the next (to current) header.
+    /* if we are not holding any (valid) data, or t is prior to the buffered
+     * blocks, (re-)start from the top of the file
      */
-    if (t >= mhdrvec[2].mepoch && !mit.is_eof()) {
-      /* advance to next header/block */
-      if (t >= mhdrvec[2].mepoch && t < mit.header().mepoch) {
-        /* cool, got it! */
-        swap(0, 1);
-        swap(1, 2);
-        mhdrvec[2] = mit.header();
-        int j = mit.collect(mcsvec[2]);
-        mit.advance();
-        return (j > 0) ? (-1) : (1);
-      } else {
-        /* this block doesn't fit either! keep on reading */
-        int error = 0;
-        while (t <= mit.header().mepoch && (!error)) {
-          /* store coeffs at 0 index */
-          error = mit.collect(mcsvec[0]);
-          mhdrvec[0] = mit.header();
-          error += mit.advance();
-        }
-        if (error) {
-          fprintf(stderr,
-                  "[ERROR] Failed collecting coeffs for epoch %s (TT) from "
-                  "AOD1B file %s; at [1] (traceback: %s)\n",
-                  to_char<YMDFormat::YYYYMMDD, HMSFormat::HHMMSSF, nanoseconds>(
-                      t, buf),
-                  mit.aod1b().fn().c_str(), __func__);
-          return -2;
-        }
-        /* read next block so that we have the bounding interval */
-        if (mit.collect(mcsvec[1])) {
-          fprintf(stderr,
-                  "[ERROR] Failed collecting coeffs for epoch %s (TT) from "
-                  "AOD1B file %s; at [1A] (traceback: %s)\n",
-                  to_char<YMDFormat::YYYYMMDD, HMSFormat::HHMMSSF, nanoseconds>(
-                      t, buf),
-                  mit.aod1b().fn().c_str(), __func__);
-              return -3;
-          }
-        mhdrvec[1] = mit.header();
-        int j = mit.advance();
-        /* since we are here, read also the next block */
-        if (j < 0) {
-          mit.set_eof(); /* already set but nevertheless .. */
-          mhdrvec[2] = mit.header();
-        } else if (j > 0) {
-          fprintf(stderr,
-                  "[ERROR] Failed collecting coeffs for epoch %s (TT) from "
-                  "AOD1B file %s; at [2] (traceback: %s)\n",
-                  to_char<YMDFormat::YYYYMMDD, HMSFormat::HHMMSSF, nanoseconds>(
-                      t, buf),
-                  mit.aod1b().fn().c_str(), __func__);
-          return -3;
-        } else {
-          if (mit.collect(mcsvec[2])) {
-          fprintf(stderr,
-                  "[ERROR] Failed collecting coeffs for epoch %s (TT) from "
-                  "AOD1B file %s; at [3] (traceback: %s)\n",
-                  to_char<YMDFormat::YYYYMMDD, HMSFormat::HHMMSSF, nanoseconds>(
-                      t, buf),
-                  mit.aod1b().fn().c_str(), __func__);
-              return -3;
-          }
-          mhdrvec[2] = mit.header();
-          mit.advance();
-        }
-        /* return the index */
-        return 0;
-      }
-    } else if (t < mhdrvec[0].mepoch) {
-      /* before anything else, check if the given t is after the first dataset
-       * in the file. If not, we cannot do anything! Else, go to the start of
-       * the file, and re-start hunting.
-       */
-      if (t < mit.aod1b().first_epoch()) {
-        fprintf(stderr,
-                "[ERROR] Failed collecting coeffs for epoch %s (TT) from "
-                "AOD1B file %s; epoch not included in file (traceback: %s)\n",
-                to_char<YMDFormat::YYYYMMDD, HMSFormat::HHMMSSF, nanoseconds>(
-                    t, buf),
-                mit.aod1b().fn().c_str(), __func__);
-        fprintf(stderr, "[ERROR] (Cont'd) Note: first epoch in file %.12f MJD, requested epoch %.12f MJD (traceback: %s)\n", mit.aod1b().first_epoch().fmjd(),  t.fmjd(), __func__);
-        fprintf(stderr, "[ERROR] (Cont'd) Note: currently buffered epochs [%.9f, %.9f %.9f] [MJD](traceback: %s)\n", mhdrvec[0].mepoch.fmjd(), mhdrvec[1].mepoch.fmjd(),mhdrvec[2].mepoch.fmjd(), __func__);
-        return -4;
-      }
-      /* shit, we need to go back in the file ! */
+    if (!mloaded || t < mhdrvec[0].mepoch) {
+      /* no need to go back in the file if it does not include t */
+      if (mloaded && t < mit.aod1b().first_epoch())
+        return epoch_not_included(t);
       if (initialize()) {
         fprintf(
             stderr,
@@ -213,23 +122,67 @@ private:
             __func__);
         return -5;
       }
-      /* hunt interval from the top of the file */
-      return hunt_range(t);
-    } else if (t >= mhdrvec[2].mepoch && mit.is_eof()) {
-      /* reached end-of-file, cannot collect any more data sets! */
-      fprintf(
-          stderr,
-          "[WRNNG] Failed collecting coeffs for epoch %s (TT) from "
-          "AOD1B file %s; epoch out of bounds (traceback: %s)\n",
-          to_char<YMDFormat::YYYYMMDD, HMSFormat::HHMMSSF, nanoseconds>(t, buf),
-          mit.aod1b().fn().c_str(), __func__);
-      return -100;
-    } else {
-      /* don't know why i am here! */
-      assert(1 == 2);
+      if (t < mhdrvec[0].mepoch)
+        return epoch_not_included(t);
+    }
+
+    /* keep on reading blocks, untill we find one that is later than t. Note
+     * that mit holds the next (to the last buffered) header.
+     */
+    while (t >= mhdrvec[AR_SIZE - 1].mepoch) {
+      if (mit.is_eof()) {
+        /* reached end-of-file, cannot collect any more data sets! */
+        fprintf(stderr,
+                "[WRNNG] Failed collecting coeffs for epoch %s (TT) from "
+                "AOD1B file %s; epoch out of bounds (traceback: %s)\n",
+                to_char<YMDFormat::YYYYMMDD, HMSFormat::HHMMSSF, nanoseconds>(
+                    t, buf),
+                mit.aod1b().fn().c_str(), __func__);
+        return -100;
+      }
+      if (shift_and_collect()) {
+        fprintf(stderr,
+                "[ERROR] Failed collecting coeffs for epoch %s (TT) from "
+                "AOD1B file %s (traceback: %s)\n",
+                to_char<YMDFormat::YYYYMMDD, HMSFormat::HHMMSSF, nanoseconds>(
+                    t, buf),
+                mit.aod1b().fn().c_str(), __func__);
+        return -2;
+      }
     }
-    /* will never reach this point */
-    return 55;
+
+    return (t < mhdrvec[1].mepoch) ? 0 : 1;
+  }
+
+  /** Report an epoch prior to the data of the file (error code returned) */
+  int epoch_not_included(const Datetime<nanoseconds> &t) const noexcept {
+    char buf[64];
+    fprintf(stderr,
+            "[ERROR] Failed collecting coeffs for epoch %s (TT) from "
+            "AOD1B file %s; epoch not included in file (traceback: %s)\n",
+            to_char<YMDFormat::YYYYMMDD, HMSFormat::HHMMSSF, nanoseconds>(t,
+                                                                          buf),
+            mit.aod1b().fn().c_str(), __func__);
+    return -4;
+  }
+
+  /** Left-shift the buffered data, collect the block the iterator is placed at
+   * to the last index, and place the iterator at the next block (if any).
+   *
+   * In case of error, buffered data are marked as invalid.
+   */
+  int shift_and_collect() noexcept {
+    mloaded = false;
+    for (int i = 0; i < AR_SIZE - 1; i++)
+      swap(i, i + 1);
+    if (mit.collect(mcsvec[AR_SIZE - 1]))
+      return 1;
+    mhdrvec[AR_SIZE - 1] = mit.header();
+    /* EOF (i.e. no next block) is not an error */
+    if (mit.advance() > 0)
+      return 1;
+    mloaded = true;
+    return 0;
   }
 
 public:
@@ -249,25 +202,22 @@ public:
    * Example:
    */
   int initialize() noexcept {
-    mit.set_begin();
-    if (mit.collect(mcsvec[0])) {
-      fprintf(stderr,
-              "[ERROR] Failed initializing Aod1bDataStream (traceback: %s)\n",
-              __func__);
-      return 1;
+    mloaded = false;
+    int error = 0;
+    try {
+      mit.set_begin();
+    } catch (std::exception &) {
+      ++error;
     }
-    mhdrvec[0] = mit.header();
-
-    int j = 0;
-    for (int i = 1; i < AR_SIZE && (!j); i++) {
-      j = mit.advance();
-      j += mit.collect(mcsvec[i]);
-      mhdrvec[i] = mit.header();
+    for (int i = 0; i < AR_SIZE && (!error); i++) {
+      /* no more blocks ? */
+      error += mit.is_eof();
+      if (!error)
+        error += shift_and_collect();
     }
-    /* place iterator at next block */
-    j += mit.advance();
 
-    if (j) {
+    if (error) {
+      mloaded = false;
       fprintf(stderr,
               "[ERROR] Failed initializing Aod1bDataStream (traceback: %s)\n",
               __func__);
@@ -279,40 +229,33 @@ public:
   /** @brief Continue streaming from a new non-tidal AOD1B file.
    */
   int feed_next_file() noexcept {
-    char pfn[256];
-    {
-      int rl = Aod1bNonTidalProductNaming::resolve_rl(mstream.fn().c_str());
-      auto mjd = mstream.last_epoch().imjd() + dso::modified_julian_day(1);
-      Aod1bNonTidalProductNaming::filename(mjd.to_ymd(), rl, pfn);
-      std::string fullPathStr = (mdir.path() / pfn).string();
-      std::strcpy(pfn, fullPathStr.c_str());
-    }
-    /* read first block of new file to last index */
-    constexpr const int index = AR_SIZE - 1;
-    /* create an Aod1bIn instance and get the iterator */
+    std::string pfn;
     try {
-      mstream = Aod1bIn(pfn);
-      mit = Aod1bDataBlockIterator<T>(mstream);
+      const int rl =
+          Aod1bNonTidalProductNaming::resolve_rl(mstream.fn().c_str());
+      if (rl < 0)
+        return 2;
+      const auto mjd = mstream.last_epoch().imjd() + dso::modified_julian_day(1);
+      pfn = (mdir.path() /
+             Aod1bNonTidalProductNaming::filename(mjd.to_ymd(), rl))
+                .string();
+      /* create an Aod1bIn instance and get the iterator; if this fails (e.g.
+       * no such file), the instance is left as is.
+       */
+      Aod1bIn next(pfn.c_str());
+      Aod1bDataBlockIterator<T> it(next);
+      it.set_begin();
+      mstream = std::move(next);
+      mit = std::move(it);
+      mit.rebind(mstream);
     } catch (std::exception &) {
       return 2;
     }
-    /* left shift data */
-    swap(0, 1);
-    swap(1, 2);
-    /* collect header and first data block */
-    mit.set_begin();
-    if (mit.collect(mcsvec[index])) {
+    /* read first block of new file to last index */
+    if (shift_and_collect()) {
       fprintf(stderr,
               "[ERROR] Failed initializing Aod1bDataStream from %s (traceback: %s)\n",
-              pfn, __func__);
-      return 1;
-    }
-    mhdrvec[index] = mit.header();
-    /* place iterator at next block */
-    if (mit.advance()) {
-      fprintf(stderr,
-              "[ERROR] Failed initializing Aod1bDataStream (traceback: %s)\n",
-              __func__);
+              pfn.c_str(), __func__);
       return 1;
     }
     /* all done */
@@ -333,9 +276,17 @@ public:
                       StokesCoeffs &cs) noexcept {
     /* find suitable range (i.e. [0,1] of [1,2]) */
     int index;
-    if (t >= mhdrvec[0].mepoch && t < mhdrvec[1].mepoch) {
+    if (cs.max_degree() > mcsvec[0].max_degree() ||
+        cs.max_order() > mcsvec[0].max_order()) {
+      fprintf(stderr,
+              "[ERROR] Cannot collect %dx%d Stokes coefficients from AOD1B "
+              "file %s (traceback: %s)\n",
+              cs.max_degree(), cs.max_order(), mstream.fn().c_str(), __func__);
+      return 1;
+    }
+    if (mloaded && t >= mhdrvec[0].mepoch && t < mhdrvec[1].mepoch) {
       index = 0;
-    } else if (t >= mhdrvec[1].mepoch && t < mhdrvec[2].mepoch) {
+    } else if (mloaded && t >= mhdrvec[1].mepoch && t < mhdrvec[2].mepoch) {
       index = 1;
     } else {
       /* no quick return, hunt index; there are three possibilities here:
@@ -358,7 +309,6 @@ public:
                   __func__);
           return 1;
         } else {
-          printf(">>>> Feed next file smoothly; calling hunt_range now\n");
           if ((index = hunt_range(t)) < 0) {
             fprintf(
                 stderr,
@@ -428,11 +378,7 @@ public:
   }
 
   /** Destructor */
-  ~Aod1bDataStream() noexcept {
-    for (int i = 0; i < AR_SIZE; i++)
-      mcsvec[i].~StokesCoeffs();
-    operator delete[](mcsvec);
-  }
+  ~Aod1bDataStream() noexcept { deallocate(); }
 
   /** No copy constructor */
   Aod1bDataStream(const Aod1bDataStream &other) noexcept = delete;
@@ -441,20 +387,39 @@ public:
   /** Move-construction allowed */
   Aod1bDataStream(Aod1bDataStream &&other) noexcept
       : mstream(std::move(other.mstream)), mit(std::move(other.mit)),
-        mhdrvec(std::move(other.mhdrvec)), mcsvec(other.mcsvec) {
+        mhdrvec(std::move(other.mhdrvec)), mcsvec(other.mcsvec),
+        mloaded(other.mloaded), mdir(std::move(other.mdir)) {
+    mit.rebind(mstream);
     other.mcsvec = nullptr;
+    other.mloaded = false;
   }
   /** Move assignement operator allowed */
   Aod1bDataStream &operator=(Aod1bDataStream &&other) noexcept {
     if (this != &other) {
+      deallocate();
       mstream = std::move(other.mstream);
       mit = std::move(other.mit);
+      mit.rebind(mstream);
       mhdrvec = std::move(other.mhdrvec);
       mcsvec = other.mcsvec;
+      mloaded = other.mloaded;
+      mdir = std::move(other.mdir);
       other.mcsvec = nullptr;
+      other.mloaded = false;
     }
     return *this;
   }
+
+private:
+  /** Destroy the buffered coefficients (if any) and release memory */
+  void deallocate() noexcept {
+    if (mcsvec) {
+      for (int i = 0; i < AR_SIZE; i++)
+        mcsvec[i].~StokesCoeffs();
+      operator delete[](mcsvec);
+      mcsvec = nullptr;
+    }
+  }
 }; /* Aod1bDataStream */
 
 } /* namespace dso */
-- 
2.43.0


From a9b58f30fd6e7f3e7b6f1715df4df06fd84c39b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:44 +0000
Subject: [PATCH 44/68] fix: GROOPS file lists, Doodson and admittance
 matrices: incomplete and damaged input

---
 src/lib/tide_atlas_groops.cpp | 283 +++++++++++++++-------------------
 1 file changed, 125 insertions(+), 158 deletions(-)

diff --git a/src/lib/tide_atlas_groops.cpp b/src/lib/tide_atlas_groops.cpp
index 8873c53..7b72385 100644
--- a/src/lib/tide_atlas_groops.cpp
+++ b/src/lib/tide_atlas_groops.cpp
@@ -4,13 +4,12 @@
 #endif
 #include "icgemio.hpp"
 #include "tide_atlas.hpp"
-#include <algorithm>
+#include <array>
 #include <charconv>
 #include <cstdio>
-#include <cctype>
 #include <cstring>
 #include <fstream>
-#include <set>
+#include <sstream>
 #include <stdexcept>
 #include <string>
 #include <vector>
@@ -66,35 +65,53 @@ std::vector<std::string> resolve_file_list(const char *fn) noexcept {
     return std::vector<std::string>{};
   }
 
+  /* two names per line (any other columns are ignored); blank lines may exist */
   std::vector<std::string> fnvec;
-  constexpr const int LSZ = 512;
-  char line[LSZ];
-  while (fin.getline(line, LSZ)) {
-    const char *str1 = line;
-    while (*str1 && *str1 == ' ')
-      ++str1;
-    const char *end1 = str1;
-    while (*end1 && *end1 != ' ')
-      ++end1;
-    const char *str2 = end1;
-    while (*str2 && *str2 == ' ')
-      ++str2;
-    const char *end2 = str2;
-    while (*end2 && *end2 != ' ')
-      ++end2;
-    std::string sline(line);
-    fnvec.emplace_back(sline.substr(str1 - line, end1 - str1));
-    fnvec.emplace_back(sline.substr(str2 - line, end2 - str2));
+  std::string line;
+  while (std::getline(fin, line)) {
+    std::istringstream columns(line);
+    std::string name1, name2;
+    if (!(columns >> name1))
+      continue;
+    if (!(columns >> name2)) {
+      fprintf(stderr,
+              "[ERROR] Expected two filenames per line, found [%s] in file %s "
+              "(traceback: %s)\n",
+              line.c_str(), fn, __func__);
+      return std::vector<std::string>{};
+    }
+    fnvec.emplace_back(name1);
+    fnvec.emplace_back(name2);
   }
   return fnvec;
 }
 
+/* white space, including the '\r' of DOS line ends */
 const char *skipws(const char *line) noexcept {
-  while (*line && *line == ' ')
+  while (*line == ' ' || *line == '\t' || *line == '\r')
     ++line;
   return line;
 }
 
+/* resolve exactly num numeric values off from a line; values are passed one
+ * by one to the callback function, as (column, value).
+ */
+template <typename T, typename F>
+int resolve_columns(const std::string &line, int num, F &&store) noexcept {
+  const char *str = line.c_str();
+  const char *end = str + line.size();
+  for (int i = 0; i < num; i++) {
+    T val;
+    const auto res = std::from_chars(skipws(str), end, val);
+    /* a value ends where the next white space (or the line) does */
+    if (res.ec != std::errc{} || (res.ptr != end && skipws(res.ptr) == res.ptr))
+      return 1;
+    store(i, val);
+    str = res.ptr;
+  }
+  return skipws(str) != end;
+}
+
 Eigen::Matrix<int, Eigen::Dynamic, 6> parse_doodson(const char *fn) noexcept {
   std::ifstream fin(fn);
   if (!fin.is_open()) {
@@ -105,18 +122,14 @@ Eigen::Matrix<int, Eigen::Dynamic, 6> parse_doodson(const char *fn) noexcept {
   }
 
   std::vector<std::array<int, 6>> data;
-  constexpr const int LSZ = 124;
-  char line[LSZ];
+  std::string line;
   int error = 0;
-  while (fin.getline(line, LSZ) && (!error)) {
+  while (!error && std::getline(fin, line)) {
+    /* skip blank lines */
+    if (!*skipws(line.c_str()))
+      continue;
     std::array<int, 6> ar;
-    auto sz = std::strlen(line);
-    const char *str = line;
-    for (int i = 0; i < 6; i++) {
-      auto res = std::from_chars(skipws(str), str + sz, ar[i]);
-      error += (res.ec != std::errc{});
-      str = res.ptr;
-    }
+    error = resolve_columns<int>(line, 6, [&](int i, int n) { ar[i] = n; });
     data.push_back(ar);
   }
 
@@ -158,18 +171,7 @@ parse_admittance(const char *fn, int k, int f) noexcept {
   const int rows = k;
   const int cols = f;
 
-  /*
-   * constexpr const int LSZ = 1024;
-   * char line[LSZ];
-   * 1024 is certainly not valid! we need way more chars for a single line!
-   * how many ?
-   * each column takes up ...[XX.00000000e+00] = 16 chars
-   * but in the COSTG benchmark distributed files, they take up 27 chars,
-   * recorded like: XX.000000000000000000e+00
-   * and we have f columns (let's say f+1 to be sure!)
-   */
-  std::size_t LSZ = (cols + 1) * 27;
-  char *line = (char *)std::malloc(LSZ * sizeof(char));
+  std::string line;
   int error = 0;
   int row = 0;
 
@@ -178,39 +180,30 @@ parse_admittance(const char *fn, int k, int f) noexcept {
 #else
   Eigen::MatrixXd mat = Eigen::MatrixXd(rows, cols);
 #endif
-  while (fin.getline(line, LSZ) && (!error)) {
-    if (row > rows) {
+  while (!error && std::getline(fin, line)) {
+    /* skip blank lines */
+    if (!*skipws(line.c_str()))
+      continue;
+    if (row >= rows) {
       fprintf(stderr,
               "[ERROR] More rows than expected in admittance file %s "
               "(traceback: %s)\n",
               fn, __func__);
-      std::free(line);
-#ifdef SPARSE_ADMITTANCE_MATRIX
-      return Eigen::SparseMatrix<double>();
-#else
-      return Eigen::MatrixXd();
-#endif
+      ++error;
+      break;
     }
-    auto sz = std::strlen(line);
-    const char *str = line;
-    for (int col = 0; col < cols; col++) {
+    error = resolve_columns<double>(line, cols, [&](int col, double val) {
 #ifdef SPARSE_ADMITTANCE_MATRIX
-      double val;
-      auto res = std::from_chars(skipws(str), str + sz, val);
       if (val)
         mat.insert(row, col) = val;
 #else
-      auto res = std::from_chars(skipws(str), str + sz, mat(row, col));
+      mat(row, col) = val;
 #endif
-      error += (res.ec != std::errc{});
-      str = res.ptr;
-    }
+    });
     ++row;
   }
 
-  std::free(line);
-
-  if (error || !(fin.good() || fin.eof())) {
+  if (error || row != rows || !(fin.good() || fin.eof())) {
     fprintf(
         stderr,
         "[ERROR] Failed resolving admittance from file %s (traceback: %s)\n",
@@ -233,84 +226,56 @@ parse_admittance(const char *fn, int k, int f) noexcept {
 }
 
 struct GroopsTideModelFileName {
-  char _model[48] = {"\0"};
+  std::string _model;
   dso::DoodsonConstituent _doodson;
-  char _constituentName[16] = {"\0"};
-  char _sinCos; /* 'c' or 's' */
-
-  std::string compile(const char *model_name = nullptr,
-                      const dso::DoodsonConstituent *dood = nullptr,
-                      const char *wave_name = nullptr,
-                      char sincos = 's') const noexcept {
-    /* it seems that doodsons written in filename are upper-case ! */
-    constexpr const int to_upper = true;
-    const char *m = (model_name == nullptr) ? _model : model_name;
-    char buf[16] = {'\0'};
-    const dso::DoodsonConstituent *d = (dood == nullptr) ? (&_doodson) : (dood);
-    d->str(buf, true);
-    /* doodson number to uppercase if neeed */
-    if (to_upper) {
-      char *strl = buf;
-      while (*strl) {
-        *strl = std::toupper(static_cast<unsigned char>(*strl));
-        ++strl;
-      }
-    }
-    const char *w = (wave_name == nullptr) ? _constituentName : wave_name;
-    char str[124] = {'\0'};
-    std::sprintf(str, "%s_%s_%s_%s.gfc", m, buf, w,
-                 (sincos == 'c') ? "sin" : "cos");
-    return std::string(str);
+  std::string _constituentName;
+  char _sinCos{'\0'}; /* 'c' or 's' */
+
+  /* is this the file of the other (i.e. sin or cos) coefficients of a wave ? */
+  bool complements(const GroopsTideModelFileName &other) const noexcept {
+    return _model == other._model && _doodson == other._doodson &&
+           _constituentName == other._constituentName &&
+           _sinCos != other._sinCos;
   }
 
-  GroopsTideModelFileName(const char *fn) {
-    int error = 0;
+  GroopsTideModelFileName(const char *cfn) {
     /* pattern is <model name>_<doodson>_<name>_<cos/sin>.gfc */
-    const int sz = std::strlen(fn);
-    /* start backwards; check extension fn[sz-4:sz] == .gfc */
-    if (std::strncmp(fn + sz - 4, ".gfc", 4))
+    const std::string fn(cfn);
+    int error = 0;
+
+    /* start backwards; _<cos/sin>.gfc */
+    const std::string tail = (fn.size() > 8) ? fn.substr(fn.size() - 8) : "";
+    if (tail == "_cos.gfc")
+      _sinCos = 'c';
+    else if (tail == "_sin.gfc")
+      _sinCos = 's';
+    else
       ++error;
 
-    /* check sin/cos fn[sz-7] == sin/cos */
-    {
-      if (std::strncmp(fn + sz - 7, "sin", 3)) {
-        if (std::strncmp(fn + sz - 7, "cos", 3)) {
-          ++error;
-        } else {
-          _sinCos = 'c';
-        }
+    if (!error) {
+      /* separators, just before the name of the harmonic and the doodson */
+      const std::string head = fn.substr(0, fn.size() - 8);
+      const auto sep2 = head.rfind('_');
+      const auto sep1 = (sep2 == std::string::npos || sep2 == 0)
+                            ? std::string::npos
+                            : head.rfind('_', sep2 - 1);
+      /* doodson numbers are of type xxx.xxx */
+      if (sep1 == std::string::npos || sep2 - sep1 != 8) {
+        ++error;
       } else {
-        _sinCos = 's';
+        _constituentName = head.substr(sep2 + 1);
+        _doodson =
+            dso::DoodsonConstituent::from_chars(head.substr(sep1 + 1).c_str());
+        /* the rest is the model name */
+        _model = head.substr(0, sep1);
       }
     }
 
-    /* get name of harmonic */
-    int lastchar = sz - 9; /* should be just be before '_[sin|cos]' */
-    {
-      const char *str = fn + lastchar;
-      while (*str && *str != '_')
-        --str;
-      std::memcpy(_constituentName, str + 1, fn + sz - 9 - str);
-      lastchar = str - fn;
-    }
-
-    /* get Doodson */
-    {
-      const char *str = fn + lastchar - 1;
-      while (*str && *str != '_')
-        --str;
-      _doodson = dso::DoodsonConstituent::from_chars(str + 1);
-      lastchar = str - fn;
-    }
-
-    /* the rest is the model name */
-    std::memcpy(_model, fn, lastchar);
-
     if (error) {
       fprintf(stderr,
               "[ERROR] Failed parsing tidal constituent filename %s, part of "
               "some tide atlas (traceback: %s)\n",
-              fn, __func__);
+              cfn, __func__);
       throw std::runtime_error(
           "[ERROR] Failed parsing gfc constituent filename\n");
     }
@@ -321,29 +286,34 @@ struct GroopsTideModelFileName {
  *
  * Validate means:
  * 1. make sure we have no duplicates,
- * 2. make sure for every sin file there is a corresponding cos file
+ * 2. make sure for every sin file there is a corresponding cos file (and vice
+ *    versa)
+ * Throws if a filename does not follow the naming pattern.
  */
-int validate_file_list(const std::vector<std::string> &file_list) noexcept {
-  /* search for duplicates */
-  std::set<std::string> file_set(file_list.begin(), file_list.end());
-  if (file_list.size() != file_set.size()) {
-    fprintf(stderr,
+int validate_file_list(const std::vector<std::string> &file_list) {
+  std::vector<GroopsTideModelFileName> info;
+  for (const auto &f : file_list)
+    info.emplace_back(f.c_str());
+  for (std::size_t i = 0; i < info.size(); i++) {
+    int complements = 0;
+    for (std::size_t j = 0; j < info.size(); j++) {
+      /* search for duplicates */
+      if (j != i && info[j]._doodson == info[i]._doodson &&
+          info[j]._sinCos == info[i]._sinCos) {
+        fprintf(
+            stderr,
             "[WRNNG] Duplicate entry/ies found in file list (traceback: %s)\n",
             __func__);
-    return 1;
-  }
-  for (const auto &f : file_list) {
-    /* search for the corresponding trig */
-    const GroopsTideModelFileName gfn(f.c_str());
-    const std::string fr = gfn.compile(nullptr, nullptr, nullptr,
-                                       (gfn._sinCos == 's') ? 'c' : 's');
-    auto resit = std::find_if(file_list.cbegin(), file_list.cend(),
-                              [&](const std::string &s) { return s == fr; });
-    if (resit == file_list.cend()) {
+        return 1;
+      }
+      /* search for the corresponding trig */
+      complements += info[i].complements(info[j]);
+    }
+    if (!complements) {
       fprintf(stderr,
-              "[WRNNG] Failed locating respective coeff file for %s, i.e. %s "
+              "[WRNNG] Failed locating respective coeff file for %s "
               "(traceback: %s)\n",
-              f.c_str(), fr.c_str(), __func__);
+              file_list[i].c_str(), __func__);
       return 2;
     }
   }
@@ -402,7 +372,7 @@ dso::TideAtlas dso::groops_atlas(const char *file_list, const char *dir,
     if (it == atlas.waves().end()) {
       /* new tidal wave */
       it = atlas.append_wave(dso::TidalWave(wave_info._doodson, 0e0, 0e0,
-                                            wave_info._constituentName),
+                                            wave_info._constituentName.c_str()),
                              (max_degree < 0) ? cmaxdeg : max_degree,
                              (max_order < 0) ? cmaxord : max_order);
       it = atlas.waves().end() - 1;
@@ -412,20 +382,15 @@ dso::TideAtlas dso::groops_atlas(const char *file_list, const char *dir,
       ;
     }
 
-    char cfilename[248];
-    {
-      /* construct full filename, including path */
-      std::strcpy(cfilename, dir);
+    /* construct full filename, including path */
 #ifdef _WIN32
-      std::strcat(cfilename, "\\");
+    const std::string cfilename = std::string(dir) + "\\" + wave_fn;
 #else
-      std::strcat(cfilename, "/");
+    const std::string cfilename = std::string(dir) + "/" + wave_fn;
 #endif
-      std::strcat(cfilename, wave_fn.c_str());
-    }
 
     /* an Icgem instance to read data from (Stokes coefficients) */
-    dso::Icgem icgem(cfilename);
+    dso::Icgem icgem(cfilename.c_str());
     // if (tmp_name[0] && std::strcmp(tmp_name, icgem.model_name())) {
     //   fprintf(stderr,
     //           "[WRNNG] Model name in file %s differs from previous files,
@@ -433,7 +398,8 @@ dso::TideAtlas dso::groops_atlas(const char *file_list, const char *dir,
     //           "%s vs %s (traceback: %s)\n",
     //           wave_fn.c_str(), icgem.model_name(), tmp_name, __func__);
     // }
-    std::strcpy(tmp_name, icgem.model_name());
+    std::strncpy(tmp_name, icgem.model_name(),
+                 dso::TideAtlas::NAME_MAX_CHARS - 1);
 
     /* read coefficients to sin/cos part */
     dso::StokesCoeffs *cs =
@@ -483,7 +449,8 @@ dso::TideAtlas dso::groops_atlas(const char *file_001, const char *file_002,
   Eigen::MatrixXd admittance =
 #endif
       parse_admittance(file_003, atlas.waves().size(), doodson.rows());
-  if (admittance.cols() != doodson.rows()) {
+  if (admittance.cols() != doodson.rows() ||
+      admittance.rows() != (int)atlas.waves().size()) {
     fprintf(stderr,
             "[ERROR] Failed reading admittance matrix from file %s (traceback: "
             "%s)\n",
-- 
2.43.0


From e43c27fc29909e3be5f2f5bb59ae018a0d67c3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:19 +0000
Subject: [PATCH 45/68] fix: ocean tide models: moves over a model with
 admittance, long names, and the degree of sine coefficients

---
 include/atmospheric_tides.hpp |  4 ++--
 include/ocean_tide.hpp        | 14 +++++++-------
 include/tide_atlas.hpp        | 22 +++++++++++++++-------
 3 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/include/atmospheric_tides.hpp b/include/atmospheric_tides.hpp
index a724e1d..474e09e 100644
--- a/include/atmospheric_tides.hpp
+++ b/include/atmospheric_tides.hpp
@@ -88,7 +88,7 @@ public:
   /** @brief Constructor, optionally using a model name (no waves added). */
   AtmosphericTide(const char *name=nullptr):matlas() {
     if (name)
-      std::strcpy(matlas.name(), name);
+      matlas.set_name(name);
   }
 
   /** @brief Constructor, using an atlas and optionally a model name. */
@@ -99,7 +99,7 @@ public:
     if (max_order < max_degree)
       mcs.resize(max_degree, max_order);
     if (name)
-      std::strcpy(matlas.name(), name);
+      matlas.set_name(name);
   }
   
   /** @brief Max degree of the model (as in mcs) */
diff --git a/include/ocean_tide.hpp b/include/ocean_tide.hpp
index a205be1..8c92ec9 100644
--- a/include/ocean_tide.hpp
+++ b/include/ocean_tide.hpp
@@ -136,7 +136,7 @@ public:
     if (max_order < max_degree)
       mcs.resize(max_degree, max_order);
     if (name)
-      std::strcpy(matlas.name(), name);
+      matlas.set_name(name);
   }
 
   /** @brief Constructor given an atlas, a GroopsTideModel (for admittance) and 
@@ -158,7 +158,7 @@ public:
     if (max_order < max_degree)
       mcs.resize(max_degree, max_order);
     if (name)
-      std::strcpy(matlas.name(), name);
+      matlas.set_name(name);
   }
 
   /** @brief Destructor; deletes GroopsTideModel if any. */
@@ -193,11 +193,11 @@ public:
 
   /** @brief Move assignment operator */
   OceanTide &operator=(OceanTide &&ot) noexcept {
-    matlas = std::move(ot.matlas);
-    mcs = std::move(ot.mcs);
-    if (gmodel)
-      delete gmodel;
-    if (ot.gmodel) {
+    if (this != &ot) {
+      matlas = std::move(ot.matlas);
+      mcs = std::move(ot.mcs);
+      if (gmodel)
+        delete gmodel;
       gmodel = ot.gmodel;
       ot.gmodel = nullptr;
     }
diff --git a/include/tide_atlas.hpp b/include/tide_atlas.hpp
index e0bcd6f..87c58a6 100644
--- a/include/tide_atlas.hpp
+++ b/include/tide_atlas.hpp
@@ -81,17 +81,16 @@ public:
     int max_degree = 0;
     max_order = 0;
     for (const auto &w : mwaves) {
-      max_degree = std::max(max_degree, w.stokes_cos().max_degree());
-      max_order = std::max(max_order, w.stokes_cos().max_order());
+      for (const auto *cs : {&w.stokes_cos(), &w.stokes_sin()}) {
+        max_degree = std::max(max_degree, cs->max_degree());
+        max_order = std::max(max_order, cs->max_order());
+      }
     }
     return max_degree;
   }
   int max_atlas_degree() const noexcept {
-    int max_degree = 0;
-    for (const auto &w : mwaves) {
-      max_degree = std::max(max_degree, w.stokes_cos().max_degree());
-    }
-    return max_degree;
+    int max_order;
+    return max_atlas_degree(max_order);
   }
 
   /* @brief Search the list of tidal constituent for a specific wave.
@@ -120,6 +119,15 @@ public:
   const char *name() const { return mname; }
   char *name() { return mname; }
 
+  /** Set the name of the model (only the part that fits is kept) */
+  void set_name(const char *name) noexcept {
+    std::size_t i = 0;
+    for (; i < NAME_MAX_CHARS - 1 && name[i]; i++)
+      mname[i] = name[i];
+    for (; i < NAME_MAX_CHARS; i++)
+      mname[i] = '\0';
+  }
+
   /** @brief Append a tidal wave.
    *
    * Append a tidal wave using an TidalWave instance to describe it. The new
-- 
2.43.0


From 934663ce0c79d6ad2c3f7987c4647ac57bf70281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:55 +0000
Subject: [PATCH 46/68] fix: ocean and atmospheric tides: waves of different
 degree, waves appended later or twice, mismatched admittance

---
 include/atmospheric_tides.hpp                 |  9 +++++++
 include/ocean_tide.hpp                        | 16 +++++++++++-
 include/tide_atlas.hpp                        |  8 ++++++
 .../atm_tides_append_wave.cpp                 | 23 ++++------------
 .../atm_tides_geopotential.cpp                |  8 +++---
 src/lib/ocean_tide/ocean_tide_potential.cpp   | 26 ++++++++++++-------
 src/lib/tidal_constituent.cpp                 | 16 ++++++++++++
 7 files changed, 72 insertions(+), 34 deletions(-)

diff --git a/include/atmospheric_tides.hpp b/include/atmospheric_tides.hpp
index 474e09e..b84d0fc 100644
--- a/include/atmospheric_tides.hpp
+++ b/include/atmospheric_tides.hpp
@@ -78,6 +78,15 @@ private:
   /* Stokes coeffs to hold (if needed) the accumulated effect of all waves */
   StokesCoeffs mcs;
 
+  /** @brief Enlarge (if needed) mcs, so that all waves of the atlas fit in. */
+  void fit_stokes_coeffs() noexcept {
+    int order;
+    const int degree = matlas.max_atlas_degree(order);
+    if (degree > mcs.max_degree() || order > mcs.max_order())
+      mcs.cresize(std::max(degree, mcs.max_degree()),
+                  std::max(order, mcs.max_order()));
+  }
+
 public:
   /** @brief Return the underlying TideAtlas (const version) */
   const TideAtlas &atlas() const noexcept {return matlas;}
diff --git a/include/ocean_tide.hpp b/include/ocean_tide.hpp
index 8c92ec9..7be6d73 100644
--- a/include/ocean_tide.hpp
+++ b/include/ocean_tide.hpp
@@ -60,6 +60,18 @@ private:
   /* if we have admitance, we need to re-structure using a GroopsTideModel */
   GroopsTideModel *gmodel = nullptr;
 
+  /** @brief Enlarge (if needed) mcs, so that all waves of the atlas fit in.
+   *
+   * Waves can be added to the atlas after the construction of the instance.
+   */
+  void fit_stokes_coeffs() noexcept {
+    int order;
+    const int degree = matlas.max_atlas_degree(order);
+    if (degree > mcs.max_degree() || order > mcs.max_order())
+      mcs.cresize(std::max(degree, mcs.max_degree()),
+                  std::max(order, mcs.max_order()));
+  }
+
   /** @brief Compute accumulated Stokes coefficients.
    *
    * Compute the accumulated Stokes coefficients using all available waves
@@ -76,7 +88,9 @@ private:
    *            f  : L - OM [rad]
    *            d  : Mean elongation of the Moon from the Sun [rad]
    *            om : Mean longitude of the ascending node of the Moon [rad]
-   * @return Always zero. Note that the computed Stokes coeffs are stored in
+   * @return Zero on success; anything else denotes an error, i.e. an
+   *            admittance matrix that does not match the waves of the atlas.
+   *            Note that the computed Stokes coeffs are stored in
    *            the instance's mcs member variable.
    */
   int stokes_coeffs_impl(const MjdEpoch &mjdtt, const MjdEpoch &mjdut1,
diff --git a/include/tide_atlas.hpp b/include/tide_atlas.hpp
index 87c58a6..5ce113f 100644
--- a/include/tide_atlas.hpp
+++ b/include/tide_atlas.hpp
@@ -62,6 +62,14 @@ public:
   TidalConstituent(const TidalWave &wave, int max_degree,
                    int max_order) noexcept;
 
+  /** @brief Add the (scaled) coefficients to the ones of \p cs, i.e.
+   * cs += in-phase coeffs * fcos + quadrature coeffs * fsin.
+   *
+   * The in-phase and quadrature coefficients may be of any (different) size,
+   * as long as \p cs is of (at least) the same degree and order.
+   */
+  void accumulate(double fcos, double fsin, StokesCoeffs &cs) const noexcept;
+
 }; /* TidalConstituent */
 
 /** @class TidalAtlas
diff --git a/src/lib/atmospheric_tides/atm_tides_append_wave.cpp b/src/lib/atmospheric_tides/atm_tides_append_wave.cpp
index 44b3766..a5d3354 100644
--- a/src/lib/atmospheric_tides/atm_tides_append_wave.cpp
+++ b/src/lib/atmospheric_tides/atm_tides_append_wave.cpp
@@ -3,10 +3,6 @@
 
 int dso::AtmosphericTide::append_wave(const char *aod1b_fn, int max_degree,
                                        int max_order) noexcept {
-  /* max degree and order collected */
-  int mdeg_collected = 0;
-  int mord_collected = 0;
-
   try {
     /* constructor may throw */
     dso::Aod1bIn aod1b(aod1b_fn);
@@ -15,7 +11,7 @@ int dso::AtmosphericTide::append_wave(const char *aod1b_fn, int max_degree,
     if (max_degree < 0)
       max_degree = aod1b.max_degree();
     if (max_order < 0)
-      max_order = aod1b.max_degree();
+      max_order = max_degree;
 
     /* construct new instance */
     dso::TidalConstituent newWave(aod1b.tidal_wave(), max_degree, max_order);
@@ -26,14 +22,10 @@ int dso::AtmosphericTide::append_wave(const char *aod1b_fn, int max_degree,
       return 1;
     }
 
-    /* push back the new wave */
-    atlas().waves().emplace_back(newWave);
-
-    /* set degree and order collected */
-    mdeg_collected = newWave.stokes_cos().max_degree();
-    mord_collected = newWave.stokes_cos().max_order();
+    /* push back the new wave (throws if already included) */
+    atlas().append_wave(newWave);
 
-  } catch (std::runtime_error &) {
+  } catch (std::exception &) {
     fprintf(stderr,
             "[WRNNG] Failed parsing/appending tidal wave from AOD1B file %s "
             "(traceback: %s)\n",
@@ -42,12 +34,7 @@ int dso::AtmosphericTide::append_wave(const char *aod1b_fn, int max_degree,
   }
 
   /* do we need to re-size the instance's stokes coeffs size? */
-  if (mdeg_collected > mcs.max_degree() || mord_collected > mcs.max_order()) {
-    mcs.cresize(mdeg_collected, mord_collected);
-  }
-  if (mdeg_collected > mcs.max_degree() || mord_collected > mcs.max_order()) {
-    mcs.cresize(mdeg_collected, mord_collected);
-  }
+  fit_stokes_coeffs();
 
   return 0;
 }
diff --git a/src/lib/atmospheric_tides/atm_tides_geopotential.cpp b/src/lib/atmospheric_tides/atm_tides_geopotential.cpp
index d282988..4237145 100644
--- a/src/lib/atmospheric_tides/atm_tides_geopotential.cpp
+++ b/src/lib/atmospheric_tides/atm_tides_geopotential.cpp
@@ -4,7 +4,8 @@
 int dso::AtmosphericTide::stokes_coeffs(
     const dso::MjdEpoch &mjdtt, const dso::MjdEpoch &mjdut1,
     const double *const delaunay_args) noexcept {
-  /* nullify geopotential coeffs */
+  /* nullify geopotential coeffs; make sure all waves fit in */
+  fit_stokes_coeffs();
   mcs.clear();
 
   /* compute GMST using IAU 2006/2000A [rad] */
@@ -22,10 +23,7 @@ int dso::AtmosphericTide::stokes_coeffs(
                        wave.wave().doodson().pifactor() * dso::DPI/2;
     const double carg = std::cos(arg);
     const double sarg = std::sin(arg);
-    mcs.Cnm() +=
-        wave.stokes_cos().Cnm() * carg + wave.stokes_sin().Cnm() * sarg;
-    mcs.Snm() +=
-        wave.stokes_cos().Snm() * carg + wave.stokes_sin().Snm() * sarg;
+    wave.accumulate(carg, sarg, mcs);
   }
 
   return 0;
diff --git a/src/lib/ocean_tide/ocean_tide_potential.cpp b/src/lib/ocean_tide/ocean_tide_potential.cpp
index fc9e53c..a1f3f7c 100644
--- a/src/lib/ocean_tide/ocean_tide_potential.cpp
+++ b/src/lib/ocean_tide/ocean_tide_potential.cpp
@@ -5,7 +5,8 @@
 int dso::OceanTide::stokes_coeffs_impl(
     const dso::MjdEpoch &mjdtt, const dso::MjdEpoch &mjdut1,
     const double *const delaunay_args) noexcept {
-  /* nullify geopotential coeffs */
+  /* nullify geopotential coeffs; make sure all waves fit in */
+  fit_stokes_coeffs();
   mcs.clear();
 
   /* compute GMST using IAU 2006/2000A [rad] */
@@ -22,10 +23,7 @@ int dso::OceanTide::stokes_coeffs_impl(
     const double arg = wave.wave().doodson().argument(f);
     const double carg = std::cos(arg);
     const double sarg = std::sin(arg);
-    mcs.Cnm() +=
-        wave.stokes_cos().Cnm() * carg + wave.stokes_sin().Cnm() * sarg;
-    mcs.Snm() +=
-        wave.stokes_cos().Snm() * carg + wave.stokes_sin().Snm() * sarg;
+    wave.accumulate(carg, sarg, mcs);
   }
 
   return 0;
@@ -34,7 +32,18 @@ int dso::OceanTide::stokes_coeffs_impl(
 int dso::OceanTide::stokes_coeffs_with_admittance_impl(
     const dso::MjdEpoch &mjdtt, const dso::MjdEpoch &mjdut1,
     const double *const delaunay_args) noexcept {
-  /* nullify geopotential coeffs */
+  /* the admittance matrix should match the (major) waves of the atlas */
+  if (num_major_waves() != static_cast<int>(atlas().waves().size()) ||
+      admittance_matrix().cols() != num_waves()) {
+    fprintf(stderr,
+            "[ERROR] Admittance matrix does not match the waves of the ocean "
+            "tide atlas (traceback: %s)\n",
+            __func__);
+    return 1;
+  }
+
+  /* nullify geopotential coeffs; make sure all waves fit in */
+  fit_stokes_coeffs();
   mcs.clear();
 
   /* compute GMST using IAU 2006/2000A [rad] */
@@ -75,10 +84,7 @@ int dso::OceanTide::stokes_coeffs_with_admittance_impl(
   const double *__restrict__ fcos = factorCos.data();
   const double *__restrict__ fsin = factorSin.data();
   for (const auto &wave : atlas().waves()) {
-    mcs.Cnm() +=
-        wave.stokes_cos().Cnm() * (*fcos) + wave.stokes_sin().Cnm() * (*fsin);
-    mcs.Snm() +=
-        wave.stokes_cos().Snm() * (*fcos) + wave.stokes_sin().Snm() * (*fsin);
+    wave.accumulate(*fcos, *fsin, mcs);
     // printf("fcos = %.12e fsin = %.12e\n", *fcos, *fsin);
     ++fcos;
     ++fsin;
diff --git a/src/lib/tidal_constituent.cpp b/src/lib/tidal_constituent.cpp
index 778430f..91610f0 100644
--- a/src/lib/tidal_constituent.cpp
+++ b/src/lib/tidal_constituent.cpp
@@ -9,3 +9,19 @@ dso::TidalConstituent::TidalConstituent(const dso::TidalWave &wave, int max_degr
                       int max_order) noexcept
     : mwave(wave), mCosCs(max_degree, max_order),
       mSinCs(max_degree, max_order){};
+
+void dso::TidalConstituent::accumulate(double fcos, double fsin,
+                                       dso::StokesCoeffs &cs) const noexcept {
+  for (int m = 0; m <= mCosCs.max_order(); m++) {
+    for (int l = m; l <= mCosCs.max_degree(); l++) {
+      cs.C(l, m) += mCosCs.C(l, m) * fcos;
+      cs.S(l, m) += mCosCs.S(l, m) * fcos;
+    }
+  }
+  for (int m = 0; m <= mSinCs.max_order(); m++) {
+    for (int l = m; l <= mSinCs.max_degree(); l++) {
+      cs.C(l, m) += mSinCs.C(l, m) * fsin;
+      cs.S(l, m) += mSinCs.S(l, m) * fsin;
+    }
+  }
+}
-- 
2.43.0


From 79273f872421e94cb8cd75a82604116132d467e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 47/68] fix: ocean/atmospheric tides: a first wave of degree
 zero has coefficients to go to

---
 include/atmospheric_tides.hpp | 3 ++-
 include/ocean_tide.hpp        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/atmospheric_tides.hpp b/include/atmospheric_tides.hpp
index b84d0fc..0deef0f 100644
--- a/include/atmospheric_tides.hpp
+++ b/include/atmospheric_tides.hpp
@@ -82,7 +82,8 @@ private:
   void fit_stokes_coeffs() noexcept {
     int order;
     const int degree = matlas.max_atlas_degree(order);
-    if (degree > mcs.max_degree() || order > mcs.max_order())
+    if (degree > mcs.max_degree() || order > mcs.max_order() ||
+        mcs.Cnm().rows() <= degree)
       mcs.cresize(std::max(degree, mcs.max_degree()),
                   std::max(order, mcs.max_order()));
   }
diff --git a/include/ocean_tide.hpp b/include/ocean_tide.hpp
index 7be6d73..2c0007e 100644
--- a/include/ocean_tide.hpp
+++ b/include/ocean_tide.hpp
@@ -67,7 +67,8 @@ private:
   void fit_stokes_coeffs() noexcept {
     int order;
     const int degree = matlas.max_atlas_degree(order);
-    if (degree > mcs.max_degree() || order > mcs.max_order())
+    if (degree > mcs.max_degree() || order > mcs.max_order() ||
+        mcs.Cnm().rows() <= degree)
       mcs.cresize(std::max(degree, mcs.max_degree()),
                   std::max(order, mcs.max_order()));
   }
-- 
2.43.0


From a1663315125fdfc874de601df21b749d495ea568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 48/68] fix: ICGEM header: refuse a header without gravity
 constant, radius or maximum degree

---
 src/lib/icgem/icgemio_read_header.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/lib/icgem/icgemio_read_header.cpp b/src/lib/icgem/icgemio_read_header.cpp
index c242755..a1adad2 100644
--- a/src/lib/icgem/icgemio_read_header.cpp
+++ b/src/lib/icgem/icgemio_read_header.cpp
@@ -126,6 +126,8 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
   const char *arg;
   int counter = 0;
   int error = 0;
+  /* mandatory keywords found in the header */
+  bool has_gm = false, has_radius = false, has_degree = false;
 
   /* first off, skip the part between the begining of the file and the start
    * of the header. That is, find the line begining with the string:
@@ -177,6 +179,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
 
       /* check if this the 'earth_gravity_constant' field (mandatory keyword) */
     } else if (match_header_keyword("earth_gravity_constant", line, arg)) {
+      has_gm = true;
       if (!(*arg)) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
@@ -195,6 +198,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
 
       /* check if this the 'radius' field (mandatory keyword) */
     } else if (match_header_keyword("radius", line, arg)) {
+      has_radius = true;
       if (!(*arg)) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
@@ -213,6 +217,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
 
       /* check if this the 'max_degree' field (mandatory keyword) */
     } else if (match_header_keyword("max_degree", line, arg)) {
+      has_degree = true;
       if (!(*arg)) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
@@ -326,6 +331,16 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
 
   } /* keep on parsing (header) lines ... */
 
+  if (!has_gm || !has_radius || !has_degree) {
+    fprintf(stderr,
+            "[ERROR] Missing mandatory parameter %s in header of icgem %s "
+            "(traceback: %s)\n",
+            !has_gm ? "earth_gravity_constant"
+                    : (!has_radius ? "radius" : "max_degree"),
+            _filename.c_str(), __func__);
+    return 1;
+  }
+
   data_section_pos = fin.tellg();
   return 0;
 }
-- 
2.43.0


From 3bcf148ff13588cf0f90ad26d25d71a022d622ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:36 +0000
Subject: [PATCH 49/68] fix: FCN: the uncertainty grows before the first date,
 and no coefficients give no result

---
 src/lib/free_core_nutation/lambert.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib/free_core_nutation/lambert.cpp b/src/lib/free_core_nutation/lambert.cpp
index d29d48e..d58a862 100644
--- a/src/lib/free_core_nutation/lambert.cpp
+++ b/src/lib/free_core_nutation/lambert.cpp
@@ -1,6 +1,9 @@
 #include "fcn.hpp"
 #include "geodesy/core/geoconst.hpp"
 #include <algorithm>
+#include <cassert>
+#include <cmath>
+#include <limits>
 
 dso::fcn::FcnResult
 dso::lambert_fcn(const dso::MjdEpoch &t,
@@ -16,6 +19,12 @@ dso::lambert_fcn(const dso::MjdEpoch &t,
       (dso::D2PI / per) * (t.diff<dso::DateTimeDifferenceType::FractionalDays>(
                               dso::MjdEpoch::j2000_mjd()).days());
 
+  /* no coefficients, no model */
+  if (lvec.empty()) {
+    const double nan = std::numeric_limits<double>::quiet_NaN();
+    return dso::fcn::FcnResult(nan, nan, nan, nan);
+  }
+
   /* find an entry at the coefficient vector, for which t0 <= t < t1 */
   auto rit = lvec.rbegin() + 1;
   for (; rit != lvec.rend(); ++rit) {
@@ -69,7 +78,7 @@ dso::lambert_fcn(const dso::MjdEpoch &t,
 #endif
       const auto it = *lvec.begin();
       const double dt =
-          t.diff<dso::DateTimeDifferenceType::FractionalDays>(it.t).days();
+          it.t.diff<dso::DateTimeDifferenceType::FractionalDays>(t).days();
       axc[0] = it.xc();
       axs[0] = it.xs();
       ayc[0] = it.yc();
-- 
2.43.0


From 58ff9e4c64d98bf1aef0a571835eb0f4b57adaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:50 +0000
Subject: [PATCH 50/68] fix: rate of Greenwich mean sidereal time

---
 src/lib/iau/dgmst.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/iau/dgmst.cpp b/src/lib/iau/dgmst.cpp
index 47e1829..ad97494 100644
--- a/src/lib/iau/dgmst.cpp
+++ b/src/lib/iau/dgmst.cpp
@@ -6,12 +6,14 @@ double dso::dgmst(const dso::MjdEpoch &tt) noexcept {
   const double b =
       dso::sec2rad(
           4612.156534e0 +
-          (1.3915817e0 +
-           (-0.00000044e0 + (-0.000029956e0 + (-0.0000000368e0) * t) * t) * t) *
+          (2e0 * 1.3915817e0 +
+           (3e0 * -0.00000044e0 +
+            (4e0 * -0.000029956e0 + 5e0 * (-0.0000000368e0) * t) * t) *
+               t) *
               t) /
       36525e0;
   constexpr const double t2pi = dso::detail::AngleUnitTraits<
       dso::detail::AngleUnit::Radians>::full_circle();
-  const double a = t2pi * 2e0 * 1.00273781191135448;
+  const double a = t2pi * 1.00273781191135448e0;
   return a + b;
 }
-- 
2.43.0


From 3cc49ab98495ceed281e178b724ee3e173f08048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:50 +0000
Subject: [PATCH 51/68] fix: X of the CIP (extra version): last digit of the
 term in t

---
 src/lib/iau/xcip06a.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/iau/xcip06a.cpp b/src/lib/iau/xcip06a.cpp
index 6ca78eb..3b0ea47 100644
--- a/src/lib/iau/xcip06a.cpp
+++ b/src/lib/iau/xcip06a.cpp
@@ -6283,7 +6283,7 @@ constexpr const std::array<XYCipSeriesData, 253> X1Series = {
       {+0, +0, +2, -2, +2, +0, +0, +0, +0, +0, +0, +0, +0, +0}},
      /* 1307*/
      {-3.309730000e+03,
-      +2.058331e+05,
+      +2.0583311e+05,
       {+0, +0, +0, +0, +1, +0, +0, +0, +0, +0, +0, +0, +0,
        +0}}}}; /* X1Series */
 
-- 
2.43.0


From 224eb6a057d07de09f90e22ed9449cf6ada3d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:53 +0000
Subject: [PATCH 52/68] fix: ocean pole tide: degree 360, requests of lower
 degree after higher ones, no model loaded

---
 src/lib/pole_tide/ocean_pole_tide_geopotential.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp b/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
index 6a24af7..7fda15e 100644
--- a/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
+++ b/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
@@ -195,7 +195,7 @@ int dso::OceanPoleTide::stokes_coeffs(const dso::MjdEpoch &t, double xp,
   if (max_order  < 0) max_order = this->max_order();
 
   if ((max_degree < max_order) || (max_degree > this->max_degree()) ||
-      (max_order > this->max_order())) {
+      (max_order > this->max_order()) || (A_real.rows() <= max_degree)) {
     fprintf(stderr,
             "[ERROR] Invalid degree/order for Ocean Pole Tide expansion "
             "(traceback: %s)\n",
@@ -203,6 +203,9 @@ int dso::OceanPoleTide::stokes_coeffs(const dso::MjdEpoch &t, double xp,
     return 1;
   }
 
+  /* no coefficients of a previous call beyond the requested degree/order */
+  mcs.clear();
+
   const double Re = mcs.Re();
   const double GM = mcs.GM();
 
@@ -218,7 +221,7 @@ int dso::OceanPoleTide::stokes_coeffs(const dso::MjdEpoch &t, double xp,
   const double freal = m1 * g2_real + m2 * g2_imag;
   const double fimag = m2 * g2_real - m1 * g2_imag;
 
-  double knfac_arr[pole_tide_details::MAX_DEGREE_DESAI_2002];
+  double knfac_arr[pole_tide_details::MAX_DEGREE_DESAI_2002 + 1];
   double *__restrict__ knfac = &(knfac_arr[0]);
 
   /* order: m = 0; compute kn factors */
-- 
2.43.0


From 973e4073676808176fb57016e838e8ea3eb2e284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:43 +0000
Subject: [PATCH 53/68] fix: Desai 2002 coefficients: refuse a degree or order
 out of range

---
 src/lib/pole_tide/parse_desai02_coeffs.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/pole_tide/parse_desai02_coeffs.cpp b/src/lib/pole_tide/parse_desai02_coeffs.cpp
index 9c41fb1..5ebfae1 100644
--- a/src/lib/pole_tide/parse_desai02_coeffs.cpp
+++ b/src/lib/pole_tide/parse_desai02_coeffs.cpp
@@ -47,7 +47,7 @@ int dso::pole_tide_details::parse_desai02_coeffs(
     return 1;
   }
 
-  if ((max_degree < max_order) ||
+  if ((max_degree < max_order) || (max_order < 0) ||
       (max_degree > dso::pole_tide_details::MAX_DEGREE_DESAI_2002) ||
       (max_order > dso::pole_tide_details::MAX_ORDER_DESAI_2002)) {
     fprintf(stderr,
@@ -94,7 +94,7 @@ int dso::pole_tide_details::parse_desai02_coeffs(
   /* older versions of gcc complain about uninitialized l, m values */
   int l = 0, m = 0;
   double data[4];
-  while (fin.getline(line, SZ) && !error) {
+  while (!error && fin.getline(line, SZ)) {
     auto sz = std::strlen(line);
     const char *from = line;
     auto res = std::from_chars(skipws(from), line + sz, l);
@@ -108,7 +108,9 @@ int dso::pole_tide_details::parse_desai02_coeffs(
       error += (res.ec != std::errc{});
       from = res.ptr;
     }
-    if (l <= max_degree && m <= max_order) {
+    /* valid degree and order ? */
+    error += (m < 0 || m > l);
+    if (!error && l <= max_degree && m <= max_order) {
       A_real(l, m) = data[0];
       B_real(l, m) = data[1];
       A_imag(l, m) = data[2];
-- 
2.43.0


From 3a44b1a7de9cc67d0a7b189ac71071f7ba2ef9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 54/68] fix: ocean pole tide loading coefficients: longitudes
 turned by 180 degrees, the last column, damaged files

---
 include/grid.hpp                              |  4 +
 .../get_desai_ocp_deformation_coeffs.cpp      | 96 ++++++++++++++-----
 2 files changed, 75 insertions(+), 25 deletions(-)

diff --git a/include/grid.hpp b/include/grid.hpp
index 482c0ef..1f0fb50 100644
--- a/include/grid.hpp
+++ b/include/grid.hpp
@@ -64,6 +64,10 @@ public:
       : mxpts(xpts), mypts(ypts), mxstart(xstart), mxstep(xstep),
         mystart(ystart), mystep(ystep) {};
 
+  int xpts() const noexcept { return mxpts; }
+  int ypts() const noexcept { return mypts; }
+  double xstart() const noexcept { return mxstart; }
+  double ystart() const noexcept { return mystart; }
   double xstep() const noexcept { return mxstep; }
   double ystep() const noexcept { return mystep; }
   double xstop() const noexcept { return mxstart + mxpts * mxstep; }
diff --git a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
index 4266e93..c6d97c5 100644
--- a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
+++ b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
@@ -1,7 +1,9 @@
 #include "geodesy/units.hpp"
 #include "grid.hpp"
 #include "pole_tide.hpp"
+#include <algorithm>
 #include <charconv>
+#include <cmath>
 #include <cstring>
 #include <fstream>
 #include <geodesy/core/crdtype_warppers.hpp>
@@ -19,7 +21,8 @@ constexpr const int MAX_CH = 256;
 const char *nf(const char *line) noexcept {
   while (*line && *line != '=')
     ++line;
-  ++line;
+  if (*line)
+    ++line;
   while (*line && *line == ' ')
     ++line;
   return line;
@@ -242,6 +245,20 @@ int parse_desai_header(std::ifstream &fin,
   /* last header line is just ommited */
   fin.getline(line, MAX_CH);
 
+  /* the description of the grid must make sense */
+  const double tol = 1e-2;
+  if (!(lon_pts > 1 && lon_pts < 100000 && lat_pts > 1 && lat_pts < 100000 &&
+        lon_step > 0 && lat_step > 0) ||
+      !(std::abs(lon_start + (lon_pts - 1) * lon_step - lon_last) <
+        tol * lon_step) ||
+      !(std::abs(lat_start + (lat_pts - 1) * lat_step - lat_last) <
+        tol * lat_step)) {
+    fprintf(stderr,
+            "[ERROR] Invalid grid in OPT coeffs file (traceback: %s)\n",
+            __func__);
+    return 3;
+  }
+
   grd = dso::TwoDimGrid<dso::GridAxis::Y>(lon_start, lon_step, lon_pts,
                                           lat_start, lat_step, lat_pts);
   return 0;
@@ -250,8 +267,30 @@ int parse_desai_header(std::ifstream &fin,
 /* utility struct: hold indexes/line-numbers of the sourounding nodes */
 struct SiteNode {
   long bl, br, tl, tr;
+  /* longitude of the site, in the range of the grid [deg] */
+  double lon;
+  /* degrees to add to the longitudes of the nodes at the right */
+  double wrap;
 };
 
+/* longitude (given in [rad], any range), in the range [start, start+360) of
+ * the grid, in [deg]
+ */
+double grid_longitude(double lon,
+                      const dso::TwoDimGrid<dso::GridAxis::Y> &grd) noexcept {
+  double x = dso::rad2deg(lon);
+  x -= 360e0 * std::floor((x - grd.xstart()) / 360e0);
+  return (x < grd.xstart() + 360e0) ? x : grd.xstart();
+}
+
+/* is the record the given node of the grid ? */
+bool is_node(double lon, double lat, long index,
+             const dso::TwoDimGrid<dso::GridAxis::Y> &grd) noexcept {
+  const auto node = grd.xyindex2node(index);
+  return std::abs(node.x - lon) < 1e-2 * grd.xstep() &&
+         std::abs(node.y - lat) < 1e-2 * grd.ystep();
+}
+
 /* Flatten out and sort (numerically) a series of SiteNode instances.
  * The resulting vector will hold all individual entries of the passed in 
  * SiteNode's, sorted numerically. Thus the size of the resulting vector will 
@@ -290,9 +329,9 @@ const char *skipws(const char *line) noexcept {
 int parse_line(const char *line, OptRecord &rec) {
   double data[8];
   int error = 0;
-  const int sz = std::strlen(line);
+  const char *const end = line + std::strlen(line);
   for (int i = 0; i < 8; i++) {
-    auto res = std::from_chars(skipws(line), line + sz, data[i]);
+    auto res = std::from_chars(skipws(line), end, data[i]);
     if (res.ec != std::errc{})
       ++error;
     line = res.ptr;
@@ -343,15 +382,33 @@ int dso::get_desai_ocp_deformation_coeffs(
    *
    * WARNING!
    * lon is usually in the range [-π, π), but the coefficients file uses the
-   * range [0, 2π)
+   * range [0, 2π). Between the last and the first column of a global grid,
+   * the nodes at the right are the ones of the first column.
    */
   std::vector<SiteNode> nodes;
   nodes.reserve(sta.size());
   for (const auto &s : sta) {
     long bl, br, tl, tr;
-    grd.surrounding_nodes(dso::rad2deg(s.lon() + DPI), dso::rad2deg(s.lat()),
-                          bl, br, tl, tr);
-    nodes.emplace_back(SiteNode{bl, br, tl, tr});
+    const double lon = grid_longitude(s.lon(), grd);
+    double wrap = 0e0;
+    grd.surrounding_nodes(lon, dso::rad2deg(s.lat()), bl, br, tl, tr);
+    if (bl >= 0 && bl % grd.xpts() == grd.xpts() - 1) {
+      if (std::abs(grd.xpts() * grd.xstep() - 360e0) < 1e-2 * grd.xstep()) {
+        br -= grd.xpts();
+        tr -= grd.xpts();
+        wrap = 360e0;
+      } else {
+        bl = br = tl = tr = -1;
+      }
+    }
+    if (bl < 0 || tl >= static_cast<long>(grd.xpts()) * grd.ypts()) {
+      fprintf(stderr,
+              "[ERROR] Site at (%.3f %.3f) is not within the grid of file %s "
+              "(traceback: %s)\n",
+              dso::rad2deg(s.lon()), dso::rad2deg(s.lat()), fn, __func__);
+      return 1;
+    }
+    nodes.emplace_back(SiteNode{bl, br, tl, tr, lon, wrap});
   }
 
   /* flatten and sort list of indexes (i.e. line numbers) to be read */
@@ -400,7 +457,11 @@ int dso::get_desai_ocp_deformation_coeffs(
         recs.begin(), recs.end(), nptr->tr,
         [](const OptRecord &r, long i) { return r.index < i; });
     if (nptr->bl != bl->index || nptr->br != br->index ||
-        nptr->tl != tl->index || nptr->tr != tr->index) {
+        nptr->tl != tl->index || nptr->tr != tr->index ||
+        !is_node(bl->lon, bl->lat, bl->index, grd) ||
+        !is_node(br->lon, br->lat, br->index, grd) ||
+        !is_node(tl->lon, tl->lat, tl->index, grd) ||
+        !is_node(tr->lon, tr->lat, tr->index, grd)) {
       fprintf(stderr,
               "[ERROR] Failed interpolating for site at (%.3f %.3f) "
               "(traceback: %s)\n",
@@ -409,8 +470,8 @@ int dso::get_desai_ocp_deformation_coeffs(
     }
     /* bilinear interpolation */
     const double x1 = bl->lon;
-    const double x2 = br->lon;
-    const double x = dso::rad2deg(site.lon()+DPI);
+    const double x2 = br->lon + nptr->wrap;
+    const double x = nptr->lon;
     const double y1 = bl->lat;
     const double y2 = tl->lat;
     const double y = dso::rad2deg(site.lat());
@@ -419,21 +480,6 @@ int dso::get_desai_ocp_deformation_coeffs(
     const double f21 = (x - x1) * (y2 - y);
     const double f12 = (x2 - x) * (y - y1);
     const double f22 = (x - x1) * (y - y1);
-#ifdef DEBUG
-    const double x0 = dso::rad2deg(site.lon() + DPI);
-    const double y0 = dso::rad2deg(site.lat());
-    //printf("TL(%.2f, %.2f)    TR(%.2f, %.2f)\n", tl->lon, tl->lat, tr->lon, tr->lat);
-    //printf("             (%.2f,  %.2f)\n", x0, y0);
-    //printf("BL(%.2f, %.2f)    BR(%.2f, %.2f)\n", bl->lon, bl->lat, br->lon, br->lat);
-    assert(bl->lon <= x0 && bl->lat <= y0);
-    assert(br->lon > x0 && br->lat <= y0);
-    assert(tl->lon <= x0 && tl->lat > y0);
-    assert(tr->lon > x0 && tr->lat > y0);
-#endif
-    /* (redundant?) checks */
-    assert(((bl->lon == tl->lon) && (br->lon == tr->lon)) &&
-           ((bl->lat == br->lat) && (tl->lat == tr->lat)));
-    assert(bl->lon <= x && bl->lat <= y);
 
     const double rR =
         f * (bl->rR * f11 + br->rR * f21 + tl->rR * f12 + tr->rR * f22);
-- 
2.43.0


From 961f940b5b1afe24aa4299acbf36ca0300c8b790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:44 +0000
Subject: [PATCH 55/68] fix: solid Earth tide: the wave 163,545 of the
 displacement, listed as 163,565

---
 src/lib/solid_earth_tides/iers2010_displacement_step2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/solid_earth_tides/iers2010_displacement_step2.cpp b/src/lib/solid_earth_tides/iers2010_displacement_step2.cpp
index 88d03e5..4d3701c 100644
--- a/src/lib/solid_earth_tides/iers2010_displacement_step2.cpp
+++ b/src/lib/solid_earth_tides/iers2010_displacement_step2.cpp
@@ -97,7 +97,7 @@ constexpr const std::array<Table7, 36> Tables7Extended = {
       +0.0000e+00},
      {/*162556*/ {1, 1, -3, 0, 0, 1}, -6.0000e-02, +0.0000e+00, +0.0000e+00,
       +0.0000e+00},
-     {/*163565*/ {1, 1, -2, 0, 1, 0}, +1.0000e-02, +0.0000e+00, +0.0000e+00,
+     {/*163545*/ {1, 1, -2, 0, -1, 0}, +1.0000e-02, +0.0000e+00, +0.0000e+00,
       +0.0000e+00},
      {/*163555*/ {1, 1, -2, 0, 0, 0}, -1.2300e+00, -7.0000e-02, +6.0000e-02,
       +1.0000e-02},
-- 
2.43.0


From b43a0b7e1070fa64d9a2b307350a2448f1a1b60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:44 +0000
Subject: [PATCH 56/68] fix: solid Earth tide: the sign of the transverse
 displacement of Q1

---
 src/lib/solid_earth_tides/iers2010_displacement_step2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/solid_earth_tides/iers2010_displacement_step2.cpp b/src/lib/solid_earth_tides/iers2010_displacement_step2.cpp
index 4d3701c..d80154c 100644
--- a/src/lib/solid_earth_tides/iers2010_displacement_step2.cpp
+++ b/src/lib/solid_earth_tides/iers2010_displacement_step2.cpp
@@ -75,7 +75,7 @@ constexpr const std::array<Table7, 36> Tables7Extended = {
       +0.0000e+00},
      {/*135645*/ {1, -2, 0, 1, -1, 0}, -2.0000e-02, -1.0000e-02, +0.0000e+00,
       +0.0000e+00},
-     {/*135655*/ {1, -2, 0, 1, 0, 0}, -8.0000e-02, +0.0000e+00, +1.0000e-02,
+     {/*135655*/ {1, -2, 0, 1, 0, 0}, -8.0000e-02, +0.0000e+00, -1.0000e-02,
       +1.0000e-02},
      {/*137455*/ {1, -2, 2, -1, 0, 0}, -2.0000e-02, -1.0000e-02, +0.0000e+00,
       +0.0000e+00},
-- 
2.43.0


From 208a73a2391642eb02f3d80876ed107111452e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:32 +0000
Subject: [PATCH 57/68] fix: cspice kernels: a loaded name that starts with the
 one asked for, long names

---
 src/lib/planets/kernel.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/planets/kernel.cpp b/src/lib/planets/kernel.cpp
index 41f04f1..4aacde9 100644
--- a/src/lib/planets/kernel.cpp
+++ b/src/lib/planets/kernel.cpp
@@ -2,9 +2,10 @@
 #include <cstring>
 
 namespace {
-constexpr const int FILLEN = 128;
+/* kernel names may have up to 255 characters */
+constexpr const int FILLEN = 256;
 constexpr const int TYPLEN = 32;
-constexpr const int SRCLEN = 128;
+constexpr const int SRCLEN = 256;
 }
 
 int dso::cspice::load_if_unloaded(const char *kernel) noexcept {
@@ -23,7 +24,7 @@ int dso::cspice::load_if_unloaded(const char *kernel) noexcept {
     for (which = 0; which < count; which++) {
       kdata_c(which, "ALL", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
-      if (!std::strncmp(file, kernel, std::strlen(kernel)))
+      if (found && !std::strcmp(file, kernel))
         return 0;
     }
   }
-- 
2.43.0


From d5b2efdc94e3f9670a5a2b21ac6f5ad1d66387f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:56 +0000
Subject: [PATCH 58/68] fix: mergeAod1b.py: terminate the header of the merged
 file

---
 bin/mergeAod1b.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/mergeAod1b.py b/bin/mergeAod1b.py
index 321557f..4486a60 100755
--- a/bin/mergeAod1b.py
+++ b/bin/mergeAod1b.py
@@ -82,6 +82,7 @@ class Aod1b:
     def dump(self, ofile=sys.stdout):
         for k,v in self.dct.items():
             print('{:30s}: {:}'.format(k,v), file=ofile)
+        print('END OF HEADER', file=ofile)
 
 def sortAod1bFileList(file_list):
     Aod1bFileList = []
-- 
2.43.0


From 61785ca1ffa0d9534136f1bd49de66404f50842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:56 +0000
Subject: [PATCH 59/68] fix: mergeAod1b.py: merge more than two files

---
 bin/mergeAod1b.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/mergeAod1b.py b/bin/mergeAod1b.py
index 4486a60..2180fdb 100755
--- a/bin/mergeAod1b.py
+++ b/bin/mergeAod1b.py
@@ -57,7 +57,7 @@ class Aod1b:
         return int(key)
     def headersMatch(self, other):
         for k,v in self.dct.items():
-            if k not in ['TIME FIRST OBS(SEC PAST EPOCH)', 'TIME LAST OBS(SEC PAST EPOCH)', 'PRODUCT START CREATE TIME(UTC)', 'PRODUCT END CREATE TIME(UTC)', 'FILESIZE (BYTES)', 'FILENAME']:
+            if k not in ['TIME FIRST OBS(SEC PAST EPOCH)', 'TIME LAST OBS(SEC PAST EPOCH)', 'PRODUCT START CREATE TIME(UTC)', 'PRODUCT END CREATE TIME(UTC)', 'FILESIZE (BYTES)', 'FILENAME', 'NUMBER OF DATA RECORDS', 'NUMBER OF DATA SETS']:
                 if v != other.dct[k]:
                     print('Warning! Mismatch in AOD1B headers! Field is {:}'.format(k))
                     return False
-- 
2.43.0


From 24189e1ba8651b6775ad0b7bbafacf338af9beff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:56 +0000
Subject: [PATCH 60/68] fix: mergeAod1b.py: accept observations prior to the
 time epoch

---
 bin/mergeAod1b.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/mergeAod1b.py b/bin/mergeAod1b.py
index 2180fdb..97c3214 100755
--- a/bin/mergeAod1b.py
+++ b/bin/mergeAod1b.py
@@ -43,11 +43,11 @@ class Aod1b:
         return datetime.datetime.strptime(self.dct['TIME EPOCH (GPS TIME)'], "%Y-%m-%d %H:%M:%S")
     def firstObs(self):
         val = self.dct['TIME FIRST OBS(SEC PAST EPOCH)']
-        d = re.match(r'[0-9]*.[0-9]* *\(([0-9]{4}-[0-9]{2}-[0-9]{2} [0-9]{2}:[0-9]{2}:[0-9]{2})', val)[1]
+        d = re.match(r'-?[0-9]*.[0-9]* *\(([0-9]{4}-[0-9]{2}-[0-9]{2} [0-9]{2}:[0-9]{2}:[0-9]{2})', val)[1]
         return datetime.datetime.strptime(d, "%Y-%m-%d %H:%M:%S")
     def lastObs(self):
         val = self.dct['TIME LAST OBS(SEC PAST EPOCH)']
-        d = re.match(r'[0-9]*.[0-9]* *\(([0-9]{4}-[0-9]{2}-[0-9]{2} [0-9]{2}:[0-9]{2}:[0-9]{2})', val)[1]
+        d = re.match(r'-?[0-9]*.[0-9]* *\(([0-9]{4}-[0-9]{2}-[0-9]{2} [0-9]{2}:[0-9]{2}:[0-9]{2})', val)[1]
         return datetime.datetime.strptime(d, "%Y-%m-%d %H:%M:%S")
     def numDataSets(self):
         key = self.dct['NUMBER OF DATA SETS']
-- 
2.43.0


From 78a7f2372e432030d5d50449bc0b97a6972a99f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:56 +0000
Subject: [PATCH 61/68] fix: mergeAod1b.py: save to the output directory, never
 over an input file

---
 bin/mergeAod1b.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/mergeAod1b.py b/bin/mergeAod1b.py
index 97c3214..987778c 100755
--- a/bin/mergeAod1b.py
+++ b/bin/mergeAod1b.py
@@ -131,7 +131,7 @@ if __name__ == "__main__":
             merged = merged.merge(Aod1b(f))
             catAod1bData(f, fout)
 
-    outf = os.path.join(args.out_dir, sfiles[0].replace('.asc', '.merged.asc'))
+    outf = os.path.join(args.out_dir, re.sub(r'(\.asc)?$', '.merged.asc', os.path.basename(sfiles[0]), count=1))
     with open(outf, 'w') as fout: 
         merged.dump(fout)
         with open(tmpout, 'r') as fin:
-- 
2.43.0


From 03e4e160bbeea8fdd6e1208c61e01dffe996aca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:56 +0000
Subject: [PATCH 62/68] fix: mergeAod1b.py: files without end of header, or
 without a final newline

---
 bin/mergeAod1b.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bin/mergeAod1b.py b/bin/mergeAod1b.py
index 987778c..912f29f 100755
--- a/bin/mergeAod1b.py
+++ b/bin/mergeAod1b.py
@@ -28,12 +28,14 @@ def readAod1bHeader(fn):
 
 def catAod1bData(fn, fout):
     with open(fn, 'r') as fin:
-        while True:
-            line = fin.readline()
+        for line in fin:
             if line.strip() == "END OF HEADER":
                 break
+        else:
+            raise RuntimeError('No END OF HEADER in AOD1B file {:}'.format(fn))
         s = fin.read()
     fout.write(s)
+    if s and not s.endswith('\n'): fout.write('\n')
 
 class Aod1b:
     def __init__(self, fn):
-- 
2.43.0


From 73f60d48d83558e57bbf5e3e902206e0dc9773f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:13 +0000
Subject: [PATCH 63/68] fix: mergeAod1b.py: files that cannot be merged leave
 no empty product

---
 bin/mergeAod1b.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/mergeAod1b.py b/bin/mergeAod1b.py
index 912f29f..e652524 100755
--- a/bin/mergeAod1b.py
+++ b/bin/mergeAod1b.py
@@ -131,6 +131,7 @@ if __name__ == "__main__":
         catAod1bData(sfiles[0], fout)
         for f in sfiles[1:]:
             merged = merged.merge(Aod1b(f))
+            if merged is None: sys.exit(1)
             catAod1bData(f, fout)
 
     outf = os.path.join(args.out_dir, re.sub(r'(\.asc)?$', '.merged.asc', os.path.basename(sfiles[0]), count=1))
-- 
2.43.0


From bc979bf3f4f6a6f9869880fc14112d9e7daa4433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:13 +0000
Subject: [PATCH 64/68] fix: getAod1b.py: interrupted downloads are not taken
 for products

---
 bin/getAod1b.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bin/getAod1b.py b/bin/getAod1b.py
index f80b1a9..819f73f 100755
--- a/bin/getAod1b.py
+++ b/bin/getAod1b.py
@@ -29,7 +29,10 @@ def ftpget(server, fdir, fn, outdir, saveas=None):
     ftp.login()
     ftp.cwd(fdir)
     #ftp.retrlines('LIST')
-    ftp.retrbinary("RETR {}".format(fn), open(saveas, 'wb').write)
+# the file only gets its name when it is complete
+    with open(saveas + '.part', 'wb') as fout:
+        ftp.retrbinary("RETR {}".format(fn), fout.write)
+    os.replace(saveas + '.part', saveas)
     ftp.quit()
     return saveas
 
@@ -124,8 +127,9 @@ if __name__ == "__main__":
         if saveas.endswith('.gz') and args.dcmp:
             ns = saveas[0:-3]
             with gzip.open(saveas, 'rb') as fin:
-                with open(ns, 'wb') as fout:
+                with open(ns + '.part', 'wb') as fout:
                     shutil.copyfileobj(fin, fout)
+            os.replace(ns + '.part', ns)
             saveas = ns
 # next day
         t += datetime.timedelta(days=1)
-- 
2.43.0


From b48c2666e95680336d09034ceb50a80ccb9f1e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:35 +0000
Subject: [PATCH 65/68] fix: getAod1b.py: runs at the same time do not share
 their incomplete files

---
 bin/getAod1b.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/bin/getAod1b.py b/bin/getAod1b.py
index 819f73f..e08389f 100755
--- a/bin/getAod1b.py
+++ b/bin/getAod1b.py
@@ -22,6 +22,10 @@ def product_name(**kwargs):
         url = gfz_ftp ##'isdcftp.gfz-potsdam.de'
     return { 'fn': fn, 'dir': uri, 'url': url }
 
+## name of a file while it is incomplete; not shared with other runs
+def part_name(fn):
+    return '{:}.{:}.part'.format(fn, os.getpid())
+
 def ftpget(server, fdir, fn, outdir, saveas=None):
     saveas = fn if saveas is None else saveas
     saveas = os.path.join(outdir, saveas)
@@ -30,9 +34,13 @@ def ftpget(server, fdir, fn, outdir, saveas=None):
     ftp.cwd(fdir)
     #ftp.retrlines('LIST')
 # the file only gets its name when it is complete
-    with open(saveas + '.part', 'wb') as fout:
-        ftp.retrbinary("RETR {}".format(fn), fout.write)
-    os.replace(saveas + '.part', saveas)
+    part = part_name(saveas)
+    try:
+        with open(part, 'wb') as fout:
+            ftp.retrbinary("RETR {}".format(fn), fout.write)
+        os.replace(part, saveas)
+    finally:
+        if os.path.isfile(part): os.remove(part)
     ftp.quit()
     return saveas
 
@@ -126,10 +134,14 @@ if __name__ == "__main__":
 # do we need to decompress ?
         if saveas.endswith('.gz') and args.dcmp:
             ns = saveas[0:-3]
-            with gzip.open(saveas, 'rb') as fin:
-                with open(ns + '.part', 'wb') as fout:
-                    shutil.copyfileobj(fin, fout)
-            os.replace(ns + '.part', ns)
+            part = part_name(ns)
+            try:
+                with gzip.open(saveas, 'rb') as fin:
+                    with open(part, 'wb') as fout:
+                        shutil.copyfileobj(fin, fout)
+                os.replace(part, ns)
+            finally:
+                if os.path.isfile(part): os.remove(part)
             saveas = ns
 # next day
         t += datetime.timedelta(days=1)
-- 
2.43.0


From 2d76779697373b0a61aecc21edf3242f80eace54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:35 +0000
Subject: [PATCH 66/68] fix: mergeAod1b.py: no shared temporary file, no
 incomplete product

---
 bin/mergeAod1b.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/bin/mergeAod1b.py b/bin/mergeAod1b.py
index e652524..a3de3d4 100755
--- a/bin/mergeAod1b.py
+++ b/bin/mergeAod1b.py
@@ -123,19 +123,20 @@ parser.add_argument(
 
 if __name__ == "__main__":
     args = parser.parse_args()
-    tmpout = '.aod1bdata'
     
     sfiles = sortAod1bFileList(args.files)
-    with open(tmpout, 'w') as fout:
-        merged = Aod1b(sfiles[0])
-        catAod1bData(sfiles[0], fout)
-        for f in sfiles[1:]:
-            merged = merged.merge(Aod1b(f))
-            if merged is None: sys.exit(1)
-            catAod1bData(f, fout)
+    merged = Aod1b(sfiles[0])
+    for f in sfiles[1:]:
+        merged = merged.merge(Aod1b(f))
+        if merged is None: sys.exit(1)
 
     outf = os.path.join(args.out_dir, re.sub(r'(\.asc)?$', '.merged.asc', os.path.basename(sfiles[0]), count=1))
-    with open(outf, 'w') as fout: 
-        merged.dump(fout)
-        with open(tmpout, 'r') as fin:
-            fout.write(fin.read())
+# the file only gets its name when it is complete
+    part = '{:}.{:}.part'.format(outf, os.getpid())
+    try:
+        with open(part, 'w') as fout:
+            merged.dump(fout)
+            for f in sfiles: catAod1bData(f, fout)
+        os.replace(part, outf)
+    finally:
+        if os.path.isfile(part): os.remove(part)
-- 
2.43.0


From 3b4678d60ba9134dfb41d4f1d387539fdca4c9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:31 +0000
Subject: [PATCH 67/68] fix: mergeAod1b.py: headers match only if they have the
 same fields

---
 bin/mergeAod1b.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/mergeAod1b.py b/bin/mergeAod1b.py
index a3de3d4..0730e71 100755
--- a/bin/mergeAod1b.py
+++ b/bin/mergeAod1b.py
@@ -58,6 +58,9 @@ class Aod1b:
         key = self.dct['NUMBER OF DATA RECORDS']
         return int(key)
     def headersMatch(self, other):
+        if self.dct.keys() != other.dct.keys():
+            print('Warning! AOD1B headers do not have the same fields!')
+            return False
         for k,v in self.dct.items():
             if k not in ['TIME FIRST OBS(SEC PAST EPOCH)', 'TIME LAST OBS(SEC PAST EPOCH)', 'PRODUCT START CREATE TIME(UTC)', 'PRODUCT END CREATE TIME(UTC)', 'FILESIZE (BYTES)', 'FILENAME', 'NUMBER OF DATA RECORDS', 'NUMBER OF DATA SETS']:
                 if v != other.dct[k]:
-- 
2.43.0


From 360ab45381d96b0f842b7759993e6d3377b87896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:46 +0000
Subject: [PATCH 68/68] fix: EOP files can be read for windows of any length

---
 src/lib/eop/parse_iers_c0414.cpp | 8 +++++---
 src/lib/eop/parse_iers_c0420.cpp | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib/eop/parse_iers_c0414.cpp b/src/lib/eop/parse_iers_c0414.cpp
index 4434414..072d40b 100644
--- a/src/lib/eop/parse_iers_c0414.cpp
+++ b/src/lib/eop/parse_iers_c0414.cpp
@@ -1,4 +1,5 @@
 #include "eop.hpp"
+#include <algorithm>
 #include <charconv>
 #include <cstdio>
 #include <cstring>
@@ -55,10 +56,11 @@ int dso::details::parse_iers_C0414(const char *c04fn,
 
   {
     /* if needed, resize the EOP table, interval is [start, end) */
-    int days =
-        std::ceil(end.diff<dso::DateTimeDifferenceType::FractionalDays>(start).days());
+    const double days = std::ceil(
+        end.diff<dso::DateTimeDifferenceType::FractionalDays>(start).days());
     eops.clear();
-    eops.reserve(days);
+    /* the interval can be far longer than the file */
+    eops.reserve(static_cast<int>(std::min(days, 36525e0)));
   }
 
   char line[MAX_LINE_CHARS];
diff --git a/src/lib/eop/parse_iers_c0420.cpp b/src/lib/eop/parse_iers_c0420.cpp
index 2fe7ffd..bde36a1 100644
--- a/src/lib/eop/parse_iers_c0420.cpp
+++ b/src/lib/eop/parse_iers_c0420.cpp
@@ -1,4 +1,5 @@
 #include "eop.hpp"
+#include <algorithm>
 #include <charconv>
 #include <cstdio>
 #include <cstring>
@@ -59,10 +60,11 @@ int dso::details::parse_iers_C0420(const char *c04fn,
 
   {
     /* if needed, resize the EOP table, interval is [start, end) */
-    int days = std::ceil(
+    const double days = std::ceil(
         end.diff<dso::DateTimeDifferenceType::FractionalDays>(start).days());
     eops.clear();
-    eops.reserve(days);
+    /* the interval can be far longer than the file */
+    eops.reserve(static_cast<int>(std::min(days, 36525e0)));
   }
 
   char line[MAX_LINE_CHARS];
-- 
2.43.0

