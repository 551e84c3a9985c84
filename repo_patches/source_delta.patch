From 4e9d6994ef631bccee350da01b5094da9b54107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 01/32] fix: Mat2D copies copy the elements (memset with a
 pointer argument did not compile), also into a moved-from matrix

---
 src/cmat2d.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cmat2d.hpp b/src/cmat2d.hpp
index 3b5d232..72dce6e 100644
--- a/src/cmat2d.hpp
+++ b/src/cmat2d.hpp
@@ -234,7 +234,7 @@ public:
 
   Mat2D(const Mat2D &mat) noexcept
       : m_storage(mat.m_storage), m_data(new double[mat.num_elements()]) {
-    std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+    std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
   }
 
   Mat2D(Mat2D &&mat) noexcept : m_storage(mat.m_storage), m_data(mat.m_data) {
@@ -243,11 +243,11 @@ public:
 
   Mat2D &operator=(const Mat2D &mat) noexcept {
     if (this != &mat) {
-      if (m_data && (m_storage.num_elements() != mat.num_elements())) {
+      if (!m_data || (num_elements() != mat.num_elements())) {
         delete[] m_data;
         m_data = new double[mat.num_elements()];
       }
-      std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+      std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
       m_storage.rows = mat.rows();
       m_storage.cols = mat.cols();
     }
-- 
2.43.0


From f3f22ed64bf49037968548a5e81554ed84bd6f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 02/32] fix: Mat2D move assignment releases the old elements,
 survives self-move and returns

---
 src/cmat2d.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cmat2d.hpp b/src/cmat2d.hpp
index 72dce6e..880f8b3 100644
--- a/src/cmat2d.hpp
+++ b/src/cmat2d.hpp
@@ -255,10 +255,14 @@ public:
   }
 
   Mat2D &operator=(Mat2D &&mat) noexcept {
-    m_storage.rows = mat.rows();
-    m_storage.cols = mat.cols();
-    m_data = mat.m_data;
-    mat.m_data = nullptr;
+    if (this != &mat) {
+      delete[] m_data;
+      m_storage.rows = mat.rows();
+      m_storage.cols = mat.cols();
+      m_data = mat.m_data;
+      mat.m_data = nullptr;
+    }
+    return *this;
   }
 
 #ifdef DEBUG
-- 
2.43.0


From 48ee2817f3899f2c90b52644b2a26b013fa08cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 03/32] fix: HarmonicCoeffs::resize frees the rows it drops and
 allocates when nothing was allocated

---
 src/gravity/harmonic_coeffs.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gravity/harmonic_coeffs.cpp b/src/gravity/harmonic_coeffs.cpp
index 9def5a1..da56fa1 100644
--- a/src/gravity/harmonic_coeffs.cpp
+++ b/src/gravity/harmonic_coeffs.cpp
@@ -21,7 +21,10 @@ int dso::HarmonicCoeffs::deallocate() noexcept {
 }
 
 void dso::HarmonicCoeffs::resize(int degree) noexcept {
-    if (degree <= m_degree) {
+    if (m_data && degree <= m_degree) {
+      // rows above the new degree would never be freed by deallocate()
+      for (int i = degree + 1; i <= m_degree; i++)
+        delete[] m_data[i];
       m_degree = degree;
     } else {
       deallocate();
-- 
2.43.0


From 4c1c6cb15a78d6cbc7d5548ecc8c22f59e66fade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 04/32] fix: HarmonicCoeffs move assignment frees the old
 coefficients and survives self-move

---
 src/gravity/harmonic_coeffs.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gravity/harmonic_coeffs.cpp b/src/gravity/harmonic_coeffs.cpp
index da56fa1..0bdf7ee 100644
--- a/src/gravity/harmonic_coeffs.cpp
+++ b/src/gravity/harmonic_coeffs.cpp
@@ -48,6 +48,9 @@ dso::HarmonicCoeffs::HarmonicCoeffs(dso::HarmonicCoeffs &&h) noexcept {
 
 dso::HarmonicCoeffs &
 dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
+  if (this == &h)
+    return *this;
+  this->deallocate();
   this->m_degree = h.m_degree;
   this->m_data = h.m_data;
   this->_GM = h._GM;
-- 
2.43.0


From 7193b99d6b94a6c46d1dfdf3a1e3508631b7c930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:07 +0000
Subject: [PATCH 05/32] fix: third row of the perifocal to equatorial rotation
 uses the argument of pericenter

---
 src/astrodynamics/perifocal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/astrodynamics/perifocal.cpp b/src/astrodynamics/perifocal.cpp
index 76a89f5..2710d1f 100644
--- a/src/astrodynamics/perifocal.cpp
+++ b/src/astrodynamics/perifocal.cpp
@@ -19,8 +19,8 @@ dso::Mat3x3 dso::perifocal2equatorial_matrix(double Omega, double omega,
   const double m10 = sO * co + cO * so * ci;
   const double m11 = -sO * so + cO * co * ci;
   const double m12 = -cO * si;
-  const double m20 = sO * si;
-  const double m21 = cO * si;
+  const double m20 = so * si;
+  const double m21 = co * si;
   const double m22 = ci;
 
   return dso::Mat3x3({m00, m01, m02, m10, m11, m12, m20, m21, m22});
-- 
2.43.0


From e6c4de2f20ad0cfe39945295ed6530279ebc5877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:07 +0000
Subject: [PATCH 06/32] fix: elements2state applies node and pericenter
 rotations in the right order

---
 src/astrodynamics/state2kepler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/astrodynamics/state2kepler.cpp b/src/astrodynamics/state2kepler.cpp
index e74fcd0..20a07d6 100644
--- a/src/astrodynamics/state2kepler.cpp
+++ b/src/astrodynamics/state2kepler.cpp
@@ -79,9 +79,10 @@ Eigen::Matrix<double, 6, 1> dso::elements2state(double GM, double dt,
   const double Omega = ele.Omega();
   const double omega = ele.omega();
   const double i = ele.inclination();
-  Eigen::Matrix3d R(Eigen::AngleAxisd(-Omega, Eigen::Vector3d::UnitZ()) *
+  // (R is its transpose, hence the reversed order)
+  Eigen::Matrix3d R(Eigen::AngleAxisd(-omega, Eigen::Vector3d::UnitZ()) *
                     Eigen::AngleAxisd(-i, Eigen::Vector3d::UnitX()) *
-                    Eigen::AngleAxisd(-omega, Eigen::Vector3d::UnitZ()));
+                    Eigen::AngleAxisd(-Omega, Eigen::Vector3d::UnitZ()));
   //printf("PQW = [%+20.10f %+20.10f %20.10f]\n", R(0,0),R(0,1),R(0,2));
   //printf("      [%+20.10f %+20.10f %20.10f]\n", R(1,0),R(1,1),R(1,2));
   //printf("      [%+20.10f %+20.10f %20.10f]\n", R(2,0),R(2,1),R(2,2));
-- 
2.43.0


From a97ee2460cd3db5fc08297f5b236ecb8fa4f4512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 07/32] fix: state2kepler_montenbruck divides r.v by a^2 n in
 the eccentric anomaly

---
 src/astrodynamics/state2kepler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynamics/state2kepler.cpp b/src/astrodynamics/state2kepler.cpp
index 20a07d6..2595c4b 100644
--- a/src/astrodynamics/state2kepler.cpp
+++ b/src/astrodynamics/state2kepler.cpp
@@ -195,7 +195,7 @@ int dso::alternatives::state2kepler_montenbruck(const double *state,
   const double e = std::sqrt(1e0 - (p / a));
   keplerian[3] = e;
 
-  const double E = atan2(r.dot_product(v) / a * a / n, 1e0 - rmag / a);
+  const double E = atan2(r.dot_product(v) / (a * a) / n, 1e0 - rmag / a);
   const double sE = std::sin(E);
   // const double M = E - e * sE;
 
-- 
2.43.0


From 1f4c8edfea3ea849b2671d84b0fb9807a97461ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 08/32] fix: debug lagrange_polynomials applies 2m-1 to both
 terms of the sectorial recursion

---
 src/gravity/lagrange_poly.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gravity/lagrange_poly.cpp b/src/gravity/lagrange_poly.cpp
index fea9ca7..074f556 100644
--- a/src/gravity/lagrange_poly.cpp
+++ b/src/gravity/lagrange_poly.cpp
@@ -41,8 +41,8 @@ int dso::lagrange_polynomials(
 
   for (m = 1; m <= k; m++) {
     // use 3.29 to compute V_mm and W_mm
-    V(m, m) = (2 * m - 1) * x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1);
-    W(m, m) = (2 * m - 1) * x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1);
+    V(m, m) = (2 * m - 1) * (x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1));
+    W(m, m) = (2 * m - 1) * (x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1));
 
     if (m < l) {
       V(m + 1, m) = (2 * m + 1) * z0 * V(m, m);
-- 
2.43.0


From 216a3ceb94b714031e248e07da57bcbfcaf00144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 09/32] fix: gravity gradient fills its upper triangle from the
 symmetric elements

---
 src/gravity/gravity_acceleration.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gravity/gravity_acceleration.cpp b/src/gravity/gravity_acceleration.cpp
index dc6a4b3..24ae9b0 100644
--- a/src/gravity/gravity_acceleration.cpp
+++ b/src/gravity/gravity_acceleration.cpp
@@ -205,12 +205,12 @@ Eigen::Matrix<double,3,1> dso::grav_potential_accel(
   partials(1, 0) = daxdy_m0 + daxdy_m1 + daxdy_m2; // dax/dy
   partials(2, 0) = daxdz_m0 + daxdz_m2;            // dax/dz
 
-  partials(0, 1) = partials(0, 1);      // day/dx
+  partials(0, 1) = partials(1, 0);      // day/dx
   partials(1, 1) = 1e0;                 // day/dy
   partials(2, 1) = daydz_m0 + daydz_m2; // day/dz
 
-  partials(0, 2) = partials(0, 2);                 // daz/dx
-  partials(1, 2) = partials(1, 2);                 // daz/dy
+  partials(0, 2) = partials(2, 0);                 // daz/dx
+  partials(1, 2) = partials(2, 1);                 // daz/dy
   partials(2, 2) = dazdz_m0 + dazdz_m1 + dazdz_m2; // daz/dz
 
   // computation of day / dy from the fact that:
-- 
2.43.0


From 3d9f66bac473c22353be8a2adea7017c478eb038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 10/32] fix: zonal-only gravity gradient does not use order one
 harmonics outside V and W

---
 src/gravity/gravity_acceleration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gravity/gravity_acceleration.cpp b/src/gravity/gravity_acceleration.cpp
index 24ae9b0..3e7bf9a 100644
--- a/src/gravity/gravity_acceleration.cpp
+++ b/src/gravity/gravity_acceleration.cpp
@@ -106,7 +106,7 @@ Eigen::Matrix<double,3,1> dso::grav_potential_accel(
   double daxdx_m1(0e0), daxdy_m1(0e0), dazdz_m1(0e0);
   // m = 1 part (only considered for partials)
   fac = 2e0; /* recursion of (n+1)! / (n-1)! */
-  for (int i = 1; i <= degree; i++) {
+  for (int i = 1; order > 0 && i <= degree; i++) {
     const double Cn1 = hc.C(i, 1);
     const double Sn1 = hc.S(i, 1);
     daxdx_m1 += 0.25e0 * (Cn1 * V(i + 2, 3) + Sn1 * W(i + 2, 3) +
-- 
2.43.0


From 7d80a7b88e9c6d15c0cfe649b58aa91fce443bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 11/32] fix: gravity gradient includes the order one terms of
 dax/dz and day/dz

---
 src/gravity/gravity_acceleration.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/gravity/gravity_acceleration.cpp b/src/gravity/gravity_acceleration.cpp
index 3e7bf9a..48046ec 100644
--- a/src/gravity/gravity_acceleration.cpp
+++ b/src/gravity/gravity_acceleration.cpp
@@ -103,7 +103,8 @@ Eigen::Matrix<double,3,1> dso::grav_potential_accel(
   // printf("\tGravitational potential (m=0)\n");
   // printf("\t%+15.6f %+15.6f %15.6f\n", xacc, yacc, zacc);
 
-  double daxdx_m1(0e0), daxdy_m1(0e0), dazdz_m1(0e0);
+  double daxdx_m1(0e0), daxdy_m1(0e0), daxdz_m1(0e0), daydz_m1(0e0),
+      dazdz_m1(0e0);
   // m = 1 part (only considered for partials)
   fac = 2e0; /* recursion of (n+1)! / (n-1)! */
   for (int i = 1; order > 0 && i <= degree; i++) {
@@ -113,6 +114,11 @@ Eigen::Matrix<double,3,1> dso::grav_potential_accel(
                           fac * (-3e0 * Cn1 * V(i + 2, 1) - Sn1 * W(i + 2, 1)));
     daxdy_m1 += 0.25e0 * (Cn1 * W(i + 2, 3) - Sn1 * V(i + 2, 3) +
                           fac * (-Cn1 * W(i + 2, 1) - Sn1 * V(i + 2, 1)));
+    /* fac * (i + 2) is (n+2)! / (n-1)! */
+    daxdz_m1 += 0.5e0 * (i * (Cn1 * V(i + 2, 2) + Sn1 * W(i + 2, 2)) -
+                         fac * (i + 2) * (Cn1 * V(i + 2, 0)));
+    daydz_m1 += 0.5e0 * (i * (Cn1 * W(i + 2, 2) - Sn1 * V(i + 2, 2)) -
+                         fac * (i + 2) * (Sn1 * V(i + 2, 0)));
     dazdz_m1 += (double)(i * (i + 1)) * (Cn1 * V(i + 2, 1) + Sn1 * W(i + 2, 1));
 
     fac *= ((double)(i + 2) / (double)i);
@@ -203,11 +209,11 @@ Eigen::Matrix<double,3,1> dso::grav_potential_accel(
   // Sum-up partial derivatives, column-wise
   partials(0, 0) = daxdx_m0 + daxdx_m1 + daxdx_m2; // dax/dx
   partials(1, 0) = daxdy_m0 + daxdy_m1 + daxdy_m2; // dax/dy
-  partials(2, 0) = daxdz_m0 + daxdz_m2;            // dax/dz
+  partials(2, 0) = daxdz_m0 + daxdz_m1 + daxdz_m2; // dax/dz
 
   partials(0, 1) = partials(1, 0);      // day/dx
   partials(1, 1) = 1e0;                 // day/dy
-  partials(2, 1) = daydz_m0 + daydz_m2; // day/dz
+  partials(2, 1) = daydz_m0 + daydz_m1 + daydz_m2; // day/dz
 
   partials(0, 2) = partials(2, 0);                 // daz/dx
   partials(1, 2) = partials(2, 1);                 // daz/dy
-- 
2.43.0


From 3adccbfa2d13be7f399e3ec9c6ac1e922fdcce28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 12/32] fix: var/icgem gravity acceleration pairs C with W and
 S with V in the y component

---
 var/icgem/src/gravity_acceleration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/var/icgem/src/gravity_acceleration.cpp b/var/icgem/src/gravity_acceleration.cpp
index cd53e5b..b9fdd48 100644
--- a/var/icgem/src/gravity_acceleration.cpp
+++ b/var/icgem/src/gravity_acceleration.cpp
@@ -41,7 +41,7 @@ int dso::grav_potential_accel(
       xacc2 += 0.5e0 * (-Cnm * Vnp1mp1 - Snm * Wnp1mp1) +
                fac * (Cnm * Vnp1mm1 + Snm * Wnp1mm1);
       yacc2 += 0.5e0 * (-Cnm * Wnp1mp1 + Snm * Vnp1mp1) +
-               fac * (-Cnm * Vnp1mm1 + Snm * Wnp1mm1);
+               fac * (-Cnm * Wnp1mm1 + Snm * Vnp1mm1);
       zacc += (i - j + 1) * (-Cnm * Vnp1mp0 - Snm * Wnp1mp0);
     }
   }
-- 
2.43.0


From 9baae7f38390c62e034cad586c0f2f234e938a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 13/32] fix: grav_potential_accel computes the harmonics also
 when assertions are disabled

---
 src/egravity.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/egravity.hpp b/src/egravity.hpp
index e524b56..c9225ba 100644
--- a/src/egravity.hpp
+++ b/src/egravity.hpp
@@ -168,7 +168,9 @@ grav_potential_accel(const Eigen::Matrix<double, 3, 1> &pos, int degree,
   assert(V.rows() >= degree + 2 && V.cols() >= order + 2);
   assert(W.rows() >= degree + 2 && W.cols() >= order + 2);
   // compute Langrange polynomials
-  assert(!dso::lagrange_polynomials(pos, hc.Re(), degree + 1, order + 1, V, W));
+  [[maybe_unused]] const int error = dso::lagrange_polynomials(
+      pos, hc.Re(), degree + 1, order + 1, V, W);
+  assert(!error);
   // return acceleration
   return grav_potential_accel(degree, order, hc.Re(), hc.GM(), V, W, hc);
 }
@@ -188,7 +190,9 @@ grav_potential_accel(const Eigen::Matrix<double, 3, 1> &pos, int degree,
   assert(V.rows() == degree + 3 && V.cols() == order + 3);
   assert(W.rows() == degree + 3 && W.cols() == order + 3);
   // compute Langrange polynomials
-  assert(!dso::lagrange_polynomials(pos, hc.Re(), degree + 2, order + 2, V, W));
+  [[maybe_unused]] const int error = dso::lagrange_polynomials(
+      pos, hc.Re(), degree + 2, order + 2, V, W);
+  assert(!error);
   // return acceleration
   return grav_potential_accel(degree, order, hc.Re(), hc.GM(), V, W, hc,
                               partials);
-- 
2.43.0


From 45ffa44ebebef9691e204d2b5e0ee034b2e8e0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 14/32] fix: point mass partials subtract the dyadic term
 scaled by the satellite-body distance

---
 src/gravity/point_mass_acceleration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gravity/point_mass_acceleration.cpp b/src/gravity/point_mass_acceleration.cpp
index 1ea8059..e931d0a 100644
--- a/src/gravity/point_mass_acceleration.cpp
+++ b/src/gravity/point_mass_acceleration.cpp
@@ -36,9 +36,9 @@ dso::point_mass_accel(double GM, const Eigen::Matrix<double, 3, 1> &rsat,
   // const Eigen::Matrix<double, 3, 1> a = (-GM) * (d / (dn*dn2) + robj / (sn*sn2));
 
   // partials w.r.t. position
-  const double sn5 = sn2 * sn2 * sn;
+  const double dn5 = dn2 * dn2 * dn;
   partials = (-GM) * ( Eigen::Matrix<double, 3, 3>::Identity() / (dn*dn2) 
-  +3e0 * (d*d.transpose()) / sn5);
+  -3e0 * (d*d.transpose()) / dn5);
 
   return (-GM) * (d / (dn*dn2) + robj / (sn*sn2));
 }
-- 
2.43.0


From 91aa028ca34cfd616ec978575bfcb35d610387ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:42 +0000
Subject: [PATCH 15/32] fix: drag in the frame of date keeps its intermediate
 vectors alive

---
 src/astrodynamics/drag.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/astrodynamics/drag.cpp b/src/astrodynamics/drag.cpp
index 5145ea1..34c30ca 100644
--- a/src/astrodynamics/drag.cpp
+++ b/src/astrodynamics/drag.cpp
@@ -26,12 +26,12 @@ dso::drag_accel(const Eigen::Matrix<double, 3, 1> &rsat,
   const Eigen::Matrix<double, 3, 1> omega{omegav};
 
   // position and velocity of satellite to true-of-date system
-  const auto rtod = rbpn * rsat;
-  const auto vtod = rbpn * vsat;
+  const Eigen::Matrix<double, 3, 1> rtod = rbpn * rsat;
+  const Eigen::Matrix<double, 3, 1> vtod = rbpn * vsat;
 
   // Velocity relative to the Earth's atmosphere
-  const auto vrel = vtod - omega.cross(rtod);
-  const auto vabs = vrel.norm();
+  const Eigen::Matrix<double, 3, 1> vrel = vtod - omega.cross(rtod);
+  const double vabs = vrel.norm();
 
   // Acceleration
   Eigen::Matrix<double, 3, 1> acc =
-- 
2.43.0


From a0e008525ec773743f6b4461fbef8c25fb3d4ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:42 +0000
Subject: [PATCH 16/32] fix: penumbra and umbra widths use the distance behind
 the Earth

---
 src/astrodynamics/occultation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/astrodynamics/occultation.cpp b/src/astrodynamics/occultation.cpp
index b072257..47b4b76 100644
--- a/src/astrodynamics/occultation.cpp
+++ b/src/astrodynamics/occultation.cpp
@@ -21,7 +21,8 @@ double utest::vallado_shadow(const dso::Vector3 &r_sat,
 
   const double r = r_sat.norm();
   const double s = r_sun.norm();
-  const double cosz = product / (r * s);
+  // angle between the anti-solar direction and the satellite
+  const double cosz = -product / (r * s);
   const double zeta = std::acos(cosz);
   const double sinz = std::sin(zeta);
   const double sath = r * cosz;
-- 
2.43.0


From 62325e7b0392b002d3f05bb54f2cfc69e61c5341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 17/32] fix: right ascension is a number also in the meridian
 plane y=0

---
 src/astrodynamics/pos2ra.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/astrodynamics/pos2ra.cpp b/src/astrodynamics/pos2ra.cpp
index 2a9bf8f..27d88d2 100644
--- a/src/astrodynamics/pos2ra.cpp
+++ b/src/astrodynamics/pos2ra.cpp
@@ -19,13 +19,14 @@ int dso::pos2ad(const Vector3 &pos, double &a, double &d) noexcept {
 #endif
   d = std::asin(n); // range [-pi/2 to pi/2]
   
-  // Calculate the right ascension
-  const double af = std::acos(l / std::cos(d));
+  // Calculate the right ascension (via atan2, which needs no division by
+  // cos(d) and hence has no rounding trouble close to the plane y=0)
+  const double af = std::atan2(m, l);
 #ifdef BRANCHLESS
-  const double ret[] = {iers2010::D2PI - af, af};
-  a = ret[m>0];
+  const double ret[] = {af, iers2010::D2PI + af};
+  a = ret[af<0];
 #else
-  a = (m<=0) ? (iers2010::D2PI - af) : af;
+  a = (af<0) ? (iers2010::D2PI + af) : af;
 #endif
 
   return 0;
-- 
2.43.0


From 1d7d38750b7fd2f38e5790da74049e5f29d48367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 18/32] fix: scale height of the 180-200 km layer

---
 src/atmosphere/exponential_atmospheric_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atmosphere/exponential_atmospheric_model.cpp b/src/atmosphere/exponential_atmospheric_model.cpp
index e28c923..86434bb 100644
--- a/src/atmosphere/exponential_atmospheric_model.cpp
+++ b/src/atmosphere/exponential_atmospheric_model.cpp
@@ -29,7 +29,7 @@ const AtmLayer AtmTable[] = {
     {130, 140, 130, 8.484e-9, 12.636e0},
     {140, 150, 140, 3.845e-9, 16.149e0},
     {150, 180, 150, 2.070e-9, 22.523e0},
-    {180, 200, 180, 5.464e-10, 29740e0},
+    {180, 200, 180, 5.464e-10, 29.740e0},
     {200, 250, 200, 2.789e-10, 37.105e0},
     {250, 300, 250, 7.248e-11, 45.546e0},
     {300, 350, 300, 2.418e-11, 53.628e0},
-- 
2.43.0


From 8b7b076fd9f8668dd3d1917559c9e6ffff5d8ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 19/32] fix: flattened cylinder shadow is dark also on the
 shadow axis itself

---
 src/astrodynamics/occultation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/astrodynamics/occultation.cpp b/src/astrodynamics/occultation.cpp
index 47b4b76..60405b8 100644
--- a/src/astrodynamics/occultation.cpp
+++ b/src/astrodynamics/occultation.cpp
@@ -68,8 +68,9 @@ double utest::bernese_shadow1(const dso::Vector3 &r_sat,
     const double rsun = zsun.norm();
     const double rsat2 = zsat.norm_squared();
     const double rcos = zsat.dot_product(zsun) / rsun;
-    const double rsin = std::sqrt(rsat2-rcos*rcos);
-    if (rcos<0e0 && (rsin-iers2010::Re<0e0)) return 0e0;
+    // squared distance from the Sun-Earth line (rounding can make it negative)
+    const double rsin2 = rsat2-rcos*rcos;
+    if (rcos<0e0 && (rsin2-iers2010::Re*iers2010::Re<0e0)) return 0e0;
     return 1;
 }
 
-- 
2.43.0


From de3d49ad6542007662637953d591bc57f67383ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:28 +0000
Subject: [PATCH 20/32] fix: eclipse models stay defined when rounding puts a
 cosine outside [-1,1]

---
 src/astrodynamics/occultation.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/astrodynamics/occultation.cpp b/src/astrodynamics/occultation.cpp
index 60405b8..5100243 100644
--- a/src/astrodynamics/occultation.cpp
+++ b/src/astrodynamics/occultation.cpp
@@ -23,7 +23,8 @@ double utest::vallado_shadow(const dso::Vector3 &r_sat,
   const double s = r_sun.norm();
   // angle between the anti-solar direction and the satellite
   const double cosz = -product / (r * s);
-  const double zeta = std::acos(cosz);
+  // rounding can push the cosine above one close to the anti-solar direction
+  const double zeta = (cosz < 1e0) ? std::acos(cosz) : 0e0;
   const double sinz = std::sin(zeta);
   const double sath = r * cosz;
   const double satv = r * sinz;
@@ -79,8 +80,11 @@ double utest::conical_shadow(const dso::Vector3 &r_sat,
   const double te = std::asin(iers2010::Re / r_sat.norm());
   const double nsunsat = (r_sun - r_sat).norm();
   const double ts = std::asin(iers2010::Rs / nsunsat);
+  const double ctes =
+      -r_sat.dot_product(r_sun - r_sat) / (nsunsat * r_sat.norm());
+  // rounding can push the cosine out of range for aligned bodies
   const double tes =
-      std::acos(-r_sat.dot_product(r_sun - r_sat) / (nsunsat * r_sat.norm()));
+      (ctes < 1e0) ? ((ctes > -1e0) ? std::acos(ctes) : iers2010::DPI) : 0e0;
 
   if (tes >= te + ts)
     return 1e0;
-- 
2.43.0


From de0e365772e6a801cf5db92b2df6899deb0ddd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 21/32] fix: Alcatel phase law reports zenith angles out of
 bounds

---
 src/antenna_pcv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/antenna_pcv.hpp b/src/antenna_pcv.hpp
index d3e2c0a..6096076 100644
--- a/src/antenna_pcv.hpp
+++ b/src/antenna_pcv.hpp
@@ -49,8 +49,8 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Alcatel, 1> {
     const double angle = dso::rad2deg<double>(zenith);
     out_of_bounds = 0;
     if (zenith < 0e0 || zenith > dso::DPI / 2e0) {
-      return 0e0;
       out_of_bounds = 1;
+      return 0e0;
     }
     int index = std::floor(angle / 5e0);
 #ifdef DEBUG
-- 
2.43.0


From 5791f2c8f5531570c3516e886cd92989aee70f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 22/32] fix: phase laws do not read past the last value on the
 horizon

---
 src/antenna_pcv.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/antenna_pcv.hpp b/src/antenna_pcv.hpp
index 6096076..33d66dd 100644
--- a/src/antenna_pcv.hpp
+++ b/src/antenna_pcv.hpp
@@ -53,6 +53,9 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Alcatel, 1> {
       return 0e0;
     }
     int index = std::floor(angle / 5e0);
+    // on the horizon use the last interval (there is no value after 90 deg)
+    constexpr const int last = static_cast<int>(sizeof(plarray) / sizeof(plarray[0])) - 2;
+    if (index > last) index = last;
 #ifdef DEBUG
     assert(index >= 0 && index < static_cast<int>(sizeof(plarray) - 1));
 #endif
@@ -106,6 +109,9 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Starec_B, 1> {
       return 0e0;
     }
     int index = std::floor(angle / 5e0);
+    // on the horizon use the last interval (there is no value after 90 deg)
+    constexpr const int last = static_cast<int>(sizeof(plarray) / sizeof(plarray[0])) - 2;
+    if (index > last) index = last;
 #ifdef DEBUG
     assert(index >= 0 && index < static_cast<int>(sizeof(plarray) - 1));
 #endif
@@ -158,6 +164,9 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Starec_C, 1> {
       return 0e0;
     }
     int index = std::floor(angle / 5e0);
+    // on the horizon use the last interval (there is no value after 90 deg)
+    constexpr const int last = static_cast<int>(sizeof(plarray) / sizeof(plarray[0])) - 2;
+    if (index > last) index = last;
 #ifdef DEBUG
     assert(index >= 0 && index < static_cast<int>(sizeof(plarray) - 1));
 #endif
-- 
2.43.0


From 2720aed965811a24d9d19503d2e952527806e8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 23/32] fix: ionosphere-free phase center does not keep
 references to dead temporaries

---
 src/doris_system_info.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/doris_system_info.hpp b/src/doris_system_info.hpp
index 7f0dbec..102dd0d 100644
--- a/src/doris_system_info.hpp
+++ b/src/doris_system_info.hpp
@@ -161,14 +161,14 @@ struct BeaconStation {
   ///        position estimation using DORIS RINEX data", section 2.5.7
   Eigen::Matrix<double, 3, 1> iono_free_phase_center() const noexcept {
     // the 2GHz Phase center in [mm]
-    const auto r_2Ghz = AntennaOffset<GroundAntennaType::Alcatel, 1>::pco() *
+    const Eigen::Matrix<double, 3, 1> r_2Ghz = AntennaOffset<GroundAntennaType::Alcatel, 1>::pco() *
                             (type() == GroundAntennaType::Alcatel) +
                         AntennaOffset<GroundAntennaType::Starec_B, 1>::pco() *
                             (type() == GroundAntennaType::Starec_B ||
                              type() == GroundAntennaType::Starec_C);
 
     // the 400MHz Phase center in [mm]
-    const auto r_400MHz = AntennaOffset<GroundAntennaType::Alcatel, 2>::pco() *
+    const Eigen::Matrix<double, 3, 1> r_400MHz = AntennaOffset<GroundAntennaType::Alcatel, 2>::pco() *
                               (type() == GroundAntennaType::Alcatel) +
                           AntennaOffset<GroundAntennaType::Starec_B, 2>::pco() *
                               (type() == GroundAntennaType::Starec_B ||
-- 
2.43.0


From 23c43fb1a6d57785ebc207f73d72f309ef8a2759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 24/32] fix: station records are not refused for an errno set
 earlier

---
 src/doris/doris_system_info.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/doris/doris_system_info.cpp b/src/doris/doris_system_info.cpp
index f1e9633..efa8607 100644
--- a/src/doris/doris_system_info.cpp
+++ b/src/doris/doris_system_info.cpp
@@ -103,6 +103,7 @@ int dso::BeaconStation::set_from_rinex_line(const char *line) noexcept {
   std::memcpy(m_station_name, line + 10, sizeof m_station_name);
   std::memcpy(m_station_domes, line + 40, sizeof m_station_domes);
   char *end;
+  errno = 0; // do not mistake an earlier error for one of strtol
   m_type = std::strtol(line + 50, &end, 10);
   if (errno || end == line + 50) {
     errno = 0;
-- 
2.43.0


From 5118e9c39d0aeaa91c091093a92c5ac71be227b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:03 +0000
Subject: [PATCH 25/32] fix: rkf45 error test reads the new solution of each
 component (column 0 of F), not row 0

---
 var/ode_solvers/rkf45_rkfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/var/ode_solvers/rkf45_rkfs.cpp b/var/ode_solvers/rkf45_rkfs.cpp
index f55dcb7..103f74e 100644
--- a/var/ode_solvers/rkf45_rkfs.cpp
+++ b/var/ode_solvers/rkf45_rkfs.cpp
@@ -243,7 +243,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       // solution at the beginning and end of the step.
       double eeoet = 0e0;
       for (int i = 0; i < neqn; i++) {
-        const double et = std::abs(y(i)) + std::abs(F(0, i)) + ae;
+        const double et = std::abs(y(i)) + std::abs(F(i, 0)) + ae;
         if (et <= 0e0) {
           iflag = 5;
           return 0;
-- 
2.43.0


From 8f5e9ee138b59b3ca575f0163625043ba485c6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:03 +0000
Subject: [PATCH 26/32] fix: rkf45 step sizes follow the fifth root of the
 error ratio, as the method's order requires

---
 var/ode_solvers/rkf45_rkfs.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/var/ode_solvers/rkf45_rkfs.cpp b/var/ode_solvers/rkf45_rkfs.cpp
index 103f74e..3ec6e87 100644
--- a/var/ode_solvers/rkf45_rkfs.cpp
+++ b/var/ode_solvers/rkf45_rkfs.cpp
@@ -131,7 +131,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       toln = tol;
       const double ypk = std::abs(yp(i));
       if (ypk * std::pow(h, 5e0) > tol) {
-        h = (tol / ypk) * (tol / ypk);
+        h = std::pow(tol / ypk, 0.2e0);
       }
     }
   }
@@ -268,7 +268,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       output = false;
       s = 1e-1;
       if (esttol < 59049e0)
-        s = 9e-1 / (esttol * esttol);
+        s = 9e-1 / std::pow(esttol, 0.2e0);
       h *= s;
 
       // if (std::abs(h) > hmin)
@@ -299,7 +299,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
     // stepsize is not allowed to increase
     s = 5e0;
     if (esttol > 1.889568e-4)
-      s = 9e-1 / (esttol * esttol);
+      s = 9e-1 / std::pow(esttol, 0.2e0);
     if (hfaild)
       s = std::min(s, 1e0);
     h = std::copysign(std::max(s * std::abs(h), hmin), h);
-- 
2.43.0


From 4ea29aad06bba4889691532f4979a9179eb6aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:28 +0000
Subject: [PATCH 27/32] fix: copying an EopLookUpTable copied an eighth of its
 rows

memcpy was given the number of rows, not their size in bytes.
---
 src/eop.hpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/eop.hpp b/src/eop.hpp
index c22744d..2f37674 100644
--- a/src/eop.hpp
+++ b/src/eop.hpp
@@ -189,21 +189,21 @@ public:
       if (sz != eopt.sz) {
         this->resize(eopt.sz);
       }
-      mjda = (double *)std::memcpy(mem_arena, eopt.mem_arena, sz);
+      mjda = (double *)std::memcpy(mem_arena, eopt.mem_arena, sz * sizeof(double));
       xpa = (double *)std::memcpy(mem_arena + 1 * capacity,
-                                  eopt.mem_arena + 1 * eopt.capacity, sz);
+                                  eopt.mem_arena + 1 * eopt.capacity, sz * sizeof(double));
       ypa = (double *)std::memcpy(mem_arena + 2 * capacity,
-                                  eopt.mem_arena + 2 * eopt.capacity, sz);
+                                  eopt.mem_arena + 2 * eopt.capacity, sz * sizeof(double));
       ut1a = (double *)std::memcpy(mem_arena + 3 * capacity,
-                                   eopt.mem_arena + 3 * eopt.capacity, sz);
+                                   eopt.mem_arena + 3 * eopt.capacity, sz * sizeof(double));
       dxa = (double *)std::memcpy(mem_arena + 4 * capacity,
-                                  eopt.mem_arena + 4 * eopt.capacity, sz);
+                                  eopt.mem_arena + 4 * eopt.capacity, sz * sizeof(double));
       dya = (double *)std::memcpy(mem_arena + 5 * capacity,
-                                  eopt.mem_arena + 5 * eopt.capacity, sz);
+                                  eopt.mem_arena + 5 * eopt.capacity, sz * sizeof(double));
       loda = (double *)std::memcpy(mem_arena + 6 * capacity,
-                                   eopt.mem_arena + 6 * eopt.capacity, sz);
+                                   eopt.mem_arena + 6 * eopt.capacity, sz * sizeof(double));
       omegaa = (double *)std::memcpy(mem_arena + 7 * capacity,
-                                     eopt.mem_arena + 7 * eopt.capacity, sz);
+                                     eopt.mem_arena + 7 * eopt.capacity, sz * sizeof(double));
     }
     return *this;
   }
@@ -235,21 +235,21 @@ public:
   ///        (both) equal to eopt's size.
   EopLookUpTable(const EopLookUpTable &eopt) noexcept
       : sz{eopt.sz}, capacity{eopt.sz}, mem_arena(new double[capacity * 8]),
-        mjda((double *)std::memcpy(mem_arena, eopt.mem_arena, sz)),
+        mjda((double *)std::memcpy(mem_arena, eopt.mem_arena, sz * sizeof(double))),
         xpa((double *)std::memcpy(mem_arena + 1 * capacity,
-                                  eopt.mem_arena + 1 * eopt.capacity, sz)),
+                                  eopt.mem_arena + 1 * eopt.capacity, sz * sizeof(double))),
         ypa((double *)std::memcpy(mem_arena + 2 * capacity,
-                                  eopt.mem_arena + 2 * eopt.capacity, sz)),
+                                  eopt.mem_arena + 2 * eopt.capacity, sz * sizeof(double))),
         ut1a((double *)std::memcpy(mem_arena + 3 * capacity,
-                                   eopt.mem_arena + 3 * eopt.capacity, sz)),
+                                   eopt.mem_arena + 3 * eopt.capacity, sz * sizeof(double))),
         dxa((double *)std::memcpy(mem_arena + 4 * capacity,
-                                  eopt.mem_arena + 4 * eopt.capacity, sz)),
+                                  eopt.mem_arena + 4 * eopt.capacity, sz * sizeof(double))),
         dya((double *)std::memcpy(mem_arena + 5 * capacity,
-                                  eopt.mem_arena + 5 * eopt.capacity, sz)),
+                                  eopt.mem_arena + 5 * eopt.capacity, sz * sizeof(double))),
         loda((double *)std::memcpy(mem_arena + 6 * capacity,
-                                   eopt.mem_arena + 6 * eopt.capacity, sz)),
+                                   eopt.mem_arena + 6 * eopt.capacity, sz * sizeof(double))),
         omegaa((double *)std::memcpy(mem_arena + 7 * capacity,
-                                     eopt.mem_arena + 7 * eopt.capacity, sz)) {}
+                                     eopt.mem_arena + 7 * eopt.capacity, sz * sizeof(double))) {}
 
   /// @brief Compute the effect of zonal Earth tides on the rotation of the
   ///        Earth (using iers2010::rg_zont2 on UT1-UTC, LOD and
-- 
2.43.0


From 2b7a3a4a7e4de2f02e9eb8dce41c306221babdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:28 +0000
Subject: [PATCH 28/32] fix: moving an EopLookUpTable leaked the target and
 lost the column stride

The columns of a table are capacity (not size) elements apart; copying a table that
was moved with spare capacity mixed its columns up.  Move assignment never released
the memory of its target.
---
 src/eop.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eop.hpp b/src/eop.hpp
index 2f37674..2be968b 100644
--- a/src/eop.hpp
+++ b/src/eop.hpp
@@ -176,7 +176,7 @@ public:
 
   /// @brief Move constructor
   EopLookUpTable(EopLookUpTable &&eopt) noexcept
-      : sz{eopt.sz}, capacity{eopt.sz}, mem_arena{eopt.mem_arena},
+      : sz{eopt.sz}, capacity{eopt.capacity}, mem_arena{eopt.mem_arena},
         mjda{eopt.mjda}, xpa{eopt.xpa}, ypa{eopt.ypa}, ut1a{eopt.ut1a},
         dxa{eopt.dxa}, dya{eopt.dya}, loda{eopt.loda}, omegaa{eopt.omegaa} {
     eopt.sz = eopt.capacity = 0;
@@ -212,8 +212,9 @@ public:
   EopLookUpTable &operator=(EopLookUpTable &&eopt) noexcept {
     if (this != &eopt) {
       // just move elements ...
+      delete[] mem_arena;
       sz = eopt.sz;
-      capacity = eopt.sz;
+      capacity = eopt.capacity;
       mem_arena = eopt.mem_arena;
       mjda = eopt.mjda;
       xpa = eopt.xpa;
-- 
2.43.0


From 1a307bee9bb9e6064527cf91f01b3cefa59c8baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:28 +0000
Subject: [PATCH 29/32] fix: EopLookUpTable::interpolate reported success when
 the interpolation failed

---
 src/iers/eop_interpolate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iers/eop_interpolate.cpp b/src/iers/eop_interpolate.cpp
index 772c9e4..09daa8f 100644
--- a/src/iers/eop_interpolate.cpp
+++ b/src/iers/eop_interpolate.cpp
@@ -43,7 +43,8 @@ int dso::EopLookUpTable::interpolate(double tt_fmjd,
                                      dso::EopRecord &eopr, int order) const noexcept {
 
   // perform simple interpolation (lagrangian)
-  dso::EopLookUpTable::interpolate_lagrange(tt_fmjd, eopr, order);
+  if (dso::EopLookUpTable::interpolate_lagrange(tt_fmjd, eopr, order))
+    return 1;
 
   // TT as Julian centuries since J2000 (try to keep accuracy)
   double imjd;
-- 
2.43.0


From d2debd619a39de66d7a1cb5bc03dc99119ecfefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:58 +0000
Subject: [PATCH 30/32] fix: a-priori wet delays of all beacons were written
 with the stride of the other clock model

With the linear beacon clock model each beacon has three parameters; stepping by two
put the wet delay (and its sigma) on frequency offsets and drifts of other beacons.
---
 src/filters/filters.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filters/filters.hpp b/src/filters/filters.hpp
index f595bff..925c200 100644
--- a/src/filters/filters.hpp
+++ b/src/filters/filters.hpp
@@ -148,7 +148,7 @@ struct EkfFilter<Np, BeaconClockModel::Linear> {
         _ekf._ekf.x(tropo_index(beacon_nr)) = val;
       } else {
         const int start_idx = tropo_index(0);
-        constexpr int step = 2;
+        constexpr int step = 3;
         int idx = start_idx;
         for (int i = 0; i < _ekf.num_stations(); i++) {
           _ekf._ekf.x(idx) = val;
@@ -165,7 +165,7 @@ struct EkfFilter<Np, BeaconClockModel::Linear> {
         _ekf._ekf.P(tropo_index(beacon_nr), tropo_index(beacon_nr)) = val;
       } else {
         const int start_idx = tropo_index(0);
-        constexpr int step = 2;
+        constexpr int step = 3;
         int idx = start_idx;
         for (int i = 0; i < _ekf.num_stations(); i++) {
           _ekf._ekf.P(idx,idx) = val;
-- 
2.43.0


From 868c7d8b5a6c7587a96994b9995be7282b1e14fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:33 +0000
Subject: [PATCH 31/32] fix: assigning a PolynomialModel did not compile

---
 src/filters/models.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filters/models.hpp b/src/filters/models.hpp
index d271e8b..7ccb424 100644
--- a/src/filters/models.hpp
+++ b/src/filters/models.hpp
@@ -49,10 +49,10 @@ namespace dso {
     }
     
     PolynomialModel &operator=(const PolynomialModel &p) noexcept {
-      if (*this != p) {
+      if (this != &p) {
         this->resize(p._order);
         std::memcpy(cf, p.cf, sizeof(double)*(_order+1));
-        xref = p.xref();
+        xref = p.xref;
       }
       return *this;
     }
-- 
2.43.0


From 1830d8411a0ee146b40724f6c03f2f0a589cb7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:43 +0000
Subject: [PATCH 32/32] fix: moving a PolynomialModel freed its coefficients
 twice; order zero models leaked

---
 src/filters/models.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/filters/models.hpp b/src/filters/models.hpp
index 7ccb424..734954c 100644
--- a/src/filters/models.hpp
+++ b/src/filters/models.hpp
@@ -41,7 +41,7 @@ namespace dso {
     PolynomialModel(int porder) noexcept
         : _order(porder), cf(new double[porder + 1]){};
     
-    ~PolynomialModel() noexcept { if (_order) delete[] cf;}
+    ~PolynomialModel() noexcept { delete[] cf;}
     
     PolynomialModel(const PolynomialModel &p) noexcept
         : _order(p._order), xref(p.xref), cf(new double[p._order + 1]) {
@@ -58,12 +58,21 @@ namespace dso {
     }
 
     PolynomialModel(PolynomialModel &&p) noexcept
-        : _order(p._order), xref(p.xref), cf(p.cf) {};
+        : _order(p._order), xref(p.xref), cf(p.cf) {
+      // leave the moved-from instance without coefficients
+      p._order = -1;
+      p.cf = nullptr;
+    };
     
     PolynomialModel &operator=(PolynomialModel &&p) noexcept {
-      _order = p._order;
-      xref = p.xref;
-      cf = p.cf;
+      if (this != &p) {
+        delete[] cf;
+        _order = p._order;
+        xref = p.xref;
+        cf = p.cf;
+        p._order = -1;
+        p.cf = nullptr;
+      }
       return *this;
     }
 
-- 
2.43.0

