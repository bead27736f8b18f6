From 08a6dbae3592c0cdcb4cfc1dc8271ab16ffd3f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:47 +0000
Subject: [PATCH 01/26] fix: extrapolating 1D interpolation above xmax uses the
 last segment instead of throwing

---
 src/MathUtils/Interp1d.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MathUtils/Interp1d.h b/src/MathUtils/Interp1d.h
index ef607cb..252d6b5 100644
--- a/src/MathUtils/Interp1d.h
+++ b/src/MathUtils/Interp1d.h
@@ -178,6 +178,7 @@ namespace mathutils {
     auto index = std::distance(this->xcoord->begin(), upper);
 
     if (index == 0) index = 1;  // Bug fix for x == xmin
+    if (index == static_cast<decltype(index)>(this->ndata)) index -= 1;  // x > xmax: last segment
 
     YScalar a_ = a.at(index - 1);
     YScalar b_ = b.at(index - 1);
-- 
2.43.0


From 04158a20d9d97b4c09757d4e310119b38e2bc0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:02 +0000
Subject: [PATCH 02/26] fix: initialising a linear 1D or 2D interpolator again
 discards the previous coefficients

---
 src/MathUtils/Interp1d.h | 2 ++
 src/MathUtils/Interp2d.h | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/src/MathUtils/Interp1d.h b/src/MathUtils/Interp1d.h
index 252d6b5..fca3d50 100644
--- a/src/MathUtils/Interp1d.h
+++ b/src/MathUtils/Interp1d.h
@@ -148,6 +148,8 @@ namespace mathutils {
 
     Interp1d<XReal, YScalar>::Initialize(x, y);
 
+    a.clear();
+    b.clear();
     a.reserve(this->ndata);
     b.reserve(this->ndata);
 
diff --git a/src/MathUtils/Interp2d.h b/src/MathUtils/Interp2d.h
index 74fc19c..337aefe 100644
--- a/src/MathUtils/Interp2d.h
+++ b/src/MathUtils/Interp2d.h
@@ -114,6 +114,11 @@ namespace mathutils {
 
         Interp2d<Real>::Initialize(x, y, data);
 
+        a1.clear();
+        a2.clear();
+        a3.clear();
+        a4.clear();
+
         a1.reserve(this->ndata);
         a2.reserve(this->ndata);
         a3.reserve(this->ndata);
-- 
2.43.0


From 5f8519042a2a34a2796be7b80c05c0758e2212ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:02 +0000
Subject: [PATCH 03/26] fix: moving a 1D lookup table moves its interpolation
 method

---
 src/MathUtils/LookupTable1D.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/LookupTable1D.h b/src/MathUtils/LookupTable1D.h
index 1837128..ba10efc 100644
--- a/src/MathUtils/LookupTable1D.h
+++ b/src/MathUtils/LookupTable1D.h
@@ -42,6 +42,7 @@ namespace mathutils {
     /// Move constructor allowing to move the interpolators vector storing unique_ptr instances
     LookupTable1D &operator=(LookupTable1D &&table) {
       if (this != &table) {
+        interp_method = table.interp_method;
         Xcoords = std::move(table.Xcoords);
         assoc = std::move(table.assoc);
         Ydata = std::move(table.Ydata);
@@ -52,7 +53,8 @@ namespace mathutils {
 
     /// Move operator allowing to move the interpolators vector storing unique_ptr instances
     LookupTable1D(LookupTable1D &&table)
-        : Xcoords(std::move(table.Xcoords)),
+        : interp_method(table.interp_method),
+          Xcoords(std::move(table.Xcoords)),
           assoc(std::move(table.assoc)),
           Ydata(std::move(table.Ydata)),
           interpolators(std::move(table.interpolators)) {};
-- 
2.43.0


From a3ff453c55a0204a152492296c68386f7fe5e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:02 +0000
Subject: [PATCH 04/26] fix: LookupTable2d::Eval with a coordinate pair

---
 src/MathUtils/LookupTable2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/LookupTable2D.h b/src/MathUtils/LookupTable2D.h
index 2bc6d3a..dcbdc7a 100644
--- a/src/MathUtils/LookupTable2D.h
+++ b/src/MathUtils/LookupTable2D.h
@@ -136,7 +136,7 @@ namespace mathutils {
 
     template <class Real>
     Real LookupTable2d<Real>::Eval(const std::string name, const std::vector<Real> coord) const {
-        return interpolators.at(GetIndex(name))->Eval(coord);
+        return interpolators.at(GetIndex(name))->Eval(coord.at(0), coord.at(1));
     }
 
     template <class Real>
-- 
2.43.0


From 125ec06a7e42ef904df87a831f076692f2ecbd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:36 +0000
Subject: [PATCH 05/26] fix: copying a RegularGridInterpolator that has no data
 yet copies its state

---
 src/MathUtils/RegularGridInterpolator.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/RegularGridInterpolator.h b/src/MathUtils/RegularGridInterpolator.h
index 9635b18..270cb81 100644
--- a/src/MathUtils/RegularGridInterpolator.h
+++ b/src/MathUtils/RegularGridInterpolator.h
@@ -118,7 +118,11 @@ RegularGridInterpolator<Real, _dim>::operator=(const RegularGridInterpolator &ot
   m_data.resize(ex);
   m_data = other.m_data;
 
-  _BuildInterpolator();
+  if (other.IsValid()) {
+    _BuildInterpolator();
+  } else {
+    c_interpolator.reset();
+  }
   return *this;
 }
 
-- 
2.43.0


From a96e14fe0d433826a08354b35bf396bb75bf3134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:36 +0000
Subject: [PATCH 06/26] fix: RegularGridNearest::GetData returns the datum of
 the nearest node

---
 src/MathUtils/RegularGridNearest.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/RegularGridNearest.h b/src/MathUtils/RegularGridNearest.h
index 2bab210..eeb3098 100644
--- a/src/MathUtils/RegularGridNearest.h
+++ b/src/MathUtils/RegularGridNearest.h
@@ -179,7 +179,7 @@ namespace mathutils {
   template<typename Data_t, size_t _dim, typename Coord_t>
   Data_t
   RegularGridNearest<Data_t, _dim, Coord_t>::GetData(const std::array<Coord_t, _dim> &point) const {
-
+    return Nearest(point).val();
   }
 
 
-- 
2.43.0


From 8af9fccc0dc7b6ea5696dcb40146ff80d64cb022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:36 +0000
Subject: [PATCH 07/26] fix: surrounding nodes of a point below the grid are
 the first ones

---
 src/MathUtils/RegularGridNearest.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/MathUtils/RegularGridNearest.h b/src/MathUtils/RegularGridNearest.h
index eeb3098..1d2b086 100644
--- a/src/MathUtils/RegularGridNearest.h
+++ b/src/MathUtils/RegularGridNearest.h
@@ -81,9 +81,9 @@ namespace mathutils {
     bool IsValid() const;
 
    private:
-    GridNode<Data_t, _dim, Coord_t> GetNode(const std::array<size_t, _dim> &cell_index, unsigned int v) const;
+    GridNode<Data_t, _dim, Coord_t> GetNode(const std::array<int, _dim> &cell_index, unsigned int v) const;
 
-    GridNode<Data_t, _dim, Coord_t> GetNode(const std::array<size_t, _dim> &cell_index,
+    GridNode<Data_t, _dim, Coord_t> GetNode(const std::array<int, _dim> &cell_index,
                                             const std::array<size_t, _dim> &v_index) const;
 
    private:
@@ -233,13 +233,13 @@ namespace mathutils {
     std::vector<GridNode<Data_t, _dim, Coord_t>> nodes;
     nodes.reserve(1 << _dim);
 
-    // Get the cell origin lower indices
-    std::array<size_t, _dim> indices;
+    // Get the cell origin lower indices (-1 below the grid)
+    std::array<int, _dim> indices;
 
     for (unsigned int dim = 0; dim < _dim; ++dim) {
       auto xi = point[dim];
 
-      unsigned int icell;
+      int icell;
 
       // Looking for the cell in which the xi point lies
       const auto &coord = m_grid_list[dim];
@@ -271,7 +271,7 @@ namespace mathutils {
 
   template<typename Data_t, size_t _dim, typename Coord_t>
   GridNode<Data_t, _dim, Coord_t>
-  RegularGridNearest<Data_t, _dim, Coord_t>::GetNode(const std::array<size_t, _dim> &cell_index, unsigned int v) const {
+  RegularGridNearest<Data_t, _dim, Coord_t>::GetNode(const std::array<int, _dim> &cell_index, unsigned int v) const {
     std::array<size_t, _dim> v_index;
     for (unsigned int dim = 0; dim < _dim; ++dim) {
       v_index[dim] = (v >> (_dim - dim - 1)) & 1;  // test if the i-th bit is set
@@ -281,7 +281,7 @@ namespace mathutils {
 
   template<typename Data_t, size_t _dim, typename Coord_t>
   GridNode<Data_t, _dim, Coord_t>
-  RegularGridNearest<Data_t, _dim, Coord_t>::GetNode(const std::array<size_t, _dim> &cell_index,
+  RegularGridNearest<Data_t, _dim, Coord_t>::GetNode(const std::array<int, _dim> &cell_index,
                                                      const std::array<size_t, _dim> &v_index) const {
 
     std::array<size_t, _dim> indices;
-- 
2.43.0


From ccedf11ee49579e77f902f6f008ec058832269fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:16 +0000
Subject: [PATCH 08/26] fix: normalising a tiny negative angle to [0, 360[ or
 [0, 2pi[ no longer returns a full turn

---
 src/MathUtils/Angles.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MathUtils/Angles.h b/src/MathUtils/Angles.h
index cc2af7e..d20ee9b 100644
--- a/src/MathUtils/Angles.h
+++ b/src/MathUtils/Angles.h
@@ -43,6 +43,7 @@ namespace mathutils {
     Real angle = modulo360(a);
     if (angle < 0) {
       angle += 360;
+      if (angle >= 360) angle = 0;  // rounding of a tiny negative angle
     }
     return angle;
   }
@@ -63,6 +64,7 @@ namespace mathutils {
     Real angle = modulo2pi(a);
     if (angle < 0) {
       angle += MU_2PI;
+      if (angle >= (Real) MU_2PI) angle = 0;  // rounding of a tiny negative angle
     }
     return angle;
   }
-- 
2.43.0


From ed3812e20537b114aaaf51cfe4e55979de3c6fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:16 +0000
Subject: [PATCH 09/26] fix: rad2deg into a second vector converts the output
 vector

---
 src/MathUtils/Unit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MathUtils/Unit.h b/src/MathUtils/Unit.h
index 50f2dd9..866ab4e 100644
--- a/src/MathUtils/Unit.h
+++ b/src/MathUtils/Unit.h
@@ -50,9 +50,9 @@ namespace mathutils {
   /// CONVERSION RAD->DEG by copy
   template<class T>
   // TODO : faire la meme inplace...
-  inline std::vector<T> rad2deg(const std::vector<T> &vector, std::vector<T> &out) {
+  inline void rad2deg(const std::vector<T> &vector, std::vector<T> &out) {
     out = vector;
-    rad2deg(vector);
+    rad2deg(out);
   }
 
 
-- 
2.43.0


From 932a67b7cac1c581312d8bd4d354cb2107db535a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:08 +0000
Subject: [PATCH 10/26] fix: Euler extraction at gimbal lock clamps the sine of
 the pitch

---
 src/MathUtils/Geometry.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/Geometry.h b/src/MathUtils/Geometry.h
index 1ad4906..0d80aeb 100644
--- a/src/MathUtils/Geometry.h
+++ b/src/MathUtils/Geometry.h
@@ -5,6 +5,9 @@
 #ifndef MATHUTILS_GEOMETRY_H
 #define MATHUTILS_GEOMETRY_H
 
+#include <algorithm>
+#include <cmath>
+
 #include <Eigen/Dense>
 
 namespace mathutils {
@@ -15,7 +18,9 @@ namespace mathutils {
     euler_angles(0) = atan2(
         2.0 * q.w() * q.x() + 2.0 * q.y() * q.z(),
         q.w() * q.w() - q.x() * q.x() - q.y() * q.y() + q.z() * q.z());
-    euler_angles(1) = -asin(2.0 * q.x() * q.z() - 2.0 * q.w() * q.y());
+    // Rounding can bring the sine of the pitch slightly outside of [-1, 1] at gimbal lock.
+    double s = 2.0 * q.x() * q.z() - 2.0 * q.w() * q.y();
+    euler_angles(1) = -asin(std::max(-1.0, std::min(1.0, s)));
     euler_angles(2) = atan2(
         2.0 * q.w() * q.z() + 2.0 * q.x() * q.y(),
         q.w() * q.w() + q.x() * q.x() - q.y() * q.y() - q.z() * q.z());
-- 
2.43.0


From 29e5026155a95ef711861a07002d6185489d5992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:34 +0000
Subject: [PATCH 11/26] fix: Dirac compares the distance to the impulse without
 integer truncation

---
 src/MathUtils/Functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/Functions.h b/src/MathUtils/Functions.h
index c1e431c..9108b16 100644
--- a/src/MathUtils/Functions.h
+++ b/src/MathUtils/Functions.h
@@ -65,7 +65,7 @@ namespace mathutils {
 
       std::vector<Real> out(n);
       for (unsigned long i=0; i<n; i++) {
-          if (abs(x[i] - x_impulse) < dx_2) { // FIXME: le critere n'est pas robuste
+          if (std::abs(x[i] - x_impulse) < dx_2) { // FIXME: le critere n'est pas robuste
               out[i] = height;
           } else {
               out[i] = 0.;
-- 
2.43.0


From c215ed021968b0fb5c9cf075be6b94a066c23de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:34 +0000
Subject: [PATCH 12/26] fix: Negate compiles for vectors that are not of double

---
 src/MathUtils/StdVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/StdVector.h b/src/MathUtils/StdVector.h
index d82a3d4..1419517 100644
--- a/src/MathUtils/StdVector.h
+++ b/src/MathUtils/StdVector.h
@@ -95,7 +95,7 @@ namespace mathutils {
 
     template <class Scalar>
     inline void Negate(std::vector<Scalar>& v) {
-        Scale(v, -1.);
+        Scale(v, Scalar(-1));
     }
 
 }
-- 
2.43.0


From 7f50a1d6a84329ee5f63223826a208e718473d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:34 +0000
Subject: [PATCH 13/26] fix: Saturate does not convert integers through double

---
 src/MathUtils/Maths.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/Maths.h b/src/MathUtils/Maths.h
index d14ae07..0747899 100644
--- a/src/MathUtils/Maths.h
+++ b/src/MathUtils/Maths.h
@@ -14,7 +14,7 @@ namespace mathutils {
 
     template <class Scalar>
     inline Scalar Saturate(Scalar val, Scalar valMin, Scalar valMax) {
-        double valout = (val > valMax) ?  valMax : val;
+        Scalar valout = (val > valMax) ?  valMax : val;
         valout  = (valout<valMin) ? valMin : valout;
         return valout;
     }
-- 
2.43.0


From f016015270be64d514208167f8921d40af313114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:34 +0000
Subject: [PATCH 14/26] fix: arange returns samples spaced by the step from the
 start value

---
 src/MathUtils/VectorGeneration.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/MathUtils/VectorGeneration.h b/src/MathUtils/VectorGeneration.h
index 82a220a..ec4df57 100644
--- a/src/MathUtils/VectorGeneration.h
+++ b/src/MathUtils/VectorGeneration.h
@@ -46,10 +46,13 @@ namespace mathutils {
         assert (start < stop);
         assert (step > 0.);
 
-        auto num = floor((stop-start)/step);
-        auto final_stop = num * step;
+        auto num = (unsigned int)floor((stop-start)/step);
 
-        return linspace(start, final_stop, (unsigned int)num);
+        std::vector<Real> out(num);
+        for (unsigned int i=0; i<num; ++i) {
+            out[i] = start + i*step;
+        }
+        return out;
     }
 
 
-- 
2.43.0


From d066013becb845cb9cfce6703a6341b34b19838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:01 +0000
Subject: [PATCH 15/26] fix: y-derivative of a 3D power series at a predefined
 z uses y in the chain rule

---
 src/MathUtils/PowerSeries3d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/PowerSeries3d.h b/src/MathUtils/PowerSeries3d.h
index d085734..c7ac335 100644
--- a/src/MathUtils/PowerSeries3d.h
+++ b/src/MathUtils/PowerSeries3d.h
@@ -436,7 +436,7 @@ namespace mathutils {
       double xunit = AffineTransformationSegmentToUnit_x(x);
       double yunit = AffineTransformationSegmentToUnit_y(y);
 
-      return Evaluate_derivative_y_unit_zunit_predefined(x, xunit, yunit, cij);
+      return Evaluate_derivative_y_unit_zunit_predefined(y, xunit, yunit, cij);
 
     }
 
-- 
2.43.0


From 574dff967456c7e6d4d37e832488e0fa0bcef4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:34 +0000
Subject: [PATCH 16/26] fix: computing the Chebyshev coefficients again does
 not accumulate on the previous ones

---
 src/MathUtils/ChebyshevSeries1d.h | 3 +++
 src/MathUtils/ChebyshevSeries2d.h | 3 +++
 src/MathUtils/ChebyshevSeries3d.h | 5 +++++
 3 files changed, 11 insertions(+)

diff --git a/src/MathUtils/ChebyshevSeries1d.h b/src/MathUtils/ChebyshevSeries1d.h
index 845bac6..86f51c0 100644
--- a/src/MathUtils/ChebyshevSeries1d.h
+++ b/src/MathUtils/ChebyshevSeries1d.h
@@ -43,6 +43,9 @@ namespace mathutils {
     /// This method computes the coefficients ai.
     void Compute_ai() {
 
+      // Starting from null coefficients, the method may be called several times.
+      m_ai.setZero();
+
       // x abscissa.
       std::vector<double> x_tilde; // In [-1,1].
       std::vector<double> x; // In [xmin,xmax].
diff --git a/src/MathUtils/ChebyshevSeries2d.h b/src/MathUtils/ChebyshevSeries2d.h
index eb3b21a..93c6d76 100644
--- a/src/MathUtils/ChebyshevSeries2d.h
+++ b/src/MathUtils/ChebyshevSeries2d.h
@@ -44,6 +44,9 @@ namespace mathutils {
     /// This method computes the coefficients aij.
     void Compute_aij() {
 
+      // Starting from null coefficients, the method may be called several times.
+      m_aij.setZero();
+
       // x abscissa.
       std::vector<double> x_tilde; // In [-1,1].
       std::vector<double> x; // In [xmin,xmax].
diff --git a/src/MathUtils/ChebyshevSeries3d.h b/src/MathUtils/ChebyshevSeries3d.h
index 3369ba8..9b54357 100644
--- a/src/MathUtils/ChebyshevSeries3d.h
+++ b/src/MathUtils/ChebyshevSeries3d.h
@@ -46,6 +46,11 @@ namespace mathutils {
     /// This method computes the coefficients aijk.
     void Compute_aijk() {
 
+      // Starting from null coefficients, the method may be called several times.
+      for (auto &aij : m_aijk) {
+        aij.setZero();
+      }
+
       // x abscissa.
       std::vector<double> x_tilde; // In [-1,1].
       std::vector<double> x; // In [xmin,xmax].
-- 
2.43.0


From bafe1ebbc24292dfd07d11cf7566802ee568cbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:21 +0000
Subject: [PATCH 17/26] fix: changing the 1D integration method discards the
 result computed with the previous one

---
 src/MathUtils/Integration1d.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/Integration1d.h b/src/MathUtils/Integration1d.h
index d1e8c83..dc46fa4 100644
--- a/src/MathUtils/Integration1d.h
+++ b/src/MathUtils/Integration1d.h
@@ -60,7 +60,10 @@ namespace mathutils {
             c_DataSource = VECTOR;
         }
 
-        void SetIntegrationMethod(INTEGRATION_METHOD method) { m_IntegrationMethod = method; }
+        void SetIntegrationMethod(INTEGRATION_METHOD method) {
+            m_IntegrationMethod = method;
+            c_Computed = false;
+        }
 
         INTEGRATION_METHOD GetIntegrationMethod() const { return m_IntegrationMethod; }
 
-- 
2.43.0


From 09d3ec2bcb616e65b9b392f89e8945131da003fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:56 +0000
Subject: [PATCH 18/26] fix: IsSymmetric compares the matrix with its adjoint
 instead of always answering true

---
 src/MathUtils/Matrix.h   | 7 +------
 src/MathUtils/Matrix33.h | 7 +------
 src/MathUtils/Matrix66.h | 7 +------
 3 files changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/MathUtils/Matrix.h b/src/MathUtils/Matrix.h
index eb7821f..0937a48 100644
--- a/src/MathUtils/Matrix.h
+++ b/src/MathUtils/Matrix.h
@@ -286,12 +286,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool MatrixMN<Scalar>::IsSymmetric() const {
-        auto a = this->isApprox(this->adjoint());
-        // FIXME: finir implementation :::
-//        auto a = (this->adjoint() == this);
-//        return this
-//        if (this->adjoint() == this) {
-//            return true;
+        return IsSquare() && this->isApprox(this->adjoint());
 //        }
         return true;
     }
diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index e0a5002..916436d 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -279,12 +279,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix33<Scalar>::IsSymmetric() const {
-        auto a = this->isApprox(this->adjoint());
-        // FIXME: finir implementation :::
-//        auto a = (this->adjoint() == this);
-//        return this
-//        if (this->adjoint() == this) {
-//            return true;
+        return this->isApprox(this->adjoint());
 //        }
         return true;
     }
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index 23f2b91..e7cd3a8 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -272,12 +272,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix66<Scalar>::IsSymmetric() const {
-        auto a = this->isApprox(this->adjoint());
-        // FIXME: finir implementation :::
-//        auto a = (this->adjoint() == this);
-//        return this
-//        if (this->adjoint() == this) {
-//            return true;
+        return this->isApprox(this->adjoint());
 //        }
         return true;
     }
-- 
2.43.0


From df6eb96995cf037b1c12deb41fd96c569071c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:56 +0000
Subject: [PATCH 19/26] fix: IsOrthogonal compiles and tests the orthogonality
 of the matrix

---
 src/MathUtils/Matrix.h   | 2 +-
 src/MathUtils/Matrix33.h | 2 +-
 src/MathUtils/Matrix66.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MathUtils/Matrix.h b/src/MathUtils/Matrix.h
index 0937a48..e1a0d4f 100644
--- a/src/MathUtils/Matrix.h
+++ b/src/MathUtils/Matrix.h
@@ -308,7 +308,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool MatrixMN<Scalar>::IsOrthogonal() const {
-        return this->isOrthogonal(*this);
+        return IsSquare() && this->isUnitary();
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index 916436d..65cc175 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -296,7 +296,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix33<Scalar>::IsOrthogonal() const {
-        return this->isOrthogonal(*this);
+        return this->isUnitary();
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index e7cd3a8..4f60017 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -289,7 +289,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix66<Scalar>::IsOrthogonal() const {
-        return this->isOrthogonal(*this);
+        return this->isUnitary();
     }
 
     template <class Scalar>
-- 
2.43.0


From 51ffc62b947856a029bd6a187e8e80f2e7935f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:56 +0000
Subject: [PATCH 20/26] fix: define the const element access of Matrix66

---
 src/MathUtils/Matrix66.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index 4f60017..32fdaa1 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -197,6 +197,11 @@ namespace mathutils {
     // =================================================================================================================
     // =================================================================================================================
 
+    template <class Scalar>
+    inline Scalar Matrix66<Scalar>::at(unsigned int irow, unsigned int icol) const {
+        return this->operator()(irow, icol);
+    }
+
     template <class Scalar>
     inline Scalar& Matrix66<Scalar>::at(unsigned int irow, unsigned int icol) {
         return this->operator()(irow, icol);
-- 
2.43.0


From d1855d94b9019cd795c634a298983ee6c5642792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:56 +0000
Subject: [PATCH 21/26] fix: least square solver of fixed size matrices asks
 for full unitaries, thin ones are only available for dynamic sizes

---
 src/MathUtils/Matrix33.h | 2 +-
 src/MathUtils/Matrix66.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index 65cc175..f7931fa 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -145,7 +145,7 @@ namespace mathutils {
       // A typename has to be used because the rhs is not necessary a Matrix66.
       template<typename T>
       T LeastSquareSolver(const T& b) const {
-        return (this->bdcSvd(Eigen::ComputeThinU | Eigen::ComputeThinV).solve(b));
+        return (this->bdcSvd(Eigen::ComputeFullU | Eigen::ComputeFullV).solve(b));
       }
 
       // No LeastSquareSolverContraint because it requires the structure MatrixMN for C and d, which is not available here.
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index 32fdaa1..b859a57 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -143,7 +143,7 @@ namespace mathutils {
       // A typename has to be used because the rhs is not necessary a Matrix66.
       template<typename T>
       T LeastSquareSolver(const T& b) const {
-        return (this->bdcSvd(Eigen::ComputeThinU | Eigen::ComputeThinV).solve(b));
+        return (this->bdcSvd(Eigen::ComputeFullU | Eigen::ComputeFullV).solve(b));
       }
 
       // No LeastSquareSolverContraint because it requires the structure MatrixMN for C and d, which is not available here.
-- 
2.43.0


From 28ddd6fa55655c92df95b8099bbefa6d98d8bb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:56 +0000
Subject: [PATCH 22/26] fix: SVD and pseudo inverse of fixed size matrices
 compile, the singular values being a vector

---
 src/MathUtils/Matrix33.h | 21 +++++++++------------
 src/MathUtils/Matrix66.h | 21 +++++++++------------
 2 files changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index f7931fa..06e5b98 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -94,7 +94,7 @@ namespace mathutils {
 
         void GetCholeskyDecomposition(Matrix33<Scalar>& L) const;
 
-        void GetSVDDecomposition(Matrix33<Scalar>& U, Matrix33<Scalar>& S, Matrix33<Scalar>& V) const;
+        void GetSVDDecomposition(Matrix33<Scalar>& U, Eigen::Matrix<Scalar, 3, 1>& S, Matrix33<Scalar>& V) const;
 
         // =====================================================================
         // Various matrix inverse methods
@@ -374,30 +374,27 @@ namespace mathutils {
     }
 
     template <class Scalar>
-    void Matrix33<Scalar>::GetSVDDecomposition(Matrix33<Scalar>& U, Matrix33<Scalar>& S, Matrix33<Scalar>& V) const {
+    void Matrix33<Scalar>::GetSVDDecomposition(Matrix33<Scalar>& U, Eigen::Matrix<Scalar, 3, 1>& S, Matrix33<Scalar>& V) const {
 
-        auto SVD = this->jacobiSvd(Eigen::ComputeThinU | Eigen::ComputeThinV);
-
-        Eigen::Matrix<Scalar, 3, 3> Utmp, Stmp, Vtmp;
+        // Thin unitaries are only available for matrices of dynamic size.
+        auto SVD = this->jacobiSvd(Eigen::ComputeFullU | Eigen::ComputeFullV);
 
         // U
-        Utmp = SVD.matrixU();
-        U = (Matrix33<Scalar>)(Utmp);
+        U = SVD.matrixU();
 
         // S
-        Stmp = SVD.singularValues();
-        S = (Matrix33<Scalar>)(Stmp);
+        S = SVD.singularValues();
 
         // V
-        Vtmp = SVD.matrixV();
-        V = (Matrix33<Scalar>)(Vtmp);
+        V = SVD.matrixV();
     }
 
     template <class Scalar>
     Matrix33<Scalar> Matrix33<Scalar>::GetPseudoInverse(const Scalar tol) const {
 
         // SVD decomposition
-        Matrix33<Scalar> U, S, V;
+        Matrix33<Scalar> U, V;
+        Eigen::Matrix<Scalar, 3, 1> S;
         GetSVDDecomposition(U, S, V);
 
         for (unsigned int i=0; i < S.rows(); ++i) {
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index b859a57..459ce29 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -92,7 +92,7 @@ namespace mathutils {
 
         void GetCholeskyDecomposition(Matrix66<Scalar>& L) const;
 
-        void GetSVDDecomposition(Matrix66<Scalar>& U, Matrix66<Scalar>& S, Matrix66<Scalar>& V) const;
+        void GetSVDDecomposition(Matrix66<Scalar>& U, Eigen::Matrix<Scalar, 6, 1>& S, Matrix66<Scalar>& V) const;
 
         // =====================================================================
         // Various matrix inverse methods
@@ -372,30 +372,27 @@ namespace mathutils {
     }
 
     template <class Scalar>
-    void Matrix66<Scalar>::GetSVDDecomposition(Matrix66<Scalar>& U, Matrix66<Scalar>& S, Matrix66<Scalar>& V) const {
+    void Matrix66<Scalar>::GetSVDDecomposition(Matrix66<Scalar>& U, Eigen::Matrix<Scalar, 6, 1>& S, Matrix66<Scalar>& V) const {
 
-        auto SVD = this->jacobiSvd(Eigen::ComputeThinU | Eigen::ComputeThinV);
-
-        Eigen::Matrix<Scalar, 6, 6> Utmp, Stmp, Vtmp;
+        // Thin unitaries are only available for matrices of dynamic size.
+        auto SVD = this->jacobiSvd(Eigen::ComputeFullU | Eigen::ComputeFullV);
 
         // U
-        Utmp = SVD.matrixU();
-        U = (Matrix66<Scalar>)(Utmp);
+        U = SVD.matrixU();
 
         // S
-        Stmp = SVD.singularValues();
-        S = (Matrix66<Scalar>)(Stmp);
+        S = SVD.singularValues();
 
         // V
-        Vtmp = SVD.matrixV();
-        V = (Matrix66<Scalar>)(Vtmp);
+        V = SVD.matrixV();
     }
 
     template <class Scalar>
     Matrix66<Scalar> Matrix66<Scalar>::GetPseudoInverse(const Scalar tol) const {
 
         // SVD decomposition
-        Matrix66<Scalar> U, S, V;
+        Matrix66<Scalar> U, V;
+        Eigen::Matrix<Scalar, 6, 1> S;
         GetSVDDecomposition(U, S, V);
 
         for (unsigned int i=0; i < S.rows(); ++i) {
-- 
2.43.0


From 8646347fcab1216018277353fcb64da48428f5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:56 +0000
Subject: [PATCH 23/26] fix: eigenvalues of fixed size matrices compile, the
 eigenvalues being a vector

---
 src/MathUtils/Matrix33.h | 6 +++---
 src/MathUtils/Matrix66.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index 06e5b98..723e2c5 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -156,7 +156,7 @@ namespace mathutils {
       // =====================================================================
 
       // This method computes the eigenvalues only.
-      Matrix33<std::complex<double>> Eigenvalues() const;
+      Eigen::Matrix<std::complex<double>, 3, 1> Eigenvalues() const;
 
     };
 
@@ -410,7 +410,7 @@ namespace mathutils {
 
 
     template <class Scalar>
-    Matrix33<std::complex<double>> Matrix33<Scalar>::Eigenvalues() const{
+    Eigen::Matrix<std::complex<double>, 3, 1> Matrix33<Scalar>::Eigenvalues() const{
 
       // This method computes the eigenvalues only.
 
@@ -420,7 +420,7 @@ namespace mathutils {
       // Object to computing eigenvalues and eigenvectors.
       Eigen::EigenSolver<Eigen::MatrixXd> es(*this, false);
 
-      return Matrix33<std::complex<double>>(es.eigenvalues());
+      return Eigen::Matrix<std::complex<double>, 3, 1>(es.eigenvalues());
 
     }
 
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index 459ce29..c2584ae 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -154,7 +154,7 @@ namespace mathutils {
       // =====================================================================
 
       // This method computes the eigenvalues only.
-      Matrix66<std::complex<double>> Eigenvalues() const;
+      Eigen::Matrix<std::complex<double>, 6, 1> Eigenvalues() const;
 
     };
 
@@ -408,7 +408,7 @@ namespace mathutils {
 
 
   template <class Scalar>
-  Matrix66<std::complex<double>> Matrix66<Scalar>::Eigenvalues() const{
+  Eigen::Matrix<std::complex<double>, 6, 1> Matrix66<Scalar>::Eigenvalues() const{
 
     // This method computes the eigenvalues only.
 
@@ -418,7 +418,7 @@ namespace mathutils {
     // Object to computing eigenvalues and eigenvectors.
     Eigen::EigenSolver<Eigen::MatrixXd> es(*this, false);
 
-    return Matrix66<std::complex<double>>(es.eigenvalues());
+    return Eigen::Matrix<std::complex<double>, 6, 1>(es.eigenvalues());
 
   }
 
-- 
2.43.0


From 127cbb91dd0f37042190e6b2a821b037697cee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:56 +0000
Subject: [PATCH 24/26] fix: infinity norm of Vector2d takes absolute values

---
 src/MathUtils/Vector2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/Vector2d.h b/src/MathUtils/Vector2d.h
index 0cfec94..21903f8 100644
--- a/src/MathUtils/Vector2d.h
+++ b/src/MathUtils/Vector2d.h
@@ -220,7 +220,7 @@ namespace mathutils {
 
     template <class Scalar>
     Scalar Vector2d<Scalar>::infNorm() const {
-        return this->Eigen::Matrix<Scalar, 2, 1>::maxCoeff();
+        return this->Eigen::Matrix<Scalar, 2, 1>::template lpNorm<Eigen::Infinity>();
     }
 
     template <class Scalar>
-- 
2.43.0


From 093089692d2191c4e6ed46c694ec9554a54ea871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:58 +0000
Subject: [PATCH 25/26] fix: remove the unreachable statements left after the
 IsSymmetric repair

---
 src/MathUtils/Matrix.h   | 2 --
 src/MathUtils/Matrix33.h | 2 --
 src/MathUtils/Matrix66.h | 2 --
 3 files changed, 6 deletions(-)

diff --git a/src/MathUtils/Matrix.h b/src/MathUtils/Matrix.h
index e1a0d4f..e6ae19b 100644
--- a/src/MathUtils/Matrix.h
+++ b/src/MathUtils/Matrix.h
@@ -287,8 +287,6 @@ namespace mathutils {
     template <class Scalar>
     bool MatrixMN<Scalar>::IsSymmetric() const {
         return IsSquare() && this->isApprox(this->adjoint());
-//        }
-        return true;
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index 723e2c5..3518a2b 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -280,8 +280,6 @@ namespace mathutils {
     template <class Scalar>
     bool Matrix33<Scalar>::IsSymmetric() const {
         return this->isApprox(this->adjoint());
-//        }
-        return true;
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index c2584ae..3048d94 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -278,8 +278,6 @@ namespace mathutils {
     template <class Scalar>
     bool Matrix66<Scalar>::IsSymmetric() const {
         return this->isApprox(this->adjoint());
-//        }
-        return true;
     }
 
     template <class Scalar>
-- 
2.43.0


From 16a048c492c00882d1badff0e1163cbf13b0ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:06 +0000
Subject: [PATCH 26/26] fix: E1_approximation used a wrong Cody-Thacher
 coefficient for x >= 4

The denominator coefficient 2.5989762083608489777411e5 had its first digit
mistyped as 5, which left a relative error of up to 9e-4 from x = 4 on.
---
 src/MathUtils/BoostFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/BoostFunctions.h b/src/MathUtils/BoostFunctions.h
index 98406a8..9390291 100644
--- a/src/MathUtils/BoostFunctions.h
+++ b/src/MathUtils/BoostFunctions.h
@@ -534,7 +534,7 @@ namespace mathutils {
                                 2.7858134710520842139357e5,
                                 5.4616842050691155735758e5,
                                 5.5903756210022864003380e5,
-                                5.5989762083608489777411e5,
+                                2.5989762083608489777411e5,
                                 3.9147856245556345627078e4};
       assert (pj.size() == qj.size());
 
-- 
2.43.0

