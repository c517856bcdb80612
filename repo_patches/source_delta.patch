From 8c80a6ecd587fa19d17b8a41d616d938c5bf4208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 01/20] fix: terminate the difference of splines when the
 second has higher degree

---
 src/bezier_spline.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 62a5ebb..768fac3 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -656,7 +656,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator-(
   // Increase the order of return_spline to be greater or equal to the
   // RHSs order
   for (IndexingType par_dim{0}; par_dim < parametric_dimension; par_dim++) {
-    while (rhs.GetDegrees()[par_dim] > degrees[par_dim]) {
+    while (rhs.GetDegrees()[par_dim] > return_spline.GetDegrees()[par_dim]) {
       return_spline.OrderElevateAlongParametricDimension(par_dim);
     }
   }
-- 
2.43.0


From f607e306daa40060ddf923f095a5fcf4b2ffd04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 02/20] fix: divide by the weight function in rational
 ForwardEvaluate

---
 src/rational_bezier_spline.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 9378e1a..ee60d3e 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -213,8 +213,8 @@ constexpr PhysicalPointType RationalBezierSpline<
                         GetWeightedControlPoints()[i_basis_function];
   }
 
-  // Add up the individual contributions
-  return evaluation_point;
+  // Divide by the weight function to project into physical space
+  return evaluation_point / weight_function_.ForwardEvaluate(par_coords);
 }
 
 template <std::size_t parametric_dimension, typename PhysicalPointType,
-- 
2.43.0


From ea3fdd9fa120ccfa88f0a4fc3135747ee9e72be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:51 +0000
Subject: [PATCH 03/20] fix: use all indices in rational ControlPoint(i, j,
 ...)

---
 src/rational_bezier_spline.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index ee60d3e..c9bbb94 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -31,7 +31,7 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType,
   static_assert(sizeof...(T) == parametric_dimension,
                 "Unspecified number of indices.");
   const std::array<IndexingType, parametric_dimension> indices{
-      (static_cast<IndexingType>(index), ...)};
+      static_cast<IndexingType>(index)...};
   return ControlPoint(indices);
 }
 
-- 
2.43.0


From 263c6f1a06d1529b5136d8ce752f305dd316224e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 04/20] fix: keep degrees and control points consistent if
 resizing runs out of memory

---
 src/bezier_spline.hpp | 10 ++++++----
 src/bezier_spline.inc |  9 +++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/bezier_spline.hpp b/src/bezier_spline.hpp
index 9b0afc0..25289da 100644
--- a/src/bezier_spline.hpp
+++ b/src/bezier_spline.hpp
@@ -226,11 +226,13 @@ class BezierSpline {
   /// Set Degrees
   constexpr void UpdateDegrees(
       const std::array<std::size_t, parametric_dimension> &new_degrees) {
-    degrees = new_degrees;
-    number_of_control_points = 1u;
+    IndexingType new_number_of_control_points = 1u;
     for (unsigned int i{}; i < parametric_dimension; i++)
-      number_of_control_points *= degrees[i] + 1;
-    control_points.resize(number_of_control_points);
+      new_number_of_control_points *= new_degrees[i] + 1;
+    // Resize first, as it is the only step that can fail
+    control_points.resize(new_number_of_control_points);
+    number_of_control_points = new_number_of_control_points;
+    degrees = new_degrees;
     UpdateIndexOffsets_();
   }
 
diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 768fac3..020489e 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -159,10 +159,11 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
   const int starting_points_per_group = index_offsets[par_dim];
   const int n_groups = n_starting_points / starting_points_per_group;
 
-  // Resize the CTPS vector accordingly
-  number_of_control_points = number_of_control_points / (degrees[par_dim] + 1) *
-                             (degrees[par_dim] + 2);
-  control_points.resize(GetNumberOfControlPoints());
+  // Resize the CTPS vector accordingly (first, as it is the only step that can
+  // fail)
+  control_points.resize(number_of_control_points / (degrees[par_dim] + 1) *
+                        (degrees[par_dim] + 2));
+  number_of_control_points = control_points.size();
   degrees[par_dim]++;
 
   // Local Counter
-- 
2.43.0


From a5ea5bc5ffc6ecdc4577d5767de0af0a5cf3ce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 05/20] fix: keep spline consistent if copy assignment runs out
 of memory

---
 src/bezier_spline.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/bezier_spline.hpp b/src/bezier_spline.hpp
index 25289da..f159556 100644
--- a/src/bezier_spline.hpp
+++ b/src/bezier_spline.hpp
@@ -209,8 +209,15 @@ class BezierSpline {
   /// Move operator
   constexpr BezierSpline &operator=(BezierSpline &&rhs) = default;
 
-  /// Move operator
-  constexpr BezierSpline &operator=(const BezierSpline &rhs) = default;
+  /// Copy operator
+  constexpr BezierSpline &operator=(const BezierSpline &rhs) {
+    // Copy the control points first, as it is the only step that can fail
+    control_points = rhs.control_points;
+    degrees = rhs.degrees;
+    number_of_control_points = rhs.number_of_control_points;
+    index_offsets = rhs.index_offsets;
+    return (*this);
+  }
 
   /// Getter for Degrees
   constexpr const std::array<std::size_t, parametric_dimension> &GetDegrees()
-- 
2.43.0


From 8d96b943d9862cff11799306a827e5a7a69510c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 06/20] fix: keep numerator and denominator of rational splines
 paired if memory runs out

---
 src/rational_bezier_spline.hpp | 17 +++++++++-----
 src/rational_bezier_spline.inc | 41 ++++++++++++++--------------------
 2 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/rational_bezier_spline.hpp b/src/rational_bezier_spline.hpp
index 8689289..1772b7f 100644
--- a/src/rational_bezier_spline.hpp
+++ b/src/rational_bezier_spline.hpp
@@ -26,6 +26,7 @@ SOFTWARE.
 #define SRC_RATIONAL_BEZIER_SPLINE_HPP
 
 #include <array>
+#include <utility>
 #include <vector>
 
 #include "bezman/src/bezier_spline.hpp"
@@ -156,9 +157,12 @@ class RationalBezierSpline {
   constexpr RationalBezierSpline& operator=(RationalBezierSpline&& rhs) =
       default;
 
-  /// Move operator
-  constexpr RationalBezierSpline& operator=(const RationalBezierSpline& rhs) =
-      default;
+  /// Copy operator
+  constexpr RationalBezierSpline& operator=(const RationalBezierSpline& rhs) {
+    // Copy both splines before replacing any, as the copies can fail
+    RationalBezierSpline copy{rhs};
+    return (*this) = std::move(copy);
+  }
 
   /// Getter for Degrees
   constexpr const std::array<std::size_t, parametric_dimension>& GetDegrees()
@@ -195,8 +199,11 @@ class RationalBezierSpline {
   /// Set Degrees
   constexpr void UpdateDegrees(
       const std::array<std::size_t, parametric_dimension>& new_degrees) {
-    weight_function_.UpdateDegrees(new_degrees);
-    weighted_spline_.UpdateDegrees(new_degrees);
+    // Work on a copy to keep both splines compatible if one resize fails
+    RationalBezierSpline updated_spline{*this};
+    updated_spline.weight_function_.UpdateDegrees(new_degrees);
+    updated_spline.weighted_spline_.UpdateDegrees(new_degrees);
+    (*this) = std::move(updated_spline);
     assert(CheckSplineCompatibility());
     return;
   }
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index c9bbb94..a2089c9 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -440,8 +440,13 @@ constexpr RationalBezierSpline<parametric_dimension, PhysicalPointType,
                                ScalarType>
     &RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
         OrderElevateAlongParametricDimension(const IndexingType par_dim) {
-  weighted_spline_.OrderElevateAlongParametricDimension(par_dim);
-  weight_function_.OrderElevateAlongParametricDimension(par_dim);
+  // Work on a copy to keep both splines compatible if one elevation fails
+  RationalBezierSpline elevated_spline{*this};
+  elevated_spline.weighted_spline_.OrderElevateAlongParametricDimension(
+      par_dim);
+  elevated_spline.weight_function_.OrderElevateAlongParametricDimension(
+      par_dim);
+  (*this) = std::move(elevated_spline);
   // Check sanity
   assert(CheckSplineCompatibility());
   return (*this);
@@ -659,17 +664,11 @@ constexpr RationalBezierSpline<parametric_dimension, PhysicalPointType,
     &RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     operator+=(const RationalBezierSpline<parametric_dimension,
                                           PhysicalPointType, ScalarType> &rhs) {
-  if (weight_function_ == rhs.weight_function_) {
-    weighted_spline_ += rhs.weighted_spline_;
-    return (*this);
-  } else {
-    weighted_spline_ = weighted_spline_ * rhs.weight_function_;
-    weighted_spline_ += weight_function_ * rhs.weighted_spline_;
-    weight_function_ = weight_function_ * rhs.weight_function_;
-    // Check sanity
-    assert(CheckSplineCompatibility());
-    return (*this);
-  }
+  // Compute the result first, to never replace only one of the two splines
+  (*this) = (*this) + rhs;
+  // Check sanity
+  assert(CheckSplineCompatibility());
+  return (*this);
 }
 
 template <std::size_t parametric_dimension, typename PhysicalPointType,
@@ -696,17 +695,11 @@ constexpr RationalBezierSpline<parametric_dimension, PhysicalPointType,
     &RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     operator-=(const RationalBezierSpline<parametric_dimension,
                                           PhysicalPointType, ScalarType> &rhs) {
-  if (weight_function_ == rhs.weight_function_) {
-    weighted_spline_ -= rhs.weighted_spline_;
-    return (*this);
-  } else {
-    weighted_spline_ = weighted_spline_ * rhs.weight_function_;
-    weighted_spline_ -= weight_function_ * rhs.weighted_spline_;
-    weight_function_ = weight_function_ * rhs.weight_function_;
-    // Check sanity
-    assert(CheckSplineCompatibility());
-    return (*this);
-  }
+  // Compute the result first, to never replace only one of the two splines
+  (*this) = (*this) - rhs;
+  // Check sanity
+  assert(CheckSplineCompatibility());
+  return (*this);
 }
 
 template <std::size_t parametric_dimension, typename PhysicalPointType,
-- 
2.43.0


From f8ed810fbf4101b8742ca040b830440404c81fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 07/20] fix: allow own control points as arguments of in-place
 updates

---
 src/bezier_spline.inc          | 20 ++++++++++++++------
 src/point.hpp                  |  4 +++-
 src/rational_bezier_spline.inc |  8 ++++++--
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 020489e..f3e362c 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -503,8 +503,10 @@ template <std::size_t parametric_dimension, typename PhysicalPointType,
 constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>&
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator*=(
     const ScalarType& scalar) {
+  // Copy argument, as it might reference a control point of this spline
+  const ScalarType factor{scalar};
   for (std::size_t i{}; i < GetNumberOfControlPoints(); i++) {
-    control_points[i] *= scalar;
+    control_points[i] *= factor;
   }
   return (*this);
 }
@@ -514,8 +516,10 @@ template <std::size_t parametric_dimension, typename PhysicalPointType,
 constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>&
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator+=(
     const PhysicalPointType& point_shift) {
+  // Copy argument, as it might reference a control point of this spline
+  const PhysicalPointType shift{point_shift};
   for (std::size_t i{}; i < GetNumberOfControlPoints(); i++) {
-    control_points[i] += point_shift;
+    control_points[i] += shift;
   }
   return (*this);
 }
@@ -535,8 +539,10 @@ template <std::size_t parametric_dimension, typename PhysicalPointType,
 constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>&
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator-=(
     const PhysicalPointType& point_shift) {
+  // Copy argument, as it might reference a control point of this spline
+  const PhysicalPointType shift{point_shift};
   for (std::size_t i{}; i < GetNumberOfControlPoints(); i++) {
-    control_points[i] -= point_shift;
+    control_points[i] -= shift;
   }
   return (*this);
 }
@@ -814,15 +820,17 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
                       const PhysicalPointType& scale_vector) {
   utils::Logger::ExtendedInformation(
       "Starting scaling and transposing spline to move bounds");
+  // Copy arguments, as they might reference control points of this spline
+  const PhysicalPointType shift{transposition};
+  const PhysicalPointType scale{scale_vector};
   for (IndexingType i{}; i < GetNumberOfControlPoints(); i++) {
     if constexpr (std::is_scalar_v<PhysicalPointType>) {
-      control_points[i] = (transposition + control_points[i]) * scale_vector;
+      control_points[i] = (shift + control_points[i]) * scale;
     } else {
       for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
            i_dim++) {
         control_points[i][i_dim] =
-            (transposition[i_dim] + control_points[i][i_dim]) *
-            scale_vector[i_dim];
+            (shift[i_dim] + control_points[i][i_dim]) * scale[i_dim];
       }
     }
   }
diff --git a/src/point.hpp b/src/point.hpp
index 8a2f8e4..fa419c5 100644
--- a/src/point.hpp
+++ b/src/point.hpp
@@ -107,7 +107,9 @@ class Point : public std::array<BaseType, spatial_dimension> {
 
   /// Multiplication with a scalar
   constexpr Point& operator*=(const BaseType& scale) {
-    for (unsigned int i = 0; i < spatial_dimension; ++i) (*this)[i] *= scale;
+    // Copy argument, as it might reference a component of this point
+    const BaseType factor{scale};
+    for (unsigned int i = 0; i < spatial_dimension; ++i) (*this)[i] *= factor;
     return (*this);
   }
 
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index a2089c9..3047695 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -579,11 +579,13 @@ constexpr RationalBezierSpline<parametric_dimension, PhysicalPointType,
                                ScalarType>
     &RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     operator+=(const PhysicalPointType &point_shift) {
+  // Copy argument, as it might reference a control point of this spline
+  const PhysicalPointType shift{point_shift};
   // Add up contributions to control points with weights
   for (IndexingType i_ctps{};
        i_ctps < weighted_spline_.GetNumberOfControlPoints(); i_ctps++) {
     weighted_spline_.control_points[i_ctps] +=
-        point_shift * weight_function_.control_points[i_ctps];
+        shift * weight_function_.control_points[i_ctps];
   }
   // Check sanity
   assert(CheckSplineCompatibility());
@@ -608,11 +610,13 @@ constexpr RationalBezierSpline<parametric_dimension, PhysicalPointType,
                                ScalarType>
     &RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     operator-=(const PhysicalPointType &point_shift) {
+  // Copy argument, as it might reference a control point of this spline
+  const PhysicalPointType shift{point_shift};
   // Add up contributions to control points with weights
   for (IndexingType i_ctps{};
        i_ctps < weighted_spline_.GetNumberOfControlPoints(); i_ctps++) {
     weighted_spline_.control_points[i_ctps] -=
-        point_shift * weight_function_.control_points[i_ctps];
+        shift * weight_function_.control_points[i_ctps];
   }
   return (*this);
 }
-- 
2.43.0


From 54b488a22d007f6d5cc182ad3d9218d34d3be440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 08/20] fix: make composition with a group of splines compile
 and check each spline

---
 src/bezier_spline.inc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index f3e362c..9ac9888 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -1068,10 +1068,12 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::Compose(
   composition_group.reserve(number_of_splines);
 
   // Check if the inner function fits into the unit cube
-  if (!inner_function_group.FitsIntoUnitCube()) {
-    utils::Logger::TerminatingError(
-        "Inner function must fit unit cube to "
-        "perform composition");
+  for (const SplineType& inner_function : inner_function_group) {
+    if (!inner_function.FitsIntoUnitCube()) {
+      utils::Logger::TerminatingError(
+          "Inner function must fit unit cube to "
+          "perform composition");
+    }
   }
 
   // Check Dimensions
-- 
2.43.0


From e1a1522584de06f8d1bfa666d9209d1b172481c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 09/20] fix: do not divide by zero when fitting splines without
 extent into the unit cube

---
 src/bezier_spline.inc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 9ac9888..3845ea1 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -845,12 +845,18 @@ BezierSpline<parametric_dimension, PhysicalPointType,
   const auto maximum_corner = MaximumCorner();
   const auto minimum_corner = MinimumCorner();
   auto scale_vector = maximum_corner - minimum_corner;
+  // A dimension without extent is only moved, as it can not be scaled
   if constexpr (std::is_scalar_v<PhysicalPointType>) {
-    scale_vector = static_cast<ScalarType>(1) / scale_vector;
+    scale_vector = (scale_vector == static_cast<ScalarType>(0))
+                       ? static_cast<ScalarType>(1)
+                       : static_cast<ScalarType>(1) / scale_vector;
   } else {
     for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
          i_dim++) {
-      scale_vector[i_dim] = static_cast<ScalarType>(1) / scale_vector[i_dim];
+      scale_vector[i_dim] =
+          (scale_vector[i_dim] == static_cast<ScalarType>(0))
+              ? static_cast<ScalarType>(1)
+              : static_cast<ScalarType>(1) / scale_vector[i_dim];
     }
   }
   return TransposeAndScale(-minimum_corner, scale_vector);
-- 
2.43.0


From fd162a4613cc58da4e7a701f7f7e152d8200a9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 10/20] fix: return zero derivative when the order exceeds the
 degree

---
 src/bezier_spline.inc          | 12 ++++++++++++
 src/rational_bezier_spline.inc | 29 +++++++++++++++++------------
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 3845ea1..4eecdb6 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -246,6 +246,18 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
 
   // Create a copy of the new degrees which will be updated in every iteration
   auto new_degrees = degrees;
+
+  // The derivative vanishes if one of the orders exceeds the degree
+  for (IndexingType i_para_dim{}; i_para_dim < parametric_dimension;
+       i_para_dim++) {
+    if (orders[i_para_dim] > degrees[i_para_dim]) {
+      for (IndexingType i{}; i < parametric_dimension; i++) {
+        new_degrees[i] -= std::min(orders[i], degrees[i]);
+      }
+      return BezierSpline{new_degrees};
+    }
+  }
+
   // Create a copy of control points (later be used for in place operations)
   auto new_control_points = GetControlPoints();
 
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 3047695..975a553 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -533,18 +533,23 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     std::array<IndexingType, parametric_dimension> order_{};
     order_[i_para_dim]++;
     for (IndexingType i_order{}; i_order < orders[i_para_dim]; i_order++) {
-      derivative = RationalBezierSpline(
-          // u' * w - w' * u
-          ((derivative.GetNumeratorSpline().DerivativeWRTParametricDimension(
-                order_) *
-            derivative.GetWeightFunctionSpline()) -
-           (derivative.GetWeightFunctionSpline()
-                .DerivativeWRTParametricDimension(order_) *
-            derivative.GetNumeratorSpline()))
-              .OrderElevateAlongParametricDimension(i_para_dim),
-          // v^2
-          derivative.GetWeightFunctionSpline() *
-              derivative.GetWeightFunctionSpline());
+      // u' * w - w' * u
+      auto numerator =
+          (derivative.GetNumeratorSpline().DerivativeWRTParametricDimension(
+               order_) *
+           derivative.GetWeightFunctionSpline()) -
+          (derivative.GetWeightFunctionSpline()
+               .DerivativeWRTParametricDimension(order_) *
+           derivative.GetNumeratorSpline());
+      // w^2
+      const auto denominator = derivative.GetWeightFunctionSpline() *
+                               derivative.GetWeightFunctionSpline();
+      // Degree 0 can not be reduced by the derivative and already matches
+      while (numerator.GetDegrees()[i_para_dim] <
+             denominator.GetDegrees()[i_para_dim]) {
+        numerator.OrderElevateAlongParametricDimension(i_para_dim);
+      }
+      derivative = RationalBezierSpline(numerator, denominator);
     }
   }
   return derivative;
-- 
2.43.0


From 5cec8a4cf707485d141cb200dabde18161decf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 11/20] fix: never read past the data in base64 encoding

---
 src/utils/base64.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/base64.hpp b/src/utils/base64.hpp
index 1ba3576..5356380 100644
--- a/src/utils/base64.hpp
+++ b/src/utils/base64.hpp
@@ -88,7 +88,7 @@ class Base64_ {
       std::enable_if_t<!type_traits::isPoint_v<BaseType>, void*> = nullptr>
   static std::string Encode(const std::vector<BaseType>& data_vector) {
     const ByteRepresentation* vector_as_bytes =
-        reinterpret_cast<const ByteRepresentation*>(&data_vector[0]);
+        reinterpret_cast<const ByteRepresentation*>(data_vector.data());
 
     // Number of bytes for an entry
     constexpr const std::size_t length_of_entry{sizeof(BaseType{})};
@@ -113,10 +113,10 @@ class Base64_ {
       buffer[0] = buffer_index < minimum_n_bytes_required
                       ? vector_as_bytes[buffer_index + 0]
                       : 0;
-      buffer[1] = buffer_index < minimum_n_bytes_required
+      buffer[1] = buffer_index + 1 < minimum_n_bytes_required
                       ? vector_as_bytes[buffer_index + 1]
                       : 0;
-      buffer[2] = buffer_index < minimum_n_bytes_required
+      buffer[2] = buffer_index + 2 < minimum_n_bytes_required
                       ? vector_as_bytes[buffer_index + 2]
                       : 0;
 
-- 
2.43.0


From f60d322468aed5bc0154bbc21d737054df1564ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 12/20] fix: decode base64 padding, damaged and short text
 without leaving the buffers

---
 src/utils/base64.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/utils/base64.hpp b/src/utils/base64.hpp
index 5356380..6ad6a7b 100644
--- a/src/utils/base64.hpp
+++ b/src/utils/base64.hpp
@@ -204,14 +204,23 @@ class Base64_ {
     // Init return value
     const std::size_t number_of_groups{base64string.size() / 4};
     constexpr const std::size_t length_of_entry{sizeof(OutputType{})};
-    const std::size_t number_of_output_values{(number_of_groups * 3) /
+    // Padding at the end of the string does not represent data
+    std::size_t number_of_bytes{number_of_groups * 3};
+    for (std::size_t i{1}; i < 3 && number_of_groups > 0; i++) {
+      if (base64string[number_of_groups * 4 - i] != '=') break;
+      number_of_bytes--;
+    }
+    const std::size_t number_of_output_values{number_of_bytes /
                                               length_of_entry};
+    // Bytes of an incomplete last entry are dropped
+    const std::size_t number_of_output_bytes{number_of_output_values *
+                                             length_of_entry};
     std::vector<OutputType> return_value;
     return_value.resize(number_of_output_values);
 
     // Access as byte stream
     ByteRepresentation* vector_as_bytes =
-        reinterpret_cast<ByteRepresentation*>(&return_value[0]);
+        reinterpret_cast<ByteRepresentation*>(return_value.data());
 
     // Start the reverse process
     for (std::size_t i_group{}; i_group < number_of_groups; i_group++) {
@@ -219,21 +228,21 @@ class Base64_ {
       std::array<unsigned, 4> buffer{};
       for (unsigned i{}; i < 4; i++) {
         buffer[i] = base64string[buffer_index + i] != '='
-                        ? char_decode_table[static_cast<unsigned>(
+                        ? char_decode_table[static_cast<unsigned char>(
                               base64string[buffer_index + i])]
                         : 255;
       }
 
       // Write bytes
-      if (buffer[1] != 255) {
+      if (buffer[1] != 255 && i_group * 3 < number_of_output_bytes) {
         vector_as_bytes[i_group * 3] =
             ((buffer[0] & 0x3f) << 2) + ((buffer[1] & 0x30) >> 4);
       }
-      if (buffer[2] != 255) {
+      if (buffer[2] != 255 && i_group * 3 + 1 < number_of_output_bytes) {
         vector_as_bytes[i_group * 3 + 1] =
             ((buffer[1] & 0x0f) << 4) + ((buffer[2] & 0x3c) >> 2);
       }
-      if (buffer[3] != 255) {
+      if (buffer[3] != 255 && i_group * 3 + 2 < number_of_output_bytes) {
         vector_as_bytes[i_group * 3 + 2] =
             ((buffer[2] & 0x03) << 6) + ((buffer[3] & 0x3f) >> 0);
       }
-- 
2.43.0


From 42cdd365f8ecc98621d4985a638835c1bec82b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 13/20] fix: keep earlier log messages when logging after a
 terminating error

---
 src/utils/logger.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/utils/logger.hpp b/src/utils/logger.hpp
index a74c5a9..e876957 100644
--- a/src/utils/logger.hpp
+++ b/src/utils/logger.hpp
@@ -310,8 +310,9 @@ class Logger {
                  << "]" << GetTimeStamp_() << " : " << error_text << "\n";
     }
 #endif
-    // Close file streams in order to save error files
-    close();
+    // Flush file streams in order to save error files (without closing them, as
+    // opening them again would discard their contents)
+    flush();
     // Throw exception
     throw ExceptionType(error_text);
   }
@@ -354,6 +355,15 @@ class Logger {
 #endif
   }
 
+  /// Flush File-Streams to save log files
+  void flush() {
+#ifdef ENABLE_LOGGING
+    log_file.flush();
+    warning_file.flush();
+    error_file.flush();
+#endif
+  }
+
   /// Close File-Streams to save log files
   void close() {
 #ifdef ENABLE_LOGGING
-- 
2.43.0


From 6ac002a96aaf696efad167ee40744e1bc8a585f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 14/20] fix: resume logging to files after a write error

---
 src/utils/logger.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/utils/logger.hpp b/src/utils/logger.hpp
index e876957..78cacfa 100644
--- a/src/utils/logger.hpp
+++ b/src/utils/logger.hpp
@@ -340,16 +340,25 @@ class Logger {
     if (static_cast<unsigned>(OutputLevel::log_file) & outputlevel_) {
       if (!log_file.is_open()) {
         log_file.open("log_file.log");
+      } else if (!log_file.good()) {
+        // Try again after a write error
+        log_file.clear();
       }
     }
     if (static_cast<unsigned>(OutputLevel::warning_file) & outputlevel_) {
       if (!warning_file.is_open()) {
         warning_file.open("warning_file.log");
+      } else if (!warning_file.good()) {
+        // Try again after a write error
+        warning_file.clear();
       }
     }
     if (static_cast<unsigned>(OutputLevel::error_file) & outputlevel_) {
       if (!error_file.is_open()) {
         error_file.open("error_file.log");
+      } else if (!error_file.good()) {
+        // Try again after a write error
+        error_file.clear();
       }
     }
 #endif
-- 
2.43.0


From 66322e7e6e45b4b402a31bde225af37754090b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 15/20] fix: serialize concurrent use of the logger

---
 src/utils/logger.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/utils/logger.hpp b/src/utils/logger.hpp
index 78cacfa..7eb6112 100644
--- a/src/utils/logger.hpp
+++ b/src/utils/logger.hpp
@@ -29,6 +29,7 @@ SOFTWARE.
 #include <fstream>
 #include <iomanip>
 #include <iostream>
+#include <mutex>
 #include <stdexcept>
 #include <string>
 
@@ -154,7 +155,6 @@ class Logger {
    */
   static Logger& Get() {
     static Logger singleton_instance;
-    singleton_instance.init();
     return singleton_instance;
   }
 
@@ -166,6 +166,7 @@ class Logger {
    * of all chosen enum objects, see OutputLevel
    */
   void SetOutputLevel_(unsigned int outputlevel) {
+    const std::lock_guard<std::mutex> lock{mutex_};
     outputlevel_ = outputlevel;
     init();
   }
@@ -180,6 +181,7 @@ class Logger {
    */
   void SetOutputLevel_(
       const std::initializer_list<OutputLevel>& output_options) {
+    const std::lock_guard<std::mutex> lock{mutex_};
     outputlevel_ = 0;
     for (auto i_option = output_options.begin();
          i_option != output_options.end(); ++i_option) {
@@ -196,6 +198,8 @@ class Logger {
    */
   void Warning_([[maybe_unused]] const std::string& warning_text) {
 #ifdef ENABLE_LOGGING
+    const std::lock_guard<std::mutex> lock{mutex_};
+    init();
     if (static_cast<unsigned>(OutputLevel::warnings) & outputlevel_) {
       std::cout << "[" << std::setw(padding_first_col_console)
                 << ColorText("warning", Color::yellow) << "]" << GetTimeStamp_()
@@ -216,6 +220,8 @@ class Logger {
    */
   void UserInfo_([[maybe_unused]] const std::string& info_text) {
 #ifdef ENABLE_LOGGING
+    const std::lock_guard<std::mutex> lock{mutex_};
+    init();
     if (static_cast<unsigned>(OutputLevel::userinfo) & outputlevel_) {
       std::cout << "[" << std::setw(padding_first_col_console)
                 << ColorText("user info", Color::blue) << "]" << GetTimeStamp_()
@@ -236,6 +242,8 @@ class Logger {
    */
   void Logging_([[maybe_unused]] const std::string& log_text) {
 #ifdef ENABLE_LOGGING
+    const std::lock_guard<std::mutex> lock{mutex_};
+    init();
     if (static_cast<unsigned>(OutputLevel::logging) & outputlevel_) {
       std::cout << "[" << std::setw(padding_first_col_console)
                 << ColorText("log", Color::shell_default) << "]"
@@ -258,6 +266,8 @@ class Logger {
    */
   void ExtendedInformation_([[maybe_unused]] const std::string& log_text) {
 #ifdef ENABLE_LOGGING
+    const std::lock_guard<std::mutex> lock{mutex_};
+    init();
     if (static_cast<unsigned>(OutputLevel::logging_verbose) & outputlevel_) {
       std::cout << "[" << std::setw(padding_first_col_console)
                 << ColorText("log", Color::green) << "]" << GetTimeStamp_()
@@ -278,6 +288,8 @@ class Logger {
    */
   void Error_([[maybe_unused]] const std::string& error_text) {
 #ifdef ENABLE_LOGGING
+    const std::lock_guard<std::mutex> lock{mutex_};
+    init();
     if (static_cast<unsigned>(OutputLevel::errors) & outputlevel_) {
       std::cout << "[" << std::setw(padding_first_col_console)
                 << ColorText("error", Color::red) << "]" << GetTimeStamp_()
@@ -298,6 +310,8 @@ class Logger {
    */
   template <typename ExceptionType = std::runtime_error>
   void TerminatingError_(const std::string& error_text) {
+    const std::lock_guard<std::mutex> lock{mutex_};
+    init();
     if (static_cast<unsigned>(OutputLevel::errors) & outputlevel_) {
       std::cout << "[" << std::setw(padding_first_col_console)
                 << ColorText("crit. error", Color::red) << "]"
@@ -329,6 +343,9 @@ class Logger {
   /// Padding in text files
   const unsigned int padding_first_col_files{10};
 
+  /// Serializes concurrent use of the logger
+  std::mutex mutex_;
+
   /// File Streams
   std::ofstream log_file;
   std::ofstream warning_file;
-- 
2.43.0


From bc76c131d00e790260daf1a8941cc492d3fa043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 16/20] fix: reject rational inner functions outside the unit
 cube in rational composition

---
 src/rational_bezier_spline.hpp | 6 ++++++
 src/rational_bezier_spline.inc | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/src/rational_bezier_spline.hpp b/src/rational_bezier_spline.hpp
index 1772b7f..343e6c3 100644
--- a/src/rational_bezier_spline.hpp
+++ b/src/rational_bezier_spline.hpp
@@ -518,6 +518,12 @@ class RationalBezierSpline {
   Compose(const RationalBezierSpline<parametric_dimension_inner_spline,
                                      PointTypeRHS, ScalarRHS>& inner_function)
       const {
+    // Check if the inner function fits into the unit cube
+    if (!inner_function.FitsIntoUnitCube()) {
+      utils::Logger::TerminatingError(
+          "Inner function must fit unit cube to "
+          "perform composition");
+    }
     return RationalBezierSpline<parametric_dimension_inner_spline,
                                 PhysicalPointType,
                                 decltype(ScalarType_{} * ScalarRHS{})>{
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 975a553..cfea576 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -787,6 +787,13 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
                            decltype(ScalarType_{} * ScalarRHS{}),
                            decltype(ScalarType_{} * ScalarRHS{})>;
 
+  // Check if the inner function fits into the unit cube
+  if (!inner_function.FitsIntoUnitCube()) {
+    utils::Logger::TerminatingError(
+        "Inner function must fit unit cube to "
+        "perform composition");
+  }
+
   // Precompute numerators
   const auto &numerator_derivatives =
       weighted_spline_.ComposeNumeratorSensitivity(inner_function);
-- 
2.43.0


From 423038eb5d6a60c443ad3c00453a2884eb30617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 17/20] fix: keep value and derivatives together if assigning a
 differentiated number runs out of memory

---
 .../computational_differentiation/algo_diff_type.hpp  | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.hpp b/src/utils/computational_differentiation/algo_diff_type.hpp
index 3b7c12e..33ca956 100644
--- a/src/utils/computational_differentiation/algo_diff_type.hpp
+++ b/src/utils/computational_differentiation/algo_diff_type.hpp
@@ -30,6 +30,7 @@ SOFTWARE.
 #include <cassert>
 #include <cmath>
 #include <iostream>
+#include <utility>
 #include <vector>
 
 namespace bezman::utils::computational_differentiation {
@@ -170,7 +171,15 @@ class AlgoDiffType {
     return *this;
   }
 
-  AlgoDiffType &operator=(const AlgoDiffType &t) = default;
+  /// Copy assignment
+  AlgoDiffType &operator=(const AlgoDiffType &t) {
+    // Copy first, to never replace only the value or only the derivatives
+    AlgoDiffType copy(t);
+    return *this = std::move(copy);
+  }
+
+  /// Default Move assignment
+  AlgoDiffType &operator=(AlgoDiffType &&t) = default;
 
   /** @defgroup GetterSetters Getter and Setter Methods
    * Setter methods for values and derivatives
-- 
2.43.0


From 2d77d50c87f511ab18b1c89ac50a4efdd2d4560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:14 +0000
Subject: [PATCH 18/20] fix: subtract all control points when the minuend has
 lower degrees

The loop ran over the control points of the minuend before its elevation, so
the difference of a spline and one of higher degree kept undiminished control
points.
---
 src/bezier_spline.inc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 4eecdb6..4018d37 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -685,8 +685,9 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator-(
       rhs.OrderElevateAlongParametricDimension(par_dim);
     }
   }
-  // Add control points
-  for (IndexingType i_ctps{}; i_ctps < GetNumberOfControlPoints(); i_ctps++) {
+  // Subtract control points
+  for (IndexingType i_ctps{}; i_ctps < return_spline.GetNumberOfControlPoints();
+       i_ctps++) {
     return_spline.control_points[i_ctps] -= rhs.control_points[i_ctps];
   }
   return return_spline;
-- 
2.43.0


From 53a5be2ef0ff2fe279c6acd2d4aedb2f73e2086b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:58 +0000
Subject: [PATCH 19/20] fix: replace log streams that failed instead of reusing
 their buffer

Writing to a file buffer again after a write error overflows it by one
byte, and a file whose opening ran out of memory stayed unusable.
---
 src/utils/logger.hpp | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/utils/logger.hpp b/src/utils/logger.hpp
index 7eb6112..c769ed1 100644
--- a/src/utils/logger.hpp
+++ b/src/utils/logger.hpp
@@ -351,32 +351,39 @@ class Logger {
   std::ofstream warning_file;
   std::ofstream error_file;
 
+  /// Modes to open the files with (append, once they have been created)
+  std::ios_base::openmode log_file_mode_{std::ios_base::out};
+  std::ios_base::openmode warning_file_mode_{std::ios_base::out};
+  std::ios_base::openmode error_file_mode_{std::ios_base::out};
+
+  /**
+   * @brief Open a file if it is not ready to be written
+   *
+   * A stream that could not be opened or written is replaced by a new one, as
+   * the buffer of the failed one must not be used any more. The stream remains
+   * unchanged if memory runs out.
+   */
+  static void OpenFile_(std::ofstream& file, const char* file_name,
+                        std::ios_base::openmode& mode) {
+    if (!file.is_open() || !file.good()) {
+      file = std::ofstream(file_name, mode);
+      if (file.is_open()) {
+        mode = std::ios_base::app;
+      }
+    }
+  }
+
   /// Initialize output streams
   void init() {
 #ifdef ENABLE_LOGGING
     if (static_cast<unsigned>(OutputLevel::log_file) & outputlevel_) {
-      if (!log_file.is_open()) {
-        log_file.open("log_file.log");
-      } else if (!log_file.good()) {
-        // Try again after a write error
-        log_file.clear();
-      }
+      OpenFile_(log_file, "log_file.log", log_file_mode_);
     }
     if (static_cast<unsigned>(OutputLevel::warning_file) & outputlevel_) {
-      if (!warning_file.is_open()) {
-        warning_file.open("warning_file.log");
-      } else if (!warning_file.good()) {
-        // Try again after a write error
-        warning_file.clear();
-      }
+      OpenFile_(warning_file, "warning_file.log", warning_file_mode_);
     }
     if (static_cast<unsigned>(OutputLevel::error_file) & outputlevel_) {
-      if (!error_file.is_open()) {
-        error_file.open("error_file.log");
-      } else if (!error_file.good()) {
-        // Try again after a write error
-        error_file.clear();
-      }
+      OpenFile_(error_file, "error_file.log", error_file_mode_);
     }
 #endif
   }
-- 
2.43.0


From e8f3289e0efe0e69785911f6fd6fbb6373966eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 20/20] fix: Point::toString returned an incomplete text when
 memory ran out

---
 src/point.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/point.hpp b/src/point.hpp
index fa419c5..adf2726 100644
--- a/src/point.hpp
+++ b/src/point.hpp
@@ -182,6 +182,8 @@ class Point : public std::array<BaseType, spatial_dimension> {
   /// Converts Point into a string object
   std::string toString(const int& output_precision = 6) const {
     std::ostringstream out{};
+    // Report exhausted memory, do not return an incomplete text
+    out.exceptions(std::ios_base::badbit);
     out << "[" << std::setw(output_precision + 2)
         << std::setprecision(output_precision) << (*this)[0];
     for (size_t i{1}; i < spatial_dimension; ++i) {
-- 
2.43.0

