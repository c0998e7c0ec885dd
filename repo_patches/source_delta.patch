From 3a2fda72bb5719069d6a36d22769022a0df3cc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:01 +0000
Subject: [PATCH 01/24] fix: divide by the weight function in
 RationalBezierSpline::ForwardEvaluate

---
 src/rational_bezier_spline.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 9378e1a..1d464f5 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -201,8 +201,8 @@ constexpr PhysicalPointType RationalBezierSpline<
   // Check sanity
   assert(CheckSplineCompatibility());
 
-  // Evaluiere Basis Functions
-  const auto factors = weighted_spline_.BasisFunctions(par_coords);
+  // Evaluate basis functions, divided by the value of the weight function
+  const auto factors = UnweightedBasisFunctions(par_coords);
 
   // Initialize values
   PhysicalPointType evaluation_point{};
-- 
2.43.0


From 60915b9e4a402fa74a0289128d0744e0e1e3e559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:16 +0000
Subject: [PATCH 02/24] fix: return the zero spline for derivative orders above
 the degree

---
 src/bezier_spline.inc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 62a5ebb..59a3b94 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -243,6 +243,18 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
         return result + "]";
       }(orders));
 
+  // A derivative order above the degree results in the zero function
+  for (IndexingType i_para_dim{}; i_para_dim < parametric_dimension;
+       i_para_dim++) {
+    if (orders[i_para_dim] > degrees[i_para_dim]) {
+      std::array<IndexingType, parametric_dimension> zero_degrees{};
+      for (IndexingType i{}; i < parametric_dimension; i++) {
+        zero_degrees[i] = degrees[i] - std::min(orders[i], degrees[i]);
+      }
+      return BezierSpline{zero_degrees};
+    }
+  }
+
   // Create a copy of the new degrees which will be updated in every iteration
   auto new_degrees = degrees;
   // Create a copy of control points (later be used for in place operations)
-- 
2.43.0


From 25f7955e4b222e20d20d693e8b4b2698f218ba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 03/24] fix: support degree zero directions in rational
 derivatives

---
 src/rational_bezier_spline.inc | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 1d464f5..14e2270 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -528,18 +528,23 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     std::array<IndexingType, parametric_dimension> order_{};
     order_[i_para_dim]++;
     for (IndexingType i_order{}; i_order < orders[i_para_dim]; i_order++) {
-      derivative = RationalBezierSpline(
-          // u' * w - w' * u
-          ((derivative.GetNumeratorSpline().DerivativeWRTParametricDimension(
-                order_) *
-            derivative.GetWeightFunctionSpline()) -
-           (derivative.GetWeightFunctionSpline()
-                .DerivativeWRTParametricDimension(order_) *
-            derivative.GetNumeratorSpline()))
-              .OrderElevateAlongParametricDimension(i_para_dim),
-          // v^2
-          derivative.GetWeightFunctionSpline() *
-              derivative.GetWeightFunctionSpline());
+      // u' * w - w' * u
+      auto numerator =
+          (derivative.GetNumeratorSpline().DerivativeWRTParametricDimension(
+               order_) *
+           derivative.GetWeightFunctionSpline()) -
+          (derivative.GetWeightFunctionSpline()
+               .DerivativeWRTParametricDimension(order_) *
+           derivative.GetNumeratorSpline());
+      // Differentiation only reduces the order if it is not already zero
+      if (derivative.GetDegrees()[i_para_dim] > 0) {
+        numerator.OrderElevateAlongParametricDimension(i_para_dim);
+      }
+      derivative =
+          RationalBezierSpline(numerator,
+                               // v^2
+                               derivative.GetWeightFunctionSpline() *
+                                   derivative.GetWeightFunctionSpline());
     }
   }
   return derivative;
-- 
2.43.0


From 2f805f8e4d7a885a6d0560a09a3a667986fcbf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 04/24] fix: terminate spline subtraction when the right-hand
 side has a higher degree

---
 src/bezier_spline.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 59a3b94..4cccd48 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -668,7 +668,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator-(
   // Increase the order of return_spline to be greater or equal to the
   // RHSs order
   for (IndexingType par_dim{0}; par_dim < parametric_dimension; par_dim++) {
-    while (rhs.GetDegrees()[par_dim] > degrees[par_dim]) {
+    while (rhs.GetDegrees()[par_dim] > return_spline.GetDegrees()[par_dim]) {
       return_spline.OrderElevateAlongParametricDimension(par_dim);
     }
   }
-- 
2.43.0


From 6ee065cda258fe3b8579172a5d6e58fb95107354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 05/24] fix: use all indices in
 RationalBezierSpline::ControlPoint(index...)

---
 src/rational_bezier_spline.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 14e2270..25343b1 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -31,7 +31,7 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType,
   static_assert(sizeof...(T) == parametric_dimension,
                 "Unspecified number of indices.");
   const std::array<IndexingType, parametric_dimension> indices{
-      (static_cast<IndexingType>(index), ...)};
+      static_cast<IndexingType>(index)...};
   return ControlPoint(indices);
 }
 
-- 
2.43.0


From 08088399c6001a7650955e426c64b3e019deb54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 06/24] fix: make the composition with a group of splines
 compile

---
 src/bezier_spline.inc | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 4cccd48..9afa701 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -1070,18 +1070,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::Compose(
   ReturnType composition_group;
   composition_group.reserve(number_of_splines);
 
-  // Check if the inner function fits into the unit cube
-  if (!inner_function_group.FitsIntoUnitCube()) {
-    utils::Logger::TerminatingError(
-        "Inner function must fit unit cube to "
-        "perform composition");
-  }
-
-  // Check Dimensions
-  static_assert(
-      SplineType::PhysicalPointType_::kSpatialDimension == parametric_dimension,
-      "Dimension mismatch");
-
+  // Unit cube and dimensions are checked for every spline individually
   for (IndexingType i_spline{}; i_spline < number_of_splines; i_spline++) {
     composition_group.push_back(Compose(inner_function_group[i_spline]));
   }
-- 
2.43.0


From 084220283319f94898e861013b296ed60f63fbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 07/24] fix: reject inner functions outside the unit cube in
 rational-rational compositions

---
 src/rational_bezier_spline.hpp | 7 +++++++
 src/rational_bezier_spline.inc | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/rational_bezier_spline.hpp b/src/rational_bezier_spline.hpp
index 8689289..2247e16 100644
--- a/src/rational_bezier_spline.hpp
+++ b/src/rational_bezier_spline.hpp
@@ -511,6 +511,13 @@ class RationalBezierSpline {
   Compose(const RationalBezierSpline<parametric_dimension_inner_spline,
                                      PointTypeRHS, ScalarRHS>& inner_function)
       const {
+    // Check if the inner function fits into the unit cube
+    if (!inner_function.FitsIntoUnitCube()) {
+      utils::Logger::TerminatingError(
+          "Inner function must fit unit cube to "
+          "perform composition");
+    }
+
     return RationalBezierSpline<parametric_dimension_inner_spline,
                                 PhysicalPointType,
                                 decltype(ScalarType_{} * ScalarRHS{})>{
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 25343b1..330e206 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -790,6 +790,13 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
                            decltype(ScalarType_{} * ScalarRHS{}),
                            decltype(ScalarType_{} * ScalarRHS{})>;
 
+  // Check if the inner function fits into the unit cube
+  if (!inner_function.FitsIntoUnitCube()) {
+    utils::Logger::TerminatingError(
+        "Inner function must fit unit cube to "
+        "perform composition");
+  }
+
   // Precompute numerators
   const auto &numerator_derivatives =
       weighted_spline_.ComposeNumeratorSensitivity(inner_function);
-- 
2.43.0


From 2669d2a37e61dd726fd6ce12e974ad7b7a6ef5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 08/24] fix: keep flat dimensions finite in FitIntoUnitCube

---
 src/bezier_spline.inc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 9afa701..7f6d2ec 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -848,12 +848,18 @@ BezierSpline<parametric_dimension, PhysicalPointType,
   const auto maximum_corner = MaximumCorner();
   const auto minimum_corner = MinimumCorner();
   auto scale_vector = maximum_corner - minimum_corner;
+  // Flat dimensions can not be stretched and are only moved
+  const auto inverse_extent = [](const auto& extent) {
+    return extent > static_cast<ScalarType>(0)
+               ? static_cast<ScalarType>(1) / extent
+               : static_cast<ScalarType>(1);
+  };
   if constexpr (std::is_scalar_v<PhysicalPointType>) {
-    scale_vector = static_cast<ScalarType>(1) / scale_vector;
+    scale_vector = inverse_extent(scale_vector);
   } else {
     for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
          i_dim++) {
-      scale_vector[i_dim] = static_cast<ScalarType>(1) / scale_vector[i_dim];
+      scale_vector[i_dim] = inverse_extent(scale_vector[i_dim]);
     }
   }
   return TransposeAndScale(-minimum_corner, scale_vector);
-- 
2.43.0


From 4f840bc2ed3e6efa244374b117a73fb65c45809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 09/24] fix: compute integer powers in the integer type itself

IntPower stored intermediate results in an int, which truncated powers of
wider types and overflowed.
---
 src/utils/algorithms/int_power.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/algorithms/int_power.hpp b/src/utils/algorithms/int_power.hpp
index f3f627f..599794c 100644
--- a/src/utils/algorithms/int_power.hpp
+++ b/src/utils/algorithms/int_power.hpp
@@ -37,7 +37,8 @@ constexpr IntegralType IntPower(const IntegralType& base,
   if (power == 0) return 1;
   if (power == 1) return base;
 
-  int tmp = IntPower(base, power / 2);
+  const IntegralType tmp =
+      IntPower(base, static_cast<IntegralType>(power / 2));
   if ((power % 2) == 0) {
     return tmp * tmp;
   } else {
-- 
2.43.0


From a75b4087f3a3b98ac478896d4e75faf8ac664787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 10/24] fix: do not read past the end of the data in
 Base64::Encode

The bounds checks for the second and third byte of a group used the index of
the first one, so the last partial group contained foreign memory.
---
 src/utils/base64.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/base64.hpp b/src/utils/base64.hpp
index 1ba3576..5356380 100644
--- a/src/utils/base64.hpp
+++ b/src/utils/base64.hpp
@@ -88,7 +88,7 @@ class Base64_ {
       std::enable_if_t<!type_traits::isPoint_v<BaseType>, void*> = nullptr>
   static std::string Encode(const std::vector<BaseType>& data_vector) {
     const ByteRepresentation* vector_as_bytes =
-        reinterpret_cast<const ByteRepresentation*>(&data_vector[0]);
+        reinterpret_cast<const ByteRepresentation*>(data_vector.data());
 
     // Number of bytes for an entry
     constexpr const std::size_t length_of_entry{sizeof(BaseType{})};
@@ -113,10 +113,10 @@ class Base64_ {
       buffer[0] = buffer_index < minimum_n_bytes_required
                       ? vector_as_bytes[buffer_index + 0]
                       : 0;
-      buffer[1] = buffer_index < minimum_n_bytes_required
+      buffer[1] = buffer_index + 1 < minimum_n_bytes_required
                       ? vector_as_bytes[buffer_index + 1]
                       : 0;
-      buffer[2] = buffer_index < minimum_n_bytes_required
+      buffer[2] = buffer_index + 2 < minimum_n_bytes_required
                       ? vector_as_bytes[buffer_index + 2]
                       : 0;
 
-- 
2.43.0


From 7046d21fa49386032b8fda5297f284c7ba0d3d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 11/24] fix: ignore padding when sizing the result of
 Base64::Decode

The padding was counted as data, which appended entries that were never
encoded to the result for small entry types.
---
 src/utils/base64.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/utils/base64.hpp b/src/utils/base64.hpp
index 5356380..6b8723d 100644
--- a/src/utils/base64.hpp
+++ b/src/utils/base64.hpp
@@ -204,8 +204,16 @@ class Base64_ {
     // Init return value
     const std::size_t number_of_groups{base64string.size() / 4};
     constexpr const std::size_t length_of_entry{sizeof(OutputType{})};
-    const std::size_t number_of_output_values{(number_of_groups * 3) /
-                                              length_of_entry};
+    // Padding characters do not represent any data
+    std::size_t number_of_padding_bytes{};
+    while (number_of_padding_bytes < 2 &&
+           number_of_padding_bytes < base64string.size() &&
+           base64string[base64string.size() - 1 - number_of_padding_bytes] ==
+               '=') {
+      number_of_padding_bytes++;
+    }
+    const std::size_t number_of_output_values{
+        (number_of_groups * 3 - number_of_padding_bytes) / length_of_entry};
     std::vector<OutputType> return_value;
     return_value.resize(number_of_output_values);
 
-- 
2.43.0


From 393e603bd5f3b01c4553506197915556c0c2b4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 12/24] fix: keep Base64::Decode within the decode table and
 its result

Characters above 127 are negative if char is signed and were used as an index,
and bytes of an incomplete last entry were written behind the result.
---
 src/utils/base64.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/utils/base64.hpp b/src/utils/base64.hpp
index 6b8723d..b9f63aa 100644
--- a/src/utils/base64.hpp
+++ b/src/utils/base64.hpp
@@ -66,7 +66,7 @@ class Base64_ {
     static_assert(sizeof(char{}) == 1, "Invalid char size.");
     std::array<unsigned, 256> et_reversed{};
     for (unsigned i{}; i < char_encode_table.size(); i++) {
-      et_reversed[static_cast<unsigned>(char_encode_table[i])] = i;
+      et_reversed[static_cast<unsigned char>(char_encode_table[i])] = i;
     }
     return et_reversed;
   }
@@ -219,7 +219,10 @@ class Base64_ {
 
     // Access as byte stream
     ByteRepresentation* vector_as_bytes =
-        reinterpret_cast<ByteRepresentation*>(&return_value[0]);
+        reinterpret_cast<ByteRepresentation*>(return_value.data());
+    // Only complete entries are stored
+    const std::size_t number_of_bytes{number_of_output_values *
+                                      length_of_entry};
 
     // Start the reverse process
     for (std::size_t i_group{}; i_group < number_of_groups; i_group++) {
@@ -227,22 +230,23 @@ class Base64_ {
       std::array<unsigned, 4> buffer{};
       for (unsigned i{}; i < 4; i++) {
         buffer[i] = base64string[buffer_index + i] != '='
-                        ? char_decode_table[static_cast<unsigned>(
+                        ? char_decode_table[static_cast<unsigned char>(
                               base64string[buffer_index + i])]
                         : 255;
       }
 
       // Write bytes
-      if (buffer[1] != 255) {
-        vector_as_bytes[i_group * 3] =
+      const std::size_t byte_index = i_group * 3;
+      if (buffer[1] != 255 && byte_index < number_of_bytes) {
+        vector_as_bytes[byte_index] =
             ((buffer[0] & 0x3f) << 2) + ((buffer[1] & 0x30) >> 4);
       }
-      if (buffer[2] != 255) {
-        vector_as_bytes[i_group * 3 + 1] =
+      if (buffer[2] != 255 && byte_index + 1 < number_of_bytes) {
+        vector_as_bytes[byte_index + 1] =
             ((buffer[1] & 0x0f) << 4) + ((buffer[2] & 0x3c) >> 2);
       }
-      if (buffer[3] != 255) {
-        vector_as_bytes[i_group * 3 + 2] =
+      if (buffer[3] != 255 && byte_index + 2 < number_of_bytes) {
+        vector_as_bytes[byte_index + 2] =
             ((buffer[2] & 0x03) << 6) + ((buffer[3] & 0x3f) >> 0);
       }
     }
-- 
2.43.0


From 31165653f12c1346a50618c57347cf4804be92c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:28 +0000
Subject: [PATCH 13/24] fix: support all functions for nested differentiation
 types

acos of a nested type returned the cosine, asin and the division by a scalar
did not compile for nested types.
---
 .../computational_differentiation/algo_diff_type.inc      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index 9eb3385..8daedeb 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -185,7 +185,7 @@ AlgoDiffType<Scalar, numberOfDerivatives>::operator/(const Scalar& b) const {
 template <typename Scalar, std::size_t numberOfDerivatives>
 constexpr AlgoDiffType<Scalar, numberOfDerivatives>&
 AlgoDiffType<Scalar, numberOfDerivatives>::operator/=(const Scalar& b) {
-  const Scalar inverse_b{1 / b};
+  const Scalar inverse_b{1. / b};
   v_ *= inverse_b;
   for (IndexingType_ i{}; i < GetNumberOfDerivatives(); i++) {
     d_[i] *= inverse_b;
@@ -410,8 +410,8 @@ constexpr AlgoDiffType<Scalar, numberOfDerivatives> acos(
     auxiliary_value = -1. / std::sqrt(1 - rad.v_ * rad.v_);
     result_value.v_ = std::acos(rad.v_);
   } else {
-    auxiliary_value = -1. / sqrt(1 - rad.v_ * rad.v_);
-    result_value.v_ = cos(rad.v_);
+    auxiliary_value = -1. / sqrt(1. - rad.v_ * rad.v_);
+    result_value.v_ = acos(rad.v_);
   }
   for (std::size_t i{}; i < rad.GetNumberOfDerivatives(); i++) {
     result_value.d_[i] *= auxiliary_value;
@@ -429,7 +429,7 @@ constexpr AlgoDiffType<Scalar, numberOfDerivatives> asin(
     auxiliary_value = 1. / std::sqrt(1 - rad.v_ * rad.v_);
     result_value.v_ = std::asin(rad.v_);
   } else {
-    auxiliary_value = 1. / std::sqrt(1 - rad.v_ * rad.v_);
+    auxiliary_value = 1. / sqrt(1. - rad.v_ * rad.v_);
     result_value.v_ = asin(rad.v_);
   }
   for (std::size_t i{}; i < rad.GetNumberOfDerivatives(); i++) {
-- 
2.43.0


From b099aa8f30a3be694fdae4a77bafd56590c43777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:28 +0000
Subject: [PATCH 14/24] fix: return the value of the power at base zero

The value was computed as base * base^(power - 1), which is not a number for a
zero base and powers below one.
---
 src/utils/computational_differentiation/algo_diff_type.inc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index 8daedeb..f7be942 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -262,14 +262,15 @@ constexpr AlgoDiffType<Scalar, numberOfDerivatives> pow(
     const AlgoDiffType<Scalar, numberOfDerivatives>& base,
     const Scalar& power) {
   Scalar tmp;
+  AlgoDiffType<Scalar, numberOfDerivatives> result_value{base};
   if constexpr (std::is_arithmetic_v<Scalar>) {
     // Use STD namespace function
     tmp = std::pow(base.v_, power - 1.0);
+    result_value.v_ = std::pow(base.v_, power);
   } else {
     tmp = pow(base.v_, power - 1.0);
+    result_value.v_ *= tmp;
   }
-  AlgoDiffType<Scalar, numberOfDerivatives> result_value{base};
-  result_value.v_ *= tmp;
   for (std::size_t i{}; i < base.GetNumberOfDerivatives(); i++) {
     result_value.d_[i] *= power * tmp;
   }
-- 
2.43.0


From 2ef449021014c590f97fcd7af3697f32655ca797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:59 +0000
Subject: [PATCH 15/24] fix: copy the scale in Point::operator*= as it may be a
 component of the point

---
 src/point.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/point.hpp b/src/point.hpp
index 8a2f8e4..bc98ca3 100644
--- a/src/point.hpp
+++ b/src/point.hpp
@@ -107,7 +107,9 @@ class Point : public std::array<BaseType, spatial_dimension> {
 
   /// Multiplication with a scalar
   constexpr Point& operator*=(const BaseType& scale) {
-    for (unsigned int i = 0; i < spatial_dimension; ++i) (*this)[i] *= scale;
+    // Copy, as scale might be a component of this point
+    const BaseType factor{scale};
+    for (unsigned int i = 0; i < spatial_dimension; ++i) (*this)[i] *= factor;
     return (*this);
   }
 
-- 
2.43.0


From f18fc818ec0362591b8a726af47dba34c002c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:59 +0000
Subject: [PATCH 16/24] fix: copy arguments of in-place operators that may be
 own control points

---
 src/bezier_spline.inc          | 20 ++++++++++++++------
 src/rational_bezier_spline.inc |  8 ++++++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 7f6d2ec..e632edd 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -514,8 +514,10 @@ template <std::size_t parametric_dimension, typename PhysicalPointType,
 constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>&
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator*=(
     const ScalarType& scalar) {
+  // Copy, as the argument might be one of the control points
+  const ScalarType factor{scalar};
   for (std::size_t i{}; i < GetNumberOfControlPoints(); i++) {
-    control_points[i] *= scalar;
+    control_points[i] *= factor;
   }
   return (*this);
 }
@@ -525,8 +527,10 @@ template <std::size_t parametric_dimension, typename PhysicalPointType,
 constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>&
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator+=(
     const PhysicalPointType& point_shift) {
+  // Copy, as the argument might be one of the control points
+  const PhysicalPointType shift{point_shift};
   for (std::size_t i{}; i < GetNumberOfControlPoints(); i++) {
-    control_points[i] += point_shift;
+    control_points[i] += shift;
   }
   return (*this);
 }
@@ -546,8 +550,10 @@ template <std::size_t parametric_dimension, typename PhysicalPointType,
 constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>&
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator-=(
     const PhysicalPointType& point_shift) {
+  // Copy, as the argument might be one of the control points
+  const PhysicalPointType shift{point_shift};
   for (std::size_t i{}; i < GetNumberOfControlPoints(); i++) {
-    control_points[i] -= point_shift;
+    control_points[i] -= shift;
   }
   return (*this);
 }
@@ -825,15 +831,17 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
                       const PhysicalPointType& scale_vector) {
   utils::Logger::ExtendedInformation(
       "Starting scaling and transposing spline to move bounds");
+  // Copies, as the arguments might be control points of this spline
+  const PhysicalPointType shift{transposition};
+  const PhysicalPointType scale{scale_vector};
   for (IndexingType i{}; i < GetNumberOfControlPoints(); i++) {
     if constexpr (std::is_scalar_v<PhysicalPointType>) {
-      control_points[i] = (transposition + control_points[i]) * scale_vector;
+      control_points[i] = (shift + control_points[i]) * scale;
     } else {
       for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
            i_dim++) {
         control_points[i][i_dim] =
-            (transposition[i_dim] + control_points[i][i_dim]) *
-            scale_vector[i_dim];
+            (shift[i_dim] + control_points[i][i_dim]) * scale[i_dim];
       }
     }
   }
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 330e206..f01ddda 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -579,11 +579,13 @@ constexpr RationalBezierSpline<parametric_dimension, PhysicalPointType,
                                ScalarType>
     &RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     operator+=(const PhysicalPointType &point_shift) {
+  // Copy, as the argument might be one of the control points
+  const PhysicalPointType shift{point_shift};
   // Add up contributions to control points with weights
   for (IndexingType i_ctps{};
        i_ctps < weighted_spline_.GetNumberOfControlPoints(); i_ctps++) {
     weighted_spline_.control_points[i_ctps] +=
-        point_shift * weight_function_.control_points[i_ctps];
+        shift * weight_function_.control_points[i_ctps];
   }
   // Check sanity
   assert(CheckSplineCompatibility());
@@ -608,11 +610,13 @@ constexpr RationalBezierSpline<parametric_dimension, PhysicalPointType,
                                ScalarType>
     &RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     operator-=(const PhysicalPointType &point_shift) {
+  // Copy, as the argument might be one of the control points
+  const PhysicalPointType shift{point_shift};
   // Add up contributions to control points with weights
   for (IndexingType i_ctps{};
        i_ctps < weighted_spline_.GetNumberOfControlPoints(); i_ctps++) {
     weighted_spline_.control_points[i_ctps] -=
-        point_shift * weight_function_.control_points[i_ctps];
+        shift * weight_function_.control_points[i_ctps];
   }
   return (*this);
 }
-- 
2.43.0


From d6c8e719d30db15edae4ca1b27a243208b9e842a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:22 +0000
Subject: [PATCH 17/24] fix: flush log files on terminating errors instead of
 closing them

The files were reopened and thereby truncated by the next logger call, and
files that are not part of the current output level were not written at all.
---
 src/utils/logger.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/utils/logger.hpp b/src/utils/logger.hpp
index a74c5a9..5fb0567 100644
--- a/src/utils/logger.hpp
+++ b/src/utils/logger.hpp
@@ -310,8 +310,8 @@ class Logger {
                  << "]" << GetTimeStamp_() << " : " << error_text << "\n";
     }
 #endif
-    // Close file streams in order to save error files
-    close();
+    // Flush file streams in order to save error files
+    flush();
     // Throw exception
     throw ExceptionType(error_text);
   }
@@ -354,6 +354,16 @@ class Logger {
 #endif
   }
 
+  /// Flush all open File-Streams, independent of the current output level. The
+  /// streams stay open as reopening them would discard the previous messages
+  void flush() {
+#ifdef ENABLE_LOGGING
+    if (log_file.is_open()) log_file.flush();
+    if (warning_file.is_open()) warning_file.flush();
+    if (error_file.is_open()) error_file.flush();
+#endif
+  }
+
   /// Close File-Streams to save log files
   void close() {
 #ifdef ENABLE_LOGGING
-- 
2.43.0


From d891ce7088d8cb0185354acd97f9bd2d3bbcd6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 18/24] fix: use the base type for scalars on the left of a
 point

Scalars of extended precision were rounded to double, and differentiable
scalars did not compile.
---
 src/point.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/point.hpp b/src/point.hpp
index bc98ca3..6eb1fb6 100644
--- a/src/point.hpp
+++ b/src/point.hpp
@@ -121,7 +121,7 @@ class Point : public std::array<BaseType, spatial_dimension> {
   }
 
   /// Friend injection for reversed arguments (facilitates readability)
-  friend constexpr Point operator*(const double& scale, const Point& point) {
+  friend constexpr Point operator*(const BaseType& scale, const Point& point) {
     return point * scale;
   }
 
@@ -140,7 +140,7 @@ class Point : public std::array<BaseType, spatial_dimension> {
   }
 
   /// Friend injection for reversed arguments (facilitates readability)
-  friend constexpr Point operator/(const double& scale, const Point& point) {
+  friend constexpr Point operator/(const BaseType& scale, const Point& point) {
     Point<spatial_dimension, BaseType> division{};
     for (unsigned int i = 0; i < spatial_dimension; ++i)
       division[i] = scale / point[i];
-- 
2.43.0


From d5dad6be79f94cb53689cd03b60732ef125ec7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 19/24] fix: divide points component-wise

Multiplying with the inverse of the scale is zero for integer components.
---
 src/point.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/point.hpp b/src/point.hpp
index 6eb1fb6..4268120 100644
--- a/src/point.hpp
+++ b/src/point.hpp
@@ -127,8 +127,9 @@ class Point : public std::array<BaseType, spatial_dimension> {
 
   /// Division with a scalar
   constexpr Point& operator/=(const BaseType& scale) {
-    const BaseType inv_scale{static_cast<BaseType>(1.) / scale};
-    (*this) *= inv_scale;
+    // Copy, as scale might be a component of this point
+    const BaseType divisor{scale};
+    for (unsigned int i = 0; i < spatial_dimension; ++i) (*this)[i] /= divisor;
     return (*this);
   }
 
-- 
2.43.0


From 7b9f573ec7dc744559875d1a915e21c693e89acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 20/24] fix: keep the scalar type for multiple split positions

The positions in the remaining part were rounded to double.
---
 src/bezier_spline.inc          | 2 +-
 src/rational_bezier_spline.inc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index e632edd..24eae40 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -1459,7 +1459,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
   return_value.push_back(split_spline[0]);
   for (std::size_t i_split{1}; i_split < splitting_planes.size(); i_split++) {
     // Calculate the position of the split position in the remaining spline
-    const double split_in_remaining_part =
+    const ScalarType split_in_remaining_part =
         (splitting_planes[i_split] - splitting_planes[i_split - 1]) /
         (1. - splitting_planes[i_split - 1]);
     // Split remainder
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index f01ddda..f72d8df 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -492,7 +492,7 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
   return_value.push_back(split_spline[0]);
   for (std::size_t i_split{1}; i_split < splitting_planes.size(); i_split++) {
     // Calculate the position of the split position in the remaining spline
-    const double split_in_remaining_part =
+    const ScalarType split_in_remaining_part =
         (splitting_planes[i_split] - splitting_planes[i_split - 1]) /
         (1. - splitting_planes[i_split - 1]);
     // Split remainder
-- 
2.43.0


From b3341217529fa787e77ea9de511ebf67d0c0d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 21/24] fix: subtract all control points of an elevated
 left-hand side

---
 src/bezier_spline.inc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 24eae40..a938d3c 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -685,7 +685,8 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator-(
     }
   }
   // Add control points
-  for (IndexingType i_ctps{}; i_ctps < GetNumberOfControlPoints(); i_ctps++) {
+  for (IndexingType i_ctps{}; i_ctps < return_spline.GetNumberOfControlPoints();
+       i_ctps++) {
     return_spline.control_points[i_ctps] -= rhs.control_points[i_ctps];
   }
   return return_spline;
-- 
2.43.0


From 3e7f705c7722556d3464e366091a6184abaf5c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:19 +0000
Subject: [PATCH 22/24] fix: keep the precision of the scalar type in log10
 derivatives

---
 src/utils/computational_differentiation/algo_diff_type.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index f7be942..84f180a 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -325,7 +325,7 @@ template <typename Scalar, std::size_t numberOfDerivatives>
 constexpr AlgoDiffType<Scalar, numberOfDerivatives> log10(
     const AlgoDiffType<Scalar, numberOfDerivatives>& a) {
   using namespace std;  // requ ired for intrinsic types
-  const Scalar& temp = 1.0 / (a.v_ * std::log(10.));
+  const Scalar& temp = 1.0 / (a.v_ * std::log(10.L));
   AlgoDiffType<Scalar, numberOfDerivatives> result_value{a};
   if constexpr (std::is_arithmetic_v<Scalar>) {
     // Use STD namespace function
-- 
2.43.0


From 89224cec583dbe432efceac24f8fd57c6695fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:51 +0000
Subject: [PATCH 23/24] fix: let default-constructed run-time-size values take
 part in sums

---
 .../computational_differentiation/algo_diff_type.inc   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index 84f180a..bdaa941 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -39,6 +39,10 @@ template <typename Scalar, std::size_t numberOfDerivatives>
 constexpr AlgoDiffType<Scalar, numberOfDerivatives>&
 AlgoDiffType<Scalar, numberOfDerivatives>::operator+=(
     const AlgoDiffType<Scalar, numberOfDerivatives>& b) {
+  if constexpr (numberOfDerivatives == 0) {
+    // Default constructed values (e.g. sums) adopt the number of derivatives
+    if (d_.empty()) d_.resize(b.d_.size());
+  }
   assert(b.GetNumberOfDerivatives() == GetNumberOfDerivatives());
   v_ += b.v_;
   for (IndexingType_ i{}; i < GetNumberOfDerivatives(); i++) {
@@ -78,7 +82,6 @@ template <typename Scalar, std::size_t numberOfDerivatives>
 constexpr AlgoDiffType<Scalar, numberOfDerivatives>
 AlgoDiffType<Scalar, numberOfDerivatives>::operator-(
     const AlgoDiffType<Scalar, numberOfDerivatives>& b) const {
-  assert(b.GetNumberOfDerivatives() == GetNumberOfDerivatives());
   ADT_ result_value{(*this)};
   result_value -= b;
   return result_value;
@@ -88,6 +91,11 @@ template <typename Scalar, std::size_t numberOfDerivatives>
 constexpr AlgoDiffType<Scalar, numberOfDerivatives>&
 AlgoDiffType<Scalar, numberOfDerivatives>::operator-=(
     const AlgoDiffType<Scalar, numberOfDerivatives>& b) {
+  if constexpr (numberOfDerivatives == 0) {
+    // Default constructed values (e.g. sums) adopt the number of derivatives
+    if (d_.empty()) d_.resize(b.d_.size());
+  }
+  assert(b.GetNumberOfDerivatives() == GetNumberOfDerivatives());
   v_ -= b.v_;
   for (IndexingType_ i{}; i < GetNumberOfDerivatives(); i++) {
     d_[i] -= b.d_[i];
-- 
2.43.0


From 9b8aa7bebbec0329180cff105a88640d48632a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 24/24] fix: treat a text shorter than one base64 group as
 empty

---
 src/utils/base64.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils/base64.hpp b/src/utils/base64.hpp
index b9f63aa..274ee89 100644
--- a/src/utils/base64.hpp
+++ b/src/utils/base64.hpp
@@ -206,8 +206,7 @@ class Base64_ {
     constexpr const std::size_t length_of_entry{sizeof(OutputType{})};
     // Padding characters do not represent any data
     std::size_t number_of_padding_bytes{};
-    while (number_of_padding_bytes < 2 &&
-           number_of_padding_bytes < base64string.size() &&
+    while (number_of_padding_bytes < 2 && number_of_groups > 0 &&
            base64string[base64string.size() - 1 - number_of_padding_bytes] ==
                '=') {
       number_of_padding_bytes++;
-- 
2.43.0

