From d8886feea8124578f3b60adb3acfa1067307ae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 01/49] fix: check the size of a cross product's stored
 operands, not of the moved-from arguments

---
 cml/vector/cross_node.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cml/vector/cross_node.tpp b/cml/vector/cross_node.tpp
index c5494a8..fa6601d 100644
--- a/cml/vector/cross_node.tpp
+++ b/cml/vector/cross_node.tpp
@@ -17,8 +17,8 @@ vector_cross_node<Sub1, Sub2>::vector_cross_node(Sub1 left, Sub2 right)
 : m_left(std::move(left))
 , m_right(std::move(right))
 {
-  cml::check_size(left, cml::int_c<3>());
-  cml::check_size(right, cml::int_c<3>());
+  cml::check_size(this->m_left, cml::int_c<3>());
+  cml::check_size(this->m_right, cml::int_c<3>());
   /* Note: this seems to be exception-safe since temporaries are stored by
    * value and references by reference.
    */
-- 
2.43.0


From 1da74021e0eb30b3b88dfbb2dc6d23ae9b1fdd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 02/49] fix: compound addition and subtraction reject operands
 of another size, as documented

---
 cml/matrix/writable_matrix.tpp | 4 ++--
 cml/vector/writable_vector.tpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index 078f119..e911a35 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -331,7 +331,7 @@ template<class ODT>
 DT&
 writable_matrix<DT>::operator+=(const readable_matrix<ODT>& other) &
 {
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   detail::apply<binary_plus_t<DT, ODT>>(*this, other, layout_tag());
   return this->actual();
 }
@@ -350,7 +350,7 @@ template<class ODT>
 DT&
 writable_matrix<DT>::operator-=(const readable_matrix<ODT>& other) &
 {
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   detail::apply<binary_minus_t<DT, ODT>>(*this, other, layout_tag());
   return this->actual();
 }
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index 7781a4f..b5e1031 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -309,7 +309,7 @@ DT&
 writable_vector<DT>::operator+=(const readable_vector<ODT>& other) &
 {
   using op_type = binary_plus_t<DT, ODT>;
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   for(int i = 0; i < this->size(); ++i)
     this->put(i, op_type().apply(this->get(i), other.get(i)));
   return this->actual();
@@ -330,7 +330,7 @@ DT&
 writable_vector<DT>::operator-=(const readable_vector<ODT>& other) &
 {
   using op_type = binary_minus_t<DT, ODT>;
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   for(int i = 0; i < this->size(); ++i)
     this->put(i, op_type().apply(this->get(i), other.get(i)));
   return this->actual();
-- 
2.43.0


From 0cabf12c8f3de119e973271b7205299d438090de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 03/49] fix: do not leak the array of a dynamic matrix whose
 constructor rejects the element count

---
 cml/matrix/dynamic_allocated.h   | 5 +----
 cml/matrix/dynamic_allocated.tpp | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/cml/matrix/dynamic_allocated.h b/cml/matrix/dynamic_allocated.h
index 931a95d..c2a5d03 100644
--- a/cml/matrix/dynamic_allocated.h
+++ b/cml/matrix/dynamic_allocated.h
@@ -155,11 +155,8 @@ class matrix<Element, dynamic<Allocator>, BasisOrient, Layout>
   matrix(RowsT rows, ColsT cols, const E0& e0, const Elements&... eN)
   // XXX Should be in matrix/dynamic_allocated.tpp, but VC++12 has
   // brain-dead out-of-line template argument matching...
-  : m_data(0)
-  , m_rows(0)
-  , m_cols(0)
+  : matrix(int(rows), int(cols))
   {
-    this->resize_fast(rows, cols);
     this->assign_elements(e0, eN...);
   }
 
diff --git a/cml/matrix/dynamic_allocated.tpp b/cml/matrix/dynamic_allocated.tpp
index ac3a5fb..e943993 100644
--- a/cml/matrix/dynamic_allocated.tpp
+++ b/cml/matrix/dynamic_allocated.tpp
@@ -61,11 +61,8 @@ matrix<E, dynamic<A>, BO, L>::matrix(const readable_matrix<Sub>& sub)
 template<class E, class A, typename BO, typename L>
 template<class Array, enable_if_array_t<Array>*>
 matrix<E, dynamic<A>, BO, L>::matrix(int rows, int cols, const Array& array)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix(rows, cols)
 {
-  this->resize_fast(rows, cols);
   this->assign(array);
 }
 
-- 
2.43.0


From c6a478d2254dcef94bb3de223e110cfad11c9651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 04/49] fix: products over an empty inner dimension are 0
 instead of reading absent elements

---
 cml/matrix/matrix_product.tpp |  7 +++++++
 cml/matrix/vector_product.tpp | 14 ++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/cml/matrix/matrix_product.tpp b/cml/matrix/matrix_product.tpp
index 959737b..843dc46 100644
--- a/cml/matrix/matrix_product.tpp
+++ b/cml/matrix/matrix_product.tpp
@@ -25,6 +25,13 @@ operator*(Sub1&& sub1, Sub2&& sub2)
 
   result_type M;
   detail::resize(M, array_rows_of(sub1), array_cols_of(sub2));
+
+  /* The sum over an empty inner dimension is 0: */
+  if(sub1.cols() == 0) {
+    M.zero();
+    return M;
+  }
+
   for(int i = 0; i < M.rows(); ++i) {
     for(int j = 0; j < M.cols(); ++j) {
       auto m = sub1(i, 0) * sub2(0, j);
diff --git a/cml/matrix/vector_product.tpp b/cml/matrix/vector_product.tpp
index e62e96f..699316d 100644
--- a/cml/matrix/vector_product.tpp
+++ b/cml/matrix/vector_product.tpp
@@ -26,6 +26,13 @@ operator*(Sub1&& sub1, Sub2&& sub2)
 
   result_type v;
   detail::resize(v, array_rows_of(sub1));
+
+  /* The sum over an empty inner dimension is 0: */
+  if(sub2.size() == 0) {
+    v.zero();
+    return v;
+  }
+
   for(int i = 0; i < sub1.rows(); ++i) {
     auto m = sub1(i, 0) * sub2[0];
     for(int k = 1; k < sub2.size(); ++k) m += sub1(i, k) * sub2[k];
@@ -49,6 +56,13 @@ operator*(Sub1&& sub1, Sub2&& sub2)
 
   result_type v;
   detail::resize(v, array_cols_of(sub2));
+
+  /* The sum over an empty inner dimension is 0: */
+  if(sub1.size() == 0) {
+    v.zero();
+    return v;
+  }
+
   for(int j = 0; j < sub2.cols(); ++j) {
     auto m = sub1[0] * sub2(0, j);
     for(int k = 1; k < sub1.size(); ++k) m += sub1[k] * sub2(k, j);
-- 
2.43.0


From bbdce398867e79fd05ccee6458cc1c051d9dd156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:33 +0000
Subject: [PATCH 05/49] fix: the determinant and trace of an empty matrix are 1
 and 0 instead of reading absent elements

---
 cml/matrix/detail/determinant.tpp | 4 ++--
 cml/matrix/readable_matrix.tpp    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cml/matrix/detail/determinant.tpp b/cml/matrix/detail/determinant.tpp
index 51e6bcc..8ae33ed 100644
--- a/cml/matrix/detail/determinant.tpp
+++ b/cml/matrix/detail/determinant.tpp
@@ -17,8 +17,8 @@ template<class Matrix>
 inline auto
 diagonal_product(const Matrix& A) -> value_type_of_t<Matrix>
 {
-  auto D = A(0, 0);
-  for(int i = 1; i < A.rows(); ++i) D *= A(i, i);
+  value_type_of_t<Matrix> D(1);
+  for(int i = 0; i < A.rows(); ++i) D *= A(i, i);
   return D;
 }
 
diff --git a/cml/matrix/readable_matrix.tpp b/cml/matrix/readable_matrix.tpp
index a9aa7a2..a8a5e58 100644
--- a/cml/matrix/readable_matrix.tpp
+++ b/cml/matrix/readable_matrix.tpp
@@ -89,8 +89,8 @@ auto
 readable_matrix<DT>::trace() const -> value_type
 {
   cml::check_square(*this);
-  auto result = this->get(0, 0);
-  for(int i = 1; i < this->rows(); ++i) result += this->get(i, i);
+  value_type result(0);
+  for(int i = 0; i < this->rows(); ++i) result += this->get(i, i);
   return result;
 }
 
-- 
2.43.0


From fee60af811f67d1d3a31c84bf72e6e5de18f63b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 06/49] fix: declare matrix_skew_symmetric_2D under the name it
 is defined with, so that matrix_skew_symmetric(m, v) links

---
 cml/mathlib/matrix/misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/mathlib/matrix/misc.h b/cml/mathlib/matrix/misc.h
index 1350533..da46f82 100644
--- a/cml/mathlib/matrix/misc.h
+++ b/cml/mathlib/matrix/misc.h
@@ -56,7 +56,7 @@ void matrix_skew_symmetric(writable_matrix<Sub1>& m,
  * run-time.
  */
 template<class Sub1, class Scalar>
-void matrix_skew_symmetric(writable_matrix<Sub1>& m, const Scalar& s);
+void matrix_skew_symmetric_2D(writable_matrix<Sub1>& m, const Scalar& s);
 
 
 /** Invert a 3D matrix composed of a rotation and translation.
-- 
2.43.0


From d38f5e843a01f604ab19f63d935688ae5eb735b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 07/49] fix: matrix builders check every size before they
 write, so that a size error leaves the matrix unchanged

---
 cml/mathlib/matrix/basis.tpp       | 18 ++++++++++++++++++
 cml/mathlib/matrix/rotation.tpp    |  8 +++++---
 cml/mathlib/matrix/transform.tpp   |  8 +++++---
 cml/mathlib/matrix/translation.tpp |  7 +++++++
 4 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/cml/mathlib/matrix/basis.tpp b/cml/mathlib/matrix/basis.tpp
index 48b8aa1..2ee7ac8 100644
--- a/cml/mathlib/matrix/basis.tpp
+++ b/cml/mathlib/matrix/basis.tpp
@@ -48,6 +48,10 @@ inline void
 matrix_set_basis_vectors_2D(writable_matrix<Sub1>& m,
   const readable_vector<SubX>& x, const readable_vector<SubY>& y)
 {
+  cml::check_linear_2D(m);
+  cml::check_size(x, int_c<2>());
+  cml::check_size(y, int_c<2>());
+
   matrix_set_x_basis_vector_2D(m, x);
   matrix_set_y_basis_vector_2D(m, y);
 }
@@ -86,6 +90,10 @@ inline void
 matrix_set_transposed_basis_vectors_2D(writable_matrix<Sub1>& m,
   const readable_vector<SubX>& x, const readable_vector<SubY>& y)
 {
+  cml::check_linear_2D(m);
+  cml::check_size(x, int_c<2>());
+  cml::check_size(y, int_c<2>());
+
   matrix_set_transposed_x_basis_vector_2D(m, x);
   matrix_set_transposed_y_basis_vector_2D(m, y);
 }
@@ -208,6 +216,11 @@ matrix_set_basis_vectors(writable_matrix<Sub1>& m,
   const readable_vector<SubX>& x, const readable_vector<SubY>& y,
   const readable_vector<SubZ>& z)
 {
+  cml::check_linear_3D(m);
+  cml::check_size(x, int_c<3>());
+  cml::check_size(y, int_c<3>());
+  cml::check_size(z, int_c<3>());
+
   matrix_set_x_basis_vector(m, x);
   matrix_set_y_basis_vector(m, y);
   matrix_set_z_basis_vector(m, z);
@@ -257,6 +270,11 @@ matrix_set_transposed_basis_vectors(writable_matrix<Sub1>& m,
   const readable_vector<SubX>& x, const readable_vector<SubY>& y,
   const readable_vector<SubZ>& z)
 {
+  cml::check_linear_3D(m);
+  cml::check_size(x, int_c<3>());
+  cml::check_size(y, int_c<3>());
+  cml::check_size(z, int_c<3>());
+
   matrix_set_transposed_x_basis_vector(m, x);
   matrix_set_transposed_y_basis_vector(m, y);
   matrix_set_transposed_z_basis_vector(m, z);
diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index 5e83395..cbff3a7 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -58,10 +58,10 @@ matrix_rotation_align_2D(writable_matrix<Sub>& m,
 
   cml::check_linear_2D(m);
 
-  m.identity();
-
   vector<value_type, compiled<2>> x, y;
   orthonormal_basis_2D(align, x, y, normalize, order);
+
+  m.identity();
   matrix_set_basis_vectors_2D(m, x, y);
 }
 
@@ -388,10 +388,12 @@ matrix_rotation_align(writable_matrix<Sub>& m,
 
   using value_type = value_type_trait_of_t<Sub>;
 
-  m.identity();
+  cml::check_linear_3D(m);
 
   vector<value_type, compiled<3>> x, y, z;
   orthonormal_basis(align, reference, x, y, z, normalize, order);
+
+  m.identity();
   matrix_set_basis_vectors(m, x, y, z);
 }
 
diff --git a/cml/mathlib/matrix/transform.tpp b/cml/mathlib/matrix/transform.tpp
index 6af62c2..ea066a0 100644
--- a/cml/mathlib/matrix/transform.tpp
+++ b/cml/mathlib/matrix/transform.tpp
@@ -29,14 +29,14 @@ matrix_look_at(writable_matrix<Sub>& m, const readable_vector<SubEye>& position,
 
   cml::check_affine_3D(m);
 
-  /* Initialize: */
-  m.identity();
-
   auto s = value_type(handedness == left_handed ? 1 : -1);
   auto z = s * (target - position).normalize();
   auto x = cross(up, z).normalize();
   auto y = cross(z, x);
 
+  /* Initialize (the sizes are checked by now): */
+  m.identity();
+
   matrix_set_transposed_basis_vectors(m, x, y, z);
   matrix_set_translation(m, -dot(position, x), -dot(position, y),
     -dot(position, z));
@@ -90,6 +90,7 @@ matrix_affine_transform(writable_matrix<Sub>& m,
   const readable_vector<TSub>& translation, bool normalize)
 {
   cml::check_affine_3D(m);
+  cml::check_size_range(translation, int_c<2>(), int_c<3>());
   if(normalize) {
     cml::matrix_rotation_axis_angle(m, cml::normalize(axis), angle);
   } else {
@@ -104,6 +105,7 @@ matrix_affine_transform(writable_matrix<Sub>& m,
   const readable_matrix<LSub>& linear, const readable_vector<TSub>& translation)
 {
   cml::check_affine_3D(m);
+  cml::check_size_range(translation, int_c<2>(), int_c<3>());
   cml::matrix_linear_transform(m, linear);
   cml::matrix_set_translation(m, translation);
 }
diff --git a/cml/mathlib/matrix/translation.tpp b/cml/mathlib/matrix/translation.tpp
index c0a6dad..7ec51e5 100644
--- a/cml/mathlib/matrix/translation.tpp
+++ b/cml/mathlib/matrix/translation.tpp
@@ -96,6 +96,7 @@ template<class Sub, class E0, class E1>
 inline void
 matrix_translation_2D(writable_matrix<Sub>& m, const E0& e0, const E1& e1)
 {
+  cml::check_affine_2D(m);
   m.identity();
   matrix_set_translation_2D(m, e0, e1);
 }
@@ -104,6 +105,8 @@ template<class Sub1, class Sub2>
 inline void
 matrix_translation_2D(writable_matrix<Sub1>& m, const readable_vector<Sub2>& v)
 {
+  cml::check_size(v, int_c<2>());
+  cml::check_affine_2D(m);
   m.identity();
   matrix_set_translation_2D(m, v);
 }
@@ -172,6 +175,7 @@ inline void
 matrix_translation(writable_matrix<Sub>& m, const E0& e0, const E1& e1,
   const E2& e2)
 {
+  cml::check_affine_3D(m);
   m.identity();
   matrix_set_translation(m, e0, e1, e2);
 }
@@ -180,6 +184,8 @@ template<class Sub1, class Sub2>
 inline void
 matrix_translation(writable_matrix<Sub1>& m, const readable_vector<Sub2>& v)
 {
+  cml::check_size_range(v, int_c<2>(), int_c<3>());
+  cml::check_affine_3D(m);
   m.identity();
   matrix_set_translation(m, v);
 }
@@ -188,6 +194,7 @@ template<class Sub, class E0, class E1>
 inline void
 matrix_translation(writable_matrix<Sub>& m, const E0& e0, const E1& e1)
 {
+  cml::check_affine_3D(m);
   m.identity();
   matrix_set_translation(m, e0, e1);
 }
-- 
2.43.0


From a7382e2322ddf24f65ce3c7fa6d41af490f14750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 08/49] fix: multi-vector getters check every output size
 before they write any

---
 cml/mathlib/matrix/basis.tpp       | 19 +++++++++++++++++++
 cml/mathlib/quaternion/basis.tpp   |  4 ++++
 cml/mathlib/vector/orthonormal.tpp |  6 ++++++
 3 files changed, 29 insertions(+)

diff --git a/cml/mathlib/matrix/basis.tpp b/cml/mathlib/matrix/basis.tpp
index 2ee7ac8..545550b 100644
--- a/cml/mathlib/matrix/basis.tpp
+++ b/cml/mathlib/matrix/basis.tpp
@@ -6,6 +6,7 @@
 #  error "mathlib/matrix/basis.tpp not included correctly"
 #endif
 
+#include <cml/vector/detail/check_or_resize.h>
 #include <cml/matrix/row_col.h>
 #include <cml/matrix/writable_matrix.h>
 #include <cml/mathlib/matrix/size_checking.h>
@@ -130,6 +131,10 @@ inline void
 matrix_get_basis_vectors_2D(const readable_matrix<Sub>& m,
   writable_vector<SubX>& x, writable_vector<SubY>& y)
 {
+  cml::check_linear_2D(m);
+  detail::check_or_resize(x, int_c<2>());
+  detail::check_or_resize(y, int_c<2>());
+
   x = matrix_get_x_basis_vector_2D(m);
   y = matrix_get_y_basis_vector_2D(m);
 }
@@ -166,6 +171,10 @@ inline void
 matrix_get_transposed_basis_vectors_2D(const readable_matrix<Sub>& m,
   writable_vector<SubX>& x, writable_vector<SubY>& y)
 {
+  cml::check_linear_2D(m);
+  detail::check_or_resize(x, int_c<2>());
+  detail::check_or_resize(y, int_c<2>());
+
   x = matrix_get_transposed_x_basis_vector_2D(m);
   y = matrix_get_transposed_y_basis_vector_2D(m);
 }
@@ -320,6 +329,11 @@ inline void
 matrix_get_basis_vectors(const readable_matrix<Sub>& m,
   writable_vector<SubX>& x, writable_vector<SubY>& y, writable_vector<SubZ>& z)
 {
+  cml::check_linear_3D(m);
+  detail::check_or_resize(x, int_c<3>());
+  detail::check_or_resize(y, int_c<3>());
+  detail::check_or_resize(z, int_c<3>());
+
   x = matrix_get_x_basis_vector(m);
   y = matrix_get_y_basis_vector(m);
   z = matrix_get_z_basis_vector(m);
@@ -365,6 +379,11 @@ inline void
 matrix_get_transposed_basis_vectors(const readable_matrix<Sub>& m,
   writable_vector<SubX>& x, writable_vector<SubY>& y, writable_vector<SubZ>& z)
 {
+  cml::check_linear_3D(m);
+  detail::check_or_resize(x, int_c<3>());
+  detail::check_or_resize(y, int_c<3>());
+  detail::check_or_resize(z, int_c<3>());
+
   x = matrix_get_transposed_x_basis_vector(m);
   y = matrix_get_transposed_y_basis_vector(m);
   z = matrix_get_transposed_z_basis_vector(m);
diff --git a/cml/mathlib/quaternion/basis.tpp b/cml/mathlib/quaternion/basis.tpp
index dec54b6..1f8f0ed 100644
--- a/cml/mathlib/quaternion/basis.tpp
+++ b/cml/mathlib/quaternion/basis.tpp
@@ -7,6 +7,7 @@
 #endif
 
 #include <cml/scalar/functions.h>
+#include <cml/vector/detail/check_or_resize.h>
 
 namespace cml {
 
@@ -69,6 +70,9 @@ void
 quaternion_get_basis_vectors(const readable_quaternion<Sub>& q, XBasis& x,
   YBasis& y, ZBasis& z)
 {
+  detail::check_or_resize(x, int_c<3>());
+  detail::check_or_resize(y, int_c<3>());
+  detail::check_or_resize(z, int_c<3>());
   x = quaternion_get_x_basis_vector(q);
   y = quaternion_get_y_basis_vector(q);
   z = quaternion_get_z_basis_vector(q);
diff --git a/cml/mathlib/vector/orthonormal.tpp b/cml/mathlib/vector/orthonormal.tpp
index abc0670..ab6dbb0 100644
--- a/cml/mathlib/vector/orthonormal.tpp
+++ b/cml/mathlib/vector/orthonormal.tpp
@@ -8,6 +8,7 @@
 
 #include <cml/common/mpl/are_convertible.h>
 #include <cml/vector/cross.h>
+#include <cml/vector/detail/check_or_resize.h>
 #include <cml/vector/fixed_compiled.h>
 #include <cml/mathlib/vector/misc.h>
 
@@ -41,6 +42,8 @@ orthonormal_basis_2D(const readable_vector<Sub>& align,
 
   if(odd) axes[j] = -axes[j];
 
+  detail::check_or_resize(x, int_c<2>());
+  detail::check_or_resize(y, int_c<2>());
   x = axes[0];
   y = axes[1];
 }
@@ -73,6 +76,9 @@ orthonormal_basis(const readable_vector<Sub1>& align,
 
   if(odd) axes[k] = -axes[k];
 
+  detail::check_or_resize(x, int_c<3>());
+  detail::check_or_resize(y, int_c<3>());
+  detail::check_or_resize(z, int_c<3>());
   x = axes[0];
   y = axes[1];
   z = axes[2];
-- 
2.43.0


From 3b3079c4dbc863d624a0fe037e5402027a1e8bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 09/49] fix: quaternion products of operands of different types
 compile

---
 cml/quaternion/product.tpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cml/quaternion/product.tpp b/cml/quaternion/product.tpp
index b7a5c75..b2ab980 100644
--- a/cml/quaternion/product.tpp
+++ b/cml/quaternion/product.tpp
@@ -42,9 +42,12 @@ operator*(Sub1&& sub1,
    * {+/-} is determined by cross_type:
    */
   auto real = sub1[W] * sub2[W] - cml::dot(sub1.imaginary(), sub2.imaginary());
-  auto cross = std::is_same<cross_type, positive_cross>::value
-    ? cml::cross(sub1.imaginary(), sub2.imaginary())
-    : cml::cross(sub2.imaginary(), sub1.imaginary());
+  auto cross = [&] {
+    if constexpr(std::is_same<cross_type, positive_cross>::value)
+      return cml::cross(sub1.imaginary(), sub2.imaginary());
+    else
+      return cml::cross(sub2.imaginary(), sub1.imaginary());
+  }();
   auto imaginary =
     sub1[W] * sub2.imaginary() + sub2[W] * sub1.imaginary() + cross;
 
-- 
2.43.0


From c339237d665ef668b464d35c7fb2dd799ef269a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 10/49] fix: assign, add and subtract quaternions by
 coefficient name, so that orders may differ

---
 cml/quaternion/writable_quaternion.tpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index 05cf0a5..65bb1f0 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -329,8 +329,11 @@ DT&
 writable_quaternion<DT>::operator+=(const readable_quaternion<ODT>& other) &
 {
   using op_type = binary_plus_t<DT, ODT>;
-  for(int i = 0; i < 4; ++i)
-    this->put(i, op_type().apply(this->get(i), other.get(i)));
+  /* Combine by name: other may have a different coefficient order. */
+  this->put(W, op_type().apply(this->w(), other.w()));
+  this->put(X, op_type().apply(this->x(), other.x()));
+  this->put(Y, op_type().apply(this->y(), other.y()));
+  this->put(Z, op_type().apply(this->z(), other.z()));
   return this->actual();
 }
 
@@ -349,8 +352,11 @@ DT&
 writable_quaternion<DT>::operator-=(const readable_quaternion<ODT>& other) &
 {
   using op_type = binary_minus_t<DT, ODT>;
-  for(int i = 0; i < 4; ++i)
-    this->put(i, op_type().apply(this->get(i), other.get(i)));
+  /* Combine by name: other may have a different coefficient order. */
+  this->put(W, op_type().apply(this->w(), other.w()));
+  this->put(X, op_type().apply(this->x(), other.x()));
+  this->put(Y, op_type().apply(this->y(), other.y()));
+  this->put(Z, op_type().apply(this->z(), other.z()));
   return this->actual();
 }
 
@@ -434,10 +440,11 @@ template<class ODT>
 DT&
 writable_quaternion<DT>::assign(const readable_quaternion<ODT>& other)
 {
-  this->put(W, other.get(W));
-  this->put(X, other.get(X));
-  this->put(Y, other.get(Y));
-  this->put(Z, other.get(Z));
+  /* Assign by name: other may have a different coefficient order. */
+  this->put(W, other.w());
+  this->put(X, other.x());
+  this->put(Y, other.y());
+  this->put(Z, other.z());
   return this->actual();
 }
 
-- 
2.43.0


From 8730069d6f7ef5e3b1d00f0e8e7c5805450cdb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 11/49] fix: assigning a list or nested array to a temporary
 compiles and returns the temporary

---
 cml/matrix/writable_matrix.h           | 2 +-
 cml/matrix/writable_matrix.tpp         | 5 +++--
 cml/quaternion/writable_quaternion.tpp | 3 ++-
 cml/vector/writable_vector.tpp         | 3 ++-
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/cml/matrix/writable_matrix.h b/cml/matrix/writable_matrix.h
index 631dc77..b674066 100644
--- a/cml/matrix/writable_matrix.h
+++ b/cml/matrix/writable_matrix.h
@@ -225,7 +225,7 @@ class writable_matrix : public readable_matrix<DerivedT>
    * are fixed-size, then the size is checked at compile time.
    */
   template<class Other, int Rows, int Cols>
-  DerivedT& operator=(Other const (&array)[Rows][Cols]) &&;
+  DerivedT&& operator=(Other const (&array)[Rows][Cols]) &&;
 
   /** Assign from initializer list.
    *
diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index e911a35..d78e402 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -303,7 +303,7 @@ writable_matrix<DT>::operator=(Other const (&array)[Rows][Cols]) &
 
 template<class DT>
 template<class Other, int Rows, int Cols>
-DT&
+DT&&
 writable_matrix<DT>::operator=(Other const (&array)[Rows][Cols]) &&
 {
   this->operator=(array);
@@ -323,7 +323,8 @@ template<class Other>
 DT&&
 writable_matrix<DT>::operator=(std::initializer_list<Other> l) &&
 {
-  return this->assign(l);
+  this->operator=(l);
+  return (DT&&) *this;
 }
 
 template<class DT>
diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index 65bb1f0..a7b8482 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -320,7 +320,8 @@ template<class Other>
 DT&&
 writable_quaternion<DT>::operator=(std::initializer_list<Other> l) &&
 {
-  return this->assign(l);
+  this->operator=(l);
+  return (DT&&) *this;
 }
 
 template<class DT>
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index b5e1031..10ee7b0 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -300,7 +300,8 @@ template<class Other>
 DT&&
 writable_vector<DT>::operator=(std::initializer_list<Other> l) &&
 {
-  return this->assign(l);
+  this->operator=(l);
+  return (DT&&) *this;
 }
 
 template<class DT>
-- 
2.43.0


From bf04f81678012b122a70c07d1d0eae1ebd1e978f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 12/49] fix: scaling or filling an object by a reference to one
 of its own elements uses the original value

---
 cml/matrix/writable_matrix.tpp         | 9 ++++++---
 cml/quaternion/writable_quaternion.tpp | 6 ++++--
 cml/vector/writable_vector.tpp         | 9 ++++++---
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index d78e402..fd13a87 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -211,8 +211,9 @@ template<class DT>
 DT&
 writable_matrix<DT>::fill(const_reference v) &
 {
+  const value_type s = v;  // v may refer to an element of this matrix.
   detail::generate(
-    *this, [&v](int, int) { return v; }, layout_tag());
+    *this, [&s](int, int) { return s; }, layout_tag());
   return this->actual();
 }
 
@@ -373,7 +374,8 @@ template<class ScalarT,
 DT&
 writable_matrix<DT>::operator*=(const ScalarT& v) &
 {
-  detail::apply<binary_multiply_t<DT, ScalarT>>(*this, v, layout_tag());
+  const ScalarT s = v;  // v may refer to an element of this matrix.
+  detail::apply<binary_multiply_t<DT, ScalarT>>(*this, s, layout_tag());
   return this->actual();
 }
 
@@ -395,7 +397,8 @@ template<class ScalarT,
 DT&
 writable_matrix<DT>::operator/=(const ScalarT& v) &
 {
-  detail::apply<binary_divide_t<DT, ScalarT>>(*this, v, layout_tag());
+  const ScalarT s = v;  // v may refer to an element of this matrix.
+  detail::apply<binary_divide_t<DT, ScalarT>>(*this, s, layout_tag());
   return this->actual();
 }
 
diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index a7b8482..09d8550 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -396,7 +396,8 @@ DT&
 writable_quaternion<DT>::operator*=(const ScalarT& v) &
 {
   using op_type = binary_multiply_t<DT, ScalarT>;
-  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), v));
+  const ScalarT s = v;  // v may refer to a coefficient of this quaternion.
+  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
@@ -419,7 +420,8 @@ DT&
 writable_quaternion<DT>::operator/=(const ScalarT& v) &
 {
   using op_type = binary_divide_t<DT, ScalarT>;
-  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), v));
+  const ScalarT s = v;  // v may refer to a coefficient of this quaternion.
+  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index 10ee7b0..0b7576b 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -215,7 +215,8 @@ template<class DT>
 DT&
 writable_vector<DT>::fill(const_reference v) &
 {
-  for(int i = 0; i < this->size(); ++i) this->put(i, v);
+  const value_type s = v;  // v may refer to an element of this vector.
+  for(int i = 0; i < this->size(); ++i) this->put(i, s);
   return this->actual();
 }
 
@@ -353,8 +354,9 @@ DT&
 writable_vector<DT>::operator*=(const ScalarT& v) &
 {
   using op_type = binary_multiply_t<DT, ScalarT>;
+  const ScalarT s = v;  // v may refer to an element of this vector.
   for(int i = 0; i < this->size(); ++i)
-    this->put(i, op_type().apply(this->get(i), v));
+    this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
@@ -375,8 +377,9 @@ DT&
 writable_vector<DT>::operator/=(const ScalarT& v) &
 {
   using op_type = binary_divide_t<DT, ScalarT>;
+  const ScalarT s = v;  // v may refer to an element of this vector.
   for(int i = 0; i < this->size(); ++i)
-    this->put(i, op_type().apply(this->get(i), v));
+    this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
-- 
2.43.0


From 16d8feea93f6f13be1d5eec66c381ca90d9494e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 13/49] fix: vector set() with references to the vector's own
 elements uses their original values

---
 cml/vector/writable_vector.tpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index 0b7576b..19a615d 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -455,8 +455,11 @@ DT&
 writable_vector<DT>::assign_elements(const Es&... eN)
 {
   static const int N = int(sizeof...(eN));
+
+  /* Copy first, since eN may refer to elements of this vector: */
+  const value_type elements[] = {value_type(eN)...};
   detail::check_or_resize(*this, int_c<N>());
-  detail::assign_elements(*this, int_c<0>(), eN...);
+  for(int i = 0; i < N; ++i) this->put(i, elements[i]);
   return this->actual();
 }
 
-- 
2.43.0


From 2580d6a537dc2f7c3257520b740a70f998022bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 14/49] fix: assigning a dynamic vector a shorter expression of
 itself reads its elements before they are released

---
 cml/vector/detail/check_or_resize.h | 17 +++++++++++++++++
 cml/vector/writable_vector.tpp      | 10 ++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/cml/vector/detail/check_or_resize.h b/cml/vector/detail/check_or_resize.h
index 216b711..f0404cb 100644
--- a/cml/vector/detail/check_or_resize.h
+++ b/cml/vector/detail/check_or_resize.h
@@ -10,6 +10,23 @@
 
 namespace cml::detail {
 
+/* Return false for a read-only or non-resizable vector. */
+template<class Sub>
+constexpr bool
+is_resizable(const readable_vector<Sub>&)
+{
+  return false;
+}
+
+/* Return true for a resizable vector. */
+template<class Sub>
+constexpr auto
+is_resizable(writable_vector<Sub>& sub)
+  -> decltype(sub.actual().resize(0), bool())
+{
+  return true;
+}
+
 /* check_or_resize for a read-only vector, left, that just forwards to
  * check_same_size.
  */
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index 19a615d..c716df1 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -400,8 +400,14 @@ template<class ODT>
 DT&
 writable_vector<DT>::assign(const readable_vector<ODT>& other)
 {
-  detail::check_or_resize(*this, other);
-  for(int i = 0; i < this->size(); ++i) this->put(i, other.get(i));
+  /* Do not shrink this vector until other has been read, since other may
+   * refer to elements of this vector (e.g. v = v.subvector(i)):
+   */
+  const int n = other.size();
+  if(!detail::is_resizable(*this) || n > this->size())
+    detail::check_or_resize(*this, other);
+  for(int i = 0; i < n; ++i) this->put(i, other.get(i));
+  if(n < this->size()) detail::check_or_resize(*this, n);
   return this->actual();
 }
 
-- 
2.43.0


From aaa8e4689b656e47435ace0a8d2d67438a978458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 15/49] fix: vectors and matrices that differ in a NaN element
 do not compare equal

---
 cml/matrix/comparison.tpp | 5 +----
 cml/vector/comparison.tpp | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/cml/matrix/comparison.tpp b/cml/matrix/comparison.tpp
index 97c4f7c..ed8808a 100644
--- a/cml/matrix/comparison.tpp
+++ b/cml/matrix/comparison.tpp
@@ -19,10 +19,7 @@ operator==(const readable_matrix<Sub1>& left,
   if(left.size() != right.size()) return false;
   for(int i = 0; i < left.rows(); i++) {
     for(int j = 0; j < left.cols(); j++) {
-      /**/ if(left(i, j) < right(i, j))
-        return false;                                  // Strictly less.
-      else if(right(i, j) < left(i, j)) return false;  // Strictly greater.
-      else continue;                                   // Possibly equal.
+      if(!(left(i, j) == right(i, j))) return false;  // Not equal.
     }
   }
   return true;
diff --git a/cml/vector/comparison.tpp b/cml/vector/comparison.tpp
index 1a0e16e..39afdd6 100644
--- a/cml/vector/comparison.tpp
+++ b/cml/vector/comparison.tpp
@@ -50,10 +50,7 @@ operator==(const readable_vector<Sub1>& left,
   /* Possibly equal only if the same length: */
   if(left.size() != right.size()) return false;
   for(int i = 0; i < left.size(); i++) {
-    /**/ if(left[i] < right[i])
-      return false;                            // Strictly less.
-    else if(right[i] < left[i]) return false;  // Strictly greater.
-    else continue;                             // Possibly equal.
+    if(!(left[i] == right[i])) return false;  // Not equal.
   }
   return true;
 }
-- 
2.43.0


From 6ecfa1f0cb6e8e99189149c44eb8d107a416e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 16/49] fix: printing an empty vector does not read an absent
 element

---
 cml/util/vector_print.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/util/vector_print.tpp b/cml/util/vector_print.tpp
index 90cea17..fc0647b 100644
--- a/cml/util/vector_print.tpp
+++ b/cml/util/vector_print.tpp
@@ -15,7 +15,7 @@ template<class DT>
 inline std::ostream&
 operator<<(std::ostream& os, const readable_vector<DT>& v)
 {
-  os << v[0];
+  if(v.size() > 0) os << v[0];
   for(int i = 1; i < v.size(); ++i) os << " " << v[i];
   return os;
 }
-- 
2.43.0


From de62ea8aa25f6e1a2a71476a5ee732b8563eb2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 17/49] fix: the basis vectors of a fixed column-basis matrix
 have as many elements as it has rows

---
 cml/matrix/basis_node.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/basis_node.h b/cml/matrix/basis_node.h
index 1016f4c..82c3367 100644
--- a/cml/matrix/basis_node.h
+++ b/cml/matrix/basis_node.h
@@ -23,8 +23,13 @@ template<class Sub, int I> struct vector_traits<matrix_basis_node<Sub, I>>
   using value_type = typename sub_traits::value_type;
   using immutable_value = typename sub_traits::immutable_value;
 
-  /* Propagate the column count from the subexpression: */
-  static const int array_size = sub_traits::array_cols;
+  /* Propagate the row or column count from the subexpression, according to
+   * the direction of the basis vectors:
+   */
+  using basis_tag = typename sub_traits::basis_tag;
+  static const int array_size = std::is_same<basis_tag, col_basis>::value
+    ? sub_traits::array_rows
+    : sub_traits::array_cols;
 
   /* Deduce the vector storage type: */
   using sub_storage_type = typename sub_traits::storage_type;
-- 
2.43.0


From a681a279cdb259e59c28bd1fb8b84df03ba757c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 18/49] fix: the transpose of a fixed non-square matrix has
 transposed storage dimensions

---
 cml/matrix/transpose_node.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/transpose_node.h b/cml/matrix/transpose_node.h
index 3ea2351..ebe4083 100644
--- a/cml/matrix/transpose_node.h
+++ b/cml/matrix/transpose_node.h
@@ -5,6 +5,7 @@
 #pragma once
 
 #include <cml/scalar/traits.h>
+#include <cml/storage/type_util.h>
 #include <cml/matrix/readable_matrix.h>
 
 namespace cml {
@@ -21,8 +22,6 @@ template<class Sub> struct matrix_traits<matrix_transpose_node<Sub>>
   using element_traits = typename sub_traits::element_traits;
   using value_type = typename sub_traits::value_type;
   using immutable_value = typename sub_traits::immutable_value;
-  using storage_type = typename sub_traits::storage_type;
-  using size_tag = typename sub_traits::size_tag;
   using basis_tag = typename sub_traits::basis_tag;
   using layout_tag = typename sub_traits::layout_tag;
 
@@ -38,6 +37,14 @@ template<class Sub> struct matrix_traits<matrix_transpose_node<Sub>>
   /* Propagate the columns from the subexpression: */
   static const int array_cols = sub_traits::array_rows;
 
+  /* Transpose the dimensions of the subexpression storage: */
+  using sub_storage_type = typename sub_traits::storage_type;
+  using sub_unbound_type = typename sub_storage_type::unbound_type;
+  using reshaped_type =
+    reshape_storage_t<sub_unbound_type, array_rows, array_cols>;
+  using storage_type = rebind_matrix_storage_t<reshaped_type>;
+  using size_tag = typename storage_type::size_tag;
+
   /** Constant containing the matrix basis enumeration value. */
   static const basis_kind matrix_basis = basis_tag::value;
 
-- 
2.43.0


From 1f37dba65c7373bce8e5bac3b0d3e4de0d8af610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:08 +0000
Subject: [PATCH 19/49] fix: outer product of a fixed- and a dynamic-size
 vector is a dynamic-size matrix

---
 cml/matrix/promotion.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/cml/matrix/promotion.h b/cml/matrix/promotion.h
index 271f7e3..dc22d9c 100644
--- a/cml/matrix/promotion.h
+++ b/cml/matrix/promotion.h
@@ -192,20 +192,29 @@ struct matrix_outer_product_storage_promote
     is_vector_storage<Storage1>::value && is_vector_storage<Storage2>::value,
     "expected vector storage types for outer product promotion");
 
-  /* Deduce the left matrix storage type from the vector storage: */
+  /* The result is fixed-size only if both vectors are: */
   static const int left_size = Storage1::array_size;
+  static const int right_size = Storage2::array_size;
+  static const bool is_fixed = left_size > 0 && right_size > 0;
+
+  /* Deduce the left matrix storage type from the vector storage: */
   using left_unbound_type = reshape_storage_t<typename Storage1::unbound_type, left_size, -1>;
   using left_storage_type = rebind_matrix_storage_t<left_unbound_type>;
 
   /* Deduce the right matrix storage type from the vector storage: */
-  static const int right_size = Storage2::array_size;
   using right_unbound_type = reshape_storage_t<typename Storage2::unbound_type, -1, right_size>;
   using right_storage_type = rebind_matrix_storage_t<right_unbound_type>;
 
-  /* Determine the common storage type, based on the storage types of its
-   * subexpressions:
+  /* Determine the common unbound storage type, preferring a dynamic-size
+   * type unless the result is fixed-size:
    */
-  using type = matrix_binary_storage_promote_t<left_storage_type, right_storage_type>;
+  using unbound_type =
+    storage_promote_t<left_storage_type, right_storage_type, !is_fixed>;
+
+  /* Resize, and rebind to a matrix storage type: */
+  using resized_type = reshape_storage_t<unbound_type,
+    is_fixed ? left_size : -1, is_fixed ? right_size : -1>;
+  using type = rebind_matrix_storage_t<resized_type>;
 };
 
 /** Convenience alias for matrix_outer_product_promote. */
-- 
2.43.0


From 24ebe02cf7a182f7695439d7386331c695685b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 20/49] fix: move assignment of a fixed column-major non-square
 matrix stays within its array

---
 cml/matrix/fixed_compiled.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/fixed_compiled.tpp b/cml/matrix/fixed_compiled.tpp
index a6ff21a..58e1498 100644
--- a/cml/matrix/fixed_compiled.tpp
+++ b/cml/matrix/fixed_compiled.tpp
@@ -89,8 +89,8 @@ matrix<E, fixed<R, C>, BO, L>::operator=(matrix_type&& other) -> matrix_type&
 {
   for(int i = 0; i < R; ++i)
     for(int j = 0; j < C; ++j)
-      this->m_data[i][j] = std::move(other.m_data[i][j]);
-  /* Note: the layout doesn't matter here. */
+      s_access(*this, i, j, layout_tag()) =
+        std::move(s_access(other, i, j, layout_tag()));
   return *this;
 }
 
-- 
2.43.0


From 43f5e741e51149b1bd456f364a50cb93e654cc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 21/49] fix: LU pivoting compares the magnitude of the diagonal
 element

---
 cml/matrix/detail/lu.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/matrix/detail/lu.tpp b/cml/matrix/detail/lu.tpp
index fe3ae40..bfe6f6a 100644
--- a/cml/matrix/detail/lu.tpp
+++ b/cml/matrix/detail/lu.tpp
@@ -50,7 +50,7 @@ lu_pivot_inplace(writable_matrix<Sub>& M, OrderArray& order)
   for(int k = 0; k < N - 1; ++k) {
     /* Find the next pivot row: */
     int row = k;
-    value_type max = M(k, k);
+    value_type max = value_traits::fabs(M(k, k));
     for(int i = k + 1; i < N; ++i) {
       value_type mag = value_traits::fabs(M(i, k));
       if(mag > max) {
-- 
2.43.0


From 5118a428eb600a02e34fa59b2d895ac72dd03155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 22/49] fix: LU pivoting reports a zero last pivot as singular

---
 cml/matrix/detail/lu.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/matrix/detail/lu.tpp b/cml/matrix/detail/lu.tpp
index bfe6f6a..6c45c64 100644
--- a/cml/matrix/detail/lu.tpp
+++ b/cml/matrix/detail/lu.tpp
@@ -47,7 +47,7 @@ lu_pivot_inplace(writable_matrix<Sub>& M, OrderArray& order)
 
   /* For each column: */
   int flag = 1;
-  for(int k = 0; k < N - 1; ++k) {
+  for(int k = 0; k < N; ++k) {
     /* Find the next pivot row: */
     int row = k;
     value_type max = value_traits::fabs(M(k, k));
-- 
2.43.0


From ff60a8a53e16eea7ef95c1f725f60de356f7e765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 23/49] fix: full-pivot inverse does not select an element
 already used as pivot

---
 cml/matrix/detail/inverse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/matrix/detail/inverse.h b/cml/matrix/detail/inverse.h
index 78a651d..eff1ef7 100644
--- a/cml/matrix/detail/inverse.h
+++ b/cml/matrix/detail/inverse.h
@@ -165,7 +165,7 @@ inverse_pivot(writable_matrix<Sub>& M, RowIndexArray& row_index,
   for(int i = 0; i < N; ++i) {
     /* Find the pivot */
     int row = 0, col = 0;
-    auto pivot = value_traits::fabs(M(0, 0));
+    value_type pivot = value_type(-1);
     for(int j = 0; j < N; ++j) {
       if(pivoted[j]) continue;
 
-- 
2.43.0


From 1351f58ac6ce547cc0a29ab1d09735ea945586bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 24/49] fix: full-pivot inverse undoes its row swaps in reverse
 order

---
 cml/matrix/detail/inverse.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/detail/inverse.h b/cml/matrix/detail/inverse.h
index eff1ef7..f2cf09c 100644
--- a/cml/matrix/detail/inverse.h
+++ b/cml/matrix/detail/inverse.h
@@ -209,8 +209,8 @@ inverse_pivot(writable_matrix<Sub>& M, RowIndexArray& row_index,
     }
   }
 
-  /* Swap columns if necessary */
-  for(int i = 0; i < N; ++i) {
+  /* Swap columns if necessary, undoing the row swaps in reverse order */
+  for(int i = N - 1; i >= 0; --i) {
     if(row_index[i] == col_index[i]) continue;
 
     for(int j = 0; j < N; ++j)
-- 
2.43.0


From 5f228a4b702b1f78a9c545e8495087cec3fe602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 25/49] fix: lu_solve accumulates in the element type of the
 solution

---
 cml/matrix/lu.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/lu.tpp b/cml/matrix/lu.tpp
index 108d358..cd643ca 100644
--- a/cml/matrix/lu.tpp
+++ b/cml/matrix/lu.tpp
@@ -56,7 +56,7 @@ inline void
 lu_solve(const readable_matrix<LUSub>& LU, writable_vector<XSub>& x,
   const readable_vector<BSub>& b)
 {
-  using value_type = value_type_trait_of_t<BSub>;
+  using value_type = value_type_trait_of_t<XSub>;
 
   cml::check_square(LU);
   cml::check_same_inner_size(LU, x);
@@ -104,7 +104,7 @@ inline void
 lu_solve(const lu_pivot_result<Matrix>& lup, writable_vector<XSub>& x,
   const readable_vector<BSub>& b)
 {
-  using value_type = value_type_trait_of_t<BSub>;
+  using value_type = value_type_trait_of_t<XSub>;
 
   cml::check_same_inner_size(lup.lu, x);
   cml::check_same_inner_size(lup.lu, b);
-- 
2.43.0


From 659410484b764af297baff9ea8e9ee1f971b6deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:02 +0000
Subject: [PATCH 26/49] fix: exponential of a purely real quaternion is real
 instead of NaN

---
 cml/quaternion/writable_quaternion.tpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index 09d8550..2467607 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -218,7 +218,9 @@ writable_quaternion<DT>::exp() &
   auto v = this->imaginary();
   auto lv = v.length();
   auto x = element_traits::exp(this->real());
-  auto c = element_traits::sin(lv) / lv;
+
+  /* sin(|v|)/|v| is 1 for a purely real quaternion: */
+  auto c = (lv > 0) ? (element_traits::sin(lv) / lv) : value_type(1);
   this->assign(x * c * v, x * element_traits::cos(lv));
   return this->actual();
 }
-- 
2.43.0


From 894da3697b3ca58b5ec4e17bbf3192b1f88462c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:02 +0000
Subject: [PATCH 27/49] fix: logarithm of a purely real quaternion is finite
 instead of NaN

---
 cml/quaternion/writable_quaternion.tpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index 2467607..5fcc514 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -189,8 +189,19 @@ writable_quaternion<DT>::log() &
   auto lq = this->length();
   auto v = this->imaginary();
   auto lv = v.length();
-  auto c = element_traits::acos(this->real() / lq) / lv;
-  this->assign(c * v, element_traits::log(lq));
+  auto angle = element_traits::acos(this->real() / lq);
+  if(lv > 0) {
+    auto c = angle / lv;
+    this->assign(c * v, element_traits::log(lq));
+  } else {
+    /* The quaternion is purely real, and the angle is either 0 or pi.  Any
+     * imaginary unit can be the rotation axis, so use i:
+     */
+    this->put(W, element_traits::log(lq));
+    this->put(X, angle);
+    this->put(Y, value_type(0));
+    this->put(Z, value_type(0));
+  }
   return this->actual();
 }
 
-- 
2.43.0


From 224146ecc6720088ec63ba7e70c2f63329e91abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:19 +0000
Subject: [PATCH 28/49] fix: axis-angle of a rotation by nearly pi uses the
 symmetric part of the matrix

---
 cml/mathlib/matrix/rotation.tpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index cbff3a7..9fa9a89 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -435,7 +435,7 @@ matrix_to_axis_angle(const readable_matrix<Sub>& m, writable_vector<ASub>& axis,
   auto tmo = trace_3x3(m) - value_type(1);
 
   /* Normalize and compute the angle directly if possible: */
-  if(l > tolerance) {
+  if(l > tolerance && tmo >= value_type(0)) {
     axis /= l;
     angle = E(value_traits::atan2(l, tmo));
     /* Note: l = 2*sin(theta), tmo = 2*cos(theta) */
@@ -448,7 +448,10 @@ matrix_to_axis_angle(const readable_matrix<Sub>& m, writable_vector<ASub>& axis,
     angle = E(0);
   }
 
-  /* Reflection: */
+  /* Obtuse angle, up to a reflection.  The axis assigned above vanishes as
+   * the angle approaches pi, so compute the axis from the symmetric part
+   * of m instead, and use the original only for orientation:
+   */
   else
   {
     auto largest_diagonal_element = cml::index_of_max(m.basis_element(0, 0),
@@ -457,16 +460,21 @@ matrix_to_axis_angle(const readable_matrix<Sub>& m, writable_vector<ASub>& axis,
     int i, j, k;
     cyclic_permutation(largest_diagonal_element, i, j, k);
 
-    axis[i] = asub_type(
-      value_traits::sqrt(m.basis_element(i, i) - m.basis_element(j, j)
-        - m.basis_element(k, k) + value_type(1))
-      / value_type(2));
+    bool flip = (l > tolerance) && (axis[i] < asub_type(0));
 
-    auto s = value_type(1) / (value_type(2) * axis[i]);
-    axis[j] = asub_type(m.basis_element(i, j) * s);
-    axis[k] = asub_type(m.basis_element(i, k) * s);
+    axis[i] =
+      asub_type(value_traits::sqrt(m.basis_element(i, i)
+        - m.basis_element(j, j) - m.basis_element(k, k) + value_type(1)));
 
-    angle = constants<E>::pi();
+    auto s = value_type(1) / axis[i];
+    axis[j] = asub_type((m.basis_element(i, j) + m.basis_element(j, i)) * s);
+    axis[k] = asub_type((m.basis_element(i, k) + m.basis_element(k, i)) * s);
+
+    axis.normalize();
+    if(flip) axis *= asub_type(-1);
+
+    angle = (l > tolerance) ? E(value_traits::atan2(l, tmo))
+                            : constants<E>::pi();
   }
 
   /* Done. */
-- 
2.43.0


From 06ddb920f996d78a0c4e9a84b0dfc441dfdbdd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 29/49] fix: Euler angles extracted near the poles are
 consistent with each other

---
 cml/mathlib/matrix/rotation.tpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index 9fa9a89..18f390a 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -537,8 +537,15 @@ matrix_to_euler(const readable_matrix<Sub>& m, E0& angle_0, E1& angle_1,
     if(s1 > tolerance) {
       angle_0 =
         E0(value_traits::atan2(m.basis_element(j, i), m.basis_element(k, i)));
-      angle_2 =
-        E0(value_traits::atan2(m.basis_element(i, j), -m.basis_element(i, k)));
+
+      /* Remove the first rotation to compute the last, so that they agree
+       * even if the first is poorly determined (s1 near 0):
+       */
+      auto s0 = value_traits::sin(value_type(angle_0));
+      auto c0 = value_traits::cos(value_type(angle_0));
+      angle_2 = E2(value_traits::atan2(
+        c0 * m.basis_element(j, k) - s0 * m.basis_element(k, k),
+        c0 * m.basis_element(j, j) - s0 * m.basis_element(k, j)));
     } else {
       angle_0 = E0(0);
       angle_2 = E2(cml::sign(c1)
@@ -552,8 +559,15 @@ matrix_to_euler(const readable_matrix<Sub>& m, E0& angle_0, E1& angle_1,
     if(c1 > tolerance) {
       angle_0 =
         E0(value_traits::atan2(m.basis_element(j, k), m.basis_element(k, k)));
-      angle_2 =
-        E2(value_traits::atan2(m.basis_element(i, j), m.basis_element(i, i)));
+
+      /* Remove the first rotation to compute the last, so that they agree
+       * even if the first is poorly determined (c1 near 0):
+       */
+      auto s0 = value_traits::sin(value_type(angle_0));
+      auto c0 = value_traits::cos(value_type(angle_0));
+      angle_2 = E2(value_traits::atan2(
+        s0 * m.basis_element(k, i) - c0 * m.basis_element(j, i),
+        c0 * m.basis_element(j, j) - s0 * m.basis_element(k, j)));
     } else {
       angle_0 = E0(0);
       angle_2 = -E2(cml::sign(s1)
-- 
2.43.0


From e29597f5cc3828ff69af43a359a5ad238193e7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:15 +0000
Subject: [PATCH 30/49] fix: Euler derivatives of the odd axis orders have the
 right sign

---
 cml/mathlib/matrix/rotation.tpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index 18f390a..25a1623 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -311,6 +311,13 @@ matrix_rotation_euler_derivatives(writable_matrix<Sub>& m, int axis, E0 angle_0,
     m.set_basis_element(k, j, s1 * c0c2 + s0s2);
     m.set_basis_element(k, k, 0.);
   }
+
+  /* The derivative of f(-angle) is -f'(-angle): */
+  if(odd) {
+    for(int r = 0; r < 3; ++r)
+      for(int c = 0; c < 3; ++c)
+        m.set_basis_element(r, c, -m.basis_element(r, c));
+  }
 }
 
 template<class Sub, class ESub>
-- 
2.43.0


From c0a5fd5a53e3e96e6a71700436aba34d582bf75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 31/49] fix: orthonormal basis is computed in the promoted
 element type

---
 cml/mathlib/vector/orthonormal.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cml/mathlib/vector/orthonormal.tpp b/cml/mathlib/vector/orthonormal.tpp
index ab6dbb0..44d643a 100644
--- a/cml/mathlib/vector/orthonormal.tpp
+++ b/cml/mathlib/vector/orthonormal.tpp
@@ -25,7 +25,7 @@ orthonormal_basis_2D(const readable_vector<Sub>& align,
       value_type_trait_of_t<XSub>, value_type_trait_of_t<YSub>>::value,
     "incompatible scalar types");
 
-  using value_type = value_type_trait_of_t<Sub>;
+  using value_type = value_type_trait_promote_t<Sub, XSub, YSub>;
   using temporary_type = vector<value_type, compiled<2>>;
 
   /* Checking handled by perp() and assignment to fixed<2>. */
@@ -61,7 +61,7 @@ orthonormal_basis(const readable_vector<Sub1>& align,
       value_type_trait_of_t<YSub>, value_type_trait_of_t<ZSub>>::value,
     "incompatible scalar types");
 
-  using value_type = value_type_trait_of_t<Sub1>;
+  using value_type = value_type_trait_promote_t<Sub1, Sub2, XSub, YSub, ZSub>;
   using temporary_type = vector<value_type, compiled<3>>;
 
   int i, j, k;
-- 
2.43.0


From 3271248541d80110f26926900dc6051a4f198ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 32/49] fix: look-at of whole-number points normalizes in the
 element type of the matrix

---
 cml/mathlib/matrix/transform.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/mathlib/matrix/transform.tpp b/cml/mathlib/matrix/transform.tpp
index ea066a0..7fae810 100644
--- a/cml/mathlib/matrix/transform.tpp
+++ b/cml/mathlib/matrix/transform.tpp
@@ -30,7 +30,7 @@ matrix_look_at(writable_matrix<Sub>& m, const readable_vector<SubEye>& position,
   cml::check_affine_3D(m);
 
   auto s = value_type(handedness == left_handed ? 1 : -1);
-  auto z = s * (target - position).normalize();
+  auto z = (s * (target - position)).normalize();
   auto x = cross(up, z).normalize();
   auto y = cross(z, x);
 
-- 
2.43.0


From a38998b9dec0eeac78f34a40e55224672503be3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 33/49] fix: matrix_inverse_scale divides in the matrix's
 element type

---
 cml/mathlib/matrix/scale.tpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cml/mathlib/matrix/scale.tpp b/cml/mathlib/matrix/scale.tpp
index 3991414..5b69e78 100644
--- a/cml/mathlib/matrix/scale.tpp
+++ b/cml/mathlib/matrix/scale.tpp
@@ -46,7 +46,8 @@ template<class Sub, class E0, class E1>
 inline void
 matrix_inverse_scale_2D(writable_matrix<Sub>& m, const E0& e0, const E1& e1)
 {
-  matrix_scale_2D(m, E0(1) / e0, E1(1) / e1);
+  using value_type = value_type_trait_of_t<Sub>;
+  matrix_scale_2D(m, value_type(1) / e0, value_type(1) / e1);
 }
 
 template<class Sub1, class Sub2>
@@ -95,7 +96,8 @@ inline void
 matrix_inverse_scale(writable_matrix<Sub>& m, const E0& e0, const E1& e1,
   const E2& e2)
 {
-  matrix_scale(m, E0(1) / e0, E1(1) / e1, E2(1) / e2);
+  using value_type = value_type_trait_of_t<Sub>;
+  matrix_scale(m, value_type(1) / e0, value_type(1) / e1, value_type(1) / e2);
 }
 
 template<class Sub1, class Sub2>
-- 
2.43.0


From 838aa6651209548a3dd77d565dbbe49cbbb1d0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 34/49] fix: random_unit in a cone does not divide by zero when
 the random vector is (anti)parallel to the axis

---
 cml/mathlib/random_unit.tpp | 39 +++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/cml/mathlib/random_unit.tpp b/cml/mathlib/random_unit.tpp
index c2f325f..9c992b1 100644
--- a/cml/mathlib/random_unit.tpp
+++ b/cml/mathlib/random_unit.tpp
@@ -40,8 +40,8 @@ random_unit(writable_vector<Sub1>& n, const readable_vector<Sub2>& d,
 }
 
 /** Generate a random n-D unit vector in a cone with direction @c d and
- * half-angle @c a, given in radians.  The vector is generated by using two
- * slerps to linearly map a random vector on the unit hemisphere to the
+ * half-angle @c a, given in radians.  The vector is generated by using a
+ * slerp to linearly map a random vector on the unit hemisphere to the
  * spherical cone cap.  This seems to produce nice (uniform) 3D
  * distributions, at least visually.
  */
@@ -50,8 +50,6 @@ void
 random_unit(writable_vector<Sub1>& n, const readable_vector<Sub2>& d,
   const Scalar& a, cml::int_c<N>)
 {
-  using a_traits = scalar_traits<Scalar>;
-
   /* Generate a uniformly random vector on the unit sphere: */
   cml::random_unit(n);
 
@@ -62,26 +60,25 @@ random_unit(writable_vector<Sub1>& n, const readable_vector<Sub2>& d,
     cos_O = -cos_O;
   }
 
-  /* Compute the angle between d and n: */
-  auto O = acos_safe(cos_O);
-  using O_type = decltype(O);
-  using O_traits = scalar_traits<O_type>;
-  using Oa_traits = scalar_traits<decltype(O - a)>;
-
-  /* Use slerp between d (t=0) and n (t=1) to find the unit vector n_a
-   * (t=a/O) lying on the cone between d and n:
+  /* Keep the part of n perpendicular to d, of length sin(O), where O is the
+   * angle between d and n.  n is the tip of the cone if it has none:
    */
-  auto n_a =
-    (Oa_traits::sin(O - a) * d + a_traits::sin(a) * n) / O_traits::sin(O);
-  /* Note: n_a is normalized by dividing by sin(O). */
+  n -= cos_O * d;
+  auto sin_O = n.length();
+  if(sin_O == 0) {
+    n = d;
+    return;
+  }
+  n /= sin_O;
 
-  /* Use a second slerp to "scale" the cone with half-angle O to the cone
-   * with half-angle a, taking the random vector n along with it:
+  /* Slerp from d towards n, "scaling" the hemisphere to the cone with
+   * half-angle a:
    */
-  auto t = O / constants<O_type>::pi_over_2();
-  n = (Oa_traits::sin((O_type(1) - t) * a) * d + Oa_traits::sin(t * a) * n_a)
-    / a_traits::sin(a);
-  /* Note: n is normalized by dividing by sin(a). */
+  using O_type = decltype(cos_O + sin_O);
+  using Oa_traits = scalar_traits<decltype(O_type() * a)>;
+  auto O = scalar_traits<O_type>::atan2(sin_O, cos_O);
+  auto O_a = a * (O / constants<O_type>::pi_over_2());
+  n = Oa_traits::cos(O_a) * d + Oa_traits::sin(O_a) * n;
 }
 
 }  // namespace detail
-- 
2.43.0


From e33f06347e25ace07f7a3b91b28a9128c3ff02e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 35/49] fix: wrap of an unsigned value below the range

---
 cml/scalar/functions.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cml/scalar/functions.h b/cml/scalar/functions.h
index f701b73..120955b 100644
--- a/cml/scalar/functions.h
+++ b/cml/scalar/functions.h
@@ -33,11 +33,11 @@ inline T
 wrap(T value, T min, T max)
 {
   max -= min;
-  value = scalar_traits<T>::fmod(value - min, max);
-  if(value < T(0)) {
-    value += max;
+  if(value < min) {
+    value = scalar_traits<T>::fmod(min - value, max);
+    return value > T(0) ? min + (max - value) : min;
   }
-  return min + value;
+  return min + scalar_traits<T>::fmod(value - min, max);
 }
 
 /** Test input value for inclusion in [min, max]. */
-- 
2.43.0


From 42bee5e60c92e97186507f9b1dfd7f64dbecbde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 36/49] fix: map_range of integers does not truncate the
 fraction of the range

---
 cml/scalar/functions.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cml/scalar/functions.h b/cml/scalar/functions.h
index 120955b..23472e0 100644
--- a/cml/scalar/functions.h
+++ b/cml/scalar/functions.h
@@ -6,6 +6,7 @@
 
 #include <algorithm>
 #include <random>
+#include <type_traits>
 #include <cml/scalar/constants.h>
 #include <cml/scalar/traits.h>
 
@@ -53,6 +54,9 @@ template<typename T>
 inline T
 map_range(T value, T min1, T max1, T min2, T max2)
 {
+  /* The quotient of integers is truncated, so divide last: */
+  if(std::is_integral<T>::value)
+    return T(min2 + (value - min1) * (max2 - min2) / (max1 - min1));
   return min2 + ((value - min1) / (max1 - min1)) * (max2 - min2);
 }
 
-- 
2.43.0


From 52f1afb9d978fff6aafbf7ddc91f4b967d81b8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 37/49] fix: matrix32f has 3 rows and 2 columns, and matrix23f
 exists

---
 cml/matrix/types.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cml/matrix/types.h b/cml/matrix/types.h
index 70810df..b4cd13b 100644
--- a/cml/matrix/types.h
+++ b/cml/matrix/types.h
@@ -29,7 +29,8 @@ using externalmni = matrix<int, external<>>;
 using matrix22f = matrix<float, fixed<2, 2>>;
 using matrix33f = matrix<float, fixed<3, 3>>;
 using matrix44f = matrix<float, fixed<4, 4>>;
-using matrix32f = matrix<float, fixed<2, 3>>;
+using matrix23f = matrix<float, fixed<2, 3>>;
+using matrix32f = matrix<float, fixed<3, 2>>;
 using matrix34f = matrix<float, fixed<3, 4>>;
 using matrixf = matrix<float, dynamic<>>;
 using external22f = matrix<float, external<2, 2>>;
-- 
2.43.0


From 8cc68d245a40650ac693649ef1d0e938ae222052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:48 +0000
Subject: [PATCH 38/49] fix: keep small rotation angles in the quaternion
 logarithm

---
 cml/quaternion/writable_quaternion.tpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index 5fcc514..3ca52f1 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -182,14 +182,15 @@ writable_quaternion<DT>::log() &
 
   /* The natural log of q is:
    *
-   *   ln(|q|) + v/|v| * arccos(w / |q|)
+   *   ln(|q|) + v/|v| * atan2(|v|, w)
    *
-   * where v is the imaginary part of q and w is the real part:
+   * where v is the imaginary part of q and w is the real part (acos(w/|q|)
+   * is the same angle, but loses it when |v| is small relative to |w|):
    */
   auto lq = this->length();
   auto v = this->imaginary();
   auto lv = v.length();
-  auto angle = element_traits::acos(this->real() / lq);
+  auto angle = element_traits::atan2(lv, this->real());
   if(lv > 0) {
     auto c = angle / lv;
     this->assign(c * v, element_traits::log(lq));
-- 
2.43.0


From d3df0edd20d14f0129f846e76d7e8243e27d0594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:01 +0000
Subject: [PATCH 39/49] fix: Euler derivatives reject a repeated axis before
 the matrix is overwritten

---
 cml/mathlib/matrix/rotation.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index 25a1623..d4c8a6e 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -254,14 +254,14 @@ matrix_rotation_euler_derivatives(writable_matrix<Sub>& m, int axis, E0 angle_0,
     "axis must be 0, 1, or 2");
   cml::check_linear_3D(m);
 
-  /* Initialize: */
-  m.identity();
-
   int i, j, k;
   bool odd, repeat;
   cml::unpack_euler_order(order, i, j, k, odd, repeat);
   cml_require(!repeat, std::invalid_argument, "repeated axis not supported");
 
+  /* Initialize: */
+  m.identity();
+
   if(odd) {
     angle_0 = -angle_0;
     angle_1 = -angle_1;
-- 
2.43.0


From aa8a3d8e7cd5173bead514c7caddf7e589f76fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:37 +0000
Subject: [PATCH 40/49] fix: matrix builders take scalar arguments that may be
 elements of the matrix by value

---
 cml/mathlib/matrix/misc.h          |  2 +-
 cml/mathlib/matrix/misc.tpp        |  2 +-
 cml/mathlib/matrix/rotation.h      |  2 +-
 cml/mathlib/matrix/rotation.tpp    |  2 +-
 cml/mathlib/matrix/scale.h         | 15 ++++++---------
 cml/mathlib/matrix/scale.tpp       | 13 ++++++-------
 cml/mathlib/matrix/translation.h   | 16 ++++++----------
 cml/mathlib/matrix/translation.tpp | 14 ++++++--------
 8 files changed, 28 insertions(+), 38 deletions(-)

diff --git a/cml/mathlib/matrix/misc.h b/cml/mathlib/matrix/misc.h
index da46f82..d7dcabc 100644
--- a/cml/mathlib/matrix/misc.h
+++ b/cml/mathlib/matrix/misc.h
@@ -56,7 +56,7 @@ void matrix_skew_symmetric(writable_matrix<Sub1>& m,
  * run-time.
  */
 template<class Sub1, class Scalar>
-void matrix_skew_symmetric_2D(writable_matrix<Sub1>& m, const Scalar& s);
+void matrix_skew_symmetric_2D(writable_matrix<Sub1>& m, Scalar s);
 
 
 /** Invert a 3D matrix composed of a rotation and translation.
diff --git a/cml/mathlib/matrix/misc.tpp b/cml/mathlib/matrix/misc.tpp
index 3fd152b..1a0d335 100644
--- a/cml/mathlib/matrix/misc.tpp
+++ b/cml/mathlib/matrix/misc.tpp
@@ -47,7 +47,7 @@ matrix_skew_symmetric(writable_matrix<Sub1>& m, const readable_vector<Sub2>& v)
 
 template<class Sub1, class Scalar>
 inline void
-matrix_skew_symmetric_2D(writable_matrix<Sub1>& m, const Scalar& s)
+matrix_skew_symmetric_2D(writable_matrix<Sub1>& m, Scalar s)
 {
   cml::check_linear_2D(m);
 
diff --git a/cml/mathlib/matrix/rotation.h b/cml/mathlib/matrix/rotation.h
index 950b739..41f33e0 100644
--- a/cml/mathlib/matrix/rotation.h
+++ b/cml/mathlib/matrix/rotation.h
@@ -110,7 +110,7 @@ void matrix_rotation_world_z(writable_matrix<Sub>& m, const E& angle);
  */
 template<class Sub, class QSub, class E>
 void matrix_rotation_axis_angle(writable_matrix<Sub>& m,
-  const readable_vector<QSub>& axis, const E& angle);
+  const readable_vector<QSub>& axis, E angle);
 
 /** Compute a rotation matrix given three Euler angles and the required
  * order.
diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index d4c8a6e..88413d2 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -119,7 +119,7 @@ matrix_rotation_world_z(writable_matrix<Sub>& m, const E& angle)
 template<class Sub, class ASub, class E>
 inline void
 matrix_rotation_axis_angle(writable_matrix<Sub>& m,
-  const readable_vector<ASub>& axis, const E& angle)
+  const readable_vector<ASub>& axis, E angle)
 {
   static_assert(
     cml::are_convertible<value_type_trait_of_t<Sub>,
diff --git a/cml/mathlib/matrix/scale.h b/cml/mathlib/matrix/scale.h
index 1750ba6..9675017 100644
--- a/cml/mathlib/matrix/scale.h
+++ b/cml/mathlib/matrix/scale.h
@@ -24,7 +24,7 @@ namespace cml {
  * @c m is fixed-size, the size is checked at compile-time.
  */
 template<class Sub, class E0, class E1>
-void matrix_scale_2D(writable_matrix<Sub>& m, const E0& e0, const E1& e1);
+void matrix_scale_2D(writable_matrix<Sub>& m, E0 e0, E1 e1);
 
 /** Initialize a non-uniform 2D scaling matrix, taking scales from the
  * elements of @c v.
@@ -46,7 +46,7 @@ void matrix_scale_2D(writable_matrix<Sub1>& m, const readable_vector<Sub2>& v);
  * @c m is fixed-size, the size is checked at compile-time.
  */
 template<class Sub, class E0>
-void matrix_uniform_scale_2D(writable_matrix<Sub>& m, const E0& e0);
+void matrix_uniform_scale_2D(writable_matrix<Sub>& m, E0 e0);
 
 /** Initialize a non-uniform 2D scaling matrix with the reciprocals of
  * scales @c e0 and @c e1.
@@ -56,8 +56,7 @@ void matrix_uniform_scale_2D(writable_matrix<Sub>& m, const E0& e0);
  * @c m is fixed-size, the size is checked at compile-time.
  */
 template<class Sub, class E0, class E1>
-void matrix_inverse_scale_2D(writable_matrix<Sub>& m, const E0& e0,
-  const E1& e1);
+void matrix_inverse_scale_2D(writable_matrix<Sub>& m, E0 e0, E1 e1);
 
 /** Initialize a non-uniform 2D scaling matrix, taking scales from reciprocals
  * of the elements of @c v.
@@ -87,8 +86,7 @@ void matrix_inverse_scale_2D(writable_matrix<Sub1>& m,
  * @c m is fixed-size, the size is checked at compile-time.
  */
 template<class Sub, class E0, class E1, class E2>
-void matrix_scale(writable_matrix<Sub>& m, const E0& e0, const E1& e1,
-  const E2& e2);
+void matrix_scale(writable_matrix<Sub>& m, E0 e0, E1 e1, E2 e2);
 
 /** Initialize a non-uniform 3D scaling matrix, taking scales from the
  * elements of @c v.
@@ -110,7 +108,7 @@ void matrix_scale(writable_matrix<Sub1>& m, const readable_vector<Sub2>& v);
  * @c m is fixed-size, the size is checked at compile-time.
  */
 template<class Sub, class E0>
-void matrix_uniform_scale(writable_matrix<Sub>& m, const E0& e0);
+void matrix_uniform_scale(writable_matrix<Sub>& m, E0 e0);
 
 /** Initialize a non-uniform 3D scaling matrix with the reciprocals of
  * scales @c e0, @c e1, and @c e2.
@@ -120,8 +118,7 @@ void matrix_uniform_scale(writable_matrix<Sub>& m, const E0& e0);
  * @c m is fixed-size, the size is checked at compile-time.
  */
 template<class Sub, class E0, class E1, class E2>
-void matrix_inverse_scale(writable_matrix<Sub>& m, const E0& e0, const E1& e1,
-  const E2& e2);
+void matrix_inverse_scale(writable_matrix<Sub>& m, E0 e0, E1 e1, E2 e2);
 
 /** Initialize a non-uniform 3D scaling matrix, taking scales from reciprocals
  * of the elements of @c v.
diff --git a/cml/mathlib/matrix/scale.tpp b/cml/mathlib/matrix/scale.tpp
index 5b69e78..df677b9 100644
--- a/cml/mathlib/matrix/scale.tpp
+++ b/cml/mathlib/matrix/scale.tpp
@@ -16,7 +16,7 @@ namespace cml {
 
 template<class Sub, class E0, class E1>
 inline void
-matrix_scale_2D(writable_matrix<Sub>& m, const E0& e0, const E1& e1)
+matrix_scale_2D(writable_matrix<Sub>& m, E0 e0, E1 e1)
 {
   static_assert(cml::are_convertible<value_type_trait_of_t<Sub>, E0, E1>::value,
     "incompatible scalar types");
@@ -37,14 +37,14 @@ matrix_scale_2D(writable_matrix<Sub1>& m, const readable_vector<Sub2>& v)
 
 template<class Sub, class E0>
 inline void
-matrix_uniform_scale_2D(writable_matrix<Sub>& m, const E0& e0)
+matrix_uniform_scale_2D(writable_matrix<Sub>& m, E0 e0)
 {
   matrix_scale_2D(m, e0, e0);
 }
 
 template<class Sub, class E0, class E1>
 inline void
-matrix_inverse_scale_2D(writable_matrix<Sub>& m, const E0& e0, const E1& e1)
+matrix_inverse_scale_2D(writable_matrix<Sub>& m, E0 e0, E1 e1)
 {
   using value_type = value_type_trait_of_t<Sub>;
   matrix_scale_2D(m, value_type(1) / e0, value_type(1) / e1);
@@ -63,7 +63,7 @@ matrix_inverse_scale_2D(writable_matrix<Sub1>& m,
 
 template<class Sub, class E0, class E1, class E2>
 inline void
-matrix_scale(writable_matrix<Sub>& m, const E0& e0, const E1& e1, const E2& e2)
+matrix_scale(writable_matrix<Sub>& m, E0 e0, E1 e1, E2 e2)
 {
   static_assert(
     cml::are_convertible<value_type_trait_of_t<Sub>, E0, E1, E2>::value,
@@ -86,15 +86,14 @@ matrix_scale(writable_matrix<Sub1>& m, const readable_vector<Sub2>& v)
 
 template<class Sub, class E0>
 inline void
-matrix_uniform_scale(writable_matrix<Sub>& m, const E0& e0)
+matrix_uniform_scale(writable_matrix<Sub>& m, E0 e0)
 {
   matrix_scale(m, e0, e0, e0);
 }
 
 template<class Sub, class E0, class E1, class E2>
 inline void
-matrix_inverse_scale(writable_matrix<Sub>& m, const E0& e0, const E1& e1,
-  const E2& e2)
+matrix_inverse_scale(writable_matrix<Sub>& m, E0 e0, E1 e1, E2 e2)
 {
   using value_type = value_type_trait_of_t<Sub>;
   matrix_scale(m, value_type(1) / e0, value_type(1) / e1, value_type(1) / e2);
diff --git a/cml/mathlib/matrix/translation.h b/cml/mathlib/matrix/translation.h
index c307883..f9b32fe 100644
--- a/cml/mathlib/matrix/translation.h
+++ b/cml/mathlib/matrix/translation.h
@@ -26,8 +26,7 @@ namespace cml {
  * @c m is fixed-size, the size is checked at compile-time.
  */
 template<class Sub, class E0, class E1>
-void matrix_set_translation_2D(writable_matrix<Sub>& m, const E0& e0,
-  const E1& e1);
+void matrix_set_translation_2D(writable_matrix<Sub>& m, E0 e0, E1 e1);
 
 /** Set the translation of a 2D affine transformation, @c m, to the 2D
  * vector @c v.
@@ -72,7 +71,7 @@ auto matrix_get_translation_2D(const readable_matrix<Sub>& m)
  * @c m is fixed-size, the size is checked at compile-time.
  */
 template<class Sub, class E0, class E1>
-void matrix_translation_2D(writable_matrix<Sub>& m, const E0& e0, const E1& e1);
+void matrix_translation_2D(writable_matrix<Sub>& m, E0 e0, E1 e1);
 
 /** Initialize a 2D translation matrix, @c m, from the 2D vector @c v.
  *
@@ -101,8 +100,7 @@ void matrix_translation_2D(writable_matrix<Sub1>& m,
  * @c m is fixed-size, the size is checked at compile-time.
  */
 template<class Sub, class E0, class E1, class E2>
-void matrix_set_translation(writable_matrix<Sub>& m, const E0& e0, const E1& e1,
-  const E2& e2);
+void matrix_set_translation(writable_matrix<Sub>& m, E0 e0, E1 e1, E2 e2);
 
 /** Set the translation of a 3D affine transformation, @c m, to @c e0, @c
  * e1, and 0.
@@ -112,8 +110,7 @@ void matrix_set_translation(writable_matrix<Sub>& m, const E0& e0, const E1& e1,
  * @c m is fixed-size, the size is checked at compile-time.
  */
 template<class Sub, class E0, class E1>
-void matrix_set_translation(writable_matrix<Sub>& m, const E0& e0,
-  const E1& e1);
+void matrix_set_translation(writable_matrix<Sub>& m, E0 e0, E1 e1);
 
 /** Set the translation of a 3D affine transformation, @c m, to the
  * 2D or 3D vector @c v (if @c v is 2D the last element is 0).
@@ -160,8 +157,7 @@ auto matrix_get_translation(const readable_matrix<Sub>& m)
  * @c m is fixed-size, the size is checked at compile-time.
  */
 template<class Sub, class E0, class E1, class E2>
-void matrix_translation(writable_matrix<Sub>& m, const E0& e0, const E1& e1,
-  const E2& e2);
+void matrix_translation(writable_matrix<Sub>& m, E0 e0, E1 e1, E2 e2);
 
 /** Initialize a 3D translation matrix, @c m, from @c e0, @c e1, and 0.
  *
@@ -170,7 +166,7 @@ void matrix_translation(writable_matrix<Sub>& m, const E0& e0, const E1& e1,
  * @c m is fixed-size, the size is checked at compile-time.
  */
 template<class Sub, class E0, class E1>
-void matrix_translation(writable_matrix<Sub>& m, const E0& e0, const E1& e1);
+void matrix_translation(writable_matrix<Sub>& m, E0 e0, E1 e1);
 
 /** Initialize a 3D translation matrix, @c m, from the 3D vector @c v.
  *
diff --git a/cml/mathlib/matrix/translation.tpp b/cml/mathlib/matrix/translation.tpp
index 7ec51e5..d59e801 100644
--- a/cml/mathlib/matrix/translation.tpp
+++ b/cml/mathlib/matrix/translation.tpp
@@ -50,7 +50,7 @@ matrix_set_basis(writable_matrix<Sub>& m, const Es&... es)
 
 template<class Sub, class E0, class E1>
 inline void
-matrix_set_translation_2D(writable_matrix<Sub>& m, const E0& e0, const E1& e1)
+matrix_set_translation_2D(writable_matrix<Sub>& m, E0 e0, E1 e1)
 {
   cml::check_affine_2D(m);
   detail::matrix_set_basis<2>(m, e0, e1);
@@ -94,7 +94,7 @@ matrix_get_translation_2D(const readable_matrix<Sub>& m)
 
 template<class Sub, class E0, class E1>
 inline void
-matrix_translation_2D(writable_matrix<Sub>& m, const E0& e0, const E1& e1)
+matrix_translation_2D(writable_matrix<Sub>& m, E0 e0, E1 e1)
 {
   cml::check_affine_2D(m);
   m.identity();
@@ -115,8 +115,7 @@ matrix_translation_2D(writable_matrix<Sub1>& m, const readable_vector<Sub2>& v)
 
 template<class Sub, class E0, class E1, class E2>
 inline void
-matrix_set_translation(writable_matrix<Sub>& m, const E0& e0, const E1& e1,
-  const E2& e2)
+matrix_set_translation(writable_matrix<Sub>& m, E0 e0, E1 e1, E2 e2)
 {
   cml::check_affine_3D(m);
   detail::matrix_set_basis<3>(m, e0, e1, e2);
@@ -124,7 +123,7 @@ matrix_set_translation(writable_matrix<Sub>& m, const E0& e0, const E1& e1,
 
 template<class Sub, class E0, class E1>
 inline void
-matrix_set_translation(writable_matrix<Sub>& m, const E0& e0, const E1& e1)
+matrix_set_translation(writable_matrix<Sub>& m, E0 e0, E1 e1)
 {
   using zero_type = value_type_trait_of_t<Sub>;
   cml::check_affine_3D(m);
@@ -172,8 +171,7 @@ matrix_get_translation(const readable_matrix<Sub>& m)
 
 template<class Sub, class E0, class E1, class E2>
 inline void
-matrix_translation(writable_matrix<Sub>& m, const E0& e0, const E1& e1,
-  const E2& e2)
+matrix_translation(writable_matrix<Sub>& m, E0 e0, E1 e1, E2 e2)
 {
   cml::check_affine_3D(m);
   m.identity();
@@ -192,7 +190,7 @@ matrix_translation(writable_matrix<Sub1>& m, const readable_vector<Sub2>& v)
 
 template<class Sub, class E0, class E1>
 inline void
-matrix_translation(writable_matrix<Sub>& m, const E0& e0, const E1& e1)
+matrix_translation(writable_matrix<Sub>& m, E0 e0, E1 e1)
 {
   cml::check_affine_3D(m);
   m.identity();
-- 
2.43.0


From fedb98d24beac2cae0cfcf4465b5b1ae9a897a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:37 +0000
Subject: [PATCH 41/49] fix: matrix_linear_transform reads the linear transform
 before it overwrites the matrix

---
 cml/mathlib/matrix/transform.tpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cml/mathlib/matrix/transform.tpp b/cml/mathlib/matrix/transform.tpp
index 7fae810..bd50a9f 100644
--- a/cml/mathlib/matrix/transform.tpp
+++ b/cml/mathlib/matrix/transform.tpp
@@ -70,14 +70,18 @@ matrix_linear_transform(writable_matrix<Sub1>& m,
   cml::check_linear_3D(m);
   cml::check_linear_3D(l);
 
+  /* Read the basis elements first, since l may be m: */
+  value_type_trait_of_t<Sub2> e[3][3];
+  for(int i = 0; i < 3; ++i) {
+    for(int j = 0; j < 3; ++j) e[i][j] = l.basis_element(i, j);
+  }
+
   /* Initialize: */
   m.identity();
 
   /* Copy basis elements: */
   for(int i = 0; i < 3; ++i) {
-    for(int j = 0; j < 3; ++j) {
-      m.set_basis_element(i, j, l.basis_element(i, j));
-    }
+    for(int j = 0; j < 3; ++j) m.set_basis_element(i, j, e[i][j]);
   }
 }
 
-- 
2.43.0


From f7d3069bab4b61b606e576857f59c90ed1653bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:37 +0000
Subject: [PATCH 42/49] fix: coordinate conversions may return the coordinates
 in the elements of the vector

---
 cml/mathlib/coordinate_conversion.tpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/cml/mathlib/coordinate_conversion.tpp b/cml/mathlib/coordinate_conversion.tpp
index e5e2924..9314f54 100644
--- a/cml/mathlib/coordinate_conversion.tpp
+++ b/cml/mathlib/coordinate_conversion.tpp
@@ -125,8 +125,10 @@ cartesian_to_polar(const readable_vector<Sub>& v, E0& radius, E1& theta,
     "incompatible scalar types");
   cml::check_size(v, int_c<2>());
 
+  /* radius and theta may be elements of v: */
+  value_type x = v[0], y = v[1];
   radius = v.length();
-  theta = radius < tolerance ? E1(0) : E1(value_traits::atan2(v[1], v[0]));
+  theta = radius < tolerance ? E1(0) : E1(value_traits::atan2(y, x));
 }
 
 template<class Sub, class E0, class E1>
@@ -160,9 +162,10 @@ cartesian_to_cylindrical(const readable_vector<Sub>& v, int axis, E0& radius,
   cml::cyclic_permutation(axis, i, j, k);
 
   /* Initialize return values; */
-  height = E2(v[i]);
-  radius = E0(cml::length(v[j], v[k]));
-  theta = radius < tolerance ? E1(0) : E1(value_traits::atan2(v[k], v[j]));
+  value_type v_i = v[i], v_j = v[j], v_k = v[k];  // The results may be in v.
+  height = E2(v_i);
+  radius = E0(cml::length(v_j, v_k));
+  theta = radius < tolerance ? E1(0) : E1(value_traits::atan2(v_k, v_j));
 }
 
 template<class Sub, class E0, class E1, class E2>
@@ -204,13 +207,14 @@ cartesian_to_spherical(const readable_vector<Sub>& v, int axis,
   int i, j, k;
   cml::cyclic_permutation(axis, i, j, k);
 
-  auto len = cml::length(v[j], v[k]);
-  theta = len < tolerance ? E1(0) : E1(value_traits::atan2(v[k], v[j]));
-  radius = E0(cml::length(v[i], len));
+  value_type v_i = v[i], v_j = v[j], v_k = v[k];  // The results may be in v.
+  auto len = cml::length(v_j, v_k);
+  theta = len < tolerance ? E1(0) : E1(value_traits::atan2(v_k, v_j));
+  radius = E0(cml::length(v_i, len));
   if(radius < tolerance) {
     phi = E2(0);
   } else {
-    phi = E2(value_traits::atan2(len, v[i]));
+    phi = E2(value_traits::atan2(len, v_i));
     if(type == latitude) phi = constants<E2>::pi_over_2() - phi;
   }
 }
-- 
2.43.0


From 8ccd119ec88addc48deb460c1a5b9dde04b71d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:37 +0000
Subject: [PATCH 43/49] fix: random_unit in a cone may overwrite the cone
 direction

---
 cml/mathlib/random_unit.tpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cml/mathlib/random_unit.tpp b/cml/mathlib/random_unit.tpp
index 9c992b1..d6f5519 100644
--- a/cml/mathlib/random_unit.tpp
+++ b/cml/mathlib/random_unit.tpp
@@ -131,7 +131,9 @@ random_unit(writable_vector<Sub1>& n, const readable_vector<Sub2>& d,
     std::invalid_argument, "a must be in (0,90] deg");
 
   cml::detail::check_or_resize(n, d);
-  detail::random_unit(n, d, a, cml::int_c<array_size_of_c<Sub2>::value>());
+
+  const temporary_of_t<Sub2> dir(d);  // n may be d.
+  detail::random_unit(n, dir, a, cml::int_c<array_size_of_c<Sub2>::value>());
 }
 
 }  // namespace cml
\ No newline at end of file
-- 
2.43.0


From 9a0463d22379bdb996da532cce3db23f7872770b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:40 +0000
Subject: [PATCH 44/49] fix: lu_pivot judges matrices of small elements
 relative to the largest

The absolute singularity tolerance made lu_pivot report regular matrices
of elements below the machine epsilon as singular, so that lu_solve threw
and determinants of order 5 and more were 0.
---
 cml/matrix/detail/lu.tpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cml/matrix/detail/lu.tpp b/cml/matrix/detail/lu.tpp
index 6c45c64..186226b 100644
--- a/cml/matrix/detail/lu.tpp
+++ b/cml/matrix/detail/lu.tpp
@@ -45,6 +45,17 @@ lu_pivot_inplace(writable_matrix<Sub>& M, OrderArray& order)
   int N = M.rows();
   for(int i = 0; i < N; ++i) order[i] = i;
 
+  /* Matrices of small elements are judged relative to the largest: */
+  value_type scale(0);
+  for(int i = 0; i < N; ++i) {
+    for(int j = 0; j < N; ++j) {
+      value_type mag = value_traits::fabs(M(i, j));
+      if(mag > scale) scale = mag;
+    }
+  }
+  value_type tolerance = value_traits::epsilon();
+  if(scale < value_type(1)) tolerance *= scale;
+
   /* For each column: */
   int flag = 1;
   for(int k = 0; k < N; ++k) {
@@ -60,7 +71,7 @@ lu_pivot_inplace(writable_matrix<Sub>& M, OrderArray& order)
     }
 
     /* Check for a singular matrix: */
-    if(max < value_traits::epsilon()) return 0;
+    if(max == value_type(0) || max < tolerance) return 0;
     // XXX should be configurable?
 
     /* Update order and swap rows: */
-- 
2.43.0


From 9aa7bb06054f657abb15a2fd20024dc923d05fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:21 +0000
Subject: [PATCH 45/49] fix: sums of vectors of different fixed sizes are
 rejected when compiled, as documented

---
 cml/vector/size_checking.h   | 17 +++++++++++++++--
 cml/vector/size_checking.tpp |  4 +++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/cml/vector/size_checking.h b/cml/vector/size_checking.h
index 2917897..1df7442 100644
--- a/cml/vector/size_checking.h
+++ b/cml/vector/size_checking.h
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <type_traits>
 #include <cml/common/mpl/int_c.h>
 #include <cml/common/mpl/enable_if_array.h>
 #include <cml/common/exception.h>
@@ -96,9 +97,19 @@ template<class Sub1, class Sub2>
 void check_same_size(const readable_vector<Sub1>& left, const Sub2& right,
   enable_if_array_t<Sub2>* = 0);
 
+namespace detail {
+
+/** Determine if a type derives from readable_vector. */
+template<class Sub>
+std::true_type is_readable_vector(const readable_vector<Sub>*);
+std::false_type is_readable_vector(...);
+
+}
+
 /** Front-end for run-time vector binary expression length checking.  The
  * first expression must derive from readable_vector, and the second must
- * implement a size() method for this overload to be enabled.
+ * implement a size() method, and must not derive from readable_vector, for
+ * this overload to be enabled.
  *
  * @tparam Sub1 the actual type of the first expression.
  * @tparam Sub2 the actual type of the second expression.
@@ -113,7 +124,9 @@ void check_same_size(const readable_vector<Sub1>& left, const Sub2& right,
  */
 template<class Sub1, class Sub2>
 auto check_same_size(const readable_vector<Sub1>& left, const Sub2& right)
-  -> decltype(right.size(), void());
+  -> typename std::enable_if<
+    !decltype(detail::is_readable_vector((const Sub2*) nullptr))::value,
+    decltype(right.size(), void())>::type;
 
 
 /** Front-end for minimum vector expression length checking against a
diff --git a/cml/vector/size_checking.tpp b/cml/vector/size_checking.tpp
index 4f5f256..7a47cd5 100644
--- a/cml/vector/size_checking.tpp
+++ b/cml/vector/size_checking.tpp
@@ -153,7 +153,9 @@ check_same_size(const readable_vector<Sub1>& left, const Sub2& right,
 template<class Sub1, class Sub2>
 auto
 check_same_size(const readable_vector<Sub1>& left, const Sub2& right)
-  -> decltype(right.size(), void())
+  -> typename std::enable_if<
+    !decltype(detail::is_readable_vector((const Sub2*) nullptr))::value,
+    decltype(right.size(), void())>::type
 {
   using tag1 = size_tag_of_t<Sub1>;
   using tag2 = dynamic_size_tag;  // dynamic/dynamic or fixed/dynamic.
-- 
2.43.0


From 29b579f5df0efe57bd3611c1f7075f6c0e941d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:21 +0000
Subject: [PATCH 46/49] fix: fixed-size vectors reject C arrays of another
 length when compiled, as documented

---
 cml/vector/writable_vector.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index c716df1..ed9b767 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -417,7 +417,7 @@ DT&
 writable_vector<DT>::assign(const Array& array)
 {
   static const int N = array_size_of_c<Array>::value;
-  detail::check_or_resize(*this, N);
+  detail::check_or_resize(*this, int_c<N>());
   for(int i = 0; i < N; ++i) this->put(i, array[i]);
   return this->actual();
 }
-- 
2.43.0


From 332b108d7828f17ec153c1bf55b01871c4135d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:35 +0000
Subject: [PATCH 47/49] fix: projections of integer bounds divide in the
 promoted type

---
 cml/mathlib/matrix/projection.tpp | 70 +++++++++++++++++--------------
 1 file changed, 39 insertions(+), 31 deletions(-)

diff --git a/cml/mathlib/matrix/projection.tpp b/cml/mathlib/matrix/projection.tpp
index c191d60..ff8f536 100644
--- a/cml/mathlib/matrix/projection.tpp
+++ b/cml/mathlib/matrix/projection.tpp
@@ -31,23 +31,24 @@ matrix_orthographic(writable_matrix<Sub>& m, E left, E right, E bottom, E top,
   /* Initialize: */
   m.identity();
 
-  auto inv_width = E(1) / (right - left);
-  auto inv_height = E(1) / (top - bottom);
-  auto inv_depth = E(1) / (f - n);
-  auto s = E(handedness == left_handed ? 1 : -1);
+  using scalar_type = value_type_trait_promote_t<Sub, E>;
+  auto inv_width = scalar_type(1) / (scalar_type(right) - left);
+  auto inv_height = scalar_type(1) / (scalar_type(top) - bottom);
+  auto inv_depth = scalar_type(1) / (scalar_type(f) - n);
+  auto s = scalar_type(handedness == left_handed ? 1 : -1);
 
   if(z_clip == z_clip_neg_one) {
-    m.set_basis_element(2, 2, s * E(2) * inv_depth);
-    m.set_basis_element(3, 2, -(f + n) * inv_depth);
+    m.set_basis_element(2, 2, s * scalar_type(2) * inv_depth);
+    m.set_basis_element(3, 2, (f + n) * -inv_depth);
   } else {  // z_clip.z_clip() == 0
     m.set_basis_element(2, 2, s * inv_depth);
-    m.set_basis_element(3, 2, -n * inv_depth);
+    m.set_basis_element(3, 2, n * -inv_depth);
   }
 
-  m.set_basis_element(0, 0, E(2) * inv_width);
-  m.set_basis_element(1, 1, E(2) * inv_height);
-  m.set_basis_element(3, 0, -(right + left) * inv_width);
-  m.set_basis_element(3, 1, -(top + bottom) * inv_height);
+  m.set_basis_element(0, 0, scalar_type(2) * inv_width);
+  m.set_basis_element(1, 1, scalar_type(2) * inv_height);
+  m.set_basis_element(3, 0, (right + left) * -inv_width);
+  m.set_basis_element(3, 1, (top + bottom) * -inv_height);
 }
 
 template<class Sub, class E>
@@ -71,10 +72,11 @@ inline void
 matrix_orthographic(writable_matrix<Sub>& m, E width, E height, E n, E f,
   AxisOrientation handedness, ZClip z_clip)
 {
-  auto half_width = width / E(2);
-  auto half_height = height / E(2);
-  matrix_orthographic(m, -half_width, half_width, -half_height, half_height, n,
-    f, handedness, z_clip);
+  using scalar_type = value_type_trait_promote_t<Sub, E>;
+  auto half_width = width / scalar_type(2);
+  auto half_height = height / scalar_type(2);
+  matrix_orthographic(m, -half_width, half_width, -half_height, half_height,
+    scalar_type(n), scalar_type(f), handedness, z_clip);
 }
 
 template<class Sub, class E>
@@ -108,15 +110,16 @@ matrix_perspective(writable_matrix<Sub>& m, E left, E right, E bottom, E top,
   /* Initialize: */
   m.identity();
 
-  auto inv_width = E(1) / (right - left);
-  auto inv_height = E(1) / (top - bottom);
-  auto inv_depth = E(1) / (f - n);
-  auto near2 = E(2) * n;
-  auto s = E(handedness == left_handed ? 1 : -1);
+  using scalar_type = value_type_trait_promote_t<Sub, E>;
+  auto inv_width = scalar_type(1) / (scalar_type(right) - left);
+  auto inv_height = scalar_type(1) / (scalar_type(top) - bottom);
+  auto inv_depth = scalar_type(1) / (scalar_type(f) - n);
+  auto near2 = scalar_type(2) * n;
+  auto s = scalar_type(handedness == left_handed ? 1 : -1);
 
   if(z_clip == z_clip_neg_one) {
     m.set_basis_element(2, 2, s * (f + n) * inv_depth);
-    m.set_basis_element(3, 2, -E(2) * f * n * inv_depth);
+    m.set_basis_element(3, 2, -scalar_type(2) * f * n * inv_depth);
   } else {  // z_clip == z_clip_zero
     m.set_basis_element(2, 2, s * f * inv_depth);
     m.set_basis_element(3, 2, -s * n * m.basis_element(2, 2));
@@ -151,10 +154,11 @@ inline void
 matrix_perspective(writable_matrix<Sub>& m, E width, E height, E n, E f,
   AxisOrientation handedness, ZClip z_clip)
 {
-  auto half_width = width / E(2);
-  auto half_height = height / E(2);
-  matrix_perspective(m, -half_width, half_width, -half_height, half_height, n,
-    f, handedness, z_clip);
+  using scalar_type = value_type_trait_promote_t<Sub, E>;
+  auto half_width = width / scalar_type(2);
+  auto half_height = height / scalar_type(2);
+  matrix_perspective(m, -half_width, half_width, -half_height, half_height,
+    scalar_type(n), scalar_type(f), handedness, z_clip);
 }
 
 template<class Sub, class E>
@@ -178,11 +182,13 @@ inline void
 matrix_perspective_xfov(writable_matrix<Sub>& m, E xfov, E aspect, E n, E f,
   AxisOrientation handedness, ZClip z_clip)
 {
-  using E_traits = scalar_traits<E>;
+  using scalar_type = value_type_trait_promote_t<Sub, E>;
+  using E_traits = scalar_traits<scalar_type>;
 
   /* Compute the view height from the field of view: */
-  auto width = E(2) * n * E_traits::tan(xfov / E(2));
-  matrix_perspective(m, width, width / aspect, n, f, handedness, z_clip);
+  auto width = scalar_type(2) * n * E_traits::tan(xfov / scalar_type(2));
+  matrix_perspective(m, width, width / aspect, scalar_type(n), scalar_type(f),
+    handedness, z_clip);
 }
 
 template<class Sub, class E>
@@ -206,11 +212,13 @@ inline void
 matrix_perspective_yfov(writable_matrix<Sub>& m, E yfov, E aspect, E n, E f,
   AxisOrientation handedness, ZClip z_clip)
 {
-  using E_traits = scalar_traits<E>;
+  using scalar_type = value_type_trait_promote_t<Sub, E>;
+  using E_traits = scalar_traits<scalar_type>;
 
   /* Compute the view height from the field of view: */
-  auto height = E(2) * n * E_traits::tan(yfov / E(2));
-  matrix_perspective(m, height * aspect, height, n, f, handedness, z_clip);
+  auto height = scalar_type(2) * n * E_traits::tan(yfov / scalar_type(2));
+  matrix_perspective(m, height * aspect, height, scalar_type(n),
+    scalar_type(f), handedness, z_clip);
 }
 
 template<class Sub, class E>
-- 
2.43.0


From 1a005acc86160f97a034f97981ad5b7cf26ecb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:35 +0000
Subject: [PATCH 48/49] fix: rotations and coordinates from integer angles use
 their sine and cosine, not their integer parts

---
 cml/mathlib/coordinate_conversion.tpp | 40 ++++++------
 cml/mathlib/matrix/rotation.tpp       | 87 ++++++++++++++++-----------
 cml/mathlib/quaternion/rotation.tpp   | 45 ++++++++------
 cml/mathlib/random_unit.tpp           |  5 +-
 cml/mathlib/vector/rotation.tpp       |  7 ++-
 5 files changed, 107 insertions(+), 77 deletions(-)

diff --git a/cml/mathlib/coordinate_conversion.tpp b/cml/mathlib/coordinate_conversion.tpp
index 9314f54..87c85d4 100644
--- a/cml/mathlib/coordinate_conversion.tpp
+++ b/cml/mathlib/coordinate_conversion.tpp
@@ -18,14 +18,15 @@ template<class Sub, class E0, class E1>
 inline void
 polar_to_cartesian(writable_vector<Sub>& v, E0 radius, E1 theta)
 {
-  using theta_traits = scalar_traits<E1>;
+  using theta_type = value_type_trait_promote_t<Sub, E1>;
+  using theta_traits = scalar_traits<theta_type>;
 
   static_assert(cml::are_convertible<value_type_trait_of_t<Sub>, E0, E1>::value,
     "incompatible scalar types");
   cml::check_size(v, int_c<2>());
 
-  v[0] = theta_traits::cos(theta) * radius;
-  v[1] = theta_traits::sin(theta) * radius;
+  v[0] = theta_traits::cos(theta_type(theta)) * radius;
+  v[1] = theta_traits::sin(theta_type(theta)) * radius;
 }
 
 template<class E, class Sub>
@@ -40,7 +41,8 @@ inline void
 cylindrical_to_cartesian(writable_vector<Sub>& v, int axis, E0 radius, E1 theta,
   E2 height)
 {
-  using theta_traits = scalar_traits<E1>;
+  using theta_type = value_type_trait_promote_t<Sub, E1>;
+  using theta_traits = scalar_traits<theta_type>;
 
   static_assert(
     cml::are_convertible<value_type_trait_of_t<Sub>, E0, E1, E2>::value,
@@ -57,8 +59,8 @@ cylindrical_to_cartesian(writable_vector<Sub>& v, int axis, E0 radius, E1 theta,
 
   /* Initialize the vector: */
   v[i] = height;
-  v[j] = theta_traits::cos(theta) * radius;
-  v[k] = theta_traits::sin(theta) * radius;
+  v[j] = theta_traits::cos(theta_type(theta)) * radius;
+  v[k] = theta_traits::sin(theta_type(theta)) * radius;
 }
 
 template<class E, class Sub>
@@ -74,8 +76,10 @@ inline void
 spherical_to_cartesian(writable_vector<Sub>& v, int axis, LatitudeType type,
   E0 radius, E1 theta, E2 phi)
 {
-  using theta_traits = scalar_traits<E1>;
-  using phi_traits = scalar_traits<E2>;
+  using theta_type = value_type_trait_promote_t<Sub, E1>;
+  using theta_traits = scalar_traits<theta_type>;
+  using phi_type = value_type_trait_promote_t<Sub, E2>;
+  using phi_traits = scalar_traits<phi_type>;
 
   static_assert(
     cml::are_convertible<value_type_trait_of_t<Sub>, E0, E1, E2>::value,
@@ -84,10 +88,12 @@ spherical_to_cartesian(writable_vector<Sub>& v, int axis, LatitudeType type,
     "axis must be 0, 1, or 2");
   cml::check_size(v, int_c<3>());
 
-  if(type == latitude) phi = constants<E2>::pi_over_2() - phi;
+  phi_type colatitude_phi(phi);
+  if(type == latitude)
+    colatitude_phi = constants<phi_type>::pi_over_2() - colatitude_phi;
 
-  auto sin_phi = phi_traits::sin(phi);
-  auto cos_phi = phi_traits::cos(phi);
+  auto sin_phi = phi_traits::sin(colatitude_phi);
+  auto cos_phi = phi_traits::cos(colatitude_phi);
   auto sin_phi_r = sin_phi * radius;
 
   /* Make i = axis, and (j,k) equal to the other axis in cyclic order from
@@ -98,8 +104,8 @@ spherical_to_cartesian(writable_vector<Sub>& v, int axis, LatitudeType type,
 
   /* Initialize the vector: */
   v[i] = cos_phi * radius;
-  v[j] = sin_phi_r * theta_traits::cos(theta);
-  v[k] = sin_phi_r * theta_traits::sin(theta);
+  v[j] = sin_phi_r * theta_traits::cos(theta_type(theta));
+  v[k] = sin_phi_r * theta_traits::sin(theta_type(theta));
 }
 
 template<class E, class Sub>
@@ -117,7 +123,7 @@ inline void
 cartesian_to_polar(const readable_vector<Sub>& v, E0& radius, E1& theta,
   Tol tolerance)
 {
-  using value_type = value_type_trait_of_t<Sub>;
+  using value_type = value_type_trait_promote_t<Sub, E0, E1>;
   using value_traits = scalar_traits<value_type>;
 
   static_assert(
@@ -127,7 +133,7 @@ cartesian_to_polar(const readable_vector<Sub>& v, E0& radius, E1& theta,
 
   /* radius and theta may be elements of v: */
   value_type x = v[0], y = v[1];
-  radius = v.length();
+  radius = E0(cml::length(x, y));
   theta = radius < tolerance ? E1(0) : E1(value_traits::atan2(y, x));
 }
 
@@ -145,7 +151,7 @@ inline void
 cartesian_to_cylindrical(const readable_vector<Sub>& v, int axis, E0& radius,
   E1& theta, E2& height, Tol tolerance)
 {
-  using value_type = value_type_trait_of_t<Sub>;
+  using value_type = value_type_trait_promote_t<Sub, E0, E1, E2>;
   using value_traits = scalar_traits<value_type>;
 
   static_assert(
@@ -191,7 +197,7 @@ inline void
 cartesian_to_spherical(const readable_vector<Sub>& v, int axis,
   LatitudeType type, E0& radius, E1& theta, E2& phi, Tol tolerance)
 {
-  using value_type = value_type_trait_of_t<Sub>;
+  using value_type = value_type_trait_promote_t<Sub, E0, E1, E2>;
   using value_traits = scalar_traits<value_type>;
 
   static_assert(
diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index 88413d2..2775483 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -26,7 +26,8 @@ matrix_rotation_2D(writable_matrix<Sub>& m, E angle)
   static_assert(cml::are_convertible<value_type_trait_of_t<Sub>, E>::value,
     "incompatible scalar types");
 
-  using angle_traits = scalar_traits<E>;
+  using angle_type = value_type_trait_promote_t<Sub, E>;
+  using angle_traits = scalar_traits<angle_type>;
 
   cml::check_linear_2D(m);
 
@@ -34,8 +35,8 @@ matrix_rotation_2D(writable_matrix<Sub>& m, E angle)
   m.identity();
 
   /* Initialize m: */
-  auto s = angle_traits::sin(angle);
-  auto c = angle_traits::cos(angle);
+  auto s = angle_traits::sin(angle_type(angle));
+  auto c = angle_traits::cos(angle_type(angle));
   m.set_basis_element(0, 0, c);
   m.set_basis_element(0, 1, s);
   m.set_basis_element(1, 0, -s);
@@ -74,7 +75,8 @@ matrix_rotation_world_axis(writable_matrix<Sub>& m, int axis, const E& angle)
   static_assert(cml::are_convertible<value_type_trait_of_t<Sub>, E>::value,
     "incompatible scalar types");
 
-  using angle_traits = traits_of_t<E>;
+  using angle_type = value_type_trait_promote_t<Sub, E>;
+  using angle_traits = scalar_traits<angle_type>;
 
   cml::check_linear_3D(m);
   cml_require(0 <= axis && axis <= 2, std::invalid_argument, "invalid axis");
@@ -82,8 +84,8 @@ matrix_rotation_world_axis(writable_matrix<Sub>& m, int axis, const E& angle)
   /* Setup sin() and cos() for the chosen axis: */
   int i, j, k;
   cml::cyclic_permutation(axis, i, j, k);
-  auto s = angle_traits::sin(angle);
-  auto c = angle_traits::cos(angle);
+  auto s = angle_traits::sin(angle_type(angle));
+  auto c = angle_traits::cos(angle_type(angle));
 
   /* Clear the matrix: */
   m.identity();
@@ -126,7 +128,8 @@ matrix_rotation_axis_angle(writable_matrix<Sub>& m,
       value_type_trait_of_t<ASub>, E>::value,
     "incompatible scalar types");
 
-  using angle_traits = scalar_traits<E>;
+  using angle_type = value_type_trait_promote_t<Sub, E>;
+  using angle_traits = scalar_traits<angle_type>;
 
   cml::check_linear_3D(m);
   cml::check_size(axis, int_c<3>());
@@ -135,8 +138,8 @@ matrix_rotation_axis_angle(writable_matrix<Sub>& m,
   m.identity();
 
   /* Precompute values: */
-  auto s = angle_traits::sin(angle);
-  auto c = angle_traits::cos(angle);
+  auto s = angle_traits::sin(angle_type(angle));
+  auto c = angle_traits::cos(angle_type(angle));
   auto omc = E(1) - c;
 
   auto xomc = axis[0] * omc;
@@ -174,9 +177,12 @@ matrix_rotation_euler(writable_matrix<Sub>& m, E0 angle_0, E1 angle_1,
     cml::are_convertible<value_type_trait_of_t<Sub>, E0, E1, E2>::value,
     "incompatible scalar types");
 
-  using angle0_traits = scalar_traits<E0>;
-  using angle1_traits = scalar_traits<E1>;
-  using angle2_traits = scalar_traits<E2>;
+  using angle0_type = value_type_trait_promote_t<Sub, E0>;
+  using angle1_type = value_type_trait_promote_t<Sub, E1>;
+  using angle2_type = value_type_trait_promote_t<Sub, E2>;
+  using angle0_traits = scalar_traits<angle0_type>;
+  using angle1_traits = scalar_traits<angle1_type>;
+  using angle2_traits = scalar_traits<angle2_type>;
 
   cml::check_linear_3D(m);
 
@@ -187,18 +193,22 @@ matrix_rotation_euler(writable_matrix<Sub>& m, E0 angle_0, E1 angle_1,
   bool odd, repeat;
   cml::unpack_euler_order(order, i, j, k, odd, repeat);
 
+  angle0_type a0(angle_0);
+  angle1_type a1(angle_1);
+  angle2_type a2(angle_2);
+
   if(odd) {
-    angle_0 = -angle_0;
-    angle_1 = -angle_1;
-    angle_2 = -angle_2;
+    a0 = -a0;
+    a1 = -a1;
+    a2 = -a2;
   }
 
-  auto s0 = angle0_traits::sin(angle_0);
-  auto c0 = angle0_traits::cos(angle_0);
-  auto s1 = angle1_traits::sin(angle_1);
-  auto c1 = angle1_traits::cos(angle_1);
-  auto s2 = angle2_traits::sin(angle_2);
-  auto c2 = angle2_traits::cos(angle_2);
+  auto s0 = angle0_traits::sin(a0);
+  auto c0 = angle0_traits::cos(a0);
+  auto s1 = angle1_traits::sin(a1);
+  auto c1 = angle1_traits::cos(a1);
+  auto s2 = angle2_traits::sin(a2);
+  auto c2 = angle2_traits::cos(a2);
 
   auto s0s2 = s0 * s2;
   auto s0c2 = s0 * c2;
@@ -246,9 +256,12 @@ matrix_rotation_euler_derivatives(writable_matrix<Sub>& m, int axis, E0 angle_0,
     cml::are_convertible<value_type_trait_of_t<Sub>, E0, E1, E2>::value,
     "incompatible scalar types");
 
-  using angle0_traits = scalar_traits<E0>;
-  using angle1_traits = scalar_traits<E1>;
-  using angle2_traits = scalar_traits<E2>;
+  using angle0_type = value_type_trait_promote_t<Sub, E0>;
+  using angle1_type = value_type_trait_promote_t<Sub, E1>;
+  using angle2_type = value_type_trait_promote_t<Sub, E2>;
+  using angle0_traits = scalar_traits<angle0_type>;
+  using angle1_traits = scalar_traits<angle1_type>;
+  using angle2_traits = scalar_traits<angle2_type>;
 
   cml_require(0 <= axis && axis <= 2, std::invalid_argument,
     "axis must be 0, 1, or 2");
@@ -262,18 +275,22 @@ matrix_rotation_euler_derivatives(writable_matrix<Sub>& m, int axis, E0 angle_0,
   /* Initialize: */
   m.identity();
 
+  angle0_type a0(angle_0);
+  angle1_type a1(angle_1);
+  angle2_type a2(angle_2);
+
   if(odd) {
-    angle_0 = -angle_0;
-    angle_1 = -angle_1;
-    angle_2 = -angle_2;
+    a0 = -a0;
+    a1 = -a1;
+    a2 = -a2;
   }
 
-  auto s0 = angle0_traits::sin(angle_0);
-  auto c0 = angle0_traits::cos(angle_0);
-  auto s1 = angle1_traits::sin(angle_1);
-  auto c1 = angle1_traits::cos(angle_1);
-  auto s2 = angle2_traits::sin(angle_2);
-  auto c2 = angle2_traits::cos(angle_2);
+  auto s0 = angle0_traits::sin(a0);
+  auto c0 = angle0_traits::cos(a0);
+  auto s1 = angle1_traits::sin(a1);
+  auto c1 = angle1_traits::cos(a1);
+  auto s2 = angle2_traits::sin(a2);
+  auto c2 = angle2_traits::cos(a2);
 
   auto s0s2 = s0 * s2;
   auto s0c2 = s0 * c2;
@@ -425,7 +442,7 @@ matrix_to_axis_angle(const readable_matrix<Sub>& m, writable_vector<ASub>& axis,
       value_type_trait_of_t<ASub>, E, Tol>::value,
     "incompatible scalar types");
 
-  using value_type = value_type_trait_of_t<Sub>;
+  using value_type = value_type_trait_promote_t<Sub, ASub, E>;
   using value_traits = scalar_traits<value_type>;
   using asub_type = value_type_trait_of_t<ASub>;
 
@@ -525,7 +542,7 @@ matrix_to_euler(const readable_matrix<Sub>& m, E0& angle_0, E1& angle_1,
     cml::are_convertible<value_type_trait_of_t<Sub>, E0, E1, E2, Tol>::value,
     "incompatible scalar types");
 
-  using value_type = value_type_trait_of_t<Sub>;
+  using value_type = value_type_trait_promote_t<Sub, E0, E1, E2>;
   using value_traits = scalar_traits<value_type>;
 
   cml::check_linear_3D(m);
diff --git a/cml/mathlib/quaternion/rotation.tpp b/cml/mathlib/quaternion/rotation.tpp
index 98766e7..98ae76d 100644
--- a/cml/mathlib/quaternion/rotation.tpp
+++ b/cml/mathlib/quaternion/rotation.tpp
@@ -25,13 +25,14 @@ quaternion_rotation_world_axis(writable_quaternion<Sub>& q, int axis, E angle)
     "incompatible scalar types");
 
   using order_type = order_type_trait_of_t<Sub>;
-  using angle_traits = traits_of_t<E>;
+  using angle_type = value_type_trait_promote_t<Sub, E>;
+  using angle_traits = scalar_traits<angle_type>;
 
   cml_require(0 <= axis && axis <= 2, std::invalid_argument, "invalid axis");
 
   q.identity();
-  q[order_type::W] = angle_traits::cos(angle / E(2));
-  q[order_type::X + axis] = angle_traits::sin(angle / E(2));
+  q[order_type::W] = angle_traits::cos(angle / angle_type(2));
+  q[order_type::X + axis] = angle_traits::sin(angle / angle_type(2));
 }
 
 template<class Sub, class E>
@@ -65,11 +66,12 @@ quaternion_rotation_axis_angle(writable_quaternion<Sub>& q,
       value_type_trait_of_t<ASub>, E>::value,
     "incompatible scalar types");
 
-  using angle_traits = traits_of_t<E>;
+  using angle_type = value_type_trait_promote_t<Sub, E>;
+  using angle_traits = scalar_traits<angle_type>;
 
   cml::check_size(axis, int_c<3>());
-  q.set(angle_traits::cos(angle / E(2)),
-    angle_traits::sin(angle / E(2)) * axis);
+  q.set(angle_traits::cos(angle / angle_type(2)),
+    angle_traits::sin(angle / angle_type(2)) * axis);
 }
 
 template<class Sub, class MSub>
@@ -85,7 +87,7 @@ quaternion_rotation_matrix(writable_quaternion<Sub>& q,
   using order_type = order_type_trait_of_t<Sub>;
   using value_type = value_type_trait_of_t<Sub>;
   using value_traits = traits_of_t<value_type>;
-  using M_type = value_type_trait_of_t<MSub>;
+  using M_type = value_type_trait_promote_t<Sub, MSub>;
   using M_traits = traits_of_t<M_type>;
 
   cml::check_minimum_size(m, int_c<3>(), int_c<3>());
@@ -135,9 +137,12 @@ quaternion_rotation_euler(writable_quaternion<Sub>& q, E0 angle_0, E1 angle_1,
     "incompatible scalar types");
 
   using order_type = order_type_trait_of_t<Sub>;
-  using angle0_traits = scalar_traits<E0>;
-  using angle1_traits = scalar_traits<E1>;
-  using angle2_traits = scalar_traits<E2>;
+  using angle0_type = value_type_trait_promote_t<Sub, E0>;
+  using angle1_type = value_type_trait_promote_t<Sub, E1>;
+  using angle2_type = value_type_trait_promote_t<Sub, E2>;
+  using angle0_traits = scalar_traits<angle0_type>;
+  using angle1_traits = scalar_traits<angle1_type>;
+  using angle2_traits = scalar_traits<angle2_type>;
 
   int i, j, k;
   bool odd, repeat;
@@ -148,18 +153,18 @@ quaternion_rotation_euler(writable_quaternion<Sub>& q, E0 angle_0, E1 angle_1,
   const int J = order_type::X + j;
   const int K = order_type::X + k;
 
-  if(odd) angle_1 = -angle_1;
+  angle0_type a0 = angle_0 / angle0_type(2);
+  angle1_type a1 = angle_1 / angle1_type(2);
+  angle2_type a2 = angle_2 / angle2_type(2);
 
-  angle_0 /= E0(2);
-  angle_1 /= E1(2);
-  angle_2 /= E2(2);
+  if(odd) a1 = -a1;
 
-  auto s0 = angle0_traits::sin(angle_0);
-  auto c0 = angle0_traits::cos(angle_0);
-  auto s1 = angle1_traits::sin(angle_1);
-  auto c1 = angle1_traits::cos(angle_1);
-  auto s2 = angle2_traits::sin(angle_2);
-  auto c2 = angle2_traits::cos(angle_2);
+  auto s0 = angle0_traits::sin(a0);
+  auto c0 = angle0_traits::cos(a0);
+  auto s1 = angle1_traits::sin(a1);
+  auto c1 = angle1_traits::cos(a1);
+  auto s2 = angle2_traits::sin(a2);
+  auto c2 = angle2_traits::cos(a2);
 
   auto s0s2 = s0 * s2;
   auto s0c2 = s0 * c2;
diff --git a/cml/mathlib/random_unit.tpp b/cml/mathlib/random_unit.tpp
index d6f5519..175bae3 100644
--- a/cml/mathlib/random_unit.tpp
+++ b/cml/mathlib/random_unit.tpp
@@ -22,10 +22,11 @@ void
 random_unit(writable_vector<Sub1>& n, const readable_vector<Sub2>& d,
   const Scalar& a, cml::int_c<2>)
 {
-  using theta_traits = scalar_traits<Scalar>;
+  using theta_type = value_type_trait_promote_t<Sub1, Scalar>;
+  using theta_traits = scalar_traits<theta_type>;
 
   /* Generate a uniformly random angle in [-a,a]: */
-  auto theta = cml::random_real(-a, a);
+  auto theta = cml::random_real(-theta_type(a), theta_type(a));
 
   /* sin(theta) and cos(theta): */
   auto st = theta_traits::sin(theta);
diff --git a/cml/mathlib/vector/rotation.tpp b/cml/mathlib/vector/rotation.tpp
index 529f4e6..589e2da 100644
--- a/cml/mathlib/vector/rotation.tpp
+++ b/cml/mathlib/vector/rotation.tpp
@@ -22,14 +22,15 @@ rotate_vector(const readable_vector<Sub1>& v, const readable_vector<Sub2>& n,
       value_type_trait_of_t<Sub2>, E>::value,
     "incompatible scalar types");
 
-  using angle_traits = scalar_traits<E>;
+  using angle_type = value_type_trait_promote_t<Sub1, Sub2, E>;
+  using angle_traits = scalar_traits<angle_type>;
 
   cml::check_size(v, cml::int_c<3>());
   cml::check_size(n, cml::int_c<3>());
 
   auto parallel = dot(v, n) * n;
-  auto sin_angle = angle_traits::sin(angle);
-  auto cos_angle = angle_traits::cos(angle);
+  auto sin_angle = angle_traits::sin(angle_type(angle));
+  auto cos_angle = angle_traits::cos(angle_type(angle));
   return cos_angle * (v - parallel) + sin_angle * cross(n, v) + parallel;
 }
 
-- 
2.43.0


From a45f2fa1e07b839da6cdf74fbf93bdc06cd9f0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:35 +0000
Subject: [PATCH 49/49] fix: unit axes, signed angles and skew elements of
 integer operands are computed in the promoted type

---
 cml/mathlib/matrix/misc.tpp      | 2 +-
 cml/mathlib/matrix/transform.tpp | 4 +++-
 cml/mathlib/vector/angle.tpp     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/cml/mathlib/matrix/misc.tpp b/cml/mathlib/matrix/misc.tpp
index 1a0d335..53ef980 100644
--- a/cml/mathlib/matrix/misc.tpp
+++ b/cml/mathlib/matrix/misc.tpp
@@ -53,7 +53,7 @@ matrix_skew_symmetric_2D(writable_matrix<Sub1>& m, Scalar s)
 
   m.zero();
   m.set_basis_element(0, 1, s);
-  m.set_basis_element(1, 0, -s);
+  m.set_basis_element(1, 0, -m.basis_element(0, 1));
 }
 
 }  // namespace cml
\ No newline at end of file
diff --git a/cml/mathlib/matrix/transform.tpp b/cml/mathlib/matrix/transform.tpp
index bd50a9f..f968a16 100644
--- a/cml/mathlib/matrix/transform.tpp
+++ b/cml/mathlib/matrix/transform.tpp
@@ -96,7 +96,9 @@ matrix_affine_transform(writable_matrix<Sub>& m,
   cml::check_affine_3D(m);
   cml::check_size_range(translation, int_c<2>(), int_c<3>());
   if(normalize) {
-    cml::matrix_rotation_axis_angle(m, cml::normalize(axis), angle);
+    using axis_type = value_type_trait_promote_t<Sub, ASub>;
+    cml::matrix_rotation_axis_angle(m,
+      axis / scalar_traits<axis_type>::sqrt(axis.length_squared()), angle);
   } else {
     cml::matrix_rotation_axis_angle(m, axis, angle);
   }
diff --git a/cml/mathlib/vector/angle.tpp b/cml/mathlib/vector/angle.tpp
index 5b726c6..c24cdc8 100644
--- a/cml/mathlib/vector/angle.tpp
+++ b/cml/mathlib/vector/angle.tpp
@@ -42,7 +42,8 @@ signed_angle(const readable_vector<Sub1>& v1, const readable_vector<Sub2>& v2,
   using value_traits = scalar_traits<value_type>;
 
   auto c = cross(v1, v2);
-  auto angle = value_traits::atan2(c.length(), dot(v1, v2));
+  auto length_c = value_traits::sqrt(c.length_squared());
+  auto angle = value_traits::atan2(length_c, dot(v1, v2));
   return (dot(c, reference) < value_type(0)) ? -angle : angle;
 }
 
-- 
2.43.0

