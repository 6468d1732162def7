#include "inputs.h"
#include <cml/util/matrix_print.h>
namespace {
using namespace cml;
using sx::own; using sx::put; using sx::text;

template<class K> void mat_ops()
{
  OP("m_copy", auto m = own(x.m33); put(o, m));
  OP("m_assign", auto m = own(x.m33); m = x.n33; put(o, m));
  OP("m_assign_cross_layout", auto m = own(x.w33); m = x.n33; put(o, m));
  OP("m_assign_expr", auto m = own(x.m33); m = x.m33 * 2. + x.n33; put(o, m));
  OP("m_assign_list", auto m = own(x.m22); m = {1., 2., 3., 4.}; put(o, m));
  OP("m_set", auto m = own(x.m22); m = {1., 2., 3., 4.}; m(0, 1) = x.x; put(o, m));
  OP("m_put", auto m = own(x.m33); m.put(1, 2, 9.); m(2, 1) = 8.; put(o, m));
  OP("m_set_row_col", auto m = own(x.m33); m.set_row(1, x.a3); m.set_col(2, x.b3); put(o, m));
  OP("m_set_basis_element", auto m = own(x.w33); m.set_basis_element(1, 2, 4.); put(o, m); o(x.w33.basis_element(2, 0)); o(x.w33.basis_count()));
  OP("m_add", put(o, x.m33 + x.n33)); 
  OP("m_sub", put(o, x.m33 - x.n33));
  OP("m_neg", put(o, -x.m34); put(o, +x.m34));
  OP("m_scale", put(o, x.m23 * 2.); put(o, 2. * x.m23); put(o, x.m23 / 2.));
  OP("m_add_assign", auto m = own(x.m44); m += x.n44; put(o, m));
  OP("m_sub_assign", auto m = own(x.m44); m -= x.n44; put(o, m));
  OP("m_scale_assign", auto m = own(x.m44); m *= 2.; m /= 3.; put(o, m));
  OP("m_mul22", put(o, x.m22 * x.n22));
  OP("m_mul33", put(o, x.m33 * x.n33));
  OP("m_mul44", put(o, x.m44 * x.n44));
  OP("m_mul_rect", put(o, x.m23 * x.m34));
  OP("m_mul_layouts", put(o, x.w44 * x.w44));
  OP("m_mul_chain", put(o, x.m33 * x.n33 * x.m33));
  OP("m_mul_vec", put(o, x.m33 * x.a3); put(o, x.b3 * x.m33));
  OP("m_mul_vec_rect", put(o, x.m34 * x.a4); put(o, x.a3 * x.m34));
  OP("m_hadamard", put(o, cml::hadamard(x.m33, x.n33)));
  OP("m_outer_assign", auto m = own(x.m33); m = outer(x.a3, x.b3); put(o, m));
  OP("m_transpose", put(o, transpose(x.m34)); put(o, transpose(x.m33)));
  OP("m_transpose_own", auto m = own(x.m33); m.transpose(); put(o, m));
  OP("m_inverse22", put(o, inverse(x.m22)));
  OP("m_inverse33", put(o, inverse(x.m33)));
  OP("m_inverse44", put(o, inverse(x.m44)));
  OP("m_inverse_own", auto m = own(x.m44); m.inverse(); put(o, m));
  OP("m_determinant", o(determinant(x.m22)); o(determinant(x.m33)); o(determinant(x.m44)); o(x.m44.determinant()));
  OP("m_big_inverse", matrix<double, compiled<5, 5>> m; m.identity(); for(int i = 0; i < 5; ++i) for(int j = 0; j < i; ++j) m(i, j) = x.x * (i + j); put(o, inverse(m)); o(determinant(m)); o(determinant(m * 2.)));
  OP("m_dynamic_inverse", matrix<double, dynamic<>> m(5, 5); m.identity(); for(int i = 0; i < 5; ++i) for(int j = 0; j < i; ++j) m(i, j) = x.x * (i + j); put(o, inverse(m)); o(determinant(m)));
  OP("m_int_determinant", matrix<int, compiled<5, 5>> m; for(int i = 0; i < 5; ++i) for(int j = 0; j < 5; ++j) m(i, j) = (i * 7 + j * j * 3) % 5 - (i == j); o(determinant(m)));
  OP("m_trace", o(trace(x.m33)); o(x.m44.trace()); o(trace_2x2(x.m44)); o(trace_3x3(x.m44)));
  OP("m_lu", put(o, lu(x.m33)));
  OP("m_lu_solve", put(o, lu_solve(lu(x.m33), x.a3)));
  OP("m_lu_pivot", auto r = lu_pivot(x.m44); put(o, r.lu); o(r.sign); for(int i : r.order) o(i));
  OP("m_lu_pivot_solve", put(o, lu_solve(lu_pivot(x.m44), x.a4)));
  OP("m_lu_singular", auto m = own(x.m33); m.zero(); put(o, lu_solve(lu_pivot(m), x.a3)));
  OP("m_row_col", put(o, row(x.m34, 1)); put(o, col(x.m34, 2)));
  OP("m_basis_view", put(o, basis(x.w33, 1)); put(o, basis(x.m33, 0)));
  OP("m_compare", o(x.m33 == x.n33); o(x.m33 != x.n33); o(x.m33 == x.m33));
  OP("m_read", for(int i = 0; i < 3; ++i) for(int j = 0; j < 4; ++j) { o(x.m34(i, j)); o(x.m34.get(i, j)); } o(x.m34.rows()); o(x.m34.size().first); o(x.m34.data()[3]));
  OP("m_identity_zero", auto m = own(x.m44); m.zero(); put(o, m); m.identity(); put(o, m); m.fill(3.); put(o, m));
  OP("m_print", put(o, text(x.m22)); put(o, text(x.w33)));
  OP("m_dynamic_growth", matrix<double, dynamic<>> m; m.resize(2, 2); m.zero(); m = x.m34; put(o, m); m.resize(1, 1); o(m.rows()));
  OP("m_dynamic_move", matrix<double, dynamic<>> m(x.m34); matrix<double, dynamic<>> w(std::move(m)); put(o, w); m = x.m22; put(o, m));
  OP("m_external_write", double b[9] = {0}; matrix<double, external<3, 3>> m(b); m = x.m33 * x.n33; for(double d : b) o(d));
  OP("m_size_error", matrix<double, dynamic<>> m(x.m34); put(o, m * m));
  OP("m_not_square", matrix<double, dynamic<>> m(x.m34); put(o, inverse(m)));
  OPR("m_random", auto m = own(x.m33); m.random(0., 1.); o(m.rows()));
  OP("m_float_mix", matrix<float, compiled<3, 3>> m(x.m33); put(o, m * x.n33));

  OP("m_generators", put(o, identity_2x2()); put(o, identity_3x3()); put(o, identity_4x4()); put(o, zero_3x3()); put(o, zero_4x4()); put(o, zero_2x2()));
  OP("m_concat", put(o, matrix_concat(x.m33, x.n33)); put(o, matrix_concat(x.w33, x.w33)));
  OP("m_skew", auto m = own(x.m33); matrix_skew_symmetric(m, x.a3); put(o, m); auto k = own(x.m22); matrix_skew_symmetric_2D(k, x.x); put(o, k));
  OP("m_invert_RT", auto m = own(x.w44); matrix_invert_RT(m); put(o, m); auto k = own(x.w44); matrix_invert_RT_only(k); put(o, k); auto l = own(x.m33); matrix_invert_RT_only_2D(l); put(o, l));
  OP("m_set_basis", auto m = own(x.w33); matrix_set_basis_vectors(m, x.a3, x.b3, x.c3); put(o, m); matrix_set_x_basis_vector(m, x.b3); matrix_set_y_basis_vector(m, x.c3); matrix_set_z_basis_vector(m, x.a3); put(o, m); matrix_set_basis_vector(m, 1, x.a3); put(o, m));
  OP("m_set_transposed_basis", auto m = own(x.w33); matrix_set_transposed_basis_vectors(m, x.a3, x.b3, x.c3); put(o, m); matrix_set_transposed_x_basis_vector(m, x.b3); matrix_set_transposed_basis_vector(m, 2, x.b3); put(o, m));
  OP("m_get_basis", auto a = own(x.a3); auto b = own(x.a3); auto c = own(x.a3); matrix_get_basis_vectors(x.w44, a, b, c); put(o, a); put(o, b); put(o, c); put(o, matrix_get_x_basis_vector(x.w33)); put(o, matrix_get_y_basis_vector(x.w33)); put(o, matrix_get_z_basis_vector(x.w33)); put(o, matrix_get_basis_vector(x.w33, 1)));
  OP("m_get_transposed_basis", auto a = own(x.a3); auto b = own(x.a3); auto c = own(x.a3); matrix_get_transposed_basis_vectors(x.w44, a, b, c); put(o, a); put(o, b); put(o, c); put(o, matrix_get_transposed_x_basis_vector(x.w33)); put(o, matrix_get_transposed_basis_vector(x.w33, 1)));
  OP("m_basis_2D", auto m = own(x.m33); matrix_set_basis_vectors_2D(m, x.a2, x.b2); put(o, m); matrix_set_x_basis_vector_2D(m, x.b2); matrix_set_transposed_y_basis_vector_2D(m, x.b2); put(o, m); put(o, matrix_get_x_basis_vector_2D(m)); put(o, matrix_get_transposed_y_basis_vector_2D(m)); auto a = own(x.a2); auto b = own(x.a2); matrix_get_basis_vectors_2D(m, a, b); put(o, a); put(o, b));
  OP("m_basis_nD", put(o, matrix_get_basis_vector_nD(x.w44, 2)));
  OP("m_scale_map", auto m = own(x.m44); matrix_scale(m, x.x, x.y, x.z); put(o, m); matrix_scale(m, x.a3); put(o, m); matrix_uniform_scale(m, x.z); put(o, m); matrix_inverse_scale(m, x.x, x.y, x.z); put(o, m); matrix_inverse_scale(m, x.a3); put(o, m));
  OP("m_scale_2D", auto m = own(x.m33); matrix_scale_2D(m, x.x, x.y); put(o, m); matrix_scale_2D(m, x.a2); matrix_uniform_scale_2D(m, x.z); put(o, m); matrix_inverse_scale_2D(m, x.x, x.y); put(o, m));
  OP("m_translation", auto m = own(x.w44); matrix_translation(m, x.a3); put(o, m); matrix_translation(m, x.x, x.y, x.z); matrix_set_translation(m, x.b3); put(o, m); put(o, matrix_get_translation(x.w44)); double a; double b; double c; matrix_get_translation(x.w44, a, b, c); o(a); o(b); o(c));
  OP("m_translation_2D", auto m = own(x.m33); matrix_translation_2D(m, x.a2); put(o, m); matrix_set_translation_2D(m, x.x, x.y); put(o, m); put(o, matrix_get_translation_2D(m)));
  OP("m_linear_transform", auto m = own(x.w44); matrix_linear_transform(m, x.rot); put(o, m));
  OP("m_affine_transform", auto m = own(x.w44); matrix_affine_transform(m, x.a3, x.x, x.b3, true); put(o, m); matrix_affine_transform(m, x.rot, x.b3); put(o, m));
  OP("m_look_at", auto m = own(x.w44); matrix_look_at_LH(m, x.a3, x.b3, x.c3); put(o, m); matrix_look_at_RH(m, x.a3, x.b3, x.c3); put(o, m); auto k = own(x.m44); matrix_look_at(k, x.a3, x.b3, x.c3, right_handed); put(o, k));
  OP("m_check_affine", check_affine_3D(x.w44); check_linear_3D(x.w33); check_affine_2D(x.m33); check_linear_2D(x.m22); o(1));
}
} // namespace
