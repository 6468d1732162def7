// C04: the geometry library's functions over every run-time matrix shape and
// every size of their vector arguments.
#pragma once
#include "sizes.h"

namespace {
using namespace sz;
using V = cml::vectord;
using V3 = cml::vector3d;

#ifdef MC_THOROUGH
constexpr int RC = 6, VS = 6;
#else
constexpr int RC = 6, VS = 5; // shapes 0..5 x 0..5, vector sizes 0..4
#endif

constexpr int ANYV = VINC | VMIN | VSIZE | VRANGE;

// B, L: basis and layout of the matrix.
template<class B, class L> struct Lib
{
  using M = cml::matrix<double, cml::dynamic<>, B, L>;
  static constexpr bool ROW = std::is_same<B, cml::row_basis>::value;
  int sel, at = 0, r, c;

  // Minimum shapes, in terms of basis vectors x elements.
  bool lin(int n) const { return r >= n && c >= n; }
  bool aff(int n) const { return ROW ? (r >= n + 1 && c >= n) : (c >= n + 1 && r >= n); }

  // mreq: is the matrix large enough?  merr: the error when it is not.
  template<class F> void m(const char* op, bool mreq, int merr, F f)
  {
    if(at++ != sel) return;
    M a(r, c);
    MatInit<void>::set(a);
    const int got = run([&] { f(a); });
    expect(op, got, mreq ? OK : merr);
    if(got != OK) unchanged(op, a, r, c, "matrix");
    mc::state(mc::Hash()(r)(c)(got)(sel));
  }
  // One vector argument.
  template<class F> void mv(const char* op, bool mreq, int merr, int lo, int hi, F f)
  {
    if(at++ != sel) return;
    const int n = mc::choose(VS);
    M a(r, c);
    MatInit<void>::set(a);
    Dyn v(n);
    const int got = run([&] { f(a, v.v); });
    const bool vreq = lo <= n && n <= hi;
    expect(op, got, (mreq ? 0 : merr) | (vreq ? 0 : ANYV));
    unchanged(op, v.v, n, "vector");
    if(got != OK) unchanged(op, a, r, c, "matrix");
    mc::state(mc::Hash()(r)(c)(got)(sel)(n));
  }
  // Several vector arguments of size s.
  template<int K, class F> void mvs(const char* op, bool mreq, int merr, int s, F f)
  {
    if(at++ != sel) return;
    M a(r, c);
    MatInit<void>::set(a);
    std::unique_ptr<Dyn> v[K];
    int n[K];
    bool vreq = true;
    for(int i = 0; i < K; ++i) {
      n[i] = mc::choose(VS);
      v[i].reset(new Dyn(n[i]));
      // In general position.
      if(n[i] > i) v[i]->v[i] += 10;
      vreq = vreq && n[i] == s;
    }
    const int got = run([&] { f(a, v); });
    expect(op, got, (mreq ? 0 : merr) | (vreq ? 0 : ANYV));
    for(int i = 0; i < K; ++i) {
      if(n[i] > i) v[i]->v[i] -= 10;
      unchanged(op, v[i]->v, n[i], "vector");
    }
    if(got != OK) unchanged(op, a, r, c, "matrix");
    mc::state(mc::Hash()(r)(c)(got)(sel)(n[0])(n[K - 1]));
  }
  // Outputs of sizes that cannot change.
  template<int K, class F> void mout(const char* op, bool mreq, int merr, int s, F f)
  {
    if(at++ != sel) return;
    M a(r, c);
    MatInit<void>::set(a);
    std::unique_ptr<Ext> v[K];
    int n[K];
    bool vreq = true;
    for(int i = 0; i < K; ++i) {
      n[i] = mc::choose(VS);
      v[i].reset(new Ext(n[i]));
      vreq = vreq && n[i] == s;
    }
    const int got = run([&] { f(a, v); });
    expect(op, got, (mreq ? 0 : merr) | (vreq ? 0 : ANYV));
    if(got != OK) for(int i = 0; i < K; ++i) unchanged(op, v[i]->v, n[i], "vector");
    unchanged(op, a, r, c, "matrix");
    mc::state(mc::Hash()(r)(c)(got)(sel)(n[0])(n[K - 1]));
  }
};

template<class B, class L> void builders()
{
  using namespace cml;
  Lib<B, L> x;
  x.sel = mc::choose(48);
  x.r = mc::choose(RC);
  x.c = mc::choose(RC);
  const bool l2 = x.lin(2), l3 = x.lin(3), l4 = x.lin(4), a2 = x.aff(2), a3 = x.aff(3);
  const V3 d(1, 0, 0), u(0, 1, 0);
  x.m("matrix_translation_2D(m,x,y)", a2, MMIN, [](auto& a) { matrix_translation_2D(a, 1., 2.); });
  x.mv("matrix_translation_2D(m,v)", a2, MMIN, 2, 2, [](auto& a, auto& v) { matrix_translation_2D(a, v); });
  x.m("matrix_translation(m,x,y)", a3, MMIN, [](auto& a) { matrix_translation(a, 1., 2.); });
  x.m("matrix_translation(m,x,y,z)", a3, MMIN, [](auto& a) { matrix_translation(a, 1., 2., 3.); });
  x.mv("matrix_translation(m,v)", a3, MMIN, 2, 3, [](auto& a, auto& v) { matrix_translation(a, v); });
  x.m("matrix_set_translation_2D(m,x,y)", a2, MMIN, [](auto& a) { matrix_set_translation_2D(a, 1., 2.); });
  x.mv("matrix_set_translation_2D(m,v)", a2, MMIN, 2, 2, [](auto& a, auto& v) { matrix_set_translation_2D(a, v); });
  x.m("matrix_set_translation(m,x,y)", a3, MMIN, [](auto& a) { matrix_set_translation(a, 1., 2.); });
  x.m("matrix_set_translation(m,x,y,z)", a3, MMIN, [](auto& a) { matrix_set_translation(a, 1., 2., 3.); });
  x.mv("matrix_set_translation(m,v)", a3, MMIN, 2, 3, [](auto& a, auto& v) { matrix_set_translation(a, v); });
  x.m("matrix_scale_2D(m,x,y)", a2, MMIN, [](auto& a) { matrix_scale_2D(a, 1., 2.); });
  x.mv("matrix_scale_2D(m,v)", a2, MMIN, 2, 2, [](auto& a, auto& v) { matrix_scale_2D(a, v); });
  x.m("matrix_uniform_scale_2D", a2, MMIN, [](auto& a) { matrix_uniform_scale_2D(a, 2.); });
  x.m("matrix_inverse_scale_2D(m,x,y)", a2, MMIN, [](auto& a) { matrix_inverse_scale_2D(a, 1., 2.); });
  x.mv("matrix_inverse_scale_2D(m,v)", a2, MMIN, 2, 2, [](auto& a, auto& v) { matrix_inverse_scale_2D(a, v); });
  x.m("matrix_scale(m,x,y,z)", a3, MMIN, [](auto& a) { matrix_scale(a, 1., 2., 3.); });
  x.mv("matrix_scale(m,v)", a3, MMIN, 3, 3, [](auto& a, auto& v) { matrix_scale(a, v); });
  x.m("matrix_uniform_scale", a3, MMIN, [](auto& a) { matrix_uniform_scale(a, 2.); });
  x.m("matrix_inverse_scale(m,x,y,z)", a3, MMIN, [](auto& a) { matrix_inverse_scale(a, 1., 2., 3.); });
  x.mv("matrix_inverse_scale(m,v)", a3, MMIN, 3, 3, [](auto& a, auto& v) { matrix_inverse_scale(a, v); });
  x.m("matrix_rotation_2D", l2, MMIN, [](auto& a) { matrix_rotation_2D(a, 1.); });
  x.mv("matrix_rotation_align_2D", l2, MMIN, 2, 2, [](auto& a, auto& v) { matrix_rotation_align_2D(a, v); });
  x.m("matrix_rotation_world_axis", l3, MMIN, [](auto& a) { matrix_rotation_world_axis(a, 1, 1.); });
  x.m("matrix_rotation_world_x", l3, MMIN, [](auto& a) { matrix_rotation_world_x(a, 1.); });
  x.m("matrix_rotation_world_y", l3, MMIN, [](auto& a) { matrix_rotation_world_y(a, 1.); });
  x.m("matrix_rotation_world_z", l3, MMIN, [](auto& a) { matrix_rotation_world_z(a, 1.); });
  x.mv("matrix_rotation_axis_angle", l3, MMIN, 3, 3, [](auto& a, auto& v) { matrix_rotation_axis_angle(a, v, 1.); });
  x.m("matrix_rotation_euler(m,e0,e1,e2)", l3, MMIN, [](auto& a) { matrix_rotation_euler(a, .1, .2, .3, euler_order_xyz); });
  x.mv("matrix_rotation_euler(m,v)", l3, MMIN, 3, 3, [](auto& a, auto& v) { matrix_rotation_euler(a, v, euler_order_zxz); });
  x.m("matrix_rotation_euler_derivatives(m,e0,e1,e2)", l3, MMIN, [](auto& a) { matrix_rotation_euler_derivatives(a, 1, .1, .2, .3, euler_order_xyz); });
  x.mv("matrix_rotation_euler_derivatives(m,v)", l3, MMIN, 3, 3, [](auto& a, auto& v) { matrix_rotation_euler_derivatives(a, 1, v, euler_order_xyz); });
  x.m("matrix_rotation_quaternion", l3, MMIN, [](auto& a) { quaterniond q(0, 0, 0, 1); matrix_rotation_quaternion(a, q); });
  x.template mvs<2>("matrix_rotation_align", l3, MMIN, 3, [](auto& a, auto& v) { matrix_rotation_align(a, v[0]->v, v[1]->v); });
  x.template mvs<3>("matrix_rotation_aim_at", l3, MMIN, 3, [](auto& a, auto& v) { matrix_rotation_aim_at(a, v[0]->v, v[1]->v, v[2]->v); });
  x.template mvs<3>("matrix_look_at", a3, MMIN, 3, [](auto& a, auto& v) { matrix_look_at(a, v[0]->v, v[1]->v, v[2]->v, left_handed); });
  x.template mvs<3>("matrix_look_at_RH", a3, MMIN, 3, [](auto& a, auto& v) { matrix_look_at_RH(a, v[0]->v, v[1]->v, v[2]->v); });
  x.mv("matrix_affine_transform(m,axis,angle,t): axis", a3, MMIN, 3, 3, [&](auto& a, auto& v) { matrix_affine_transform(a, v, 1., d); });
  x.mv("matrix_affine_transform(m,axis,angle,t): t", a3, MMIN, 2, 3, [&](auto& a, auto& v) { matrix_affine_transform(a, d, 1., v, true); });
  x.mv("matrix_affine_transform(m,l,t)", a3, MMIN, 2, 3, [&](auto& a, auto& v) { matrix33d l; l.identity(); matrix_affine_transform(a, l, v); });
  x.m("matrix_linear_transform", l3, MMIN, [&](auto& a) { matrix33d l; l.identity(); matrix_linear_transform(a, l); });
  x.m("matrix_orthographic", l4, MMIN, [](auto& a) { matrix_orthographic(a, 1., 2., 3., 4., 5., 6., left_handed, z_clip_zero); });
  x.m("matrix_orthographic_RH(w,h)", l4, MMIN, [](auto& a) { matrix_orthographic_RH(a, 3., 4., 5., 6., z_clip_neg_one); });
  x.m("matrix_perspective", l4, MMIN, [](auto& a) { matrix_perspective(a, 1., 2., 3., 4., 5., 6., left_handed, z_clip_zero); });
  x.m("matrix_perspective_LH(w,h)", l4, MMIN, [](auto& a) { matrix_perspective_LH(a, 3., 4., 5., 6., z_clip_neg_one); });
  x.m("matrix_perspective_xfov", l4, MMIN, [](auto& a) { matrix_perspective_xfov(a, 1., 2., 5., 6., right_handed, z_clip_zero); });
  x.m("matrix_perspective_yfov_LH", l4, MMIN, [](auto& a) { matrix_perspective_yfov_LH(a, 1., 2., 5., 6., z_clip_zero); });
  x.mv("matrix_skew_symmetric(m,v)", l3, MMIN, 3, 3, [](auto& a, auto& v) { matrix_skew_symmetric(a, v); });
  x.m("matrix_skew_symmetric_2D", l2, MMIN, [](auto& a) { matrix_skew_symmetric_2D(a, 2.); });
}

template<class B, class L> void accessors()
{
  using namespace cml;
  Lib<B, L> x;
  x.sel = mc::choose(47);
  x.r = mc::choose(RC);
  x.c = mc::choose(RC);
  const int r = x.r, c = x.c;
  const bool l2 = x.lin(2), l3 = x.lin(3), l4 = x.lin(4), a2 = x.aff(2), a3 = x.aff(3);
  const bool e44 = r == 4 && c == 4;
  x.mv("matrix_set_basis_vector_2D", l2, MMIN, 2, 2, [](auto& a, auto& v) { matrix_set_basis_vector_2D(a, 1, v); });
  x.mv("matrix_set_x_basis_vector_2D", l2, MMIN, 2, 2, [](auto& a, auto& v) { matrix_set_x_basis_vector_2D(a, v); });
  x.mv("matrix_set_transposed_basis_vector_2D", l2, MMIN, 2, 2, [](auto& a, auto& v) { matrix_set_transposed_basis_vector_2D(a, 0, v); });
  x.mv("matrix_set_transposed_y_basis_vector_2D", l2, MMIN, 2, 2, [](auto& a, auto& v) { matrix_set_transposed_y_basis_vector_2D(a, v); });
  x.template mvs<2>("matrix_set_basis_vectors_2D", l2, MMIN, 2, [](auto& a, auto& v) { matrix_set_basis_vectors_2D(a, v[0]->v, v[1]->v); });
  x.template mvs<2>("matrix_set_transposed_basis_vectors_2D", l2, MMIN, 2, [](auto& a, auto& v) { matrix_set_transposed_basis_vectors_2D(a, v[0]->v, v[1]->v); });
  x.m("matrix_get_basis_vector_2D", l2, MMIN, [](auto& a) { matrix_get_basis_vector_2D(a, 1); });
  x.m("matrix_get_transposed_basis_vector_2D", l2, MMIN, [](auto& a) { matrix_get_transposed_basis_vector_2D(a, 1); });
  x.template mout<2>("matrix_get_basis_vectors_2D", l2, MMIN, 2, [](auto& a, auto& v) { matrix_get_basis_vectors_2D(a, v[0]->v, v[1]->v); });
  x.template mout<2>("matrix_get_transposed_basis_vectors_2D", l2, MMIN, 2, [](auto& a, auto& v) { matrix_get_transposed_basis_vectors_2D(a, v[0]->v, v[1]->v); });
  x.mv("matrix_set_basis_vector", l3, MMIN, 3, 3, [](auto& a, auto& v) { matrix_set_basis_vector(a, 2, v); });
  x.mv("matrix_set_z_basis_vector", l3, MMIN, 3, 3, [](auto& a, auto& v) { matrix_set_z_basis_vector(a, v); });
  x.mv("matrix_set_transposed_basis_vector", l3, MMIN, 3, 3, [](auto& a, auto& v) { matrix_set_transposed_basis_vector(a, 0, v); });
  x.mv("matrix_set_transposed_z_basis_vector", l3, MMIN, 3, 3, [](auto& a, auto& v) { matrix_set_transposed_z_basis_vector(a, v); });
  x.template mvs<3>("matrix_set_basis_vectors", l3, MMIN, 3, [](auto& a, auto& v) { matrix_set_basis_vectors(a, v[0]->v, v[1]->v, v[2]->v); });
  x.template mvs<3>("matrix_set_transposed_basis_vectors", l3, MMIN, 3, [](auto& a, auto& v) { matrix_set_transposed_basis_vectors(a, v[0]->v, v[1]->v, v[2]->v); });
  x.m("matrix_get_basis_vector", l3, MMIN, [](auto& a) { matrix_get_basis_vector(a, 2); });
  x.m("matrix_get_transposed_basis_vector", l3, MMIN, [](auto& a) { matrix_get_transposed_basis_vector(a, 2); });
  x.template mout<3>("matrix_get_basis_vectors", l3, MMIN, 3, [](auto& a, auto& v) { matrix_get_basis_vectors(a, v[0]->v, v[1]->v, v[2]->v); });
  x.template mout<3>("matrix_get_transposed_basis_vectors", l3, MMIN, 3, [](auto& a, auto& v) { matrix_get_transposed_basis_vectors(a, v[0]->v, v[1]->v, v[2]->v); });
  x.m("matrix_get_translation_2D(m,x,y)", a2, MMIN, [](auto& a) { double p, q; matrix_get_translation_2D(a, p, q); });
  x.m("matrix_get_translation_2D(m)", a2, MMIN, [](auto& a) { matrix_get_translation_2D(a); });
  x.m("matrix_get_translation(m,x,y,z)", a3, MMIN, [](auto& a) { double p, q, s; matrix_get_translation(a, p, q, s); });
  x.m("matrix_get_translation(m)", a3, MMIN, [](auto& a) { matrix_get_translation(a); });
  x.m("trace_2x2", l2, MMIN, [](auto& a) { volatile double t = trace_2x2(a); (void) t; });
  x.m("trace_3x3", l3, MMIN, [](auto& a) { volatile double t = trace_3x3(a); (void) t; });
  x.m("matrix_invert_RT_only_2D", a2, MMIN, [](auto& a) { matrix_invert_RT_only_2D(a); });
  x.m("matrix_invert_RT_only", a3, MMIN, [](auto& a) { matrix_invert_RT_only(a); });
  const int bm = x.ROW ? r : c, bn = x.ROW ? c : r;
  // There is no rigid transform in an empty matrix.
  x.m("matrix_invert_RT", bm == bn || bm == bn + 1, AFF, [&](auto& a) { if(r || c) matrix_invert_RT(a); });
  x.m("matrix_concat(m,m)", r == c, MSQ, [](auto& a) { matrix_concat(a, a); });
  x.m("matrix_concat(m,4x4)", r == 4 && c == 4, MSQ | MINNER, [](auto& a) { typename Lib<B, L>::M b(4, 4); b.identity(); matrix_concat(a, b); });
  x.m("matrix_concat(4x3,m)", false, MSQ, [](auto& a) { typename Lib<B, L>::M b(4, 3); b.identity(); matrix_concat(b, a); });
  x.mv("transform_vector_2D", l2, MMIN, 2, 2, [](auto& a, auto& v) { transform_vector_2D(a, v); });
  x.mv("transform_point_2D", a2, MMIN, 2, 2, [](auto& a, auto& v) { transform_point_2D(a, v); });
  x.mv("transform_vector", l3, MMIN, 3, 3, [](auto& a, auto& v) { transform_vector(a, v); });
  x.mv("transform_point", a3, MMIN, 3, 3, [](auto& a, auto& v) { transform_point(a, v); });
  x.mv("transform_vector_4D", e44, MSIZE, 4, 4, [](auto& a, auto& v) { transform_vector_4D(a, v); });
  x.mv("transform_point_4D", e44, MSIZE, 3, 3, [](auto& a, auto& v) { transform_point_4D(a, v); });
  x.m("extract_frustum_planes(m)", l4, MMIN, [](auto& a) { double p[6][4]; extract_frustum_planes(a, p, z_clip_zero, false); });
  x.m("extract_frustum_planes(mv,p)", e44, MMIN | MSIZE | MSQ | MINNER, [](auto& a) { double p[6][4]; typename Lib<B, L>::M b(4, 4); b.identity(); extract_frustum_planes(a, b, p, z_clip_zero, false); });
  x.m("extract_near_frustum_plane", l4, MMIN, [](auto& a) { double p[4]; extract_near_frustum_plane(a, p, z_clip_neg_one); });
  x.template mout<1>("matrix_to_axis_angle(m,v,a)", l3, MMIN, 3, [](auto& a, auto& v) { double t; matrix_to_axis_angle(a, v[0]->v, t); });
  x.m("matrix_to_axis_angle(m)", l3, MMIN, [](auto& a) { matrix_to_axis_angle(a); });
  x.m("matrix_to_euler(m,a,b,c)", l3, MMIN, [](auto& a) { double p, q, s; matrix_to_euler(a, p, q, s, euler_order_xyz); });
  x.m("matrix_to_euler(m)", l3, MMIN, [](auto& a) { matrix_to_euler(a, euler_order_zyz); });
  x.m("matrix_to_euler<dynamic>(m)", l3, MMIN, [](auto& a) { auto v = matrix_to_euler<V>(a, euler_order_zyx); MC_CHECK(v.size() == 3, "matrix_to_euler<dynamic>", v.size()); });
  x.m("quaternion_rotation_matrix", l3, MMIN, [](auto& a) {
    quaterniond q(1, 2, 3, 4);
    try { quaternion_rotation_matrix(q, a); }
    catch(...) { MC_CHECK(q[0] == 1 && q[1] == 2 && q[2] == 3 && q[3] == 4, "quaternion_rotation_matrix:operand-changed", q); throw; }
  });
}
} // namespace
