// Every projection builder maps its volume onto the clip volume.
#pragma once
#include "../proj.h"

namespace g04 {
using namespace proj;

template<class E> void corners(const mat& P, const Volume& v, const std::string& how)
{
  const double t = tol<E>() * condition(v);
  static const double xs[] = {-1, -.6, 0, .25, 1}, ds[] = {0, .01, .3, .9, 1};
  for(double x : xs) for(double y : xs) for(double d : ds) {
    const vec p = at(v, x, y, d);
    const vec c = ref::mul(P, vec{p[0], p[1], p[2], 1});
    MC_CHECK(c[3] > 0, how + " w", v << " point " << p << " has w " << c[3]);
    const vec q{c[0] / c[3], c[1] / c[3], c[2] / c[3]}, want{x, y, clip_depth(v, d)};
    MC_CHECK(ref::near(q, want, t), how, v << " point " << p << " maps to " << q << " not " << want << " by " << P);
  }
  mc::step();
  mc::state(ref::hash(P));
}
template<class M, class E> void bounds()
{
  using EM = value_type_trait_of_t<M>;
  using T = std::conditional_t<sizeof(EM) == 4 || sizeof(E) == 4, float, double>;
  const bool persp = mc::choose(2), right = mc::choose(2), zero = mc::choose(2);
  const Volume v = choose_volume(persp, right, zero);
  lin::Obj<M> m(4);
  m.m.fill(EM(7));
  build<M, E>(m.m, v);
  const mat P = colmap(m.m);
  corners<T>(P, v, persp ? "perspective bounds" : "orthographic bounds");
  // The named form.
  const auto z = zero ? z_clip_zero : z_clip_neg_one;
  lin::Obj<M> k(4);
  k.m.fill(EM(-7));
  const E l = E(v.l), r = E(v.r), b = E(v.b), t = E(v.t), n = E(v.n), f = E(v.f);
  if(persp) { if(right) matrix_perspective_RH(k.m, l, r, b, t, n, f, z); else matrix_perspective_LH(k.m, l, r, b, t, n, f, z); }
  else { if(right) matrix_orthographic_RH(k.m, l, r, b, t, n, f, z); else matrix_orthographic_LH(k.m, l, r, b, t, n, f, z); }
  MC_CHECK(ref::near(colmap(k.m), P, tol<T>()), "named form", v << ": " << colmap(k.m) << " not " << P);
}
// Width and height; fields of view.
template<class M, class E> void sizes()
{
  using EM = value_type_trait_of_t<M>;
  using T = std::conditional_t<sizeof(EM) == 4 || sizeof(E) == 4, float, double>;
  const int form = mc::choose(4); // orthographic, perspective, xfov, yfov
  const bool right = mc::choose(2), zero = mc::choose(2), named = mc::choose(2);
  static const double ws[] = {1, 2, 3.5, 640}, hs[] = {1, .25, 7, 480};
  static const double fovs[] = {.1, .5, 1, pi / 2, 2, 3};
  static const double aspects[] = {1, .5, 16 / 9., 3};
  static const double nf[][2] = {{1, 10}, {.5, 2}, {.1, 1000}, {3, 4}, {10, 1}};
  const int i = mc::choose(form < 2 ? 4 : 6), j = mc::choose(4), k = mc::choose(5);
  Volume v;
  v.persp = form > 0, v.right = right, v.zero = zero, v.n = nf[k][0], v.f = nf[k][1];
  double w, h;
  if(form < 2) w = ws[i], h = hs[j];
  else if(form == 2) w = 2 * v.n * std::tan(fovs[i] / 2), h = w / aspects[j];
  else h = 2 * v.n * std::tan(fovs[i] / 2), w = h * aspects[j];
  v.l = -w / 2, v.r = w / 2, v.b = -h / 2, v.t = h / 2;
  lin::Obj<M> m(4);
  m.m.fill(EM(7));
  const auto hand = right ? right_handed : left_handed;
  const auto z = zero ? z_clip_zero : z_clip_neg_one;
  const E n = E(v.n), f = E(v.f), a = E(form < 2 ? w : fovs[i]), b = E(form < 2 ? h : aspects[j]);
  const char* names[] = {"orthographic size", "perspective size", "horizontal field of view", "vertical field of view"};
  if(!named) switch(form) {
    case 0: matrix_orthographic(m.m, a, b, n, f, hand, z); break;
    case 1: matrix_perspective(m.m, a, b, n, f, hand, z); break;
    case 2: matrix_perspective_xfov(m.m, a, b, n, f, hand, z); break;
    default: matrix_perspective_yfov(m.m, a, b, n, f, hand, z);
  }
  else if(right) switch(form) {
    case 0: matrix_orthographic_RH(m.m, a, b, n, f, z); break;
    case 1: matrix_perspective_RH(m.m, a, b, n, f, z); break;
    case 2: matrix_perspective_xfov_RH(m.m, a, b, n, f, z); break;
    default: matrix_perspective_yfov_RH(m.m, a, b, n, f, z);
  }
  else switch(form) {
    case 0: matrix_orthographic_LH(m.m, a, b, n, f, z); break;
    case 1: matrix_perspective_LH(m.m, a, b, n, f, z); break;
    case 2: matrix_perspective_xfov_LH(m.m, a, b, n, f, z); break;
    default: matrix_perspective_yfov_LH(m.m, a, b, n, f, z);
  }
  corners<T>(colmap(m.m), v, names[form]);
  // The same volume by its bounds.
  M& mm = m.m;
  lin::Obj<M> o(4);
  build<M, E>(o.m, v);
  MC_CHECK(ref::near(colmap(mm), colmap(o.m), 5 * tol<T>()), std::string(names[form]) + " against bounds", v << ": " << colmap(mm) << " not " << colmap(o.m));
}
template<class E, class B, class L> void shapes()
{
  const int r = mc::choose(7), c = mc::choose(7), op = mc::choose(6);
  matrix<E, dynamic<>, B, L> m(r, c);
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) m(i, j) = E(7);
  std::string got = "none";
  mc::step();
  try {
    if(op == 0) matrix_orthographic_LH(m, E(-1), E(2), E(-1), E(1), E(1), E(3), z_clip_zero);
    if(op == 1) matrix_orthographic_RH(m, E(2), E(2), E(1), E(3), z_clip_zero);
    if(op == 2) matrix_perspective_LH(m, E(-1), E(2), E(-1), E(1), E(1), E(3), z_clip_neg_one);
    if(op == 3) matrix_perspective_RH(m, E(2), E(2), E(1), E(3), z_clip_neg_one);
    if(op == 4) matrix_perspective_xfov_LH(m, E(1), E(1), E(1), E(3), z_clip_neg_one);
    if(op == 5) matrix_perspective_yfov_RH(m, E(1), E(1), E(1), E(3), z_clip_neg_one);
  } catch(const minimum_matrix_size_error&) { got = "minimum_matrix_size_error"; }
  catch(const std::exception& e) { got = e.what(); }
  mc::state(mc::Hash()(r)(c)(op));
  const std::string want = r < 4 || c < 4 ? "minimum_matrix_size_error" : "none";
  MC_CHECK(got == want, "size rule", "op " << op << " on " << r << "x" << c << ": " << got << " instead of " << want);
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) {
    if(want != "none") MC_CHECK(m(i, j) == 7, "a rejected matrix is left alone", "op " << op << " on " << r << "x" << c);
    else if(i > 3 || j > 3) MC_CHECK(m(i, j) == (i == j), "identity beyond 4x4", "op " << op << " on " << r << "x" << c);
  }
}
} // namespace g04
