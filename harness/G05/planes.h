// Planes of the view frustum.
#pragma once
#include "../proj.h"

namespace g05 {
using namespace proj;

// A few model-view maps: rigid, scaled, mirrored.
inline mat choose_modelview()
{
  const int k = mc::choose(5);
  mat m = mat::identity(4);
  if(k == 0) return m;
  if(k == 1) { m = embed(ref::rodrigues(ref::unit({1, 2, -1}), 2.3), 4); m(0, 3) = 3, m(1, 3) = -2, m(2, 3) = 1; return m; }
  if(k == 2) { m(0, 3) = -1, m(1, 3) = .5, m(2, 3) = 4; return m; }
  if(k == 3) { m = embed(ref::rodrigues({0, 1, 0}, pi), 4); for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) m(i, j) *= 2; m(2, 3) = -1; return m; }
  m(0, 0) = -1, m(1, 1) = 3, m(0, 1) = .5, m(1, 3) = 2;
  return m;
}
// Inverse image of an eye-space point under an affine map.
inline vec pull(const mat& mv, const vec& p)
{
  const mat A = part(mv, 0, 0, 3, 3);
  const double d = ref::det(A);
  mat inv(3, 3);
  for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) {
    const int a = (j + 1) % 3, b = (j + 2) % 3, c = (i + 1) % 3, e = (i + 2) % 3;
    inv(i, j) = (A(a, c) * A(b, e) - A(a, e) * A(b, c)) / d;
  }
  return ref::mul(inv, vec{p[0] - mv(0, 3), p[1] - mv(1, 3), p[2] - mv(2, 3)});
}
template<class M, class E> void planes()
{
  using EM = value_type_trait_of_t<M>;
  const bool persp = mc::choose(2), right = mc::choose(2), zero = mc::choose(2);
  const Volume v = choose_volume(persp, right, zero);
  using T = std::conditional_t<sizeof(EM) == 4 || sizeof(E) == 4, float, double>;
  // Single precision cannot tell inside from outside at such depth ratios.
  if(sizeof(T) == 4 && std::fabs(v.f / v.n) > 100) { mc::state(1); return; }
  const mat mv = choose_modelview();
  const bool norm = mc::choose(2);
  const int form = mc::choose(3);
  const auto z = zero ? z_clip_zero : z_clip_neg_one;
  lin::Obj<M> V(4), P(4), VP(4);
  V.m.identity(), P.m.identity();
  setmap(V.m, mv);
  build<M, EM>(P.m, v);
  E pl[6][4];
  for(auto& p : pl) for(E& x : p) x = E(99);
  mc::step();
  if(form == 0) extract_frustum_planes(V.m, P.m, pl, z, norm);
  else if(form == 1) { VP.m = matrix_concat(V.m, P.m); extract_frustum_planes(VP.m, pl, z, norm); }
  else if(norm) extract_frustum_planes(matrix_concat(V.m, P.m), pl, z); // the default
  else extract_frustum_planes(V.m, P.m, pl, z, false);
  static const char* names[] = {"left", "right", "bottom", "top", "near", "far"};
  vec pv[6];
  for(int i = 0; i < 6; ++i) for(E x : pl[i]) pv[i].push_back(double(x));
  mc::Hash h;
  for(const vec& p : pv) for(double x : p) h(x);
  mc::state(h);
  const double t = tol<T>() * condition(v) * 4;
  // The near plane alone, unnormalised, is the same half-space.
  if(form == 1) {
    E np[4] = {99, 99, 99, 99};
    extract_near_frustum_plane(VP.m, np, z);
    double s = 0;
    for(int i = 0; i < 3; ++i) s += double(np[i]) * double(np[i]);
    s = norm ? std::sqrt(s) : 1;
    for(int i = 0; i < 4; ++i) MC_CHECK(ref::near(double(np[i]) / s, pv[4][size_t(i)], t), "near plane alone", v << ": " << np[i]);
    vector<E, fixed<4>> nv;
    extract_near_frustum_plane(VP.m, nv, z);
    for(int i = 0; i < 4; ++i) MC_CHECK(nv[i] == np[i], "near plane into a vector", v << ": " << nv[i]);
  }
  if(norm) for(int i = 0; i < 6; ++i)
    MC_CHECK(ref::near(ref::len({pv[i][0], pv[i][1], pv[i][2]}), 1, t), std::string("unit normal ") + names[i], v << ": " << pv[i]);
  // Points on a lattice through and around the volume: each plane separates
  // exactly along its own clip coordinate.
  static const double xs[] = {-1.5, -.9, 0, .8, 1.4}, ds[] = {-.2, .05, .5, .95, 1.3};
  for(double x : xs) for(double y : xs) for(double d : ds) {
    const double zz = v.n + d * (v.f - v.n);
    if(v.persp && zz * v.n <= 0) continue; // behind the eye
    const vec eye = at(v, x, y, d), p = pull(mv, eye);
    const bool in[6] = {x >= -1, x <= 1, y >= -1, y <= 1, d >= 0, d <= 1};
    for(int i = 0; i < 6; ++i) {
      const double dist = pv[i][0] * p[0] + pv[i][1] * p[1] + pv[i][2] * p[2] + pv[i][3];
      MC_CHECK((dist >= 0) == in[i] || (sizeof(T) == 4 && std::fabs(dist) < 1e-5 * (std::fabs(pv[i][3]) + ref::len({pv[i][0], pv[i][1], pv[i][2]}) * (ref::len(p) + ref::len({mv(0, 3), mv(1, 3), mv(2, 3)})))), std::string(names[i]) + (norm ? "" : " unnormalised"), v << " modelview " << mv << " point " << p << " (clip " << x << "," << y << " depth " << d << ") has distance " << dist);
    }
  }
  // A normalised plane measures distance: the plane passes through its face.
  static const double face[6][3] = {{-1, .3, .4}, {1, -.2, .6}, {.1, -1, .5}, {.7, 1, .2}, {.5, .5, 0}, {-.3, .6, 1}};
  for(int i = 0; i < 6; ++i) {
    const vec p = pull(mv, at(v, face[i][0], face[i][1], face[i][2]));
    const double dist = pv[i][0] * p[0] + pv[i][1] * p[1] + pv[i][2] * p[2] + pv[i][3];
    const double scale = std::fabs(pv[i][3]) + ref::len({pv[i][0], pv[i][1], pv[i][2]}) * (1 + ref::len(p) + ref::len({mv(0, 3), mv(1, 3), mv(2, 3)}));
    MC_CHECK(std::fabs(dist) <= t * scale, std::string("through its face: ") + names[i], v << " modelview " << mv << " point " << p << " distance " << dist);
  }
}
template<class E, class B, class L> void shapes()
{
  const int op = mc::choose(3), r = mc::choose(6), c = mc::choose(6), r2 = op == 2 ? mc::choose(6) : 4, c2 = op == 2 ? mc::choose(6) : 4;
  matrix<E, dynamic<>, B, L> m(r, c), p(r2, c2);
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) m(i, j) = E(i == j);
  for(int i = 0; i < r2; ++i) for(int j = 0; j < c2; ++j) p(i, j) = E(i == j);
  E pl[6][4];
  E np[4];
  for(auto& q : pl) for(E& x : q) x = E(99);
  std::string got = "none";
  mc::step();
  try {
    if(op == 0) extract_frustum_planes(m, pl, z_clip_zero);
    if(op == 1) extract_near_frustum_plane(m, np, z_clip_zero);
    if(op == 2) extract_frustum_planes(m, p, pl, z_clip_zero);
  } catch(const minimum_matrix_size_error&) { got = "minimum"; }
  catch(const non_square_matrix_error&) { got = "square"; }
  catch(const incompatible_matrix_inner_size_error&) { got = "inner"; }
  catch(const std::exception& e) { got = e.what(); }
  mc::state(mc::Hash()(op)(r)(c)(r2)(c2));
  const bool small = r < 4 || c < 4;
  if(op < 2) MC_CHECK(got == (small ? "minimum" : "none"), "size rule", "op " << op << " " << r << "x" << c << ": " << got);
  else if(r == c && r2 == c2 && r == r2) MC_CHECK(got == (small ? "minimum" : "none"), "size rule of the pair", r << "x" << c << " " << r2 << "x" << c2 << ": " << got);
  else MC_CHECK(got == "minimum" || got == "square" || got == "inner", "size rule of the pair", r << "x" << c << " " << r2 << "x" << c2 << ": " << got);
}
} // namespace g05
