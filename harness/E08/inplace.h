// E08: arguments may be taken from the object a function writes.  Every call is
// made twice: with copies of the arguments, and with the object itself.
#pragma once
#include "all.h"
#include "ref.h"
#include "linalg.h"
#include <cstdlib>

namespace e08 {
using namespace cml;
using ref::vec; using ref::mat; using ref::operator<<;
template<class E> constexpr double tol() { return sizeof(E) == 4 ? 1e-5 : 1e-12; }
inline std::ostream& operator<<(std::ostream& os, const std::vector<vec>& v) { for(auto& x : v) ref::operator<<(os, x) << " "; return os; }

// A vector object of size n with its own storage.
template<class V> struct Vec;
template<class E, int N> struct Vec<vector<E, fixed<N>>> { vector<E, fixed<N>> v; explicit Vec(int) {} };
template<class E> struct Vec<vector<E, dynamic<>>> { vector<E, dynamic<>> v; explicit Vec(int n) : v(n) {} };
template<class E, int N> struct Vec<vector<E, external<N>>> { E d[N]; vector<E, external<N>> v{d}; explicit Vec(int) {} };
template<class E> struct Vec<vector<E, external<>>> { std::vector<E> d; vector<E, external<>> v; explicit Vec(int n) : d(size_t(n)), v(d.data(), n) {} };
template<class V> void put(V& v, const vec& a) { for(int i = 0; i < int(a.size()); ++i) v.put(i, value_type_trait_of_t<V>(a[size_t(i)])); }

inline const std::vector<vec>& values(int n)
{
  static std::vector<vec> all[5];
  auto& o = all[n];
  if(o.empty()) {
    static const double g[] = {-2, 0, .5, 3, 1e-5, -1};
    const int G = mc::thorough() && n < 4 ? 6 : 4;
    int total = 1; for(int i = 0; i < n; ++i) total *= G;
    for(int c = 0; c < total; ++c) { vec v; for(int i = 0, k = c; i < n; ++i, k /= G) v.push_back(g[k % G]); o.push_back(v); }
    o.push_back(vec(size_t(n), 1.)); o.push_back(vec(size_t(n), 1e-3)); 
  }
  return o;
}
inline vec choose(int n) { return values(n)[size_t(mc::choose(int(values(n).size())))]; }

// Matrix contents: affine maps, a rotation, general ones, singular ones.
inline mat contents(int n, int k)
{
  mat a(n, n);
  switch(k) {
  case 0: for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) a(i, j) = ((i * 5 + j * 3) % 7) - 2.5 + (i == j ? 4 : 0); break;
  case 1: for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) a(i, j) = i == j ? i + 1 : (i == n - 1 || j == n - 1) ? .25 * (i + 2 * j) : 0; break;
  case 2: for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) a(i, j) = (j == (i + 1) % n) ? -1 : 0; break;
  case 3: for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) a(i, j) = 1. / (i + j + 1); break;
  case 4: for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) a(i, j) = (i + 1) * (j - 1.5); break;
  default: for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) a(i, j) = (i * 3 + j * j) % 5 - 1 + .125 * i; break;
  }
  return a;
}

inline bool equal(const vec& a, const vec& b, double t)
{
  if(a.size() != b.size()) return false;
  for(size_t i = 0; i < a.size(); ++i) if(!ref::same(a[i], b[i]) && !ref::near(a[i], b[i], t)) return false;
  return true;
}
inline bool equal(const mat& a, const mat& b, double t) { return a.r == b.r && a.c == b.c && equal(a.d, b.d, t); }
template<class A, class B> void compare(const A& got, const B& want, double t, const std::string& name)
{
  mc::step();
  mc::state(ref::hash(want));
  MC_CHECK(equal(got, want, t), name, "with its own object as the argument gives " << got << ", with a copy " << want);
}

template<class V> constexpr bool dim(int n) { return array_size_of_c<V>::value == n || array_size_of_c<V>::value < 0; }

// v = f(v) and its like.
template<class V, class V2, class M> void vectors(int n)
{
  using E = value_type_trait_of_t<V>;
  Vec<V> a(n), b(n), c(n), w(n); auto& v = a.v; auto& u = b.v; // u: the copy
  const int op = mc::choose(n == 3 ? 15 : n == 2 ? 10 : 8);
  const vec x = choose(n);
  vec y = n == 4 ? values(4)[size_t(4 * mc::choose(60) + 9)] : choose(n);
  put(v, x); put(u, x); put(c.v, x); put(w.v, y);
  lin::Obj<M> mo(n); auto& m = mo.m; lin::put(m, contents(n, mc::choose(4)));
  std::string name;
  const double lx = ref::len(x), ly = ref::len(y);
  auto go = [&](const char* s, auto f) { name = s; f(v, v); const vec got = ref::read(v); { auto& r = c.v; f(r, u); } compare(got, ref::read(c.v), tol<E>(), name); };
  switch(op) {
  case 0: if(lx == 0) return; go("v = normalize(v)", [&](auto& o, auto& i) { o = normalize(i); }); break;
  case 1: if(ly == 0) return; go("v = project_to_vector(v, w)", [&](auto& o, auto& i) { o = project_to_vector(i, w.v); }); break;
  case 2: if(lx == 0) return; go("v = project_to_vector(w, v)", [&](auto& o, auto& i) { o = project_to_vector(w.v, i); }); break;
  case 3: go("v = project_to_hplane(v, w)", [&](auto& o, auto& i) { o = project_to_hplane(i, w.v); }); break;
  case 4: go("v = project_to_hplane(w, v)", [&](auto& o, auto& i) { o = project_to_hplane(w.v, i); }); break;
  case 5: go("v = m * v", [&](auto& o, auto& i) { o = m * i; }); break;
  case 6: go("v = v * m", [&](auto& o, auto& i) { o = i * m; }); break;
  case 7: if(lx == 0 || n > 3) { if(n == 4) go("v = transform_vector_4D(m, v)", [&](auto& o, auto& i) { if constexpr(dim<V>(4)) o = transform_vector_4D(m, i); }); return; }
    { const auto seed = unsigned(1 + mc::choose(5)); go("random_unit(v, v, a)", [&](auto& o, auto& i) { if constexpr(array_size_of_c<std::decay_t<decltype(i)>>::value > 0) { std::srand(seed); vec q = ref::unit(ref::read(i)); put(i, q); random_unit(o, i, E(.5)); } }); } break;
  case 8: if(n == 2) go("v = perp(v)", [&](auto& o, auto& i) { if constexpr(dim<V>(2)) o = perp(i); });
    else go("v = rotate_vector(v, w, a)", [&](auto& o, auto& i) { if constexpr(dim<V>(3)) o = rotate_vector(i, w.v, E(.7)); }); break;
  case 9: if(n == 2) go("v = transform_vector_2D(m, v)", [&](auto& o, auto& i) { if constexpr(dim<V>(2)) o = transform_vector_2D(m, i); });
    else go("v = rotate_vector(w, v, a)", [&](auto& o, auto& i) { if constexpr(dim<V>(3)) o = rotate_vector(w.v, i, E(.7)); }); break;
  case 10: go("v = transform_vector(m, v)", [&](auto& o, auto& i) { if constexpr(dim<V>(3)) o = transform_vector(m, i); }); break;
  default: {
    // orthonormal_basis with inputs among its outputs
    if constexpr(dim<V>(3)) {
      if(ref::len(ref::cross(x, y)) < 1e-9) return;
      static const axis_order order[] = {axis_order_xyz, axis_order_xzy, axis_order_yxz, axis_order_yzx, axis_order_zxy, axis_order_zyx};
      const axis_order o = order[mc::choose(6)];
      const bool norm = mc::choose(2);
      Vec<V> r0(n), r1(n), r2(n); V* r[3] = {&r0.v, &r1.v, &r2.v};
      Vec<V> p0(n), p1(n), p2(n); V* p[3] = {&p0.v, &p1.v, &p2.v};
      const int ia = mc::choose(3), ir = mc::choose(3);
      if(ia == ir) return;
      put(*p[ia], x); put(*p[ir], y);
      orthonormal_basis(u, w.v, *r[0], *r[1], *r[2], norm, o);
      if(op == 11) { orthonormal_basis(*p[ia], w.v, *p[0], *p[1], *p[2], norm, o); name = "orthonormal_basis, align is an output"; }
      else if(op == 12) { orthonormal_basis(u, *p[ir], *p[0], *p[1], *p[2], norm, o); name = "orthonormal_basis, reference is an output"; }
      else { orthonormal_basis(*p[ia], *p[ir], *p[0], *p[1], *p[2], norm, o); name = "orthonormal_basis, align and reference are outputs"; }
      for(int i = 0; i < 3; ++i) compare(ref::read(*p[i]), ref::read(*r[i]), tol<E>(), name);
    }
  } break;
  }
}
template<class V> void plane()
{
  using E = value_type_trait_of_t<V>;
  const vec x = choose(2); if(ref::len(x) == 0) return;
  const axis_order2D o = mc::choose(2) ? axis_order_xy : axis_order_yx; const bool norm = mc::choose(2); const int k = mc::choose(2);
  Vec<V> a(2), r0(2), r1(2), p0(2), p1(2); put(a.v, x); put(p0.v, x); put(p1.v, x);
  orthonormal_basis_2D(a.v, r0.v, r1.v, norm, o);
  orthonormal_basis_2D(k ? p1.v : p0.v, p0.v, p1.v, norm, o);
  compare(ref::read(p0.v), ref::read(r0.v), tol<E>(), "orthonormal_basis_2D, align is an output");
  compare(ref::read(p1.v), ref::read(r1.v), tol<E>(), "orthonormal_basis_2D, align is an output");
}

// Coordinates written over the vector they are computed from, and the reverse.
template<class V> void coordinates(int n)
{
  using E = value_type_trait_of_t<V>;
  const vec x = choose(n);
  Vec<V> a(n); auto& v = a.v; put(v, x);
  Vec<V> b(n); put(b.v, x);
  const int op = mc::choose(n == 2 ? 2 : 4), axis = n == 2 ? 0 : mc::choose(3); const LatitudeType lt = n == 3 && mc::choose(2) ? latitude : colatitude;
  static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  const int* p = perm[mc::choose(n == 2 ? 2 : 6)]; const int q0 = n == 2 ? (p[1] == 2 ? 1 : 0) : p[0], q1 = n == 2 ? 1 - q0 : p[1], q2 = p[2];
  E s[3] = {E(0), E(0), E(0)};
  if(n == 2) {
    if constexpr(dim<V>(2)) {
      if(op == 0) { cartesian_to_polar(b.v, s[q0], s[q1]); cartesian_to_polar(v, v[q0], v[q1]); compare(ref::read(v), vec{double(s[0]), double(s[1])}, tol<E>(), "cartesian_to_polar into the elements of the vector"); }
      else { s[0] = b.v[0], s[1] = b.v[1]; polar_to_cartesian(b.v, s[q0], s[q1]); polar_to_cartesian(v, v[q0], v[q1]); compare(ref::read(v), ref::read(b.v), tol<E>(), "polar_to_cartesian from the elements of the vector"); }
    }
  } else {
    if constexpr(dim<V>(3)) {
      const vec z = {};
      switch(op) {
      case 0: cartesian_to_cylindrical(b.v, axis, s[q0], s[q1], s[q2]); cartesian_to_cylindrical(v, axis, v[q0], v[q1], v[q2]); compare(ref::read(v), vec{double(s[0]), double(s[1]), double(s[2])}, tol<E>(), "cartesian_to_cylindrical into the elements of the vector"); break;
      case 1: cartesian_to_spherical(b.v, axis, lt, s[q0], s[q1], s[q2]); cartesian_to_spherical(v, axis, lt, v[q0], v[q1], v[q2]); compare(ref::read(v), vec{double(s[0]), double(s[1]), double(s[2])}, tol<E>(), "cartesian_to_spherical into the elements of the vector"); break;
      case 2: for(int i = 0; i < 3; ++i) s[i] = b.v[i]; cylindrical_to_cartesian(b.v, axis, s[q0], s[q1], s[q2]); cylindrical_to_cartesian(v, axis, v[q0], v[q1], v[q2]); compare(ref::read(v), ref::read(b.v), tol<E>(), "cylindrical_to_cartesian from the elements of the vector"); break;
      case 3: for(int i = 0; i < 3; ++i) s[i] = b.v[i]; spherical_to_cartesian(b.v, axis, lt, s[q0], s[q1], s[q2]); spherical_to_cartesian(v, axis, lt, v[q0], v[q1], v[q2]); compare(ref::read(v), ref::read(b.v), tol<E>(), "spherical_to_cartesian from the elements of the vector"); break;
      }
    }
  }
}

// Matrices written by functions that read them: products, inverses, and the
// builders called with the matrix, its own vectors, or its own elements.
template<class M> struct Pair { lin::Obj<M> a, b, c; explicit Pair(int n, const mat& x) : a(n), b(n), c(n) { lin::put(a.m, x); lin::put(b.m, x); lin::put(c.m, x); } };
template<class M, class F> void both(int n, const mat& x, const char* name, F f)
{
  using E = value_type_trait_of_t<M>;
  Pair<M> p(n, x);
  f(p.a.m, p.a.m);
  f(p.c.m, static_cast<const M&>(p.b.m));
  compare(ref::readm(p.a.m), ref::readm(p.c.m), tol<E>(), name);
}
#define E08_BOTH(name, ...) both<M>(n, x, name, [&](auto& o, auto& i) { (void) i; __VA_ARGS__; })
// The elements handed over: references into the matrix, or copies of them.
template<class M, class F> void elements(int n, const mat& x, int count, const char* name, F f)
{
  using E = value_type_trait_of_t<M>;
  int at[3]; for(int k = 0; k < 3; ++k) at[k] = k < count ? mc::choose(n * n) : 0;
  Pair<M> p(n, x);
  E s[3]; for(int k = 0; k < 3; ++k) s[k] = p.b.m(at[k] / n, at[k] % n);
  auto& m = p.a.m;
  f(m, m(at[0] / n, at[0] % n), m(at[1] / n, at[1] % n), m(at[2] / n, at[2] % n));
  f(p.c.m, s[0], s[1], s[2]);
  compare(ref::readm(p.a.m), ref::readm(p.c.m), tol<E>(), name);
}
#define E08_ELEM(count, name, ...) elements<M>(n, x, count, name, [&](auto& o, auto&& s0, auto&& s1, auto&& s2) { (void) s1; (void) s2; __VA_ARGS__; })

template<class M> void products(int n)
{
  const mat x = contents(n, mc::choose(4)), y = contents(n, mc::choose(6));
  lin::Obj<M> wo(n); auto& w = wo.m; lin::put(w, y);
  switch(mc::choose(10)) {
  case 0: E08_BOTH("m = m * w", o = i * w); break;
  case 1: E08_BOTH("m = w * m", o = w * i); break;
  case 2: E08_BOTH("m = m * m", o = i * i); break;
  case 3: E08_BOTH("m = inverse(m)", o = inverse(i)); break;
  case 4: E08_BOTH("m = matrix_concat(m, w)", o = matrix_concat(i, w)); break;
  case 5: E08_BOTH("m = matrix_concat(w, m)", o = matrix_concat(w, i)); break;
  case 6: E08_BOTH("m = matrix_concat(m, m)", o = matrix_concat(i, i)); break;
  case 7: E08_BOTH("m = w * m * w", o = w * i * w); break;
  case 8: E08_BOTH("m = lu(m)", o = lu(i)); break;
  case 9: E08_BOTH("m = m * m * w", o = i * i * w); break;
  }
}
template<class M> void systems(int n)
{
  using E = value_type_trait_of_t<M>;
  const mat x = contents(n, mc::choose(2));
  lin::Obj<M> wo(n); auto& w = wo.m; lin::put(w, x);
  const vec b = n == 4 ? values(4)[size_t(2 * mc::choose(120))] : choose(n);
  vector<E, dynamic<>> v(n), u(n), r(n); put(v, b); put(u, b); put(r, b);
  if(mc::choose(2)) { const auto f = lu(w); lu_solve(f, v, v); lu_solve(f, r, u); compare(ref::read(v), ref::read(r), tol<E>(), "lu_solve(LU, b, b)"); }
  else { const auto f = lu_pivot(w); lu_solve(f, v, v); lu_solve(f, r, u); compare(ref::read(v), ref::read(r), tol<E>(), "lu_solve(pivoted, b, b)"); }
}
template<class M> void builders3()
{
  using E = value_type_trait_of_t<M>;
  const int n = 4; const mat x = contents(n, mc::choose(6));
  const axis_order order[] = {axis_order_xyz, axis_order_xzy, axis_order_yxz, axis_order_yzx, axis_order_zxy, axis_order_zyx};
  vector<E, fixed<3>> t(E(1), E(-2), E(.5)), up(E(0), E(1), E(0));
  const int op = mc::choose(33);
  switch(op) {
  case 0: E08_BOTH("matrix_linear_transform(m, m)", matrix_linear_transform(o, i)); break;
  case 1: E08_BOTH("matrix_affine_transform(m, m, t)", matrix_affine_transform(o, i, t)); break;
  case 2: E08_BOTH("matrix_affine_transform(m, m, its translation)", matrix_affine_transform(o, i, matrix_get_translation(i))); break;
  case 3: E08_BOTH("matrix_affine_transform(m, its axis, angle, its translation)", matrix_affine_transform(o, matrix_get_x_basis_vector(i), E(.5), matrix_get_translation(i), false)); break;
  case 4: E08_BOTH("matrix_translation(m, its translation)", matrix_translation(o, matrix_get_translation(i))); break;
  case 5: E08_BOTH("matrix_set_translation(m, multiple of its translation)", matrix_set_translation(o, E(2) * matrix_get_translation(i))); break;
  case 6: E08_BOTH("matrix_set_basis_vectors from its own", matrix_set_basis_vectors(o, matrix_get_y_basis_vector(i), matrix_get_z_basis_vector(i), matrix_get_x_basis_vector(i))); break;
  case 7: E08_BOTH("matrix_set_transposed_basis_vectors from its own", matrix_set_transposed_basis_vectors(o, matrix_get_x_basis_vector(i), matrix_get_y_basis_vector(i), matrix_get_z_basis_vector(i))); break;
  case 8: E08_BOTH("matrix_set_basis_vectors from its transposed ones", matrix_set_basis_vectors(o, matrix_get_transposed_x_basis_vector(i), matrix_get_transposed_y_basis_vector(i), matrix_get_transposed_z_basis_vector(i))); break;
  case 9: { const int k = mc::choose(3), l = mc::choose(3); E08_BOTH("matrix_set_basis_vector from its own", matrix_set_basis_vector(o, k, matrix_get_basis_vector(i, l))); break; }
  case 10: { const int k = mc::choose(3), l = mc::choose(3); E08_BOTH("matrix_set_transposed_basis_vector from its own", matrix_set_transposed_basis_vector(o, k, matrix_get_basis_vector(i, l))); break; }
  case 11: { const axis_order a = order[mc::choose(6)]; E08_BOTH("matrix_rotation_align from its own vectors", matrix_rotation_align(o, matrix_get_x_basis_vector(i), matrix_get_y_basis_vector(i), true, a)); break; }
  case 12: { const axis_order a = order[mc::choose(6)]; E08_BOTH("matrix_rotation_aim_at from its own translation", matrix_rotation_aim_at(o, matrix_get_translation(i), t, up, a)); break; }
  case 13: E08_BOTH("matrix_look_at_LH from its own translation", matrix_look_at_LH(o, matrix_get_translation(i), t, up)); break;
  case 14: E08_BOTH("matrix_look_at_RH towards its own translation", matrix_look_at_RH(o, t, matrix_get_translation(i), matrix_get_y_basis_vector(i))); break;
  case 15: E08_BOTH("matrix_rotation_axis_angle about its own vector", matrix_rotation_axis_angle(o, matrix_get_z_basis_vector(i), E(.5))); break;
  case 16: E08_BOTH("matrix_rotation_euler from its own vector", matrix_rotation_euler(o, matrix_get_z_basis_vector(i), euler_order_zxy)); break;
  case 17: E08_BOTH("matrix_scale by its own vector", matrix_scale(o, matrix_get_z_basis_vector(i))); break;
  case 18: E08_BOTH("matrix_inverse_scale by its own vector", if(x(0, 0) != 0 && x(0, 1) != 0 && x(0, 2) != 0 && x(1, 0) != 0 && x(2, 0) != 0) matrix_inverse_scale(o, matrix_get_x_basis_vector(i))); break;
  case 19: E08_BOTH("matrix_skew_symmetric of its own vector", matrix_skew_symmetric(o, matrix_get_z_basis_vector(i))); break;
  case 20: E08_ELEM(3, "matrix_translation from its elements", matrix_translation(o, s0, s1, s2)); break;
  case 21: E08_ELEM(2, "matrix_translation from two of its elements", matrix_translation(o, s0, s1)); break;
  case 22: E08_ELEM(3, "matrix_set_translation from its elements", matrix_set_translation(o, s0, s1, s2)); break;
  case 23: E08_ELEM(2, "matrix_set_translation from two of its elements", matrix_set_translation(o, s0, s1)); break;
  case 24: E08_ELEM(3, "matrix_scale by its elements", matrix_scale(o, s0, s1, s2)); break;
  case 25: E08_ELEM(1, "matrix_uniform_scale by its element", matrix_uniform_scale(o, s0)); break;
  case 26: E08_ELEM(3, "matrix_inverse_scale by its elements", if(s0 != 0 && s1 != 0 && s2 != 0) matrix_inverse_scale(o, s0, s1, s2)); break;
  case 27: { const int axis = mc::choose(3); E08_ELEM(1, "matrix_rotation_world_axis by its element", matrix_rotation_world_axis(o, axis, s0)); break; }
  case 28: E08_ELEM(1, "matrix_rotation_axis_angle by its element", matrix_rotation_axis_angle(o, t, s0)); break;
  case 29: E08_ELEM(3, "matrix_rotation_euler by its elements", matrix_rotation_euler(o, s0, s1, s2, euler_order_yzx)); break;
  case 30: E08_ELEM(1, "matrix_affine_transform by its element", matrix_affine_transform(o, t, s0, t, true)); break;
  case 31: { const int axis = mc::choose(3); E08_ELEM(3, "matrix_rotation_euler_derivatives by its elements", matrix_rotation_euler_derivatives(o, axis, s0, s1, s2, euler_order_yxz)); break; }
  case 32: E08_BOTH("matrix_invert_RT_only against a copy", matrix_invert_RT_only(o); (void) i); break;
  }
}
template<class M> void builders2()
{
  using E = value_type_trait_of_t<M>;
  const int n = 3; const mat x = contents(n, mc::choose(6));
  vector<E, fixed<2>> t(E(1), E(-2));
  switch(mc::choose(15)) {
  case 0: E08_BOTH("matrix_translation_2D(m, its translation)", matrix_translation_2D(o, matrix_get_translation_2D(i))); break;
  case 1: E08_BOTH("matrix_set_translation_2D(m, multiple of its translation)", matrix_set_translation_2D(o, E(2) * matrix_get_translation_2D(i))); break;
  case 2: E08_BOTH("matrix_set_basis_vectors_2D from its own", matrix_set_basis_vectors_2D(o, matrix_get_y_basis_vector_2D(i), matrix_get_x_basis_vector_2D(i))); break;
  case 3: E08_BOTH("matrix_set_transposed_basis_vectors_2D from its own", matrix_set_transposed_basis_vectors_2D(o, matrix_get_x_basis_vector_2D(i), matrix_get_y_basis_vector_2D(i))); break;
  case 4: { const axis_order2D a = mc::choose(2) ? axis_order_xy : axis_order_yx; E08_BOTH("matrix_rotation_align_2D from its own vector", matrix_rotation_align_2D(o, matrix_get_y_basis_vector_2D(i), true, a)); break; }
  case 5: E08_BOTH("matrix_scale_2D by its own vector", matrix_scale_2D(o, matrix_get_y_basis_vector_2D(i))); break;
  case 6: E08_ELEM(2, "matrix_translation_2D from its elements", matrix_translation_2D(o, s0, s1)); break;
  case 7: E08_ELEM(2, "matrix_set_translation_2D from its elements", matrix_set_translation_2D(o, s0, s1)); break;
  case 8: E08_ELEM(2, "matrix_scale_2D by its elements", matrix_scale_2D(o, s0, s1)); break;
  case 9: E08_ELEM(1, "matrix_uniform_scale_2D by its element", matrix_uniform_scale_2D(o, s0)); break;
  case 10: E08_ELEM(2, "matrix_inverse_scale_2D by its elements", if(s0 != 0 && s1 != 0) matrix_inverse_scale_2D(o, s0, s1)); break;
  case 11: E08_ELEM(1, "matrix_rotation_2D by its element", matrix_rotation_2D(o, s0)); break;
  case 12: E08_ELEM(1, "matrix_skew_symmetric_2D of its element", matrix_skew_symmetric_2D(o, s0)); break;
  case 13: { const int k = mc::choose(2), l = mc::choose(2); E08_BOTH("matrix_set_basis_vector_2D from its own", matrix_set_basis_vector_2D(o, k, matrix_get_basis_vector_2D(i, l))); break; }
  case 14: { const int k = mc::choose(2), l = mc::choose(2); E08_BOTH("matrix_set_transposed_basis_vector_2D from its own", matrix_set_transposed_basis_vector_2D(o, k, matrix_get_basis_vector_2D(i, l))); break; }
  }
}

// Projections and frusta from elements of the matrix.
template<class M> void projections()
{
  using E = value_type_trait_of_t<M>;
  const int n = 4; const mat x = contents(n, mc::choose(6));
  const ZClip z = mc::choose(2) ? z_clip_zero : z_clip_neg_one;
  switch(mc::choose(5)) {
  case 0: E08_ELEM(3, "matrix_perspective_LH by its elements", if(s0 != 0 && s1 != 0 && s2 != 50) matrix_perspective_LH(o, s0, s1, s2, E(50), z)); break;
  case 1: E08_ELEM(3, "matrix_orthographic_RH by its elements", if(s0 != 0 && s1 != 0 && s2 != 50) matrix_orthographic_RH(o, s0, s1, s2, E(50), z)); break;
  case 2: E08_ELEM(3, "matrix_perspective_RH by its elements", if(s0 != s1 && s2 != 50) matrix_perspective_RH(o, s0, s1, E(-30), E(30), s2, E(50), z)); break;
  case 3: E08_ELEM(3, "matrix_orthographic_LH by its elements", if(s0 != s1 && s2 != 50) matrix_orthographic_LH(o, s0, s1, E(-30), E(30), s2, E(50), z)); break;
  case 4: E08_ELEM(3, "matrix_perspective_xfov_LH by its elements", if(s0 != 0 && s1 != 0 && s2 != 50) matrix_perspective_xfov_LH(o, s0, s1, s2, E(50), z)); break;
  }
}

// Quaternions.
template<class Q> void quaternions()
{
  using E = value_type_trait_of_t<Q>;
  const int op = mc::choose(21);
  const vec x = values(4)[size_t(mc::choose(258))];
  Q q, p, r, w; E* dst[3] = {nullptr, nullptr, nullptr}; (void) dst;
  for(int i = 0; i < 4; ++i) q[i] = p[i] = r[i] = E(x[size_t(i)]), w[i] = E(1.5 - i * .75);
  if(ref::len(x) == 0) return;
  vector<E, fixed<3>> up(E(.25), E(1), E(.125));
  std::string name; auto rd = [](const Q& a) { return vec{double(a[0]), double(a[1]), double(a[2]), double(a[3])}; };
  auto go = [&](const char* s, auto f) { f(q, q); f(r, p); compare(rd(q), rd(r), tol<E>(), s); };
  auto elem = [&](const char* s, auto f) { const int a = mc::choose(4), b = mc::choose(4), c = mc::choose(4); const E s0 = p[a], s1 = p[b], s2 = p[c]; f(q, q[a], q[b], q[c]); f(r, s0, s1, s2); compare(rd(q), rd(r), tol<E>(), s); };
  const axis_order order[] = {axis_order_xyz, axis_order_xzy, axis_order_yxz, axis_order_yzx, axis_order_zxy, axis_order_zyx};
  const double li = ref::len(ref::read(p.imaginary()));
  switch(op) {
  case 0: go("q = q * w", [&](auto& o, auto& i) { o = i * w; }); break;
  case 1: go("q = w * q", [&](auto& o, auto& i) { o = w * i; }); break;
  case 2: go("q = q * q", [&](auto& o, auto& i) { o = i * i; }); break;
  case 3: go("q *= q", [&](auto& o, auto& i) { o *= i; }); break;
  case 4: go("q = conjugate(q)", [&](auto& o, auto& i) { o = conjugate(i); }); break;
  case 5: go("q = inverse(q)", [&](auto& o, auto& i) { o = inverse(i); }); break;
  case 6: go("q = normalize(q)", [&](auto& o, auto& i) { o = normalize(i); }); break;
  case 7: go("q = log(q)", [&](auto& o, auto& i) { o = log(i); }); break;
  case 8: go("q = exp(q)", [&](auto& o, auto& i) { o = exp(i); }); break;
  case 9: go("q = identity(q)", [&](auto& o, auto& i) { o = identity(i); }); break;
  case 10: go("q = q * w * q", [&](auto& o, auto& i) { o = i * w * i; }); break;
  case 11: go("quaternion_rotation_axis_angle about its imaginary part", [&](auto& o, auto& i) { quaternion_rotation_axis_angle(o, i.imaginary(), E(.7)); }); break;
  case 12: go("quaternion_rotation_euler by its imaginary part", [&](auto& o, auto& i) { quaternion_rotation_euler(o, i.imaginary(), euler_order_zyx); }); break;
  case 13: { const axis_order a = order[mc::choose(6)]; if(li == 0) return; go("quaternion_rotation_align along its imaginary part", [&](auto& o, auto& i) { quaternion_rotation_align(o, i.imaginary(), up, true, a); }); break; }
  case 14: { const axis_order a = order[mc::choose(6)]; go("quaternion_rotation_aim_at from its imaginary part", [&](auto& o, auto& i) { quaternion_rotation_aim_at(o, i.imaginary(), E(9) * up, up, a); }); break; }
  case 15: go("q.set(imaginary part, real part)", [&](auto& o, auto& i) { o.set(E(2) * i.imaginary(), i.real()); }); break;
  case 16: elem("quaternion_rotation_euler by its elements", [&](auto& o, auto&& a, auto&& b, auto&& c) { quaternion_rotation_euler(o, a, b, c, euler_order_xzy); }); break;
  case 17: { const int axis = mc::choose(3); elem("quaternion_rotation_world_axis by its element", [&](auto& o, auto&& a, auto&&, auto&&) { quaternion_rotation_world_axis(o, axis, a); }); break; }
  case 18: elem("quaternion_rotation_axis_angle by its element", [&](auto& o, auto&& a, auto&&, auto&&) { quaternion_rotation_axis_angle(o, up, a); }); break;
  case 19: elem("q *= and /= its element", [&](auto& o, auto&& a, auto&& b, auto&&) { o *= a; (void) b; }); break;
  case 20: elem("q /= its element", [&](auto& o, auto&& a, auto&&, auto&&) { if(a != 0) o /= a; }); break;
  }
}
} // namespace e08
