// Affine builders, transforms, concatenation and rigid inverse.
#pragma once
#include "../geo.h"

namespace g06 {
using namespace geo;

// A matrix with its own storage.
template<class M> struct Own;
template<class E, int R, int C, class B, class L> struct Own<matrix<E, fixed<R, C>, B, L>> { matrix<E, fixed<R, C>, B, L> m; Own(int, int) {} };
template<class E, class B, class L> struct Own<matrix<E, dynamic<>, B, L>> { matrix<E, dynamic<>, B, L> m; Own(int r, int c) : m(r, c) {} };
template<class E, int R, int C, class B, class L> struct Own<matrix<E, external<R, C>, B, L>> { E buf[R * C]; matrix<E, external<R, C>, B, L> m; Own(int, int) : m(&buf[0]) {} };
template<class E, class B, class L> struct Own<matrix<E, external<>, B, L>> { std::vector<E> buf; matrix<E, external<>, B, L> m; Own(int r, int c) : buf(size_t(r * c)), m(buf.data(), r, c) {} };

inline vec triple(int n)
{
  static const double t[][3] = {{2, -4, 8}, {-1, .5, -2}, {.25, 1, 4}};
  const double* p = t[mc::choose(3)];
  return vec(p, p + n);
}
inline vec shift(int n)
{
  static const double t[][3] = {{1, -2, 3}, {0, 0, 0}, {-4, .5, 2}};
  const double* p = t[mc::choose(3)];
  return vec(p, p + n);
}
// Small linear maps, column-acting.
inline mat linear(int n)
{
  const int k = mc::choose(4);
  mat a(n, n);
  for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j)
    a(i, j) = k == 0 ? (i == (j + 1) % n) : k == 1 ? i * n + j - 3 : k == 2 ? (i == n - 1 - j ? -1 : 0) : (i == j ? 1 : i < j ? j - i : -.5);
  return a;
}
inline void set_col(mat& a, int j, const vec& v) { for(size_t i = 0; i < v.size(); ++i) a(int(i), j) = v[i]; }
inline void set_row(mat& a, int i, const vec& v) { for(size_t j = 0; j < v.size(); ++j) a(i, int(j)) = v[j]; }
inline vec col(const mat& a, int j, int n) { vec o; for(int i = 0; i < n; ++i) o.push_back(a(i, j)); return o; }
inline vec row(const mat& a, int i, int n) { vec o; for(int j = 0; j < n; ++j) o.push_back(a(i, j)); return o; }
inline void reset(mat& a) { for(int i = 0; i < a.r; ++i) for(int j = 0; j < a.c; ++j) a(i, j) = i == j; }
inline void set_block(mat& a, const mat& b) { for(int i = 0; i < b.r; ++i) for(int j = 0; j < b.c; ++j) a(i, j) = b(i, j); }
inline void transpose_in_place(mat& a) { a = ref::transpose(a); }
inline bool orthogonal(const mat& a, int n)
{
  const mat l = part(a, 0, 0, n, n);
  return ref::near(ref::mul(ref::transpose(l), l), mat::identity(n), 1e-9);
}
inline void invert_rigid(mat& a, int n)
{
  const mat lt = ref::transpose(part(a, 0, 0, n, n));
  const vec p = ref::scale(ref::mul(lt, col(a, n, n)), -1);
  set_block(a, lt);
  set_col(a, n, p);
}

inline const std::vector<vec>& probes(int n)
{
  static const std::vector<vec> p3 = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, -2, 3}, {-.5, 4, -8}};
  static const std::vector<vec> p2 = {{0, 0}, {1, 0}, {0, 1}, {3, -2}, {-.5, 8}};
  return n == 3 ? p3 : p2;
}

template<class E> double slack(bool exact) { return exact ? 0 : 100 * tol<E>(); }

// One operation on m and on the plain map a. false: not applicable here.
template<class M> bool op3(M& m, mat& a, bool& exact, std::string& what)
{
  using E = value_type_trait_of_t<M>;
  using B = basis_tag_trait_of_t<M>;
  using L = layout_tag_trait_of_t<M>;
  const int k = mc::choose(22);
  auto s = [](double x) { return E(x); };
  mc::step();
  if(k < 7) {
    const vec t = shift(3);
    const bool two = k == 1 || k == 3 || k == 5;
    if(k >= 4) reset(a);
    set_col(a, 3, {t[0], t[1], two ? 0 : t[2]});
    if(k == 0) matrix_set_translation(m, s(t[0]), s(t[1]), s(t[2])), what = "matrix_set_translation(m,x,y,z)";
    if(k == 1) matrix_set_translation(m, s(t[0]), s(t[1])), what = "matrix_set_translation(m,x,y)";
    if(k == 2) matrix_set_translation(m, v3<E>(t)), what = "matrix_set_translation(m,v3)";
    if(k == 3) matrix_set_translation(m, v2<E>(t)), what = "matrix_set_translation(m,v2)";
    if(k == 4) matrix_translation(m, s(t[0]), s(t[1]), s(t[2])), what = "matrix_translation(m,x,y,z)";
    if(k == 5) matrix_translation(m, s(t[0]), s(t[1])), what = "matrix_translation(m,x,y)";
    if(k == 6) matrix_translation(m, v3<E>(t)), what = "matrix_translation(m,v3)";
    return true;
  }
  if(k < 12) {
    const vec t = triple(3);
    reset(a);
    for(int i = 0; i < 3; ++i) a(i, i) = k == 9 ? t[0] : k > 9 ? 1 / t[size_t(i)] : t[size_t(i)];
    if(k == 7) matrix_scale(m, s(t[0]), s(t[1]), s(t[2])), what = "matrix_scale(m,x,y,z)";
    if(k == 8) matrix_scale(m, v3<E>(t)), what = "matrix_scale(m,v)";
    if(k == 9) matrix_uniform_scale(m, s(t[0])), what = "matrix_uniform_scale";
    if(k == 10) matrix_inverse_scale(m, s(t[0]), s(t[1]), s(t[2])), what = "matrix_inverse_scale(m,x,y,z)";
    if(k == 11) matrix_inverse_scale(m, v3<E>(t)), what = "matrix_inverse_scale(m,v)";
    return true;
  }
  if(k < 16) {
    const int i = mc::choose(3);
    const vec t = shift(3);
    if(k < 14) set_col(a, i, t); else set_row(a, i, t);
    const auto v = v3<E>(t);
    if(k == 12) matrix_set_basis_vector(m, i, v), what = "matrix_set_basis_vector";
    if(k == 13) i == 0 ? matrix_set_x_basis_vector(m, v) : i == 1 ? matrix_set_y_basis_vector(m, v) : matrix_set_z_basis_vector(m, v), what = "matrix_set_xyz_basis_vector";
    if(k == 14) matrix_set_transposed_basis_vector(m, i, v), what = "matrix_set_transposed_basis_vector";
    if(k == 15) i == 0 ? matrix_set_transposed_x_basis_vector(m, v) : i == 1 ? matrix_set_transposed_y_basis_vector(m, v) : matrix_set_transposed_z_basis_vector(m, v), what = "matrix_set_transposed_xyz_basis_vector";
    return true;
  }
  if(k < 20) {
    const mat l = linear(3);
    const auto x = v3<E>(col(l, 0, 3)), y = v3<E>(col(l, 1, 3)), z = v3<E>(col(l, 2, 3));
    if(k == 16) set_block(a, l), matrix_set_basis_vectors(m, x, y, z), what = "matrix_set_basis_vectors";
    if(k == 17) set_block(a, ref::transpose(l)), matrix_set_transposed_basis_vectors(m, x, y, z), what = "matrix_set_transposed_basis_vectors";
    if(k == 18) {
      matrix<E, fixed<3, 3>, B, L> lm;
      setmap(lm, l);
      reset(a), set_block(a, l);
      matrix_linear_transform(m, lm), what = "matrix_linear_transform";
    }
    if(k == 19) {
      // The linear part of a larger matrix.
      matrix<E, fixed<4, 4>, B, L> lm;
      mat big(4, 4, 9);
      set_block(big, l);
      setmap(lm, big);
      const vec t = shift(3);
      reset(a), set_block(a, l), set_col(a, 3, t);
      matrix_affine_transform(m, lm, v3<E>(t)), what = "matrix_affine_transform(m,l,v)";
    }
    return true;
  }
  if(k == 20) {
    static const double ax[][3] = {{0, 0, 1}, {1, 2, 2}, {-1, 1, 0}};
    const double* p = ax[mc::choose(3)];
    vec u(p, p + 3), t = shift(3);
    const double ang = mc::choose(2) ? .75 : -2.5;
    const int norm = mc::choose(3);
    const vec un = ref::unit(u);
    reset(a), set_block(a, ref::rodrigues(un, ang)), set_col(a, 3, t);
    if(norm == 0) matrix_affine_transform(m, v3<E>(un), E(ang), v3<E>(t));
    else if(norm == 1) matrix_affine_transform(m, v3<E>(u), E(ang), v3<E>(t), true);
    else matrix_affine_transform(m, v3<E>(un), E(ang), v3<E>(t), false);
    exact = false;
    what = "matrix_affine_transform(m,axis,angle,v)";
    return true;
  }
  if(!orthogonal(a, 3)) return false;
  // (n-D inversion takes m for exactly affine)
  const bool nd = a.c == 4 && a.r <= 4 && mc::choose(2);
  invert_rigid(a, 3);
  if(nd) matrix_invert_RT(m), what = "matrix_invert_RT"; else matrix_invert_RT_only(m), what = "matrix_invert_RT_only";
  return true;
}
template<class M> bool op2(M& m, mat& a, bool& exact, std::string& what)
{
  using E = value_type_trait_of_t<M>;
  const int k = mc::choose(17);
  auto s = [](double x) { return E(x); };
  mc::step();
  if(k < 4) {
    const vec t = shift(2);
    if(k >= 2) reset(a);
    set_col(a, 2, t);
    if(k == 0) matrix_set_translation_2D(m, s(t[0]), s(t[1])), what = "matrix_set_translation_2D(m,x,y)";
    if(k == 1) matrix_set_translation_2D(m, v2<E>(t)), what = "matrix_set_translation_2D(m,v)";
    if(k == 2) matrix_translation_2D(m, s(t[0]), s(t[1])), what = "matrix_translation_2D(m,x,y)";
    if(k == 3) matrix_translation_2D(m, v2<E>(t)), what = "matrix_translation_2D(m,v)";
    return true;
  }
  if(k < 9) {
    const vec t = triple(2);
    reset(a);
    for(int i = 0; i < 2; ++i) a(i, i) = k == 6 ? t[0] : k > 6 ? 1 / t[size_t(i)] : t[size_t(i)];
    if(k == 4) matrix_scale_2D(m, s(t[0]), s(t[1])), what = "matrix_scale_2D(m,x,y)";
    if(k == 5) matrix_scale_2D(m, v2<E>(t)), what = "matrix_scale_2D(m,v)";
    if(k == 6) matrix_uniform_scale_2D(m, s(t[0])), what = "matrix_uniform_scale_2D";
    if(k == 7) matrix_inverse_scale_2D(m, s(t[0]), s(t[1])), what = "matrix_inverse_scale_2D(m,x,y)";
    if(k == 8) matrix_inverse_scale_2D(m, v2<E>(t)), what = "matrix_inverse_scale_2D(m,v)";
    return true;
  }
  if(k < 13) {
    const int i = mc::choose(2);
    const vec t = shift(2);
    if(k < 11) set_col(a, i, t); else set_row(a, i, t);
    const auto v = v2<E>(t);
    if(k == 9) matrix_set_basis_vector_2D(m, i, v), what = "matrix_set_basis_vector_2D";
    if(k == 10) i == 0 ? matrix_set_x_basis_vector_2D(m, v) : matrix_set_y_basis_vector_2D(m, v), what = "matrix_set_xy_basis_vector_2D";
    if(k == 11) matrix_set_transposed_basis_vector_2D(m, i, v), what = "matrix_set_transposed_basis_vector_2D";
    if(k == 12) i == 0 ? matrix_set_transposed_x_basis_vector_2D(m, v) : matrix_set_transposed_y_basis_vector_2D(m, v), what = "matrix_set_transposed_xy_basis_vector_2D";
    return true;
  }
  if(k < 15) {
    const mat l = linear(2);
    const auto x = v2<E>(col(l, 0, 2)), y = v2<E>(col(l, 1, 2));
    if(k == 13) set_block(a, l), matrix_set_basis_vectors_2D(m, x, y), what = "matrix_set_basis_vectors_2D";
    if(k == 14) set_block(a, ref::transpose(l)), matrix_set_transposed_basis_vectors_2D(m, x, y), what = "matrix_set_transposed_basis_vectors_2D";
    return true;
  }
  if(k == 15) {
    const double ang = mc::choose(2) ? .75 : -2.5;
    mat R(2, 2);
    R.d = {std::cos(ang), -std::sin(ang), std::sin(ang), std::cos(ang)};
    reset(a), set_block(a, R);
    matrix_rotation_2D(m, E(ang)), what = "matrix_rotation_2D";
    exact = false;
    return true;
  }
  if(!orthogonal(a, 2)) return false;
  const bool nd = a.c == 3 && a.r <= 3 && mc::choose(2);
  invert_rigid(a, 2);
  if(nd) matrix_invert_RT(m), what = "matrix_invert_RT"; else matrix_invert_RT_only_2D(m), what = "matrix_invert_RT_only_2D";
  return true;
}

template<class M> void look(const M& m, const mat& a, double t, const std::string& what, int_c<3>)
{
  using E = value_type_trait_of_t<M>;
  const mat got = colmap(m);
  MC_CHECK(ref::near(got, a, t), what, got << " not " << a);
  for(const vec& p : probes(3)) {
    const vec lp = ref::mul(part(a, 0, 0, 3, 3), p);
    MC_CHECK(ref::near(ref::read(transform_vector(m, v3<E>(p))), lp, 2 * t), "transform_vector", what << " " << a << " on " << p << ": " << ref::read(transform_vector(m, v3<E>(p))));
    MC_CHECK(ref::near(ref::read(transform_point(m, v3<E>(p))), ref::add(lp, col(a, 3, 3)), 2 * t), "transform_point", what << " " << a << " on " << p << ": " << ref::read(transform_point(m, v3<E>(p))));
  }
  E e0, e1, e2;
  matrix_get_translation(m, e0, e1, e2);
  MC_CHECK(ref::near(vec{double(e0), double(e1), double(e2)}, col(a, 3, 3), t), "matrix_get_translation(m,x,y,z)", a << ": " << e0 << " " << e1 << " " << e2);
  MC_CHECK(ref::near(ref::read(matrix_get_translation(m)), col(a, 3, 3), t), "matrix_get_translation", a << ": " << ref::read(matrix_get_translation(m)));
  vector<E, compiled<3>> x, y, z;
  vector<E, dynamic<>> dx, dy(7), dz(3);
  for(int i = 0; i < 3; ++i) {
    MC_CHECK(ref::near(ref::read(matrix_get_basis_vector(m, i)), col(a, i, 3), t), "matrix_get_basis_vector", i << " of " << a << ": " << ref::read(matrix_get_basis_vector(m, i)));
    MC_CHECK(ref::near(ref::read(matrix_get_transposed_basis_vector(m, i)), row(a, i, 3), t), "matrix_get_transposed_basis_vector", i << " of " << a << ": " << ref::read(matrix_get_transposed_basis_vector(m, i)));
  }
  MC_CHECK(ref::near(ref::read(matrix_get_x_basis_vector(m)), col(a, 0, 3), t), "matrix_get_x_basis_vector", a);
  MC_CHECK(ref::near(ref::read(matrix_get_y_basis_vector(m)), col(a, 1, 3), t), "matrix_get_y_basis_vector", a);
  MC_CHECK(ref::near(ref::read(matrix_get_z_basis_vector(m)), col(a, 2, 3), t), "matrix_get_z_basis_vector", a);
  MC_CHECK(ref::near(ref::read(matrix_get_transposed_x_basis_vector(m)), row(a, 0, 3), t), "matrix_get_transposed_x_basis_vector", a);
  MC_CHECK(ref::near(ref::read(matrix_get_transposed_y_basis_vector(m)), row(a, 1, 3), t), "matrix_get_transposed_y_basis_vector", a);
  MC_CHECK(ref::near(ref::read(matrix_get_transposed_z_basis_vector(m)), row(a, 2, 3), t), "matrix_get_transposed_z_basis_vector", a);
  matrix_get_basis_vectors(m, x, y, z);
  MC_CHECK(ref::near(ref::read(x), col(a, 0, 3), t) && ref::near(ref::read(y), col(a, 1, 3), t) && ref::near(ref::read(z), col(a, 2, 3), t), "matrix_get_basis_vectors", a);
  matrix_get_transposed_basis_vectors(m, x, y, z);
  MC_CHECK(ref::near(ref::read(x), row(a, 0, 3), t) && ref::near(ref::read(y), row(a, 1, 3), t) && ref::near(ref::read(z), row(a, 2, 3), t), "matrix_get_transposed_basis_vectors", a);
  matrix_get_basis_vectors(m, dx, dy, dz);
  MC_CHECK(ref::near(ref::read(dx), col(a, 0, 3), t) && ref::near(ref::read(dy), col(a, 1, 3), t) && ref::near(ref::read(dz), col(a, 2, 3), t), "matrix_get_basis_vectors into dynamic vectors", a);
  matrix_get_transposed_basis_vectors(m, dx, dy, dz);
  MC_CHECK(ref::near(ref::read(dx), row(a, 0, 3), t) && ref::near(ref::read(dy), row(a, 1, 3), t) && ref::near(ref::read(dz), row(a, 2, 3), t), "matrix_get_transposed_basis_vectors into dynamic vectors", a);
}
template<class M> void look(const M& m, const mat& a, double t, const std::string& what, int_c<2>)
{
  using E = value_type_trait_of_t<M>;
  const mat got = colmap(m);
  MC_CHECK(ref::near(got, a, t), what, got << " not " << a);
  for(const vec& p : probes(2)) {
    const vec lp = ref::mul(part(a, 0, 0, 2, 2), p);
    MC_CHECK(ref::near(ref::read(transform_vector_2D(m, v2<E>(p))), lp, 2 * t), "transform_vector_2D", what << " " << a << " on " << p << ": " << ref::read(transform_vector_2D(m, v2<E>(p))));
    MC_CHECK(ref::near(ref::read(transform_point_2D(m, v2<E>(p))), ref::add(lp, col(a, 2, 2)), 2 * t), "transform_point_2D", what << " " << a << " on " << p << ": " << ref::read(transform_point_2D(m, v2<E>(p))));
  }
  E e0, e1;
  matrix_get_translation_2D(m, e0, e1);
  MC_CHECK(ref::near(vec{double(e0), double(e1)}, col(a, 2, 2), t), "matrix_get_translation_2D(m,x,y)", a << ": " << e0 << " " << e1);
  MC_CHECK(ref::near(ref::read(matrix_get_translation_2D(m)), col(a, 2, 2), t), "matrix_get_translation_2D", a << ": " << ref::read(matrix_get_translation_2D(m)));
  for(int i = 0; i < 2; ++i) {
    MC_CHECK(ref::near(ref::read(matrix_get_basis_vector_2D(m, i)), col(a, i, 2), t), "matrix_get_basis_vector_2D", i << " of " << a);
    MC_CHECK(ref::near(ref::read(matrix_get_transposed_basis_vector_2D(m, i)), row(a, i, 2), t), "matrix_get_transposed_basis_vector_2D", i << " of " << a);
  }
  MC_CHECK(ref::near(ref::read(matrix_get_x_basis_vector_2D(m)), col(a, 0, 2), t), "matrix_get_x_basis_vector_2D", a);
  MC_CHECK(ref::near(ref::read(matrix_get_y_basis_vector_2D(m)), col(a, 1, 2), t), "matrix_get_y_basis_vector_2D", a);
  MC_CHECK(ref::near(ref::read(matrix_get_transposed_x_basis_vector_2D(m)), row(a, 0, 2), t), "matrix_get_transposed_x_basis_vector_2D", a);
  MC_CHECK(ref::near(ref::read(matrix_get_transposed_y_basis_vector_2D(m)), row(a, 1, 2), t), "matrix_get_transposed_y_basis_vector_2D", a);
  vector<E, compiled<2>> x, y;
  vector<E, dynamic<>> dx, dy(7);
  matrix_get_basis_vectors_2D(m, x, y);
  MC_CHECK(ref::near(ref::read(x), col(a, 0, 2), t) && ref::near(ref::read(y), col(a, 1, 2), t), "matrix_get_basis_vectors_2D", a);
  matrix_get_transposed_basis_vectors_2D(m, x, y);
  MC_CHECK(ref::near(ref::read(x), row(a, 0, 2), t) && ref::near(ref::read(y), row(a, 1, 2), t), "matrix_get_transposed_basis_vectors_2D", a);
  matrix_get_basis_vectors_2D(m, dx, dy);
  MC_CHECK(ref::near(ref::read(dx), col(a, 0, 2), t) && ref::near(ref::read(dy), col(a, 1, 2), t), "matrix_get_basis_vectors_2D into dynamic vectors", a);
  matrix_get_transposed_basis_vectors_2D(m, dx, dy);
  MC_CHECK(ref::near(ref::read(dx), row(a, 0, 2), t) && ref::near(ref::read(dy), row(a, 1, 2), t), "matrix_get_transposed_basis_vectors_2D into dynamic vectors", a);
}
template<class M> bool operate(M& m, mat& a, bool& exact, std::string& what, int_c<3>) { return op3(m, a, exact, what); }
template<class M> bool operate(M& m, mat& a, bool& exact, std::string& what, int_c<2>) { return op2(m, a, exact, what); }

// A history of operations on one matrix; the map it stands for is tracked.
template<class M, int D> void history(int r, int c, int depth)
{
  using E = value_type_trait_of_t<M>;
  Own<M> o(r, c);
  mat start(r, c), a;
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) start(i, j) = i * c + j + 2;
  lin::put(o.m, start);
  a = colmap(o.m);
  bool exact = true;
  std::string line;
  const int n = 1 + mc::choose(depth);
  for(int k = 0; k < n; ++k) {
    std::string what;
    if(!operate(o.m, a, exact, what, int_c<D>())) return;
    line += (k ? "; " : "") + what;
  }
  mc::state(ref::hash(a));
  look(o.m, a, slack<E>(exact), line, int_c<D>());
}

// Concatenation: first the first, then the second.
template<class M1, class M2, int D> void concat_n(int n)
{
  using E = value_type_trait_of_t<M1>;
  using F = value_type_trait_of_t<M2>;
  using T = std::common_type_t<E, F>;
  mat a(n, n), b(n, n);
  reset(a), reset(b);
  set_block(a, linear(D)), set_block(b, linear(D));
  if(n > D) set_col(a, D, shift(D)), set_col(b, D, shift(D));
  Own<M1> m(n, n);
  Own<M2> k(n, n);
  setmap(m.m, a), setmap(k.m, b);
  mc::step(2);
  const auto ab = matrix_concat(m.m, k.m);
  static_assert(std::is_same<value_type_trait_of_t<std::decay_t<decltype(ab)>>, T>::value, "promoted element");
  const mat got = colmap(ab), want = ref::mul(b, a);
  mc::state(mc::Hash()(int(ref::hash(a) % 1000003))(int(ref::hash(b) % 1000003)));
  MC_CHECK(ref::near(got, want, 0), "matrix_concat", a << " then " << b << ": " << got << " not " << want);
  // Of an expression.
  const mat got2 = colmap(matrix_concat(m.m + m.m, k.m));
  MC_CHECK(ref::near(got2, ref::mul(b, ref::scale(a, 2)), 0), "matrix_concat of an expression", got2);
}

// Rigid inverses.
inline mat givens(int n, int i, int j, double a)
{
  mat m = mat::identity(n);
  m(i, i) = m(j, j) = std::cos(a), m(i, j) = -std::sin(a), m(j, i) = std::sin(a);
  return m;
}
template<class M, class = void> struct Fits2 : std::true_type {};
template<class E, int R, int C, class B, class L> struct Fits2<matrix<E, fixed<R, C>, B, L>> : std::integral_constant<bool, (std::is_same<B, row_basis>::value ? R >= 3 && C >= 2 : R >= 2 && C >= 3)> {};
template<class E, int R, int C, class B, class L> struct Fits2<matrix<E, external<R, C>, B, L>> : std::integral_constant<bool, (R < 0 || Fits2<matrix<E, fixed<(R < 0 ? 9 : R), (C < 0 ? 9 : C)>, B, L>>::value)> {};
template<class M, class = void> struct Fits3 : std::true_type {};
template<class E, int R, int C, class B, class L> struct Fits3<matrix<E, fixed<R, C>, B, L>> : std::integral_constant<bool, (std::is_same<B, row_basis>::value ? R >= 4 && C >= 3 : R >= 3 && C >= 4)> {};
template<class E, int R, int C, class B, class L> struct Fits3<matrix<E, external<R, C>, B, L>> : std::integral_constant<bool, (R < 0 || Fits3<matrix<E, fixed<(R < 0 ? 9 : R), (C < 0 ? 9 : C)>, B, L>>::value)> {};
template<class M> void only(M& m, int n, std::string& what)
{
  if(n == 2) { if constexpr(Fits2<M>::value) matrix_invert_RT_only_2D(m), what = "matrix_invert_RT_only_2D"; }
  else if(n == 3) { if constexpr(Fits3<M>::value) matrix_invert_RT_only(m), what = "matrix_invert_RT_only"; }
}

template<class M> void rigid_inverse(int r, int c, int n)
{
  using E = value_type_trait_of_t<M>;
  // Rotations (and reflections) of n dimensions: two turns in chosen planes.
  mat R = mat::identity(n);
  static const double turns[] = {.5, pi / 2, 2.5, pi, -1};
  for(int k = 0; k < 2 && n > 1; ++k) {
    const int pl = mc::choose(n * (n - 1) / 2);
    int q = 0, pi_ = 0, pj = 1;
    for(int i = 0; i < n; ++i) for(int j = i + 1; j < n; ++j) if(q++ == pl) pi_ = i, pj = j;
    R = ref::mul(givens(n, pi_, pj, turns[mc::choose(5)]), R);
  }
  if(mc::choose(2)) for(int j = 0; j < n; ++j) R(0, j) = -R(0, j);
  static const double ts[][5] = {{0, 0, 0, 0, 0}, {1, -2, 3, .5, 7}, {-4, 0, 0, 2, -1}};
  const double* t = ts[mc::choose(3)];
  mat full = mat::identity(n + 1);
  set_block(full, R);
  set_col(full, n, vec(t, t + n));
  const int cr = is_row<M>() ? c : r, cc = is_row<M>() ? r : c; // rows, columns of the map
  const mat a = part(full, 0, 0, cr, cc);
  const double eps = 20 * tol<E>();
  const int forms = n == 2 ? 2 : n == 3 ? 2 : 1;
  for(int f = 0; f < forms; ++f) {
    Own<M> m(r, c);
    setmap(m.m, a);
    mc::step();
    std::string what = "matrix_invert_RT";
    if(f == 0) matrix_invert_RT(m.m);
    else only(m.m, n, what);
    const mat got = colmap(m.m);
    mat wide = mat::identity(n + 1);
    set_block(wide, got);
    mc::state(ref::hash(a));
    MC_CHECK(ref::near(ref::mul(wide, full), mat::identity(n + 1), eps), what, a << ": " << got);
    MC_CHECK(ref::near(ref::mul(full, wide), mat::identity(n + 1), eps), what, a << ": " << got);
    if(cr == n + 1) for(int j = 0; j <= n; ++j) MC_CHECK(got(n, j) == (j == n), "last row", what << " " << got);
    if(f == 0) matrix_invert_RT(m.m); else only(m.m, n, what);
    MC_CHECK(ref::near(colmap(m.m), a, eps), "twice", what << " " << a << ": " << colmap(m.m));
  }
}
// A vector of n elements.
template<class V> struct Sized;
template<class E, int N> struct Sized<vector<E, compiled<N>>> { vector<E, compiled<N>> v; explicit Sized(int) {} };
template<class E> struct Sized<vector<E, dynamic<>>> { vector<E, dynamic<>> v; explicit Sized(int n) : v(n) {} };

// Projective maps of 4D vectors and of points.
template<class M, class V4, class V3> void projective()
{
  using E = value_type_trait_of_t<M>;
  mat a(4, 4);
  const int k = mc::choose(6);
  for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j)
    a(i, j) = k == 0 ? (i == j) : k == 1 ? (i == (j + 1) % 4) : k == 2 ? i * 4 + j - 6 : k == 3 ? (i == j ? 2 : 0) : k == 4 ? (i < j ? 1 : i == j ? -1 : .5) : (i == 3 ? (j == 2 ? -1 : j == 3) : (i == j) * 4 + (j == 3));
  vec v;
  for(int i = 0; i < 4; ++i) v.push_back(mc::choose(4) - 1.5);
  Own<M> m(4, 4);
  setmap(m.m, a);
  Sized<V4> o4(4);
  Sized<V3> o3(3);
  auto& v4 = o4.v;
  auto& p3 = o3.v;
  for(int i = 0; i < 4; ++i) v4[i] = value_type_trait_of_t<V4>(v[size_t(i)]);
  for(int i = 0; i < 3; ++i) p3[i] = value_type_trait_of_t<V3>(v[size_t(i)]);
  mc::step(2);
  const vec want = ref::mul(a, v), got = ref::read(transform_vector_4D(m.m, v4));
  mc::state(mc::Hash()(k)(int(ref::hash(v) % 1000003)));
  MC_CHECK(ref::same(got, want), "transform_vector_4D", a << " on " << v << ": " << got << " not " << want);
  const vec h = ref::mul(a, vec{v[0], v[1], v[2], 1});
  if(h[3] == 0) return;
  const vec w{h[0] / h[3], h[1] / h[3], h[2] / h[3]}, g = ref::read(transform_point_4D(m.m, p3));
  MC_CHECK(ref::near(g, w, tol<E>()), "transform_point_4D", a << " on " << v << ": " << g << " not " << w);
}
template<class F> std::string thrown(F f)
{
  try { f(); }
  catch(const vector_size_error&) { return "vector_size_error"; }
  catch(const vector_size_range_error&) { return "vector_size_error"; }
  catch(const minimum_matrix_size_error&) { return "minimum_matrix_size_error"; }
  catch(const matrix_size_error&) { return "matrix_size_error"; }
  catch(const non_square_matrix_error&) { return "non_square_matrix_error"; }
  catch(const affine_matrix_size_error&) { return "affine_matrix_size_error"; }
  catch(const std::invalid_argument&) { return "invalid_argument"; }
  catch(const std::exception& e) { return std::string("exception ") + e.what(); }
  return "none";
}
// Sizes known only at run time.
template<class E, class B, class L> void sizes()
{
  using M = matrix<E, dynamic<>, B, L>;
  const int op = mc::choose(40), r = mc::choose(6), c = mc::choose(6);
  M m(r, c);
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) m(i, j) = E(7 + i * c + j);
  const mat before = ref::readm(m);
  const int cr = is_row<M>() ? c : r, cc = is_row<M>() ? r : c;
  const bool a3 = cr >= 3 && cc >= 4, l3 = r >= 3 && c >= 3, a2 = cr >= 2 && cc >= 3, l2 = r >= 2 && c >= 2;
  std::string got, want = "none";
  auto need = [&](bool ok) { if(!ok) want = "minimum_matrix_size_error"; };
  const E one(1);
  int nv = 0;
  auto vect = [&](int lo, int hi) {
    nv = mc::choose(6);
    vector<E, dynamic<>> v(nv);
    for(int i = 0; i < nv; ++i) v[i] = one;
    if((nv < lo || nv > hi) && want == "none") want = "vector_size_error";
    else if(nv < lo || nv > hi) want = "any";
    return v;
  };
  auto index = [&](int n) {
    const int i = mc::choose(n + 2) - 1;
    if(i < 0 || i >= n) want = want == "none" ? "invalid_argument" : "any";
    return i;
  };
  E x, y, z;
  vector<E, dynamic<>> x3(3), x2(2);
  for(int i = 0; i < 3; ++i) x3[i] = one;
  for(int i = 0; i < 2; ++i) x2[i] = one;
  matrix<E, fixed<3, 3>, B, L> l;
  l.identity();
  mc::step();
  bool reads = false;
#define OP(k, ok, call) case k: need(ok); got = thrown([&] { call; }); break;
#define OPV(k, ok, lo, hi, call) case k: { need(ok); const auto v = vect(lo, hi); got = thrown([&] { call; }); } break;
#define OPI(k, ok, n, call) case k: { need(ok); const int i = index(n); got = thrown([&] { call; }); } break;
#define GET(k, ok, call) case k: reads = true; need(ok); got = thrown([&] { call; }); break;
#define GETV(k, ok, lo, hi, call) case k: { reads = true; need(ok); const auto v = vect(lo, hi); got = thrown([&] { call; }); } break;
#define GETI(k, ok, n, call) case k: { reads = true; need(ok); const int i = index(n); got = thrown([&] { call; }); } break;
  switch(op) {
    OP(0, a3, matrix_set_translation(m, one, one, one)) OP(1, a3, matrix_set_translation(m, one, one)) OPV(2, a3, 2, 3, matrix_set_translation(m, v))
    OP(3, a3, matrix_translation(m, one, one, one)) OP(4, a3, matrix_translation(m, one, one)) OPV(5, a3, 2, 3, matrix_translation(m, v))
    OP(6, a2, matrix_set_translation_2D(m, one, one)) OPV(7, a2, 2, 2, matrix_set_translation_2D(m, v))
    OP(8, a2, matrix_translation_2D(m, one, one)) OPV(9, a2, 2, 2, matrix_translation_2D(m, v))
    GET(10, a3, matrix_get_translation(m, x, y, z)) GET(11, a3, matrix_get_translation(m)) GET(12, a2, matrix_get_translation_2D(m, x, y)) GET(13, a2, matrix_get_translation_2D(m))
    OP(14, a3, matrix_scale(m, one, one, one)) OPV(15, a3, 3, 3, matrix_scale(m, v)) OP(16, a3, matrix_uniform_scale(m, one)) OP(17, a3, matrix_inverse_scale(m, one, one, one)) OPV(18, a3, 3, 3, matrix_inverse_scale(m, v))
    OP(19, a2, matrix_scale_2D(m, one, one)) OPV(20, a2, 2, 2, matrix_scale_2D(m, v)) OP(21, a2, matrix_uniform_scale_2D(m, one)) OP(22, a2, matrix_inverse_scale_2D(m, one, one)) OPV(23, a2, 2, 2, matrix_inverse_scale_2D(m, v))
    OPI(24, l3, 3, matrix_set_basis_vector(m, i, x3)) OPI(25, l3, 3, matrix_set_transposed_basis_vector(m, i, x3)) OPI(26, l2, 2, matrix_set_basis_vector_2D(m, i, x2)) OPI(27, l2, 2, matrix_set_transposed_basis_vector_2D(m, i, x2))
    OPV(28, l3, 3, 3, matrix_set_basis_vectors(m, x3, x3, v)) OPV(29, l3, 3, 3, matrix_set_transposed_basis_vectors(m, v, x3, x3)) OPV(30, l2, 2, 2, matrix_set_basis_vectors_2D(m, x2, v))
    GETI(31, l3, 3, matrix_get_basis_vector(m, i)) GETI(32, l2, 2, matrix_get_transposed_basis_vector_2D(m, i))
    OP(33, l3, matrix_linear_transform(m, l)) OPV(34, a3, 2, 3, matrix_affine_transform(m, l, v)) OPV(35, a3, 2, 3, matrix_affine_transform(m, v3<E>(vec{0, 0, 1}), E(.5), v))
    GETV(36, l3, 3, 3, transform_vector(m, v)) GETV(37, a3, 3, 3, transform_point(m, v)) GETV(38, l2, 2, 2, transform_vector_2D(m, v)) GETV(39, a2, 2, 2, transform_point_2D(m, v))
  }
#undef OP
#undef OPV
#undef OPI
#undef GET
#undef GETV
#undef GETI
  mc::state(mc::Hash()(op)(r)(c)(nv));
  MC_CHECK(want == "any" ? got != "none" : got == want, "size rule", "op " << op << " on " << r << "x" << c << " with " << nv << ": " << got << " instead of " << want);
  if(got != "none" || reads) MC_CHECK(ref::near(ref::readm(m), before, 0), "left alone", "op " << op << " on " << r << "x" << c << ": " << ref::readm(m));
}
template<class E, class B, class L> void sizes_inverse()
{
  using M = matrix<E, dynamic<>, B, L>;
  const int op = mc::choose(6), r = mc::choose(6), c = mc::choose(6);
  M m(r, c);
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) m(i, j) = E(i == j);
  const mat before = ref::readm(m);
  const int cr = is_row<M>() ? c : r, cc = is_row<M>() ? r : c;
  const bool a3 = cr >= 3 && cc >= 4, a2 = cr >= 2 && cc >= 3;
  std::string got, want = "none";
  mc::step();
  int q = 0;
  if(op == 0) want = a2 ? "none" : "minimum_matrix_size_error", got = thrown([&] { matrix_invert_RT_only_2D(m); });
  if(op == 1) want = a3 ? "none" : "minimum_matrix_size_error", got = thrown([&] { matrix_invert_RT_only(m); });
  if(op == 2) {
    if(r * c == 0) return;
    want = cc == cr || cc == cr + 1 ? "none" : "affine_matrix_size_error", got = thrown([&] { matrix_invert_RT(m); });
  }
  if(op == 3) {
    q = mc::choose(6);
    M k(q, q);
    k.identity();
    want = r != c ? "non_square_matrix_error" : q != r ? "any" : "none";
    got = thrown([&] { auto p = matrix_concat(m, k); if(p.rows() != r || p.cols() != r) throw std::logic_error("wrong size"); });
  }
  if(op == 4) {
    q = mc::choose(6);
    vector<E, dynamic<>> v(q);
    for(int i = 0; i < q; ++i) v[i] = E(1);
    want = r != 4 || c != 4 ? (q == 4 ? "matrix_size_error" : "any") : q != 4 ? "vector_size_error" : "none";
    got = thrown([&] { if(transform_vector_4D(m, v).size() != 4) throw std::logic_error("wrong size"); });
  }
  if(op == 5) {
    q = mc::choose(6);
    vector<E, dynamic<>> v(q);
    for(int i = 0; i < q; ++i) v[i] = E(1);
    want = r != 4 || c != 4 ? (q == 3 ? "matrix_size_error" : "any") : q != 3 ? "vector_size_error" : "none";
    got = thrown([&] { if(transform_point_4D(m, v).size() != 3) throw std::logic_error("wrong size"); });
  }
  mc::state(mc::Hash()(op)(r)(c)(q));
  MC_CHECK(want == "any" ? got != "none" : got == want, "size rule", "op " << op << " on " << r << "x" << c << " with " << q << ": " << got << " instead of " << want);
  MC_CHECK(ref::near(ref::readm(m), before, 0), "left alone", "op " << op << " on " << r << "x" << c << ": " << ref::readm(m));
}

// Whole-number arguments of a real matrix, and mixed argument types.
template<class M> void mixed()
{
  using E = value_type_trait_of_t<M>;
  M m;
  m.fill(E(5));
  const int f = mc::choose(8), s0 = 1 << mc::choose(3), s1 = -(1 << mc::choose(3)), s2 = 1 << mc::choose(4);
  mat a = mat::identity(4);
  mc::step();
  const vector<int, compiled<3>> v(s0, s1, s2);
  if(f < 4) a(0, 0) = 1. / s0, a(1, 1) = 1. / s1, a(2, 2) = 1. / s2;
  else if(f < 6) a(0, 0) = s0, a(1, 1) = s1, a(2, 2) = s2;
  else a(0, 3) = s0, a(1, 3) = s1, a(2, 3) = s2;
  if(f == 0) matrix_inverse_scale(m, s0, s1, s2);
  if(f == 1) matrix_inverse_scale(m, v);
  if(f == 2) matrix_inverse_scale(m, float(s0), s1, double(s2));
  if(f == 3) { matrix_inverse_scale_2D(m, s0, s1); a(2, 2) = 1; }
  if(f == 4) matrix_scale(m, s0, float(s1), double(s2));
  if(f == 5) matrix_scale(m, v);
  if(f == 6) matrix_translation(m, s0, float(s1), double(s2));
  if(f == 7) matrix_translation(m, v);
  mc::state(mc::Hash()(f)(s0)(s1)(s2));
  MC_CHECK(ref::near(colmap(m), a, 0), "whole-number arguments", "form " << f << " " << s0 << "," << s1 << "," << s2 << ": " << colmap(m));
}
// Stored vectors of every kind go through.
template<class E, class B, class L> void kinds()
{
  matrix<E, fixed<4, 4>, B, L> m;
  const mat l = linear(3);
  const vec t = shift(3), p{1, -2, 4};
  mat a = mat::identity(4);
  set_block(a, l), set_col(a, 3, t);
  setmap(m, a);
  E buf[3] = {E(1), E(-2), E(4)};
  vector<E, dynamic<>> d(3, &buf[0]);
  vector<E, external<3>> x(&buf[0]);
  vector<E, external<>> y(&buf[0], 3);
  vector<const E, external<3>> k(&buf[0]);
  vector<double, compiled<3>> vd(1., -2., 4.);
  vector<float, compiled<3>> vf(1.f, -2.f, 4.f);
  const vec want = ref::mul(part(a, 0, 0, 3, 4), vec{1, -2, 4, 1});
  mc::step(7);
  mc::state(ref::hash(a));
#define ONE(v) MC_CHECK(ref::same(ref::read(transform_point(m, v)), want), "transform_point of " #v, a << ": " << ref::read(transform_point(m, v)));
  ONE(d) ONE(x) ONE(y) ONE(k) ONE(vd) ONE(vf) ONE(E(.5) * (x + y)) ONE(-(-d))
#undef ONE
  const vec lw = ref::mul(l, p);
  MC_CHECK(ref::same(ref::read(transform_vector(m, d)), lw) && ref::same(ref::read(transform_vector(m, y)), lw) && ref::same(ref::read(transform_vector(m, k)), lw), "transform_vector", a);
  // An expression in place of the matrix.
  const vec w2 = ref::scale(want, 2);
  MC_CHECK(ref::same(ref::read(transform_point(m + m, d)), w2), "transform_point by an expression", a << ": " << ref::read(transform_point(m + m, d)));
  matrix_set_translation(m, x);
  MC_CHECK(ref::same(ref::read(matrix_get_translation(m)), p), "matrix_set_translation of external", ref::read(matrix_get_translation(m)));
  matrix_translation(m, d - y);
  MC_CHECK(ref::near(colmap(m), mat::identity(4), 0), "matrix_translation of an expression", colmap(m));
}
} // namespace g06
