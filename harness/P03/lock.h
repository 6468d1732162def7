// One sequence of operations run in lock step on every configuration.
#pragma once
#include "../geo.h"
#include <memory>

namespace p03 {
using namespace geo;

// A machine holds matrices a and b, a vector v and a number s in one
// configuration. With values it is told which numbers to work with.
struct Machine
{
  std::string name;
  virtual ~Machine() {}
  virtual void reset(int start) = 0;
  virtual void apply(int op) = 0;
  virtual mat a() const = 0;
  virtual mat b() const = 0;
  virtual vec v() const = 0;
  double s = 0;
  double largest() const { double m = std::fabs(s); for(const vec& q : {a().d, b().d, v()}) for(double e : q) m = std::max(m, std::fabs(e)); return m; }
};
using Machines = std::vector<std::unique_ptr<Machine>>;
// Filled by the other translation units: key -> factories.
using Make = std::function<std::unique_ptr<Machine>()>;
std::vector<std::pair<std::string, Make>>& factories();
struct Add { Add(const std::string& key, Make m) { factories().push_back({key, std::move(m)}); } };

template<class M> struct Store;
template<class E, int R, int C, class B, class L> struct Store<matrix<E, fixed<R, C>, B, L>> { matrix<E, fixed<R, C>, B, L> m; Store(int, int) {} };
template<class E, class B, class L> struct Store<matrix<E, dynamic<>, B, L>> { matrix<E, dynamic<>, B, L> m; Store(int r, int c) : m(r, c) {} };
template<class E, int R, int C, class B, class L> struct Store<matrix<E, external<R, C>, B, L>> { E buf[R * C]; matrix<E, external<R, C>, B, L> m; Store(int, int) : m(&buf[0]) {} };
template<class E, class B, class L> struct Store<matrix<E, external<>, B, L>> { std::vector<E> buf; matrix<E, external<>, B, L> m; Store(int r, int c) : buf(static_cast<size_t>(r * c)), m(buf.data(), r, c) {} };
// The vector kept next to a matrix: run-time sized for run-time sized ones.
template<class M, int N> struct vec_of { using type = vector<value_type_trait_of_t<M>, compiled<N>>; };
template<class E, class B, class L, int N> struct vec_of<matrix<E, dynamic<>, B, L>, N> { using type = vector<E, dynamic<>>; };
template<class E, class B, class L, int N> struct vec_of<matrix<E, external<>, B, L>, N> { using type = vector<E, dynamic<>>; };
template<class E, int N> void size_to(vector<E, compiled<N>>&, int) {}
template<class E> void size_to(vector<E, dynamic<>>& v, int n) { v.resize(n); }

inline mat rows(std::initializer_list<vec> l) { mat m(int(l.size()), int(l.begin()->size())); int i = 0; for(const vec& r : l) { for(int j = 0; j < m.c; ++j) m(i, j) = r[size_t(j)]; ++i; } return m; }
inline int start_element(int start, int i, int j, int which)
{
  if(start == 0) return which == 0 ? (i == j ? 2 : i < j ? 1 : -1) : (i + 2 * j) % 3 - 1;
  if(start == 1) return which == 0 ? (i * 3 + j * 5 + 1) % 7 - 3 : (i * 2 + j + 3) % 5 - 2;
  return which == 0 ? (j == (i + 1) % 4 ? 3 : i == 3 && j == 0 ? -2 : 0) : i - j + 1;
}

// Square matrices: the same elements in every configuration.
enum { SquareOps = 34 };
template<class M, int N> struct Square : Machine
{
  using E = value_type_trait_of_t<M>;
  Store<M> sa, sb;
  typename vec_of<M, N>::type x;
  Square() : sa(N, N), sb(N, N) { size_to(x, N); }
  mat a() const override { return ref::readm(sa.m); }
  mat b() const override { return ref::readm(sb.m); }
  vec v() const override { return ref::read(x); }
  void reset(int start) override
  {
    for(int i = 0; i < N; ++i) {
      for(int j = 0; j < N; ++j) sa.m(i, j) = E(start_element(start, i, j, 0)), sb.m(i, j) = E(start_element(start, i, j, 1));
      x[i] = E(i % 2 ? -i - 1 : i + 1);
    }
    s = 0;
  }
  // Inverting is exact enough for small, well-conditioned matrices only.
  bool invertible() const
  {
    const mat q = a();
    double m = 0;
    for(double e : q.d) m = std::max(m, std::fabs(e));
    return sizeof(E) == 8 && m <= 30 && std::fabs(double(determinant(sa.m))) >= .5;
  }
  void apply(int op) override
  {
    auto& A = sa.m;
    auto& B = sb.m;
    // Keep whole numbers exact.
    const double m = largest();
    if(m > (sizeof(E) == 4 ? 1e3 : 1e6) && (op == 4 || op == 5 || op == 14 || op == 15 || op == 18 || op == 21)) return;
    if(m > (sizeof(E) == 4 ? 20 : 1e3) && op == 19) return;
    if(m > (sizeof(E) == 4 ? 1e6 : 1e14)) return;
    switch(op) {
      case 0: A += B; break;
      case 1: A -= B; break;
      case 2: A *= E(2); break;
      case 3: B /= E(2); break;
      case 4: A = A * B; break;
      case 5: B = B * A; break;
      case 6: A.transpose(); break;
      case 7: A = transpose(B); break;
      case 8: if(invertible()) A = inverse(A); break;
      case 9: A.identity(); break;
      case 10: B.zero(); break;
      case 11: A.fill(E(3)); break;
      case 12: A.set_row(1, x); break;
      case 13: A.set_col(0, x); break;
      case 14: x = A * x; break;
      case 15: x = x * A; break;
      case 16: x = row(A, 0); break;
      case 17: x = col(A, N - 1); break;
      case 18: A = outer(x, x); break;
      case 19: s = determinant(A); x *= E(s > 0 ? 1 : -1); break;
      case 20: s = trace(A); B(0, N - 1) = E(s); break;
      case 21: A = cml::hadamard(A, B); break;
      case 22: A = B; break;
      case 23: { const temporary_of_t<M> c(transpose(B)); B = A - c; break; }
      case 24: A(1, 0) += A(0, 1); break;
      case 25: A = E(2) * A - B; break;
      case 26: if(invertible()) { const auto w = lu_solve(lu_pivot(A), x); x = w; } break;
      case 27: x.minimize(row(B, 1)); break;
      case 28: { E arr[N][N]; for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j) arr[i][j] = E(i * 2 - j); A = arr; break; }
      case 29: s = A == B ? 1 : A != B ? 2 : 3; break;
      case 30: B = -A; break;
      case 31: { temporary_of_t<M> c(A); c *= E(3); B = c; break; }
      case 32: x += col(A, 1) - row(B, 0); break;
      case 33: if(invertible()) A.inverse(); break;
    }
  }
};
// Other shapes: a is R x C, b is C x R.
enum { OblongOps = 20 };
template<class M, class W, int R, int C> struct Oblong : Machine
{
  using E = value_type_trait_of_t<M>;
  Store<M> sa;
  Store<W> sb;
  typename vec_of<M, R>::type x;
  typename vec_of<M, C>::type y;
  Oblong() : sa(R, C), sb(C, R) { size_to(x, R), size_to(y, C); }
  mat a() const override { return ref::readm(sa.m); }
  mat b() const override { return ref::readm(sb.m); }
  vec v() const override { vec r = ref::read(x); for(double e : ref::read(y)) r.push_back(e); return r; }
  void reset(int start) override
  {
    for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) sa.m(i, j) = E(start_element(start, i, j, 0)), sb.m(j, i) = E(start_element(start, i, j, 1));
    for(int i = 0; i < R; ++i) x[i] = E(i % 2 ? -i - 1 : i + 1);
    for(int i = 0; i < C; ++i) y[i] = E(2 * i - 1);
    s = 0;
  }
  void apply(int op) override
  {
    auto& A = sa.m;
    auto& B = sb.m;
    const double m = largest();
    if(m > (sizeof(E) == 4 ? 1e3 : 1e6) && op != 11 && op != 12 && op != 17 && op != 18) return;
    if(m > (sizeof(E) == 4 ? 100 : 1e4) && op == 16) return;
    switch(op) {
      case 0: A += transpose(B); break;
      case 1: B -= transpose(A); break;
      case 2: A *= E(2); break;
      case 3: B = transpose(A); break;
      case 4: x = A * y; break;
      case 5: y = x * A; break;
      case 6: y = B * x; break;
      case 7: x = y * B; break;
      case 8: A.set_row(R - 1, y); break;
      case 9: A.set_col(C - 1, x); break;
      case 10: B.set_row(0, x); break;
      case 11: x = col(A, 0); break;
      case 12: y = row(A, 0); break;
      case 13: A = outer(x, y); break;
      case 14: B = outer(y, x) - B; break;
      case 15: s = trace(A * B); break;
      case 16: A = A * B * A; break;
      case 17: A.identity(); break;
      case 18: B.fill(E(2)), B(C - 1, 0) = E(-1); break;
      case 19: { E arr[R][C]; for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) arr[i][j] = E(i * 3 - j); A += matrix<E, fixed<R, C>, basis_tag_trait_of_t<M>, layout_tag_trait_of_t<M>>(arr); break; }
    }
  }
};

// Maps of space: the same map in every configuration, its matrix transposed
// between the bases. a and b are maps, v a point.
enum { MapOps = 48 };
template<class M> struct Map : Machine
{
  using E = value_type_trait_of_t<M>;
  Store<M> sa, sb;
  typename vec_of<M, 3>::type x;
  Map() : sa(4, 4), sb(4, 4) { size_to(x, 3); }
  mat a() const override { return colmap(sa.m); }
  mat b() const override { return colmap(sb.m); }
  vec v() const override { return ref::read(x); }
  void reset(int start) override
  {
    x[0] = E(1), x[1] = E(-2), x[2] = E(.5);
    sa.m.identity(), sb.m.identity();
    if(start == 1) setmap(sa.m, rows({{0, -1, 0, 2}, {1, 0, 0, -1}, {0, 0, 1, 3}, {0, 0, 0, 1}}));
    if(start == 2) setmap(sa.m, rows({{1, 2, 0, 1}, {0, 1, -1, 0}, {1, 0, 2, -3}, {0, 0, 0, 1}})), setmap(sb.m, rows({{2, 0, 0, 0}, {0, 1, 0, 1}, {0, 0, -1, 0}, {0, 0, 0, 1}}));
    s = 0;
  }
  // After a comes b.
  void concat() { if(is_row<M>()) sa.m = sa.m * sb.m; else sa.m = sb.m * sa.m; }
  void apply(int op) override
  {
    auto& A = sa.m;
    auto& B = sb.m;
    using V3 = vector<E, compiled<3>>;
    using V2 = vector<E, compiled<2>>;
    const V3 p(E(1), E(2), E(-1)), q(E(0), E(1), E(2)), u(E(0), E(.6), E(.8));
    const E t = E(.7), h = E(.5);
    switch(op) {
      case 0: concat(); break;
      case 1: B = A; break;
      case 2: A = matrix_concat(A, B); break;
      case 3: A.transpose(); break;
      case 4: if(std::fabs(double(determinant(A))) > .01) A.inverse(); break;
      case 5: matrix_translation(B, p); break;
      case 6: matrix_translation(B, E(1), E(2)); break;
      case 7: matrix_set_translation(A, q); break;
      case 8: matrix_scale(B, E(2), E(1), E(-1)); break;
      case 9: matrix_uniform_scale(B, E(.5)); break;
      case 10: matrix_inverse_scale(B, E(2), E(4), E(.5)); break;
      case 11: matrix_rotation_world_axis(B, 1, t); break;
      case 12: matrix_rotation_world_x(B, t); break;
      case 13: matrix_rotation_world_z(B, h); break;
      case 14: matrix_rotation_axis_angle(B, u, t); break;
      case 15: matrix_rotation_euler(B, t, h, E(.3), euler_order_zxy); break;
      case 16: matrix_rotation_euler(B, t, h, E(.3), euler_order_yzy); break;
      case 17: { quaternion<E> r; quaternion_rotation_axis_angle(r, u, h); matrix_rotation_quaternion(B, r); break; }
      case 18: matrix_rotation_align(B, p, q); break;
      case 19: matrix_rotation_aim_at(B, p, q, V3(E(3), E(0), E(1))); break;
      case 20: matrix_look_at_LH(B, p, q, u); break;
      case 21: matrix_look_at_RH(B, p, q, u); break;
      case 22: matrix_affine_transform(B, u, t, p); break;
      case 23: matrix_rotation_2D(B, t); break;
      case 24: matrix_translation_2D(B, E(2), E(-1)); break;
      case 25: matrix_scale_2D(B, E(2), E(3)); break;
      case 26: matrix_orthographic_LH(B, E(-1), E(2), E(-2), E(3), E(1), E(5), z_clip_zero); break;
      case 27: matrix_perspective_RH(B, E(-1), E(2), E(-2), E(3), E(1), E(5), z_clip_neg_one); break;
      case 28: matrix_skew_symmetric(B, p); break;
      case 29: x = transform_point(A, x); break;
      case 30: x = transform_vector(A, x); break;
      case 31: x = matrix_get_translation(A); break;
      case 32: x = matrix_get_basis_vector(A, 2); break;
      case 33: x = matrix_get_transposed_basis_vector(A, 0); break;
      case 34: matrix_set_basis_vector(A, 1, p); break;
      case 35: matrix_set_transposed_basis_vector(A, 2, q); break;
      case 36: A.set_basis_element(2, 1, E(.25)); break;
      case 37: s = A.basis_element(1, 0); break;
      case 38: s = determinant(A); break;
      case 39: { E f[6][4]; extract_frustum_planes(B, f, z_clip_neg_one, false); s = 0; for(int i = 0; i < 6; ++i) for(int j = 0; j < 4; ++j) s += (i + 1) * (j + 2) * double(f[i][j]); break; }
      case 40: if(rotation_only(B)) x = matrix_to_euler(B, euler_order_xyz); break;
      case 41: { if(!rotation_only(B)) break; V3 e; E g; matrix_to_axis_angle(B, e, g); x = e; s = g; break; }
      case 42: if(rigid_only(B)) matrix_invert_RT_only(B); break;
      case 43: if(rigid_only(B)) matrix_invert_RT(B); break;
      case 44: matrix_set_basis_vectors(B, p, q, u); break;
      case 45: A.set_basis_element(3, 0, E(2)); break;
      case 46: A += B; break;
      case 47: { V2 z = transform_point_2D(B, V2(E(1), E(2))); x[0] = z[0], x[1] = z[1]; break; }
    }
  }
  static bool rigid_only(const M& m)
  {
    const mat c = colmap(m), r = part(c, 0, 0, 3, 3);
    return c(3, 0) == 0 && c(3, 1) == 0 && c(3, 2) == 0 && c(3, 3) == 1 && ref::near(ref::mul(r, ref::transpose(r)), mat::identity(3), 1e-5);
  }
  // A proper rotation well away from the half turn.
  static bool rotation_only(const M& m)
  {
    const mat c = colmap(m);
    return rigid_only(m) && c(0, 0) + c(1, 1) + c(2, 2) > -.5 && double(determinant(m)) > 0;
  }
};
} // namespace p03
