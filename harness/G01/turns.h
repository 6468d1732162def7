// Rotation builders about axes and in the plane.
#pragma once
#include "../geo.h"

namespace g01 {
using namespace geo;

inline double turn()
{
  const int k = mc::choose(mc::thorough() ? 97 + 8 : 49 + 8);
  static const double odd[] = {1e-12, -1e-6, 1e-3, .1, -2.7, 100, -31.4, 1};
  if(k < 8) return odd[k];
  return (k - 8 - (mc::thorough() ? 48 : 24)) * (pi / 12); // multiples of 15 degrees either way
}
inline vec unit3(int i) { return {double(i == 0), double(i == 1), double(i == 2)}; }
template<class E> double at(double a) { return tol<E>() * std::max(1., std::fabs(a)); }

// World axes: every builder, its composition and its inverse.
template<class M, class A> void world_n(int n)
{
  using E = value_type_trait_of_t<M>;
  const int ax = mc::choose(5) - 1;
  lin::Obj<M> m(n), m2(n), ma(n), mb(n);
  mc::step(3);
  if(ax < 0 || ax > 2) {
    bool threw = false;
    const int bad = ax < 0 ? (mc::choose(2) ? -1 : -100) : (mc::choose(2) ? 3 : 7);
    m.m.fill(E(7));
    try { matrix_rotation_world_axis(m.m, bad, A(1)); } catch(const std::invalid_argument&) { threw = true; }
    MC_CHECK(threw, "invalid axis", bad);
    mat seven(n, n, 7);
    MC_CHECK(ref::near(ref::readm(m.m), seven, 0), "a rejected axis leaves the matrix", ref::readm(m.m));
    mc::state(uint64_t(bad + 1000));
    return;
  }
  const A a = A(turn()), b = A(turn());
  const double t = std::max(at<E>(std::fabs(a) + std::fabs(b)), at<A>(std::fabs(a) + std::fabs(b)));
  m.m.fill(E(7)), m2.m.fill(E(-3));
  matrix_rotation_world_axis(m.m, ax, a);
  if(ax == 0) matrix_rotation_world_x(m2.m, a); else if(ax == 1) matrix_rotation_world_y(m2.m, a); else matrix_rotation_world_z(m2.m, a);
  const mat R = ref::rodrigues(unit3(ax), a), got = colmap(m.m);
  mc::state(ref::hash(got));
  MC_CHECK(ref::near(got, embed(R, n), t), "world axis", ax << " by " << a << ": " << got << " not " << R);
  MC_CHECK(ref::near(colmap(m2.m), got, t), "named world axis", ax << " by " << a << ": " << colmap(m2.m));
  MC_CHECK(rigid(got, t), "rigid", got);
  if(a == 0) MC_CHECK(ref::near(got, mat::identity(n), 0), "turn by nothing", got);
  // The axis is left alone exactly; the next axis moves toward the one after.
  for(int k = 0; k < n; ++k) MC_CHECK(got(k, ax) == (k == ax) && got(ax, k) == (k == ax), "axis left alone", ax << " by " << a << ": " << got);
  matrix_rotation_world_axis(mb.m, ax, b);
  // Angles add.
  const mat sum = ref::mul(got, colmap(mb.m));
  matrix_rotation_world_axis(ma.m, ax, A(a + b));
  MC_CHECK(ref::near(sum, colmap(ma.m), t), "angles add", ax << " by " << a << " and " << b);
}
template<class M, class A> void world3() { world_n<M, A>(3); }
template<class M, class A> void world4() { world_n<M, A>(4); }

// Arbitrary axes.
template<class M, class A, class X> void about_n(int n)
{
  using E = value_type_trait_of_t<M>;
  const vec u = choose_unit();
  const A a = A(turn());
  const double t = std::max(std::max(at<E>(a), at<A>(a)), at<X>(a));
  lin::Obj<M> m(n), m2(n);
  m.m.fill(E(7));
  const auto ux = v3<X>(u);
  mc::step(4);
  matrix_rotation_axis_angle(m.m, ux, a);
  const mat R = ref::rodrigues(u, a), got = colmap(m.m);
  mc::state(ref::hash(got));
  MC_CHECK(ref::near(got, embed(R, n), t), "axis and angle", u << " by " << a << ": " << got << " not " << R);
  MC_CHECK(rigid(got, t), "rigid", u << " by " << a << ": " << got);
  MC_CHECK(ref::near(ref::mul(part(got, 0, 0, 3, 3), u), u, t), "axis left alone", u << " by " << a);
  // Half the turn twice; the opposite axis undoes it.
  matrix_rotation_axis_angle(m2.m, ux, A(a / 2));
  MC_CHECK(ref::near(ref::mul(colmap(m2.m), colmap(m2.m)), got, t), "angles add", u << " by " << a);
  matrix_rotation_axis_angle(m2.m, -ux, a);
  MC_CHECK(ref::near(ref::mul(colmap(m2.m), got), mat::identity(n), t), "opposite axis", u << " by " << a);
  // Vectors turn the same way.
  static const double vs[][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, -2, 3}, {0, 0, 0}, {-4, .5, 2}};
  for(const auto& w : vs) {
    const vec v{w[0], w[1], w[2]};
    const auto r = rotate_vector(v3<X>(v), ux, a);
    MC_CHECK(ref::near(ref::read(r), ref::mul(R, v), 5 * t), "rotate_vector", v << " about " << u << " by " << a << ": " << ref::read(r) << " not " << ref::mul(R, v));
  }
}
template<class M, class A, class X> void about3() { about_n<M, A, X>(3); }
template<class M, class A, class X> void about4() { about_n<M, A, X>(4); }

// In the plane.
template<class M, class A> void plane_n(int n)
{
  using E = value_type_trait_of_t<M>;
  const A a = A(turn()), b = A(turn());
  const double t = std::max(at<E>(std::fabs(a) + std::fabs(b)), at<A>(std::fabs(a) + std::fabs(b)));
  lin::Obj<M> m(n), m2(n);
  m.m.fill(E(7)), m2.m.fill(E(7));
  mc::step(3);
  matrix_rotation_2D(m.m, a);
  mat R(2, 2);
  R.d = {std::cos(double(a)), -std::sin(double(a)), std::sin(double(a)), std::cos(double(a))};
  const mat got = colmap(m.m);
  mc::state(ref::hash(got));
  MC_CHECK(ref::near(got, embed(R, n), t), "matrix_rotation_2D", a << ": " << got << " not " << R);
  if(a == 0) MC_CHECK(ref::near(got, mat::identity(n), 0), "turn by nothing", got);
  matrix_rotation_2D(m2.m, b);
  const mat prod = ref::mul(got, colmap(m2.m));
  matrix_rotation_2D(m2.m, A(a + b));
  MC_CHECK(ref::near(prod, colmap(m2.m), t), "angles add", a << " and " << b);
}
template<class M, class A> void plane2() { plane_n<M, A>(2); }
template<class M, class A> void plane3() { plane_n<M, A>(3); }

template<class F> std::string thrown(F f)
{
  try { f(); }
  catch(const vector_size_error&) { return "vector_size_error"; }
  catch(const minimum_matrix_size_error&) { return "minimum_matrix_size_error"; }
  catch(const std::exception& e) { return std::string("exception ") + e.what(); }
  return "none";
}
// Sizes known only at run time.
template<class E, class B, class L> void sizes()
{
  const int op = mc::choose(4), r = mc::choose(6), c = mc::choose(6), nv = op == 2 ? mc::choose(6) : 3;
  matrix<E, dynamic<>, B, L> m(r, c);
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) m(i, j) = E(7);
  vector<E, dynamic<>> v(nv);
  for(int i = 0; i < nv; ++i) v[i] = E(i == 2);
  const double a = .75;
  const int need = op == 0 ? 2 : 3;
  std::string want = r < need || c < need ? "minimum_matrix_size_error" : nv != 3 ? "vector_size_error" : "none", got;
  mc::step();
  if(op == 0) got = thrown([&] { matrix_rotation_2D(m, E(a)); });
  if(op == 1) got = thrown([&] { matrix_rotation_world_z(m, E(a)); });
  if(op == 2) got = thrown([&] { matrix_rotation_axis_angle(m, v, E(a)); });
  if(op == 3) got = thrown([&] { matrix_rotation_world_axis(m, 2, E(a)); });
  mc::state(mc::Hash()(op)(r)(c)(nv));
  MC_CHECK((r < need || c < need) && nv != 3 ? got != "none" : got == want, "size rule", "op " << op << " on " << r << "x" << c << " axis " << nv << ": " << got << " instead of " << want);
  mat W(r, c, 7);
  if(want == "none") {
    // Every op turns x toward y.
    for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) W(i, j) = i == j;
    const double s = is_row<decltype(m)>() ? 1 : -1;
    W(0, 0) = W(1, 1) = std::cos(a), W(0, 1) = s * std::sin(a), W(1, 0) = -s * std::sin(a);
  }
  MC_CHECK(ref::near(ref::readm(m), W, tol<E>()), want == "none" ? "larger matrix" : "a rejected matrix is left alone", "op " << op << ": " << ref::readm(m) << " not " << W);
}
} // namespace g01
