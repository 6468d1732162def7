// Angles between vectors, projections and other vector helpers.
#pragma once
#include "../geo.h"

namespace g08 {
using namespace geo;

inline double scale_()
{
  static const double s[] = {1, 1. / 1024, 4096};
  return s[mc::choose(3)];
}
inline vec plane(int lim)
{
  vec v{double(mc::choose(2 * lim + 1) - lim), double(mc::choose(2 * lim + 1) - lim)};
  return v;
}
inline bool zero(const vec& v) { return ref::len(v) == 0; }
inline double same_turn(double a, double b) { return std::fabs(std::remainder(a - b, 2 * pi)); }

template<class E, class F> void in_plane()
{
  using T = std::common_type_t<E, F>;
  const vec a0 = plane(2), b0 = plane(mc::thorough() ? 4 : 2);
  if(zero(a0) || zero(b0)) return;
  const vec a = ref::scale(a0, scale_()), b = ref::scale(b0, scale_());
  const auto va = v2<E>(a);
  const auto vb = v2<F>(b);
  const double t = tol<T>(), cr = a[0] * b[1] - a[1] * b[0], d = ref::dot(a, b);
  mc::step(5);
  const auto s = signed_angle_2D(va, vb);
  const auto u = unsigned_angle_2D(va, vb);
  static_assert(std::is_same<std::decay_t<decltype(s)>, T>::value && std::is_same<std::decay_t<decltype(u)>, T>::value, "promoted");
  mc::state(mc::Hash()(a[0])(a[1])(b[0])(b[1]));
  MC_CHECK(same_turn(s, std::atan2(cr, d)) <= t && std::fabs(s) <= pi + t, "signed_angle_2D", a << " to " << b << ": " << s << " not " << std::atan2(cr, d));
  MC_CHECK(std::fabs(u - std::fabs(std::atan2(cr, d))) <= t && u >= 0 && u <= pi + t, "unsigned_angle_2D", a << " to " << b << ": " << u);
  MC_CHECK(same_turn(signed_angle_2D(vb, va), -double(s)) <= t, "antisymmetric", a << " to " << b << ": " << signed_angle_2D(vb, va));
  MC_CHECK(std::fabs(unsigned_angle_2D(vb, va) - u) <= t, "symmetric", a << " to " << b << ": " << unsigned_angle_2D(vb, va));
  // Turning the first by the angle gives the direction of the second.
  const vec ua = ref::unit(a), ub = ref::unit(b);
  const vec r{std::cos(double(s)) * ua[0] - std::sin(double(s)) * ua[1], std::sin(double(s)) * ua[0] + std::cos(double(s)) * ua[1]};
  MC_CHECK(ref::near(r, ub, 2 * t), "turns one onto the other", a << " to " << b << " by " << s << ": " << r);
  matrix<T, fixed<2, 2>> m;
  matrix_rotation_2D(m, T(s));
  MC_CHECK(ref::near(ref::mul(colmap(m), ua), ub, 2 * t), "the rotation matrix turns one onto the other", a << " to " << b << " by " << s);
  // Perpendicular.
  const auto p = perp(va);
  MC_CHECK(ref::same(ref::read(p), vec{-a[1], a[0]}), "perp", a << ": " << ref::read(p));
  MC_CHECK(std::fabs(signed_angle_2D(va, p) - pi / 2) <= tol<E>(), "perp is a quarter turn", a << ": " << signed_angle_2D(va, p));
  MC_CHECK(ref::same(ref::read(perp(va + va)), vec{-2 * a[1], 2 * a[0]}), "perp of an expression", a);
}
inline vec space(int k)
{
  if(k < int(directions().size())) return directions()[size_t(k)];
  static const double more[][3] = {{2, 1, 1}, {2, 1, 1 + 1. / 65536}, {-2, -1, -1 - 1. / 65536}, {1. / 4096, 1, 0}, {2, -2, 1}};
  const double* p = more[k - int(directions().size())];
  return vec(p, p + 3);
}
inline int spaces() { return int(directions().size()) + 5; }
template<class E, class F> void in_space()
{
  using T = std::common_type_t<E, F>;
  const vec a = ref::scale(space(mc::choose(spaces())), scale_()), b = ref::scale(space(mc::choose(spaces())), scale_());
  const auto va = v3<E>(a);
  const auto vb = v3<F>(b);
  const vec ra = ref::read(va), rb = ref::read(vb);
  const double t = 4 * tol<T>();
  const vec c = ref::cross(ra, rb);
  const double want = std::atan2(ref::len(c), ref::dot(ra, rb));
  mc::step(3);
  const auto u = unsigned_angle(va, vb);
  static_assert(std::is_same<std::decay_t<decltype(u)>, T>::value, "promoted");
  mc::state(mc::Hash()(int(ref::hash(a) % 1000003))(int(ref::hash(b) % 1000003)));
  MC_CHECK(std::fabs(u - want) <= t && u >= 0 && u <= pi + t, "unsigned_angle", a << " to " << b << ": " << u << " not " << want);
  MC_CHECK(std::fabs(unsigned_angle(vb, va) - u) <= t, "symmetric", a << " to " << b);
  const bool flat = ref::len(c) <= 1e-4 * ref::len(a) * ref::len(b);
  for(const vec& n : directions()) {
    const auto vn = v3<E>(n);
    const double side = ref::dot(c, ref::read(vn));
    const auto s = signed_angle(va, vb, vn);
    static_assert(std::is_same<std::decay_t<decltype(s)>, T>::value, "promoted");
    MC_CHECK(std::fabs(std::fabs(double(s)) - want) <= t && std::fabs(s) <= pi + t, "signed_angle size", a << " to " << b << " seen from " << n << ": " << s << " not " << want);
    if(flat) continue;
    if(std::fabs(side) > 1e-5 * ref::len(c) * ref::len(n)) {
      MC_CHECK((s < 0) == (side < 0), "signed_angle sign", a << " to " << b << " seen from " << n << ": " << s);
      MC_CHECK(std::fabs(signed_angle(vb, va, vn) + s) <= t, "antisymmetric", a << " to " << b << " seen from " << n << ": " << signed_angle(vb, va, vn));
      MC_CHECK(std::fabs(signed_angle(va, vb, -vn) + s) <= t, "opposite reference", a << " to " << b << " seen from " << n);
    }
  }
  if(flat) return;
  // Turning by the signed angle about its own axis.
  for(int sg : {1, -1}) {
    const vec axis = ref::scale(ref::unit(c), sg);
    vector<T, compiled<3>> vx = v3<T>(axis), un = v3<T>(ref::unit(ra));
    const T s = signed_angle(va, vb, vx);
    MC_CHECK(ref::near(ref::read(rotate_vector(un, vx, s)), ref::unit(rb), 10 * t), "turns one onto the other", a << " to " << b << " about " << axis << " by " << s);
  }
}
// Exact limits: multiples, opposites and perpendiculars.
template<class E> void limits()
{
  const vec a = space(mc::choose(spaces()));
  const auto va = v3<E>(a);
  static const double ks[] = {1, 2, .25, 3, 10, -1, -2, -.5, -3, -10, .1, -.7};
  const double k = ks[mc::choose(12)];
  vector<E, compiled<3>> vb = E(k) * va;
  mc::step(4);
  mc::state(mc::Hash()(int(ref::hash(a) % 1000003))(k));
  const double want = k > 0 ? 0 : pi, t = 4 * std::numeric_limits<E>::epsilon();
  // Lattice directions cross to an exact zero; others to a rounding.
  MC_CHECK(std::fabs(unsigned_angle(va, vb) - want) <= t, k > 0 ? "parallel" : "opposite", a << " times " << k << ": " << unsigned_angle(va, vb));
  MC_CHECK(std::fabs(std::fabs(signed_angle(va, vb, va)) - want) <= t, "signed, no plane", a << " times " << k << ": " << signed_angle(va, vb, va));
  for(int i = 0; i < 3; ++i) {
    // One perpendicular per coordinate plane.
    const size_t x = size_t(i), y = size_t((i + 1) % 3), z = size_t((i + 2) % 3);
    vec q(3);
    q[x] = -a[y], q[y] = a[x], q[z] = 0;
    if(zero(q)) continue;
    const auto vq = v3<E>(ref::scale(q, std::fabs(k)));
    MC_CHECK(std::fabs(unsigned_angle(va, vq) - pi / 2) <= std::max(t, 2e-7 * (sizeof(E) == 4)), "perpendicular", a << " and " << q << ": " << unsigned_angle(va, vq));
  }
  const auto w = v2<E>(vec{a[0], a[1]});
  if(a[0] || a[1]) {
    vector<E, compiled<2>> wb = E(k) * w;
    MC_CHECK(std::fabs(unsigned_angle_2D(w, wb) - want) <= t, k > 0 ? "parallel 2D" : "opposite 2D", a << " times " << k << ": " << unsigned_angle_2D(w, wb));
    MC_CHECK(std::fabs(std::fabs(signed_angle_2D(w, wb)) - want) <= t, "signed 2D", a << " times " << k);
  }
}

// Projections in any dimension.
template<class T> struct S { T v; explicit S(int) {} };
template<class E> struct S<vector<E, dynamic<>>> { vector<E, dynamic<>> v; explicit S(int n) : v(n) {} };
template<class V, class W> void projections_n(int n)
{
  using E = value_type_trait_of_t<V>;
  using F = value_type_trait_of_t<W>;
  using T = std::common_type_t<E, F>;
  const int lim = n <= 3 ? 2 : 1;
  vec a, b;
  for(int i = 0; i < n; ++i) a.push_back(i < 3 ? mc::choose(2 * lim + 1) - lim : 1 + i);
  for(int i = 0; i < n; ++i) b.push_back(i < 3 ? mc::choose(2 * lim + 1) - lim : i % 2 ? -.5 * i : 2);
  if(zero(b)) return;
  S<V> sa(n);
  S<W> sb(n), su(n);
  const vec ub = ref::unit(b);
  for(int i = 0; i < n; ++i) sa.v[i] = E(a[size_t(i)]), sb.v[i] = F(b[size_t(i)]), su.v[i] = F(ub[size_t(i)]);
  const double t = 10 * std::max(tol<E>(), tol<F>());
  mc::step(3);
  mc::state(mc::Hash()(int(ref::hash(a) % 1000003))(int(ref::hash(b) % 1000003)));
  const auto p = project_to_vector(sa.v, sb.v);
  const auto h = project_to_hplane(sa.v, su.v);
  static_assert(std::is_same<value_type_trait_of_t<std::decay_t<decltype(p)>>, T>::value && std::is_same<value_type_trait_of_t<std::decay_t<decltype(h)>>, T>::value, "promoted");
  const vec want = ref::scale(b, ref::dot(a, b) / ref::dot(b, b)), rp = ref::read(p), rh = ref::read(h);
  MC_CHECK(ref::near(rp, want, t), "project_to_vector", a << " onto " << b << ": " << rp << " not " << want);
  MC_CHECK(ref::near(rh, ref::add(a, want, -1), t), "project_to_hplane", a << " off " << b << ": " << rh);
  MC_CHECK(ref::near(ref::add(rp, rh), a, t), "the parts add up", a << " and " << b << ": " << rp << " + " << rh);
  MC_CHECK(std::fabs(ref::dot(rh, b)) <= 100 * t, "within the hyperplane", a << " and " << b << ": " << rh);
  MC_CHECK(ref::near(ref::read(project_to_vector(p, sb.v)), rp, t), "projecting twice", a << " onto " << b);
  MC_CHECK(ref::near(ref::read(project_to_hplane(h, su.v)), rh, t), "projecting twice", a << " off " << b);
  const auto e = project_to_vector(sa.v + sa.v, E(2) * sb.v);
  MC_CHECK(ref::near(ref::read(e), ref::scale(want, 2), t), "projection of expressions", a << " onto " << b << ": " << ref::read(e));
  const auto e2 = project_to_hplane(sa.v + sa.v, -su.v);
  MC_CHECK(ref::near(ref::read(e2), ref::scale(rh, 2), t), "projection of expressions", a << " off " << b << ": " << ref::read(e2));
  double md = 0;
  for(int i = 0; i < n; ++i) md += std::fabs(a[size_t(i)] - b[size_t(i)]);
  MC_CHECK(manhattan_distance(sa.v, sb.v) == T(md) && manhattan_distance(sb.v, sa.v) == T(md), "manhattan_distance", a << " " << b << ": " << manhattan_distance(sa.v, sb.v) << " not " << md);
  MC_CHECK(manhattan_distance(sa.v, sa.v) == 0, "manhattan_distance to itself", a);
  MC_CHECK(manhattan_distance(sa.v - sb.v, sa.v + sb.v) == T([&] { double s = 0; for(double x : b) s += 2 * std::fabs(x); return s; }()), "manhattan_distance of expressions", a << " " << b);
  // Lengths.
  MC_CHECK(ref::near(double(cml::length_squared(sb.v)), ref::dot(b, b), t) && ref::near(double(sb.v.length_squared()), ref::dot(b, b), t), "length_squared", b);
  MC_CHECK(ref::near(double(cml::length(sb.v)), ref::len(b), t) && ref::near(double(sb.v.length()), ref::len(b), t), "length", b);
  MC_CHECK(ref::near(ref::read(cml::normalize(sb.v)), ub, t), "normalize", b << ": " << ref::read(cml::normalize(sb.v)));
  MC_CHECK(ref::near(ref::read(cml::normalize(F(3) * sb.v)), ub, t), "normalize of an expression", b);
  MC_CHECK(ref::same(ref::read(sb.v), b), "operand untouched", b << ": " << ref::read(sb.v));
}
template<class E, int N> void projections_fixed() { projections_n<vector<E, compiled<N>>, vector<E, compiled<N>>>(N); }
template<class E, class F, int N> void projections_mixed() { projections_n<vector<E, compiled<N>>, vector<F, dynamic<>>>(N); }
template<class E, int N> void projections_dynamic() { projections_n<vector<E, dynamic<>>, vector<E, dynamic<>>>(N); }
// Whole numbers, where the answer is whole.
template<class E> void whole()
{
  vec a, b;
  for(int i = 0; i < 3; ++i) a.push_back(mc::choose(5) - 2);
  for(int i = 0; i < 3; ++i) b.push_back(mc::choose(5) - 2);
  const auto va = v3<E>(a), vb = v3<E>(b);
  mc::step(2);
  double md = 0;
  for(size_t i = 0; i < 3; ++i) md += std::fabs(a[i] - b[i]);
  mc::state(mc::Hash()(int(ref::hash(a) % 1000003))(int(ref::hash(b) % 1000003)));
  MC_CHECK(double(manhattan_distance(va, vb)) == md, "manhattan_distance", a << " " << b << ": " << manhattan_distance(va, vb));
  MC_CHECK(double(length_squared(va)) == ref::dot(a, a), "length_squared", a);
  vector<E, dynamic<>> w(2);
  w[0] = E(a[0]), w[1] = E(b[0]);
  MC_CHECK(ref::same(ref::read(perp(w)), vec{-b[0], a[0]}), "perp", a[0] << " " << b[0] << ": " << ref::read(perp(w)));
  const auto f = v2<E>(vec{a[0], b[0]});
  MC_CHECK(ref::same(ref::read(perp(f)), vec{-b[0], a[0]}), "perp", a[0] << " " << b[0] << ": " << ref::read(perp(f)));
}
template<class F> std::string thrown(F f)
{
  try { f(); }
  catch(const vector_size_error&) { return "vector_size_error"; }
  catch(const minimum_vector_size_error&) { return "minimum_vector_size_error"; }
  catch(const incompatible_vector_size_error&) { return "incompatible_vector_size_error"; }
  catch(const std::exception& e) { return std::string("exception ") + e.what(); }
  return "none";
}
template<class E> void sizes()
{
  const int op = mc::choose(8), n = mc::choose(6), k = op == 3 ? n : mc::choose(6);
  vector<E, dynamic<>> a(n), b(k);
  for(int i = 0; i < n; ++i) a[i] = E(i == 0);
  for(int i = 0; i < k; ++i) b[i] = E(1);
  std::string got, want = n == k ? (n == 0 ? "minimum_vector_size_error" : "none") : n == 0 || k == 0 ? "any" : "incompatible_vector_size_error";
  mc::step();
  if(op == 0) got = thrown([&] { if(project_to_vector(a, b).size() != n) throw std::logic_error("size"); });
  if(op == 1) got = thrown([&] { if(project_to_hplane(a, b).size() != n) throw std::logic_error("size"); });
  if(op == 2) got = thrown([&] { manhattan_distance(a, b); });
  if(op == 3) got = thrown([&] { perp(a); }), want = n == 2 ? "none" : "vector_size_error";
  if(op == 4) got = thrown([&] { unsigned_angle(a, b); }), want = n == 3 && k == 3 ? "none" : "any";
  if(op == 5) got = thrown([&] { signed_angle(a, b, b); }), want = n == 3 && k == 3 ? "none" : "any";
  if(op == 6) got = thrown([&] { unsigned_angle_2D(a, b); }), want = n == 2 && k == 2 ? "none" : "any";
  if(op == 7) got = thrown([&] { signed_angle_2D(a, b); }), want = n == 2 && k == 2 ? "none" : "any";
  mc::state(mc::Hash()(op)(n)(k));
  MC_CHECK(want == "any" ? got != "none" : got == want, "size rule", "op " << op << " of " << n << " and " << k << ": " << got << " instead of " << want);
}
} // namespace g08
