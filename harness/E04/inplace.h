// E04: every in-place operation equals its functional counterpart, over all
// short histories, lvalue and temporary forms, own elements as arguments.
#pragma once
#include "all.h"
#include "ref.h"
#include <memory>

namespace e04 {
using namespace ref;
inline int depth() { return mc::thorough() ? 3 : 2; }

// An integer vector stores truncated values.
template<class T> double st(double x) { return double(T(x)); }

template<class T, class S> struct VBox;
template<class T, int N> struct VBox<T, cml::fixed<N>> { cml::vector<T, cml::fixed<N>> v; explicit VBox(int) {} bool ok() { return true; } };
template<class T> struct VBox<T, cml::dynamic<>> { cml::vector<T, cml::dynamic<>> v; explicit VBox(int n) : v(n) {} bool ok() { return true; } };
template<class T, int N> struct VBox<T, cml::external<N>> { T d[N + 2]; cml::vector<T, cml::external<N>> v{d + 1}; explicit VBox(int) { for(T& x : d) x = 77; } bool ok() { return d[0] == 77 && d[N + 1] == 77; } };
template<class T> struct VBox<T, cml::external<>> { std::unique_ptr<T[]> d; int n; cml::vector<T, cml::external<>> v; explicit VBox(int k) : d(new T[size_t(k + 2)]), n(k), v(d.get() + 1, k) { d[0] = d[size_t(n + 1)] = 77; } bool ok() { return d[0] == 77 && d[size_t(n + 1)] == 77; } };

// Apply in lvalue or temporary form; both must return the object itself.
#define E04_APPLY(call) do { using V_ = std::decay_t<decltype(v)>; if(temp) { V_&& r_ = std::move(v).call; MC_CHECK(&r_ == &v, "return", name << ": the temporary form returns another object"); } else { V_& r_ = v.call; MC_CHECK(&r_ == &v, "return", name << ": returns another object"); } } while(0)
#define E04_OP(op, arg) do { if(temp) { auto&& r_ = std::move(v) op (arg); MC_CHECK(&r_ == &v, "return", name << ": the temporary form returns another object"); } else { auto&& r_ = (v op (arg)); MC_CHECK(&r_ == &v, "return", name << ": returns another object"); } } while(0)

template<class T, class S> void vectors(int n)
{
  VBox<T, S> b(n), c(n); auto& v = b.v; auto& w = c.v;
  vec m, y;
  static const double vals[2][4] = {{3, -2, 5, 4}, {0, 7, -4, 1}};
  const int p = mc::choose(2);
  for(int i = 0; i < n; ++i) { m.push_back(vals[p][i]); y.push_back(vals[1 - p][i] + 1); v.put(i, T(m.back())); w.put(i, T(y.back())); }
  const bool flt = std::is_floating_point_v<T>;
  const double tol = flt ? (sizeof(T) == 4 ? 1e-5 : 1e-13) : 0;
  const int D = depth();
  for(int step = 0; step < D; ++step) {
    const int op = mc::choose(29); const bool temp = mc::choose(2);
    const vec x = m; const char* name = "";
    // scalar argument: a plain value, or an element of the vector itself
    const int e = (op >= 5 && op <= 10) || (op >= 19 && op <= 20) ? mc::choose(n) : 0;
    auto all = [&](auto f) { for(int i = 0; i < n; ++i) m[size_t(i)] = st<T>(f(x[size_t(i)], y[size_t(i)])); };
    const double xe = x[size_t(e)];
    if((op == 6 || op == 8) && xe == 0) continue;
    switch(op) {
    case 0: name = "v += w"; all([](double a, double q) { return a + q; }); E04_OP(+=, w); break;
    case 1: name = "v -= w"; all([](double a, double q) { return a - q; }); E04_OP(-=, w); break;
    case 2: name = "v += v"; all([](double a, double) { return a + a; }); E04_OP(+=, v); break;
    case 3: name = "v -= v"; all([](double, double) { return 0.; }); E04_OP(-=, v); break;
    case 4: name = "v *= 3"; all([](double a, double) { return a * 3; }); E04_OP(*=, 3); break;
    case 5: name = "v *= v[e]"; all([&](double a, double) { return a * xe; }); E04_OP(*=, v[e]); break;
    case 6: name = "v /= v[e]"; all([&](double a, double) { return a / xe; }); E04_OP(/=, v[e]); break;
    case 7: name = "v *= v.get(e)"; all([&](double a, double) { return a * xe; }); E04_OP(*=, std::as_const(v).get(e)); break;
    case 8: name = "v /= v.get(e)"; all([&](double a, double) { return a / xe; }); E04_OP(/=, std::as_const(v).get(e)); break;
    case 9: name = "v.fill(v[e])"; all([&](double, double) { return xe; }); E04_APPLY(fill(v[e])); break;
    case 10: name = "v.cardinal(e)"; for(int i = 0; i < n; ++i) m[size_t(i)] = i == e; E04_APPLY(cardinal(e)); break;
    case 11: name = "v /= 2"; all([](double a, double) { return a / 2; }); E04_OP(/=, 2); break;
    case 12: name = "v *= 0.5"; all([](double a, double) { return a * 0.5; }); E04_OP(*=, 0.5); break;
    case 13: name = "v.zero()"; all([](double, double) { return 0.; }); E04_APPLY(zero()); break;
    case 14: name = "v.fill(6)"; all([](double, double) { return 6.; }); E04_APPLY(fill(T(6))); break;
    case 15: name = "v.minimize(w)"; all([](double a, double q) { return q < a ? q : a; }); E04_APPLY(minimize(w)); break;
    case 16: name = "v.maximize(w)"; all([](double a, double q) { return a < q ? q : a; }); E04_APPLY(maximize(w)); break;
    case 17: name = "v.minimize(2v-w)"; all([](double a, double q) { return 2 * a - q < a ? 2 * a - q : a; }); E04_APPLY(minimize(T(2) * v - w)); break;
    case 18: name = "v.maximize(v)"; E04_APPLY(maximize(v)); break;
    case 19: name = "v = v[e]*v"; all([&](double a, double) { return a * xe; }); E04_OP(=, T(v[e]) * v); break;
    case 20: name = "v += w[e]*v"; { const double q = y[size_t(e)]; all([&](double a, double) { return a + q * a; }); } E04_OP(+=, w[e] * v); break;
    case 21: name = "v -= w-v"; all([](double a, double q) { return a - (q - a); }); E04_OP(-=, w - v); break;
    case 22: name = "v = w"; all([](double, double q) { return q; }); if(temp) { static_cast<cml::writable_vector<std::decay_t<decltype(v)>>&&>(v) = (w + w) - w; } else v = (w + w) - w; break;
    case 23: name = "v.normalize()"; { if constexpr(std::is_floating_point_v<T>) { const double l = len(x); if(l < 1e-3) continue; all([&](double a, double) { return a / l; }); auto f = cml::normalize(v); const vec fr = read(f); E04_APPLY(normalize()); MC_CHECK(near(read(v), fr, tol), "functional", "normalize() gives " << read(v) << ", cml::normalize gives " << fr); } } break;
    case 24: name = "v += hadamard(v,w)"; all([](double a, double q) { return a + a * q; }); E04_OP(+=, cml::hadamard(v, w)); break;
    case 25: name = "set(...)"; if constexpr(!std::is_same_v<S, cml::dynamic<>>) { if(n != 3) continue; m = {x[1], x[2], x[0]}; if constexpr(std::is_same_v<S, cml::fixed<3>> || std::is_same_v<S, cml::external<3>>) E04_APPLY(set(v[1], v[2], v[0])); else if constexpr(std::is_same_v<S, cml::external<>>) E04_APPLY(set(v[1], v[2], v[0])); } break;
    case 26: name = "v += cross(v,w)"; if(n != 3 || step) continue; if constexpr(std::is_floating_point_v<T>) { m = add(x, cross(x, y)); if constexpr(std::is_same_v<S, cml::dynamic<>> || std::is_same_v<S, cml::external<>> || std::is_same_v<S, cml::fixed<3>> || std::is_same_v<S, cml::external<3>>) E04_OP(+=, cml::cross(v, w)); } break;
    case 27: name = "v.minimize(cross(w,v))"; if(n != 3 || step) continue; if constexpr(std::is_floating_point_v<T>) { const vec q = cross(y, x); for(int i = 0; i < 3; ++i) m[size_t(i)] = std::fmin(x[size_t(i)], q[size_t(i)]); if constexpr(std::is_same_v<S, cml::dynamic<>> || std::is_same_v<S, cml::external<>> || std::is_same_v<S, cml::fixed<3>> || std::is_same_v<S, cml::external<3>>) E04_APPLY(minimize(cml::cross(w, v))); } break;
    case 28: name = "v -= -v"; all([](double a, double) { return a + a; }); E04_OP(-=, -v); break;
    }
    const vec r = read(v);
    MC_CHECK(near(r, m, tol), op == 26 || op == 27 ? "alias-cross" : "in-place", name << " on " << x << " with w=" << y << ": got " << r << ", expected " << m);
    MC_CHECK(same(read(w), y), "argument", name << ": the argument changed to " << read(w));
    MC_CHECK(b.ok() && c.ok(), "outside", name << ": wrote outside the view");
    m = r; // continue from the value really held (rounding)
    MC_TRACE(name << ": " << r); mc::step(); mc::state(hash(m));
  }
}

// ---- matrices -----------------------------------------------------------
template<class T, class S, class B, class L> struct MBox;
template<class T, int R, int C, class B, class L> struct MBox<T, cml::fixed<R, C>, B, L> { cml::matrix<T, cml::fixed<R, C>, B, L> v; MBox(int, int) {} };
template<class T, class B, class L> struct MBox<T, cml::dynamic<>, B, L> { cml::matrix<T, cml::dynamic<>, B, L> v; MBox(int r, int c) : v(r, c) {} };
template<class T, int R, int C, class B, class L> struct MBox<T, cml::external<R, C>, B, L> { T d[R * C]; cml::matrix<T, cml::external<R, C>, B, L> v{d}; MBox(int, int) {} };
template<class T, class B, class L> struct MBox<T, cml::external<>, B, L> { std::unique_ptr<T[]> d; cml::matrix<T, cml::external<>, B, L> v; MBox(int r, int c) : d(new T[size_t(r * c)]), v(d.get(), r, c) {} };
inline mat inverse(const mat& a)
{
  const int n = a.r; const double d = det(a); mat o(n, n);
  if(n == 1) { o(0, 0) = 1 / a(0, 0); return o; }
  for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) { mat s(n - 1, n - 1); for(int p = 0, q = 0; p < n; ++p) if(p != j) { for(int k = 0, t = 0; k < n; ++k) if(k != i) s(q, t++) = a(p, k); ++q; } o(i, j) = ((i + j) % 2 ? -1 : 1) * det(s) / d; }
  return o;
}
template<class S> constexpr bool NonSq = false;
template<int R, int C> constexpr bool NonSq<cml::fixed<R, C>> = R != C;
template<int R, int C> constexpr bool NonSq<cml::external<R, C>> = R != C;
template<class T, class S, class B, class L> void matrices(int R, int C)
{
  constexpr bool nonsq = NonSq<S>;
  MBox<T, S, B, L> b(R, C), c(R, C); auto& v = b.v; auto& w = c.v;
  mat m(R, C), y(R, C);
  static const double vals[2][16] = {{3, -2, 5, 4, 1, 7, -1, 2, -3, 6, 2, 8, 4, 1, 9, -5}, {2, 7, -4, 1, 0, 3, 5, -2, 6, 1, -1, 4, 8, -3, 2, 1}};
  const int p = mc::choose(2);
  for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) { m(i, j) = vals[p][i * 4 + j]; y(i, j) = vals[1 - p][i * 4 + j]; v.put(i, j, T(m(i, j))); w.put(i, j, T(y(i, j))); }
  const bool flt = std::is_floating_point_v<T>;
  const double tol = flt ? 1e-11 : 0;
  const int D = depth();
  for(int step = 0; step < D; ++step) {
    const int op = mc::choose(24); const bool temp = mc::choose(2);
    const mat x = m; const char* name = "";
    const int e = op >= 4 && op <= 6 ? mc::choose(R) : 0, f = op >= 4 && op <= 6 ? mc::choose(C) : 0;
    const double xe = x(e, f);
    if(op == 5 && xe == 0) continue;
    auto all = [&](auto g) { for(size_t i = 0; i < m.d.size(); ++i) m.d[i] = st<T>(g(x.d[i], y.d[i])); };
    const char* site = "in-place";
    switch(op) {
    case 0: name = "m += n"; all([](double a, double q) { return a + q; }); E04_OP(+=, w); break;
    case 1: name = "m -= n"; all([](double a, double q) { return a - q; }); E04_OP(-=, w); break;
    case 2: name = "m += m"; all([](double a, double) { return a + a; }); E04_OP(+=, v); break;
    case 3: name = "m -= 2m-n"; all([](double a, double q) { return a - (2 * a - q); }); E04_OP(-=, T(2) * v - w); break;
    case 4: name = "m *= m(i,j)"; all([&](double a, double) { return a * xe; }); E04_OP(*=, v(e, f)); break;
    case 5: name = "m /= m(i,j)"; all([&](double a, double) { return a / xe; }); E04_OP(/=, v(e, f)); break;
    case 6: name = "m.fill(m(i,j))"; all([&](double, double) { return xe; }); E04_APPLY(fill(v(e, f))); break;
    case 7: name = "m *= 3"; all([](double a, double) { return a * 3; }); E04_OP(*=, 3); break;
    case 8: name = "m /= 2"; all([](double a, double) { return a / 2; }); E04_OP(/=, 2); break;
    case 9: name = "m.zero()"; all([](double, double) { return 0.; }); E04_APPLY(zero()); break;
    case 10: name = "m.identity()"; for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) m(i, j) = i == j; E04_APPLY(identity()); break;
    case 11: name = "m = n"; all([](double, double q) { return q; }); E04_OP(=, (w + w) - w); break;
    case 12: name = "m.transpose()"; if constexpr(!nonsq && !std::is_same_v<S, cml::external<>>) { if(R != C) continue; m = transpose(x); E04_APPLY(transpose()); } break;
    case 13: name = "m.inverse()"; if constexpr(!nonsq && std::is_floating_point_v<T>) { if(R != C || std::fabs(det(x)) < 1e-2) continue; m = inverse(x); const mat fr = readm(cml::inverse(v)); E04_APPLY(inverse()); MC_CHECK(near(readm(v), fr, 1e-9), "functional", "inverse() gives " << readm(v) << ", cml::inverse gives " << fr); } break;
    case 14: name = "m *= 0.5"; all([](double a, double) { return a * 0.5; }); E04_OP(*=, 0.5); break;
    case 15: name = "m = hadamard(m,n)"; all([](double a, double q) { return a * q; }); E04_OP(=, cml::hadamard(v, w)); break;
    case 16: name = "m = m*n"; if constexpr(!nonsq) { if(R != C) continue; m = mul(x, y); E04_OP(=, v * w); } break;
    case 17: name = "m = n*m"; if constexpr(!nonsq) { if(R != C) continue; m = mul(y, x); E04_OP(=, w * v); } break;
    case 18: name = "m += m*m"; if constexpr(!nonsq) { if(R != C) continue; m = add(x, mul(x, x)); E04_OP(+=, v * v); } break;
    case 19: name = "m += transpose(m)"; if constexpr(!nonsq) { if(R != C || step) continue; m = add(x, transpose(x)); site = "alias-transposed"; E04_OP(+=, cml::transpose(v)); } break;
    case 20: name = "m -= transpose(n)"; if constexpr(!nonsq) { if(R != C) continue; m = add(x, transpose(y), -1); E04_OP(-=, cml::transpose(w)); } break;
    case 21: name = "set(...)"; if(R != 2 || C != 2) continue; if constexpr(std::is_same_v<S, cml::fixed<2, 2>>) { if(temp) continue; m.d = {x(1, 1), x(0, 1), x(1, 0), x(0, 0)}; v = cml::matrix<T, S, B, L>(v(1, 1), v(0, 1), v(1, 0), v(0, 0)); } break;
    case 22: name = "m.fill(6)"; all([](double, double) { return 6.; }); E04_APPLY(fill(T(6))); break;
    case 23: name = "m = inverse(m)"; if constexpr(!nonsq && std::is_floating_point_v<T>) { if(R != C || std::fabs(det(x)) < 1e-2) continue; m = inverse(x); E04_OP(=, cml::inverse(v)); } break;
    }
    const mat r = readm(v);
    if(!near(r, m, op == 13 || op == 23 ? 1e-9 : tol)) MC_CHECK(false, site, name << " on " << x << " with n=" << y << ": got " << r << ", expected " << m);
    MC_CHECK(same(readm(w), y), "argument", name << ": the argument changed to " << readm(w));
    m = r;
    MC_TRACE(name << ": " << r); mc::step(); mc::state(hash(m));
  }
}

// ---- quaternions --------------------------------------------------------
template<class T, class O, class X> void quaternions()
{
  using Q = cml::quaternion<T, cml::fixed<>, O, X>;
  auto rq = [](const auto& q) { return vec{double(q.w()), double(q.x()), double(q.y()), double(q.z())}; };
  auto H = [](vec a, vec b) { if(!std::is_same_v<X, cml::positive_cross>) std::swap(a, b); return vec{a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2], a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]}; };
  auto put = [](Q& q, const vec& a) { q.w() = T(a[0]); q.x() = T(a[1]); q.y() = T(a[2]); q.z() = T(a[3]); };
  Q v, w;
  static const vec vals[3] = {{0.5, 0.25, -0.5, 0.125}, {-0.25, 0.5, 1, -0.75}, {0, 0.5, 0, 0}};
  const int p = mc::choose(3);
  vec m = vals[p]; const vec y = vals[(p + 1) % 3];
  put(v, m); put(w, y);
  const double tol = sizeof(T) == 4 ? 1e-5 : 1e-12;
  const int D = depth() + (mc::thorough() ? 0 : 1);
  for(int step = 0; step < D; ++step) {
    const int op = mc::choose(25); const bool temp = mc::choose(2);
    const vec x = m; const char* name = "";
    const int e = op == 8 || op == 9 ? mc::choose(4) : 0; // storage index
    const vec c = {x[0], -x[1], -x[2], -x[3]}; const double n2 = dot(x, x); const vec im = {x[1], x[2], x[3]}; const double L = len(im);
    if(n2 > 1e6) return;
    switch(op) {
    case 0: name = "q += r"; m = add(x, y); E04_OP(+=, w); break;
    case 1: name = "q -= r"; m = add(x, y, -1); E04_OP(-=, w); break;
    case 2: name = "q += q"; m = scale(x, 2); E04_OP(+=, v); break;
    case 3: name = "q -= 2q-r"; m = add(y, x, -1); E04_OP(-=, T(2) * v - w); break;
    case 4: name = "q *= r"; m = H(x, y); E04_OP(*=, w); break;
    case 5: name = "q *= q"; m = H(x, x); E04_OP(*=, v); break;
    case 6: name = "q *= conjugate(q)"; m = H(x, c); E04_OP(*=, cml::conjugate(v)); break;
    case 7: name = "q *= 2"; m = scale(x, 2); E04_OP(*=, 2); break;
    case 8: name = "q *= q[e]"; m = scale(x, double(v[e])); E04_OP(*=, v[e]); break;
    case 9: name = "q /= q[e]"; if(std::fabs(double(v[e])) < 1e-3) continue; m = scale(x, 1 / double(v[e])); E04_OP(/=, v[e]); break;
    case 10: name = "q /= 2"; m = scale(x, .5); E04_OP(/=, 2); break;
    case 11: name = "q.zero()"; m = {0, 0, 0, 0}; E04_APPLY(zero()); break;
    case 12: name = "q.identity()"; m = {1, 0, 0, 0}; { const vec f = rq(cml::identity(v)); MC_CHECK(same(f, m), "functional", "cml::identity gives " << f); } E04_APPLY(identity()); break;
    case 13: name = "q.conjugate()"; m = c; { const vec f = rq(cml::conjugate(v)); MC_CHECK(same(f, m), "functional", "cml::conjugate gives " << f); } E04_APPLY(conjugate()); break;
    case 14: name = "q.inverse()"; if(n2 < 1e-3) continue; m = scale(c, 1 / n2); { const vec f = rq(cml::inverse(v)); MC_CHECK(near(f, m, tol), "functional", "cml::inverse gives " << f << ", expected " << m); } E04_APPLY(inverse()); break;
    case 15: name = "q.normalize()"; if(n2 < 1e-3) continue; m = scale(x, 1 / std::sqrt(n2)); { const vec f = rq(cml::normalize(v)); MC_CHECK(near(f, m, tol), "functional", "cml::normalize gives " << f << ", expected " << m); } E04_APPLY(normalize()); break;
    case 16: name = "q.log()"; if(n2 < 1e-3 || L < 1e-3) continue; m = scale({0, x[1], x[2], x[3]}, std::acos(x[0] / std::sqrt(n2)) / L); m[0] = .5 * std::log(n2); { const vec f = rq(cml::log(v)); MC_CHECK(near(f, m, tol * 10), "functional", "cml::log gives " << f << ", expected " << m); } E04_APPLY(log()); break;
    case 17: name = "q.exp()"; if(L < 1e-3 || n2 > 10) continue; m = scale({0, x[1], x[2], x[3]}, std::exp(x[0]) * std::sin(L) / L); m[0] = std::exp(x[0]) * std::cos(L); { const vec f = rq(cml::exp(v)); MC_CHECK(near(f, m, tol * 10), "functional", "cml::exp gives " << f << ", expected " << m); } E04_APPLY(exp()); break;
    case 18: name = "q = r"; m = y; E04_OP(=, (w + w) - w); break;
    case 19: name = "q.set(imaginary(q), 3)"; m = {3, x[1], x[2], x[3]}; E04_APPLY(set(v.imaginary(), 3)); break;
    case 20: name = "q.set(q.w(), imaginary(r))"; m = {x[0], y[1], y[2], y[3]}; E04_APPLY(set(v.w(), w.imaginary())); break;
    case 21: name = "q.set(q.x(), -imaginary(q))"; m = {x[1], -x[1], -x[2], -x[3]}; E04_APPLY(set(v.x(), -v.imaginary())); break;
    case 22: name = "q.set(imaginary(q)+imaginary(r), q.z())"; m = {x[3], x[1] + y[1], x[2] + y[2], x[3] + y[3]}; E04_APPLY(set(v.imaginary() + w.imaginary(), v.z())); break;
    case 23: name = "q += q*r"; m = add(x, H(x, y)); E04_OP(+=, v * w); break;
    case 24: name = "q -= -q"; m = scale(x, 2); E04_OP(-=, -v); break;
    }
    const vec r = rq(v);
    MC_CHECK(near(r, m, tol * 10), "in-place", name << " on " << x << " with r=" << y << ": got " << r << ", expected " << m);
    MC_CHECK(same(rq(w), y), "argument", name << ": the argument changed to " << rq(w));
    m = r;
    MC_TRACE(name << ": " << r); mc::step(); mc::state(hash(m));
  }
}
} // namespace e04
