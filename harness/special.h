// Values at the edges of the element type: signed zeros, infinities, NaN, the
// smallest and largest finite numbers, inexact quotients; wrap-around of
// unsigned elements.  Every result is compared with the same operation done on
// plain numbers of the element type (NaN equals NaN; the sign of zero is free).
#pragma once
#include "all.h"
#include "wide.h"
#include <limits>

namespace special {
template<class T> const std::vector<T>& values()
{
  using L = std::numeric_limits<T>;
  static const std::vector<T> v = [] {
    if constexpr(std::is_floating_point_v<T>) return std::vector<T>{T(0), -T(0), T(1), T(-1), T(3), T(1) / T(3), T(-7) / T(10), L::infinity(), -L::infinity(), L::quiet_NaN(), L::denorm_min(), L::min(), L::max(), L::lowest(), L::epsilon(), 1 + L::epsilon()};
    else return std::vector<T>{T(0), T(1), T(2), T(7), L::max(), T(L::max() - 1), T(L::max() / 2), T(L::max() / 2 + 1)};
  }();
  return v;
}
// For sums of several products: results that do not depend on the order of summation.
template<class T> const std::vector<T>& few() { using L = std::numeric_limits<T>; static const std::vector<T> v{T(0), T(1), T(-2), L::infinity(), -L::infinity(), L::quiet_NaN()}; return v; }
template<class T> T one(const std::vector<T>& v) { return v[size_t(mc::choose(int(v.size())))]; }
template<class T> T any() { return one(values<T>()); }
template<class T> bool eq(T a, T b) { return a == b || (a != a && b != b); }
template<class T> std::string list(const std::vector<T>& v) { std::ostringstream o; o.precision(17); o << "("; for(auto& x : v) o << (&x == &v[0] ? "" : ",") << x; o << ")"; return o.str(); }
template<class T, class V> void expect(const V& got, const std::vector<T>& want, const char* what)
{
  std::vector<T> g; for(int i = 0; i < int(got.size()); ++i) g.push_back(T(got[i]));
  bool ok = g.size() == want.size(); for(size_t i = 0; ok && i < g.size(); ++i) ok = eq(g[i], want[i]);
  MC_CHECK(ok, "special", what << " is " << list(g) << ", expected " << list(want));
  mc::step(); uint64_t h = 7; for(T x : want) h = h * 1000003 + std::hash<T>()(x); mc::state(h);
}
template<class T, class M> void expectm(const M& got, int R, int C, const std::vector<T>& want, const char* what)
{
  std::vector<T> g; for(int i = 0; i < int(got.rows()); ++i) for(int j = 0; j < int(got.cols()); ++j) g.push_back(T(got(i, j)));
  bool ok = int(got.rows()) == R && int(got.cols()) == C; for(size_t i = 0; ok && i < g.size(); ++i) ok = eq(g[i], want[i]);
  MC_CHECK(ok, "special", what << " is " << got.rows() << "x" << got.cols() << list(g) << ", expected " << list(want));
  mc::step(); uint64_t h = 7; for(T x : want) h = h * 1000003 + std::hash<T>()(x); mc::state(h);
}
// Two operands of n elements, one special element in each.
template<class T> struct pair
{
  std::vector<T> x, y; T s;
  explicit pair(int n) : x(size_t(n)), y(size_t(n))
  {
    for(int i = 0; i < n; ++i) { x[size_t(i)] = T(i + 3); y[size_t(i)] = T(2 * i + 1); }
    const int p = mc::choose(3) * (n - 1) / 2;
    x[size_t(p)] = any<T>(); s = y[size_t(p)] = any<T>();
  }
  template<class F> std::vector<T> map(F f) const { std::vector<T> r; for(size_t i = 0; i < x.size(); ++i) r.push_back(T(f(x[i], y[i]))); return r; }
};
template<class V, class T> void load(V& v, const std::vector<T>& x) { for(int i = 0; i < int(x.size()); ++i) v.put(i, x[size_t(i)]); }
template<class M, class T> void loadm(M& m, int R, int C, const std::vector<T>& x) { for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) m.put(i, j, x[size_t(i * C + j)]); }

// ---- functional forms: vectors (E01) ---------------------------------------
template<class T, class S> void vectors()
{
  const pair<T> p(3); wide::VB<T, S> A(3), B(3); auto &a = A.v, &b = B.v; load(a, p.x); load(b, p.y); const T s = p.s;
  const bool div = std::is_floating_point_v<T> || s != 0;
  switch(mc::choose(15)) {
  case 0: expect(a + b, p.map([](T x, T y) { return x + y; }), "a + b"); break;
  case 1: expect(a - b, p.map([](T x, T y) { return x - y; }), "a - b"); break;
  case 2: expect(-a, p.map([](T x, T) { return -x; }), "-a"); break;
  case 3: expect(a * s, p.map([=](T x, T) { return x * s; }), "a * s"); break;
  case 4: expect(s * a, p.map([=](T x, T) { return s * x; }), "s * a"); break;
  case 5: if(div) expect(a / s, p.map([=](T x, T) { return x / s; }), "a / s"); break;
  case 6: expect(cml::hadamard(a, b), p.map([](T x, T y) { return x * y; }), "hadamard(a, b)"); break;
  case 7: expect(a - a, p.map([](T x, T) { return x - x; }), "a - a"); break;
  case 8: expect(a + (-a), p.map([](T x, T) { return x + T(-x); }), "a + -a"); break;
  case 9: expect(s * (a + b), p.map([=](T x, T y) { return s * T(x + y); }), "s * (a + b)"); break;
  case 10: expect((a + b) - b, p.map([](T x, T y) { return T(x + y) - y; }), "(a + b) - b"); break;
  case 11: expect(a * T(0), p.map([](T x, T) { return x * T(0); }), "a * 0"); break;
  case 12: if(div) expect((a * s) / s, p.map([=](T x, T) { return T(x * s) / s; }), "(a * s) / s"); break;
  case 13: { const int k = mc::choose(3); auto w = p.x; w.erase(w.begin() + k); expect(a.subvector(k), w, "subvector"); break; }
  case 14: expect(+a, p.x, "+a"); break;
  }
  expect(a, p.x, "a afterwards"); expect(b, p.y, "b afterwards"); MC_CHECK(A.ok() && B.ok(), "guard", "memory next to a view changed");
}
// ---- matrices (E02) ----------------------------------------------------------
template<class T, class S, class B, class L> void matrices()
{
  const pair<T> p(6); wide::MB<T, S, B, L> A(2, 3), Bm(2, 3); auto &a = A.m, &b = Bm.m; loadm(a, 2, 3, p.x); loadm(b, 2, 3, p.y); const T s = p.s;
  const bool div = std::is_floating_point_v<T> || s != 0;
  auto tr = [](const std::vector<T>& x) { std::vector<T> r; for(int j = 0; j < 3; ++j) for(int i = 0; i < 2; ++i) r.push_back(x[size_t(i * 3 + j)]); return r; };
  switch(mc::choose(14)) {
  case 0: expectm(a + b, 2, 3, p.map([](T x, T y) { return x + y; }), "a + b"); break;
  case 1: expectm(a - b, 2, 3, p.map([](T x, T y) { return x - y; }), "a - b"); break;
  case 2: expectm(-a, 2, 3, p.map([](T x, T) { return -x; }), "-a"); break;
  case 3: expectm(a * s, 2, 3, p.map([=](T x, T) { return x * s; }), "a * s"); break;
  case 4: expectm(s * a, 2, 3, p.map([=](T x, T) { return s * x; }), "s * a"); break;
  case 5: if(div) expectm(a / s, 2, 3, p.map([=](T x, T) { return x / s; }), "a / s"); break;
  case 6: expectm(cml::hadamard(a, b), 2, 3, p.map([](T x, T y) { return x * y; }), "hadamard(a, b)"); break;
  case 7: expectm(a - a, 2, 3, p.map([](T x, T) { return x - x; }), "a - a"); break;
  case 8: expectm(a * T(0), 2, 3, p.map([](T x, T) { return x * T(0); }), "a * 0"); break;
  case 9: expectm(s * (a + b), 2, 3, p.map([=](T x, T y) { return s * T(x + y); }), "s * (a + b)"); break;
  case 10: expectm(transpose(a), 3, 2, tr(p.x), "transpose(a)"); break;
  case 11: expectm(transpose(a) - transpose(b), 3, 2, tr(p.map([](T x, T y) { return x - y; })), "transpose(a) - transpose(b)"); break;
  case 12: expect(row(a, 1) + row(b, 1), [&] { auto w = p.map([](T x, T y) { return x + y; }); return std::vector<T>(w.begin() + 3, w.end()); }(), "row(a, 1) + row(b, 1)"); break;
  case 13: if(div) expectm((a * s) / s, 2, 3, p.map([=](T x, T) { return T(x * s) / s; }), "(a * s) / s"); break;
  }
  expectm(a, 2, 3, p.x, "a afterwards"); expectm(b, 2, 3, p.y, "b afterwards"); MC_CHECK(A.ok() && Bm.ok(), "guard", "memory next to a view changed");
}
// ---- quaternions (E03) -------------------------------------------------------
template<class Q> Q quat(const std::vector<typename Q::value_type>& x) { Q q; for(int i = 0; i < 4; ++i) q.put(std::is_same_v<typename Q::order_type, cml::real_first> ? i : (i + 3) % 4, x[size_t(i)]); return q; }
template<class Q, class X> void expectq(const X& got, const std::vector<typename Q::value_type>& want, const char* what)
{
  const Q g(got); const bool rf = std::is_same_v<typename Q::order_type, cml::real_first>;
  std::vector<typename Q::value_type> v; for(int i = 0; i < 4; ++i) v.push_back(g[rf ? i : (i + 3) % 4]);
  expect(v, want, what);
}
template<class Q> void quaternions()
{
  using T = typename Q::value_type; const pair<T> p(4); const Q a = quat<Q>(p.x), b = quat<Q>(p.y); const T s = p.s;
  auto conj = [](std::vector<T> v) { for(int i = 1; i < 4; ++i) v[size_t(i)] = -v[size_t(i)]; return v; };
  switch(mc::choose(10)) {
  case 0: expectq<Q>(a + b, p.map([](T x, T y) { return x + y; }), "a + b"); break;
  case 1: expectq<Q>(a - b, p.map([](T x, T y) { return x - y; }), "a - b"); break;
  case 2: expectq<Q>(-a, p.map([](T x, T) { return -x; }), "-a"); break;
  case 3: expectq<Q>(a * s, p.map([=](T x, T) { return x * s; }), "a * s"); break;
  case 4: expectq<Q>(s * a, p.map([=](T x, T) { return s * x; }), "s * a"); break;
  case 5: expectq<Q>(a / s, p.map([=](T x, T) { return x / s; }), "a / s"); break;
  case 6: expectq<Q>(cml::conjugate(a), conj(p.x), "conjugate(a)"); break;
  case 7: expectq<Q>(a - a, p.map([](T x, T) { return x - x; }), "a - a"); break;
  case 8: { auto w = p.x; w.erase(w.begin()); expect(cml::imaginary(a), w, "imaginary(a)"); break; }
  case 9: expectq<Q>(cml::conjugate(a + b), conj(p.map([](T x, T y) { return x + y; })), "conjugate(a + b)"); break;
  }
}
template<class Q> void product()
{
  using T = typename Q::value_type; std::vector<T> x{3, 1, -2, 2}, y{-1, 2, 4, 1};
  const int i = mc::choose(4), j = mc::choose(4), k = mc::choose(4);
  x[size_t(i)] = one(few<T>()); x[size_t(j)] = one(few<T>()); y[size_t(k)] = one(few<T>()); y[size_t((k + 1) % 4)] = one(few<T>());
  const T c = std::is_same_v<typename Q::cross_type, cml::positive_cross> ? 1 : -1;
  const std::vector<T> w{x[0] * y[0] - x[1] * y[1] - x[2] * y[2] - x[3] * y[3], x[0] * y[1] + y[0] * x[1] + c * (x[2] * y[3] - x[3] * y[2]), x[0] * y[2] + y[0] * x[2] + c * (x[3] * y[1] - x[1] * y[3]), x[0] * y[3] + y[0] * x[3] + c * (x[1] * y[2] - x[2] * y[1])};
  expectq<Q>(quat<Q>(x) * quat<Q>(y), w, "a * b");
}
// ---- in-place forms (E04) ----------------------------------------------------
template<class O> void returned(const O& r, const O& a) { MC_CHECK(&r == &a, "return", "a different object was returned"); }
template<class T, class S> void vectors_inplace()
{
  const pair<T> p(3); wide::VB<T, S> A(3), B(3); auto &a = A.v, &b = B.v; load(a, p.x); load(b, p.y); const T s = p.s;
  const bool div = std::is_floating_point_v<T> || s != 0, nan = s != s || p.x[0] != p.x[0] || p.x[1] != p.x[1] || p.x[2] != p.x[2];
  switch(mc::choose(13)) {
  case 0: returned(a += b, a); expect(a, p.map([](T x, T y) { return x + y; }), "a += b"); break;
  case 1: returned(a -= b, a); expect(a, p.map([](T x, T y) { return x - y; }), "a -= b"); break;
  case 2: returned(a -= a, a); expect(a, p.map([](T x, T) { return x - x; }), "a -= a"); break;
  case 3: returned(a += a, a); expect(a, p.map([](T x, T) { return x + x; }), "a += a"); break;
  case 4: returned(a *= s, a); expect(a, p.map([=](T x, T) { return x * s; }), "a *= s"); break;
  case 5: if(div) { returned(a /= s, a); expect(a, p.map([=](T x, T) { return x / s; }), "a /= s"); } break;
  case 6: returned(a.zero(), a); expect(a, std::vector<T>(3, T(0)), "a.zero()"); break;
  case 7: returned(a.fill(s), a); expect(a, std::vector<T>(3, s), "a.fill(s)"); break;
  case 8: if(!nan) { returned(a.minimize(b), a); expect(a, p.map([](T x, T y) { return y < x ? y : x; }), "a.minimize(b)"); } break;
  case 9: if(!nan) { returned(a.maximize(b), a); expect(a, p.map([](T x, T y) { return x < y ? y : x; }), "a.maximize(b)"); } break;
  case 10: { const int k = mc::choose(3); std::vector<T> w(3, T(0)); w[size_t(k)] = 1; returned(a.cardinal(k), a); expect(a, w, "a.cardinal(k)"); break; }
  case 11: returned(a = b, a); expect(a, p.y, "a = b"); break;
  case 12: { const int k = mc::choose(3); const T t = a[k]; if(std::is_floating_point_v<T> || t != 0) { returned(a /= a[k], a); expect(a, p.map([=](T x, T) { return x / t; }), "a /= a[k]"); } break; }
  }
  expect(b, p.y, "b afterwards"); MC_CHECK(A.ok() && B.ok(), "guard", "memory next to a view changed");
}
template<class T, class S, class B, class L> void matrices_inplace()
{
  const pair<T> p(6); wide::MB<T, S, B, L> A(2, 3), Bm(2, 3); auto &a = A.m, &b = Bm.m; loadm(a, 2, 3, p.x); loadm(b, 2, 3, p.y); const T s = p.s;
  const bool div = std::is_floating_point_v<T> || s != 0;
  auto test = [&](const std::vector<T>& w, const char* what) { expectm(a, 2, 3, w, what); };
  switch(mc::choose(10)) {
  case 0: returned(a += b, a); test(p.map([](T x, T y) { return x + y; }), "a += b"); break;
  case 1: returned(a -= b, a); test(p.map([](T x, T y) { return x - y; }), "a -= b"); break;
  case 2: returned(a -= a, a); test(p.map([](T x, T) { return x - x; }), "a -= a"); break;
  case 3: returned(a += a, a); test(p.map([](T x, T) { return x + x; }), "a += a"); break;
  case 4: returned(a *= s, a); test(p.map([=](T x, T) { return x * s; }), "a *= s"); break;
  case 5: if(div) { returned(a /= s, a); test(p.map([=](T x, T) { return x / s; }), "a /= s"); } break;
  case 6: returned(a.zero(), a); test(std::vector<T>(6, T(0)), "a.zero()"); break;
  case 7: returned(a.fill(s), a); test(std::vector<T>(6, s), "a.fill(s)"); break;
  case 8: returned(a.identity(), a); test({1, 0, 0, 0, 1, 0}, "a.identity()"); break;
  case 9: returned(a = b, a); test(p.y, "a = b"); break;
  }
  expectm(b, 2, 3, p.y, "b afterwards"); MC_CHECK(A.ok() && Bm.ok(), "guard", "memory next to a view changed");
}
template<class Q> void quaternions_inplace()
{
  using T = typename Q::value_type; const pair<T> p(4); Q a = quat<Q>(p.x), b = quat<Q>(p.y); const T s = p.s;
  auto test = [&](const std::vector<T>& w, const char* what) { expectq<Q>(a, w, what); };
  switch(mc::choose(10)) {
  case 0: returned(a += b, a); test(p.map([](T x, T y) { return x + y; }), "a += b"); break;
  case 1: returned(a -= b, a); test(p.map([](T x, T y) { return x - y; }), "a -= b"); break;
  case 2: returned(a -= a, a); test(p.map([](T x, T) { return x - x; }), "a -= a"); break;
  case 3: returned(a += a, a); test(p.map([](T x, T) { return x + x; }), "a += a"); break;
  case 4: returned(a *= s, a); test(p.map([=](T x, T) { return x * s; }), "a *= s"); break;
  case 5: returned(a /= s, a); test(p.map([=](T x, T) { return x / s; }), "a /= s"); break;
  case 6: returned(a.conjugate(), a); { auto w = p.x; for(int i = 1; i < 4; ++i) w[size_t(i)] = -w[size_t(i)]; test(w, "a.conjugate()"); } break;
  case 7: returned(a.zero(), a); test({0, 0, 0, 0}, "a.zero()"); break;
  case 8: returned(a.identity(), a); test({1, 0, 0, 0}, "a.identity()"); break;
  case 9: returned(a = b, a); test(p.y, "a = b"); break;
  }
  expectq<Q>(b, p.y, "b afterwards");
}
} // namespace special
// ---- products (P01, P02): the textbook sums of non-finite elements ------------
namespace special {
template<class T, class S> void vector_products()
{
  wide::VB<T, S> A(3), B(3); auto &a = A.v, &b = B.v;
  std::vector<T> x(3), y(3); for(auto& v : x) v = one(few<T>()); for(auto& v : y) v = one(few<T>()); load(a, x); load(b, y);
  auto num = [](T got, T want, const char* what) { MC_CHECK(eq(got, want), "special", what << " is " << got << ", expected " << want); mc::step(); };
  num(cml::dot(a, b), x[0] * y[0] + x[1] * y[1] + x[2] * y[2], "dot(a, b)"); num(cml::length_squared(a), x[0] * x[0] + x[1] * x[1] + x[2] * x[2], "length_squared(a)");
  const std::vector<T> c{x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]}; expect(cml::cross(a, b), c, "cross(a, b)");
  std::vector<T> o; for(T p : x) for(T q : y) o.push_back(p * q); expectm(cml::outer(a, b), 3, 3, o, "outer(a, b)");
  expect(a, x, "a afterwards"); expect(b, y, "b afterwards");
}
template<class T, class SA, class SB, class B, class L> void matrix_products()
{
  wide::MB<T, SA, B, L> A(2, 3); wide::MB<T, SB, B, L> Bm(3, 2); auto &a = A.m; auto& b = Bm.m;
  std::vector<T> x{1, 2, 3, -1, 4, 2}, y{2, 1, -1, 3, 5, 1};
  const int i = mc::choose(2), k = mc::choose(3), l = mc::choose(3), j = mc::choose(2);
  x[size_t(i * 3 + k)] = one(few<T>()); x[size_t(i * 3 + (k + 1) % 3)] = one(few<T>()); y[size_t(l * 2 + j)] = one(few<T>()); y[size_t((l + 1) % 3 * 2 + j)] = one(few<T>());
  loadm(a, 2, 3, x); loadm(b, 3, 2, y);
  std::vector<T> w, t; for(int r = 0; r < 2; ++r) for(int c = 0; c < 2; ++c) { T s(0); for(int q = 0; q < 3; ++q) s += x[size_t(r * 3 + q)] * y[size_t(q * 2 + c)]; w.push_back(s); } t = {w[0], w[2], w[1], w[3]};
  expectm(a * b, 2, 2, w, "a * b"); expectm(transpose(b) * transpose(a), 2, 2, t, "transpose(b) * transpose(a)");
  expect(a * col(b, 0), std::vector<T>{w[0], w[2]}, "a * col(b, 0)"); expect(row(a, 1) * b, std::vector<T>{w[2], w[3]}, "row(a, 1) * b");
  expectm(a, 2, 3, x, "a afterwards"); expectm(b, 3, 2, y, "b afterwards");
}
} // namespace special
