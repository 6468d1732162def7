// E06: the comparison operators and hashing agree with elementwise value.
#pragma once
#include "all.h"
#include <cml/util/vector_hash.h>
#include "ref.h"
#include <cmath>
#include <limits>
#include <string>

namespace e06 {
using namespace ref;
inline double letter(int i) { static const double a[] = {-1, -0.0, 0.0, 2, std::numeric_limits<double>::quiet_NaN()}; return a[i]; }
constexpr int letters = 5;
inline bool has_nan(const vec& v) { for(double d : v) if(d != d) return true; return false; }
// Reference: equality of all elements, lexicographic order with the size as tie-break.
inline bool eq(const vec& a, const vec& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); ++i) if(!(a[i] == b[i])) return false; return true; }
inline int order(const vec& a, const vec& b)
{
  for(size_t i = 0; i < a.size() && i < b.size(); ++i) { if(a[i] < b[i]) return -1; if(b[i] < a[i]) return 1; }
  return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
template<class A, class B> void all_ops(const char* what, const A& x, const vec& a, const B& y, const vec& b)
{
  const bool e = eq(a, b);
  MC_CHECK((x == y) == e, "equal", what << ": " << a << " == " << b << " is " << (x == y));
  MC_CHECK((x != y) == !e, "not-equal", what << ": " << a << " != " << b << " is " << (x != y));
  if(has_nan(a) || has_nan(b)) return; // not ordered
  const int o = order(a, b);
  MC_CHECK((x < y) == (o < 0), "less", what << ": " << a << " < " << b << " is " << (x < y));
  MC_CHECK((x > y) == (o > 0), "greater", what << ": " << a << " > " << b << " is " << (x > y));
  MC_CHECK((x <= y) == (o <= 0), "less-equal", what << ": " << a << " <= " << b << " is " << (x <= y));
  MC_CHECK((x >= y) == (o >= 0), "greater-equal", what << ": " << a << " >= " << b << " is " << (x >= y));
}
// ---- vectors: one struct per storage kind, made from contents ----------
enum { Fixed, Dynamic, External, ExternalDyn, ConstExternal, Expr, Sub, FloatFixed, Kinds };
template<int K, int N, class F> void with_n(const vec& a, F f)
{
  double d[N + 1]; for(int i = 0; i < N; ++i) d[i] = a[size_t(i)]; d[N] = 9;
  if constexpr(K == Fixed) { cml::vector<double, cml::fixed<N>> v; for(int i = 0; i < N; ++i) v[i] = d[i]; f(v); }
  if constexpr(K == External) { cml::vector<double, cml::external<N>> v(d); f(v); }
  if constexpr(K == ConstExternal) { cml::vector<const double, cml::external<N>> v(d); f(v); }
  if constexpr(K == Sub) { cml::vector<double, cml::fixed<N + 1>> v; for(int i = 0; i <= N; ++i) v[i] = i == 0 ? 5 : d[i - 1]; f(cml::subvector(v, 0)); }
  if constexpr(K == FloatFixed) { cml::vector<float, cml::fixed<N>> v; for(int i = 0; i < N; ++i) v[i] = float(d[i]); f(v); }
}
template<int K, class F> void with(const vec& a, F f)
{
  const int n = int(a.size());
  if constexpr(K == Dynamic) { cml::vector<double, cml::dynamic<>> v(n); for(int i = 0; i < n; ++i) v[i] = a[size_t(i)]; f(v); }
  else if constexpr(K == ExternalDyn) { double d[4] = {0}; for(int i = 0; i < n; ++i) d[i] = a[size_t(i)]; cml::vector<double, cml::external<>> v(d, n); f(v); }
  else if constexpr(K == Expr) { cml::vector<double, cml::dynamic<>> v(n); for(int i = 0; i < n; ++i) v[i] = -a[size_t(i)]; f(-v); }
  else switch(n) { case 1: return with_n<K, 1>(a, f); case 2: return with_n<K, 2>(a, f); case 3: return with_n<K, 3>(a, f); }
}
constexpr bool zero_ok(int k) { return k == Dynamic || k == ExternalDyn || k == Expr; }
inline vec contents(bool zero, int max)
{
  const int n = zero ? mc::choose(max + 1) : 1 + mc::choose(max);
  vec v; for(int i = 0; i < n; ++i) v.push_back(letter(mc::choose(letters)));
  return v;
}
inline uint64_t both(const vec& a, const vec& b, int k) { mc::Hash h; h(k)(int(a.size())); for(double d : a) h(d); for(double d : b) h(d); return h; }
template<int K1, int K2> void pairs()
{
#ifdef MC_THOROUGH
  const int max = 3;
#else
  const int max = K1 == K2 || (K1 == Fixed && K2 == Dynamic) ? 3 : 2;
#endif
  const vec a = contents(zero_ok(K1), max), b = contents(zero_ok(K2), max);
  with<K1>(a, [&](const auto& x) { with<K2>(b, [&](const auto& y) { all_ops("vector", x, a, y, b); }); });
  mc::step(6); mc::state(both(a, b, K1 * 100 + K2));
}
// The laws themselves, on triples.
template<int K> void triples()
{
  vec c[3]; for(vec& v : c) { const int n = zero_ok(K) ? mc::choose(3) : 1 + mc::choose(2); for(int i = 0; i < n; ++i) v.push_back(letter(mc::choose(4))); }
  with<K>(c[0], [&](const auto& x) { with<K>(c[1], [&](const auto& y) { with<K>(c[2], [&](const auto& z) {
    MC_CHECK(!(x < y && y < z) || x < z, "transitive", c[0] << " < " << c[1] << " < " << c[2] << " but not first < last");
    MC_CHECK(!(x == y && y == z) || x == z, "transitive", c[0] << " == " << c[1] << " == " << c[2] << " but not first == last");
    MC_CHECK(!(x == y && y < z) || x < z, "substitutive", c[0] << " == " << c[1] << " < " << c[2] << " but not first < last");
    MC_CHECK(int(x < y) + int(x == y) + int(y < x) == 1, "trichotomy", c[0] << " and " << c[1]);
  }); }); });
  mc::step(3);
}
// Equal vectors hash equally; the hash depends on the value only.
template<int K> void hashes()
{
  const vec a = contents(zero_ok(K), 3), b = contents(zero_ok(K), 3);
  with<K>(a, [&](const auto& x) { with<K>(b, [&](const auto& y) {
    using X = std::decay_t<decltype(x)>; using Y = std::decay_t<decltype(y)>;
    const size_t hx = std::hash<X>()(x), hy = std::hash<Y>()(y);
    if(eq(a, b)) MC_CHECK(hx == hy, "hash", a << " and " << b << " are equal but hash to " << hx << " and " << hy);
    MC_CHECK(std::hash<X>()(x) == hx, "hash-stable", a);
  }); });
  mc::step(2); mc::state(both(a, b, 7000 + K));
}
template<class T> void int_hashes()
{
  using V = cml::vector<T, cml::dynamic<>>;
  const int n = mc::choose(4); V a(n), b(n); bool e = true;
  for(int i = 0; i < n; ++i) { const int p = mc::choose(3), q = mc::choose(3); a[i] = T(p); b[i] = T(q); e = e && p == q; }
  if(e) MC_CHECK(std::hash<V>()(a) == std::hash<V>()(b), "hash", "equal integer vectors hash differently");
  MC_CHECK((a == b) == e, "equal", "integer vectors");
  mc::step();
}
// ---- matrices -----------------------------------------------------------
template<class B, class L> using D = cml::matrix<double, cml::dynamic<>, B, L>;
template<class B, class L, class B2, class L2> void matrices()
{
  static const int shapes[][2] = {{0, 0}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}, {0, 2}, {2, 0}, {4, 4}, {1, 4}};
  const int s1 = mc::choose(11), s2 = mc::choose(11);
  const int r = shapes[s1][0], c = shapes[s1][1], r2 = shapes[s2][0], c2 = shapes[s2][1];
  mat a(r, c), b(r2, c2);
  const bool small = r * c <= 2 && r2 * c2 <= 2;
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) a(i, j) = small ? letter(mc::choose(letters)) : i * 4 + j;
  for(int i = 0; i < r2; ++i) for(int j = 0; j < c2; ++j) b(i, j) = small ? letter(mc::choose(letters)) : i * 4 + j;
  if(!small && r * c > 0 && r2 * c2 > 0) { // differ in one position, or in the sign of a zero, or in a NaN
    const int k = mc::choose(r2 * c2 + 1);
    if(k < r2 * c2) { static const double odd[] = {100, -0.0, std::numeric_limits<double>::quiet_NaN()}; b(k / c2, k % c2) = odd[mc::choose(3)]; }
  }
  bool e = r == r2 && c == c2;
  for(int i = 0; e && i < r; ++i) for(int j = 0; j < c; ++j) e = e && a(i, j) == b(i, j);
  D<B, L> x(r, c); D<B2, L2> y(r2, c2);
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) x(i, j) = a(i, j);
  for(int i = 0; i < r2; ++i) for(int j = 0; j < c2; ++j) y(i, j) = b(i, j);
  double ext[16]; for(int i = 0; i < r2; ++i) for(int j = 0; j < c2; ++j) ext[i * c2 + j] = b(i, j);
  cml::matrix<double, cml::external<>, cml::row_basis, cml::row_major> z(ext, r2, c2);
  const D<B2, L2> t = cml::transpose(y);
  auto cmp = [&](const char* what, const auto& p, const auto& q) {
    MC_CHECK((p == q) == e, "equal", "matrix " << what << ": " << a << " == " << b << " is " << (p == q));
    MC_CHECK((p != q) == !e, "not-equal", "matrix " << what << ": " << a << " != " << b << " is " << (p != q));
    MC_CHECK((q == p) == e, "equal", "matrix " << what << ", reversed: " << a << " == " << b);
  };
  cmp("dynamic, dynamic", x, y); cmp("dynamic, external", x, z); cmp("dynamic, transpose expression", x, cml::transpose(t)); cmp("negation expressions", -x, -y);
  mc::step(4);
  mc::Hash h; h(s1)(s2); for(double e1 : a.d) h(e1); for(double e1 : b.d) h(e1); mc::state(h);
}
template<int R, int C, class B, class L, class B2, class L2> void fixed_matrices()
{
  cml::matrix<double, cml::fixed<R, C>, B, L> x; cml::matrix<double, cml::fixed<R, C>, B2, L2> y; cml::matrix<float, cml::fixed<R, C>, B2, L2> f;
  for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) { x(i, j) = i * C + j; y(i, j) = i * C + j; f(i, j) = float(i * C + j); }
  const int k = mc::choose(R * C + 1); bool e = true;
  if(k < R * C) { static const double odd[] = {100, -0.0, std::numeric_limits<double>::quiet_NaN()}; const double o = odd[mc::choose(3)]; y(k / C, k % C) = o; f(k / C, k % C) = float(o); e = o == k; }
  MC_CHECK((x == y) == e && (y == x) == e, "equal", "fixed " << R << "x" << C << " position " << k);
  MC_CHECK((x != y) == !e && (y != x) == !e, "not-equal", "fixed " << R << "x" << C << " position " << k);
  MC_CHECK((x == f) == e && (f != x) == !e, "equal", "fixed float " << R << "x" << C << " position " << k);
  mc::step(6); mc::Hash h; h(R)(C)(k)(int(e)); mc::state(h);
}
// ---- quaternions ---------------------------------------------------------
template<class O, class X> void quaternions()
{
  using Q = cml::quaternion<double, cml::fixed<>, O, X>;
  Q p, q; vec a(4), b(4);
  // storage order decides the lexicographic order
  const int mode = mc::choose(2);
  for(int i = 0; i < 4; ++i) {
    if(mode == 0) { a[size_t(i)] = letter(1 + mc::choose(3)); b[size_t(i)] = letter(1 + mc::choose(3)); }
    else { a[size_t(i)] = b[size_t(i)] = i == 2 ? -0.0 : i - 1; }
  }
  if(mode == 1) { const int i = mc::choose(4), j = mc::choose(4); a[size_t(i)] = letter(mc::choose(letters)); b[size_t(j)] = letter(mc::choose(letters)); }
  for(int i = 0; i < 4; ++i) { p.put(i, a[size_t(i)]); q.put(i, b[size_t(i)]); }
  all_ops("quaternion", p, a, q, b);
  cml::quaternion<float, cml::fixed<>, O, X> f; for(int i = 0; i < 4; ++i) f.put(i, float(b[size_t(i)]));
  all_ops("quaternion and float quaternion", p, a, f, b);
  const Q np = -p; vec na(4); for(int i = 0; i < 4; ++i) na[size_t(i)] = a[size_t(i)];
  all_ops("quaternion expression", -np, na, q, b);
  mc::step(24); mc::state(both(a, b, 9000 + mode));
}
template<class O, class X> void quaternion_triples()
{
  using Q = cml::quaternion<double, cml::fixed<>, O, X>;
  Q q[3]; const int pos = mc::choose(3);
  for(Q& x : q) { x.zero(); x.put(pos, letter(mc::choose(4))); x.put(pos + 1, letter(mc::choose(4))); }
  MC_CHECK(!(q[0] < q[1] && q[1] < q[2]) || q[0] < q[2], "transitive", "quaternions");
  MC_CHECK(!(q[0] == q[1] && q[1] < q[2]) || q[0] < q[2], "substitutive", "quaternions");
  MC_CHECK(int(q[0] < q[1]) + int(q[0] == q[1]) + int(q[1] < q[0]) == 1, "trichotomy", "quaternions");
  mc::step(3);
}
}
