// P01: vector products equal their textbook sums and obey their laws.
#pragma once
#include "all.h"
#include "ref.h"

namespace p01 {
using namespace ref;
enum { Fixed, Dynamic, External, ExternalDyn, ConstExternal, Expr, View, Temp, KINDS };
// One operand with the given contents, in storage kind K.
template<int K, int N, class T, class F> void with(const vec& a, F f)
{
  T d[N]; for(int i = 0; i < N; ++i) d[i] = T(a[size_t(i)]);
  if constexpr(K == Fixed) { cml::vector<T, cml::fixed<N>> v(d); f(v); }
  if constexpr(K == Dynamic) { cml::vector<T, cml::dynamic<>> v(d); f(v); }
  if constexpr(K == External) { cml::vector<T, cml::external<N>> v(d); f(v); }
  if constexpr(K == ExternalDyn) { cml::vector<T, cml::external<>> v(d, N); f(v); }
  if constexpr(K == ConstExternal) { cml::vector<const T, cml::external<N>> v(d); f(v); }
  if constexpr(K == Expr) { cml::vector<T, cml::dynamic<>> u(N), w(N); for(int i = 0; i < N; ++i) { u[i] = T(d[i] + i + 1); w[i] = T(i + 1); } f(u - w); }
  if constexpr(K == View) { cml::matrix<T, cml::fixed<2, N>> m; m.zero(); for(int i = 0; i < N; ++i) m(1, i) = d[i]; f(cml::row(m, 1)); }
  if constexpr(K == Temp) { f(cml::vector<T, cml::fixed<N>>(d)); }
}
inline vec contents(int n, int letters) { static const double a[] = {0, 1, -1, 2, -3, 5}; vec v; for(int i = 0; i < n; ++i) v.push_back(a[mc::choose(letters)]); return v; }
inline uint64_t mix(const vec& a, const vec& b, int k) { mc::Hash h; h(k); for(double d : a) h(d); for(double d : b) h(d); return h; }
#define SAME(what, got, want) MC_CHECK((got) == (want), what, what " of " << a << " and " << b << " is " << double(got) << ", expected " << double(want))

template<class T, int N, int K1, int K2> void pair(const vec& a, const vec& b)
{
  with<K1, N, T>(a, [&](auto&& x) { with<K2, N, T>(b, [&](auto&& y) {
    SAME("dot", cml::dot(x, y), T(dot(a, b)));
    SAME("dot, swapped", cml::dot(y, x), T(dot(a, b)));
    { vec h(a); for(size_t i = 0; i < h.size(); ++i) h[i] *= b[i]; const vec g = read(cml::hadamard(x, y)); MC_CHECK(same(g, h), "hadamard", a << " and " << b << " give " << g); }
    { mat o(N, N); for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j) o(i, j) = a[size_t(i)] * b[size_t(j)]; const auto e = cml::outer(x, y); MC_CHECK(same(readm(e), o), "outer", a << " and " << b << " give " << readm(e)); cml::matrix<T, cml::dynamic<>> m(e); MC_CHECK(same(readm(m), o), "outer", a << " and " << b << " stored: " << readm(m)); }
    if constexpr(N == 2) SAME("perp_dot", cml::perp_dot(x, y), T(a[0] * b[1] - a[1] * b[0]));
    if constexpr(N == 3) {
      const vec c = cross(a, b), g = read(cml::cross(x, y));
      MC_CHECK(same(g, c), "cross", a << " and " << b << " give " << g << ", expected " << c);
      cml::vector<T, cml::fixed<3>> r; r = cml::cross(x, y); MC_CHECK(same(read(r), c), "cross", a << " and " << b << " assign " << read(r));
      cml::vector<T, cml::dynamic<>> q(cml::cross(x, y)); MC_CHECK(same(read(q), c), "cross", a << " and " << b << " construct " << read(q));
      MC_CHECK(cml::dot(r, x) == T(0) && cml::dot(y, r) == T(0), "orthogonal", "cross of " << a << " and " << b << " is not orthogonal to them");
    }
    mc::step(8);
  }); });
  mc::state(mix(a, b, N * 100 + K1 * 10 + K2));
}
template<class T, int N, int K1, int K2> void pairs()
{
#ifdef MC_THOROUGH
  const int letters = N <= 2 ? 6 : N == 3 ? 5 : 4;
#else
  const int letters = N <= 2 ? 6 : N == 3 ? 4 : 3;
#endif
  const vec a = contents(N, letters), b = contents(N, letters);
  pair<T, N, K1, K2>(a, b);
}
// Lengths and normalisation.
template<class T, int N, int K> void lengths()
{
  const vec a = contents(N, N <= 3 ? 6 : 4), b = {};
  const double sq = dot(a, a);
  with<K, N, T>(a, [&](auto&& x) {
    SAME("length_squared", x.length_squared(), T(sq));
    if constexpr(std::is_floating_point_v<T>) {
      const double tol = sizeof(T) == 4 ? 1e-6 : 1e-15;
      MC_CHECK(near(double(x.length()), std::sqrt(sq), tol), "length", a << " has length " << double(x.length()));
      MC_CHECK(x.length() * x.length() == x.length_squared() || near(double(x.length() * x.length()), sq, tol * 8), "length", a);
      if(sq > 0) {
        const vec n = read(cml::normalize(x));
        MC_CHECK(near(n, unit(a), tol * 4), "normalize", a << " normalises to " << n);
        MC_CHECK(near(len(n), 1, tol * 4), "normalize", a << " normalises to length " << len(n));
      }
    }
    mc::step(3);
  });
  mc::state(mix(a, {}, K * 10 + N));
}
// Different-size outer products.
template<class T, int N, int M, int K1, int K2> void outers()
{
  const vec a = contents(N, 4), b = contents(M, 4);
  mat o(N, M); for(int i = 0; i < N; ++i) for(int j = 0; j < M; ++j) o(i, j) = a[size_t(i)] * b[size_t(j)];
  with<K1, N, T>(a, [&](auto&& x) { with<K2, M, T>(b, [&](auto&& y) {
    auto e = cml::outer(x, y);
    MC_CHECK(e.rows() == N && e.cols() == M && same(readm(e), o), "outer", a << " and " << b << " give " << readm(e) << ", expected " << o);
    cml::matrix<T, cml::fixed<N, M>, cml::row_basis, cml::col_major> f; f = e; cml::matrix<T, cml::dynamic<>> d(e);
    MC_CHECK(same(readm(f), o) && same(readm(d), o), "outer", a << " and " << b << " stored " << readm(f) << " / " << readm(d) << ", expected " << o);
    const auto t = cml::transpose(cml::outer(x, y)); const auto s = cml::outer(y, x);
    MC_CHECK(same(readm(t), readm(s)), "outer-transpose", a << " and " << b);
    mc::step(4);
  }); });
  mc::state(mix(a, b, 5000 + N * 10 + M));
}
// Laws relating three vectors; u = a + k b is formed by the library itself.
template<class T, int N, int K> void laws()
{
#ifdef MC_THOROUGH
  const int letters = N == 2 ? 6 : 4;
#else
  const int letters = N == 2 ? 5 : 3;
#endif
  const vec a = contents(N, letters), b = contents(N, letters), c = contents(N, letters);
  const T k = T(mc::choose(2) ? -2 : 3);
  with<K, N, T>(a, [&](auto&& x) { with<Fixed, N, T>(b, [&](auto&& y) { with<Dynamic, N, T>(c, [&](auto&& z) {
    const T ab = T(dot(a, b)), ac = T(dot(a, c)), bc = T(dot(b, c));
    MC_CHECK(cml::dot(x, y + k * z) == ab + k * ac, "dot-linear", a << b << c);
    MC_CHECK(cml::dot(y + k * z, x) == ab + k * ac, "dot-linear", a << b << c);
    // (a b^T) c = a (b . c)
    cml::matrix<T, cml::fixed<N, N>> m; m = cml::outer(x, y);
    MC_CHECK(same(read(m * z), scale(a, double(bc))), "outer-apply", a << b << c << " gives " << read(m * z));
    MC_CHECK(same(read(z * m), scale(b, double(ac))), "outer-apply", a << b << c << " gives " << read(z * m));
    if constexpr(N == 2) { const T p = T(a[0] * b[1] - a[1] * b[0]), q = T(a[0] * c[1] - a[1] * c[0]); MC_CHECK(cml::perp_dot(x, y + k * z) == p + k * q && cml::perp_dot(y + k * z, x) == -p - k * q, "perp-linear", a << b << c); }
    if constexpr(N == 3) {
      const vec l = read(cml::cross(x, y + k * z)), r = add(cross(a, b), cross(a, c), double(k));
      MC_CHECK(same(l, r), "cross-linear", a << b << c << ": " << l << ", expected " << r);
      const T t = T(det([&] { mat d(3, 3); for(int i = 0; i < 3; ++i) { d(0, i) = a[size_t(i)]; d(1, i) = b[size_t(i)]; d(2, i) = c[size_t(i)]; } return d; }()));
      MC_CHECK(cml::triple_product(x, y, z) == t, "triple", a << b << c << ": " << double(cml::triple_product(x, y, z)) << ", expected " << double(t));
      MC_CHECK(cml::triple_product(y, z, x) == t && cml::triple_product(z, x, y) == t, "triple-cyclic", a << b << c);
      MC_CHECK(cml::triple_product(y, x, z) == -t && cml::triple_product(x, z, y) == -t && cml::triple_product(z, y, x) == -t, "triple-odd", a << b << c);
      MC_CHECK(cml::dot(cml::cross(x, y), z) == t && cml::dot(x, cml::cross(y, z)) == t, "triple-dot", a << b << c);
      // a x (b x c) = b (a.c) - c (a.b), with the inner product a temporary expression
      const vec lhs = read(cml::cross(x, cml::cross(y, z))), rhs = add(scale(b, double(ac)), c, -double(ab));
      MC_CHECK(same(lhs, rhs), "double-cross", a << b << c << ": " << lhs << ", expected " << rhs);
    }
    mc::step(10);
  }); }); });
  mc::state(mix(a, b, 8000 + K) ^ hash(c));
}
}
