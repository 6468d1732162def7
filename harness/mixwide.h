// Operands of different element types at every size of the lists: the result
// is computed in the common type, whatever the size.
#pragma once
#include "wide.h"

namespace mix {
using wide::tag; using wide::VB; using wide::MB; using wide::small;
// The wider type gets values the narrower one cannot hold; sums stay exact in it.
template<class T, class O> T val(int i, int salt)
{
  const long long k = (long long) small(i, salt);
  if constexpr(std::is_floating_point_v<T> && (!std::is_floating_point_v<O> || sizeof(O) < sizeof(T))) return T(k) + T(1) / T(sizeof(T) == 4 ? 16 : 1 << 30);
  else if constexpr(std::is_integral_v<T> && std::is_integral_v<O> && sizeof(T) > sizeof(O)) return T(k + 20) * T(1ll << 33);
  else if constexpr(std::is_unsigned_v<T>) return T(k + 9);
  else return T(k);
}
template<class A, class B> using Common = std::common_type_t<A, B>;
template<class R> std::string str(R v) { std::ostringstream o; o.precision(22); o << v; return o.str(); }
template<class R, class V> void expectv(const V& v, const std::vector<R>& w, const char* what)
{
  MC_CHECK((std::is_same_v<cml::value_type_trait_of_t<V>, R>), "mixed type", what << ": element type is not the common type");
  MC_CHECK(size_t(v.size()) == w.size(), "mixed", what << ": size " << v.size() << ", expected " << w.size());
  for(int i = 0; i < int(v.size()); ++i) MC_CHECK(R(v[i]) == w[size_t(i)], "mixed", what << ": element " << i << " of " << w.size() << " is " << str(R(v[i])) << ", expected " << str(w[size_t(i)]));
  mc::step();
}
template<class R, class M> void expectm(const M& m, int r, int c, const std::vector<R>& w, const char* what)
{
  MC_CHECK((std::is_same_v<cml::value_type_trait_of_t<M>, R>), "mixed type", what << ": element type is not the common type");
  MC_CHECK(int(m.rows()) == r && int(m.cols()) == c, "mixed", what << ": " << m.rows() << "x" << m.cols() << ", expected " << r << "x" << c);
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) MC_CHECK(R(m(i, j)) == w[size_t(i * c + j)], "mixed", what << ": (" << i << "," << j << ") of " << r << "x" << c << " is " << str(R(m(i, j))) << ", expected " << str(w[size_t(i * c + j)]));
  mc::step();
}
template<class T, class O, class V> std::vector<T> fill(V& v, int n, int salt) { std::vector<T> r; for(int i = 0; i < n; ++i) { r.push_back(val<T, O>(i, salt)); v.put(i, r.back()); } return r; }
template<class T, class O, class M> std::vector<T> fillm(M& m, int r, int c, int salt) { std::vector<T> w; for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) { w.push_back(val<T, O>(i * c + j, salt)); m.put(i, j, w.back()); } return w; }

template<class A, class B, bool Fixed> void vectors()
{
  using R = Common<A, B>;
  wide::vectors<Fixed>([](auto t, int n) {
    using S = typename decltype(t)::type;
    if(!n) return;
    VB<A, S> Ba(n); VB<B, S> Bb(n); auto &a = Ba.v; auto& b = Bb.v; cml::vector<B, cml::dynamic<>> d(n);
    const auto x = fill<A, B>(a, n, 0); const auto y = fill<B, A>(b, n, 5), z = fill<B, A>(d, n, 7);
    auto map = [&](auto f) { std::vector<R> r; for(int i = 0; i < n; ++i) r.push_back(R(f(R(x[size_t(i)]), R(y[size_t(i)])))); return r; };
    auto sum = [&](const auto& p, const auto& q) { R s(0); for(int i = 0; i < n; ++i) s += R(p[size_t(i)]) * R(q[size_t(i)]); return s; };
    auto num = [&](auto got, R want, const char* what) { MC_CHECK((std::is_same_v<decltype(got), R>), "mixed type", what << ": not the common type"); MC_CHECK(got == want, "mixed", what << " of size " << n << " is " << str(got) << ", expected " << str(want)); mc::step(); };
    switch(mc::choose(6)) {
    case 0: expectv<R>(a + b, map([](R p, R q) { return p + q; }), "a + b"); { auto e = a + b; cml::temporary_of_t<decltype(e)> m(e); expectv<R>(m, map([](R p, R q) { return p + q; }), "a + b stored"); } break;
    case 1: expectv<R>(b - a, map([](R p, R q) { return q - p; }), "b - a"); break;
    case 2: expectv<R>(cml::hadamard(a, b), map([](R p, R q) { return p * q; }), "hadamard(a, b)"); break;
    case 3: expectv<R>(a * b[0], map([&](R p, R) { return p * R(y[0]); }), "a * scalar"); expectv<R>(b[n - 1] * a, map([&](R p, R) { return p * R(y[size_t(n - 1)]); }), "scalar * a"); break;
    case 4: num(cml::dot(a, b), sum(x, y), "dot(a, b)"); num(cml::dot(b, a), sum(y, x), "dot(b, a)"); num(cml::dot(a, d), sum(x, z), "dot(a, dynamic)"); num(cml::dot(d, a), sum(z, x), "dot(dynamic, a)"); break;
    case 5: if(n <= 65) { std::vector<R> w; for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) w.push_back(R(x[size_t(i)]) * R(y[size_t(j)])); expectm<R>(cml::outer(a, b), n, n, w, "outer(a, b)"); } break;
    }
    expectv<A>(a, x, "a afterwards"); expectv<B>(b, y, "b afterwards"); mc::state(uint64_t(n) * 6);
  });
}
template<class A, class B, class BO, class L, bool Fixed> void matrices()
{
  using R = Common<A, B>;
  wide::matrices<Fixed>([](auto t, int r, int c) {
    using S = typename decltype(t)::type;
    if(!r || !c) return;
    MB<A, S, BO, L> Ba(r, c); MB<B, S, BO, L> Bb(r, c); auto &a = Ba.m; auto& b = Bb.m;
    const auto x = fillm<A, B>(a, r, c, 0); const auto y = fillm<B, A>(b, r, c, 5);
    auto map = [&](auto f) { std::vector<R> w; for(size_t i = 0; i < x.size(); ++i) w.push_back(R(f(R(x[i]), R(y[i])))); return w; };
    switch(mc::choose(4)) {
    case 0: expectm<R>(a + b, r, c, map([](R p, R q) { return p + q; }), "a + b"); { auto e = b + a; cml::temporary_of_t<decltype(e)> m(e); expectm<R>(m, r, c, map([](R p, R q) { return p + q; }), "b + a stored"); } break;
    case 1: expectm<R>(b - a, r, c, map([](R p, R q) { return q - p; }), "b - a"); break;
    case 2: expectm<R>(cml::hadamard(a, b), r, c, map([](R p, R q) { return p * q; }), "hadamard(a, b)"); break;
    case 3: expectm<R>(a * b(0, 0), r, c, map([&](R p, R) { return p * R(y[0]); }), "a * scalar"); break;
    }
    expectm<A>(a, r, c, x, "a afterwards"); expectm<B>(b, r, c, y, "b afterwards"); mc::state(uint64_t(r * 1000 + c) * 6);
  });
}
template<class A, class B, class BO, class L, class SA, class SB> void product(int n, int k, int m)
{
  using R = Common<A, B>;
  MB<A, SA, BO, L> Ba(n, k); MB<B, SB, BO, L> Bb(k, m); auto &a = Ba.m; auto& b = Bb.m;
  const auto x = fillm<A, B>(a, n, k, 0); const auto y = fillm<B, A>(b, k, m, 5);
  auto mul = [&](auto left, auto right, int rows, int cols) { std::vector<R> w; for(int i = 0; i < rows; ++i) for(int j = 0; j < cols; ++j) { R s(0); for(int q = 0; q < k; ++q) s += R(left(i, q)) * R(right(q, j)); w.push_back(s); } return w; };
  auto X = [&](int i, int q) { return x[size_t(i * k + q)]; }; auto Y = [&](int q, int j) { return y[size_t(q * m + j)]; };
  switch(mc::choose(5)) {
  case 0: expectm<R>(a * b, n, m, mul(X, Y, n, m), "a * b"); break;
  case 1: expectm<R>(transpose(b) * transpose(a), m, n, mul([&](int i, int q) { return Y(q, i); }, [&](int q, int j) { return X(j, q); }, m, n), "transpose(b) * transpose(a)"); break;
  case 2: { cml::vector<B, cml::dynamic<>> v(k); const auto z = fill<B, A>(v, k, 3); expectv<R>(a * v, mul(X, [&](int q, int) { return z[size_t(q)]; }, n, 1), "a * v"); break; }
  case 3: { cml::vector<A, cml::dynamic<>> v(k); const auto z = fill<A, B>(v, k, 3); expectv<R>(v * b, mul([&](int, int q) { return z[size_t(q)]; }, Y, 1, m), "v * b"); break; }
  case 4: expectv<R>(a * col(b, m - 1), mul(X, [&](int q, int) { return Y(q, m - 1); }, n, 1), "a * col(b)"); break;
  }
  expectm<A>(a, n, k, x, "a afterwards"); expectm<B>(b, k, m, y, "b afterwards"); mc::state(uint64_t(n * 10000 + k * 100 + m) * 6);
}
template<class A, class B, class BO, class L> void products()
{
  static const std::vector<int> q = {1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17}, t = {1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17, 24, 31, 32, 33};
  auto dim = [] { return wide::pick(mc::thorough() ? t : q); };
  if(mc::choose(2)) switch(mc::choose(4)) {
  case 0: return product<A, B, BO, L, cml::fixed<2, 3>, cml::external<3, 4>>(2, 3, 4);
  case 1: return product<A, B, BO, L, cml::fixed<4, 4>, cml::fixed<4, 4>>(4, 4, 4);
  case 2: return product<A, B, BO, L, cml::external<3, 9>, cml::fixed<9, 5>>(3, 9, 5);
  case 3: return product<A, B, BO, L, cml::fixed<1, 17>, cml::fixed<17, 2>>(1, 17, 2);
  }
  const int n = dim(), k = dim(), m = dim();
  if(mc::choose(2)) product<A, B, BO, L, cml::external<>, cml::dynamic<>>(n, k, m);
  else product<A, B, BO, L, cml::dynamic<>, cml::external<>>(n, k, m);
}
} // namespace mix
