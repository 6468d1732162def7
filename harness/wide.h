// Larger sizes: every entry of a size list is visited, so that code which
// treats blocks, tails or thresholds of the size specially is reached.
#pragma once
#include "all.h"
#include "ref.h"
#include <memory>
#include <utility>

namespace wide {
using namespace ref;
// Distinct for i < 8191, exact in float, and no order of indices is monotone in it.
inline double val(int i, int salt = 0) { return double((i * 2039 + salt * 517) % 8191 - 4095); }
// Small values for sums of products that must stay exact.
inline double small(int i, int salt = 0) { return double(((i * 2039 + salt * 517) % 8191) % 19 - 9); }

inline int pick(const std::vector<int>& v) { return v[size_t(mc::choose(int(v.size())))]; }
inline std::vector<int> upto(int n, std::initializer_list<int> more) { std::vector<int> v; for(int i = 0; i <= n; ++i) v.push_back(i); v.insert(v.end(), more); return v; }
inline int size_quick() { static const std::vector<int> q = upto(34, {40, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257}); return pick(q); }
inline int size()
{
  static const std::vector<int> t = upto(130, {191, 192, 193, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025});
  return mc::thorough() ? pick(t) : size_quick();
}
inline int dim()
{
  static const std::vector<int> q = upto(9, {11, 12, 13, 15, 16, 17, 31, 33}), t = upto(20, {23, 24, 25, 31, 32, 33, 48, 63, 64, 65});
  return pick(mc::thorough() ? t : q);
}

template<class S> struct tag { using type = S; };
template<int... N> struct nums {};
template<class F, int... N> void one_of(nums<N...>, F f)
{
  const int c = mc::choose(int(sizeof...(N)));
  int i = 0;
  (void) std::initializer_list<int>{(i++ == c ? (f(std::integral_constant<int, N>()), 0) : 0)...};
}
using Ns = nums<5, 6, 7, 8, 9, 12, 16, 17, 33, 64>;

// Storage of every kind, views guarded on both sides.
template<class T, class S> struct VB;
template<class T> struct VB<T, cml::dynamic<>> { cml::vector<T, cml::dynamic<>> v; explicit VB(int n) { v.resize(n); } bool ok() const { return true; } };
template<class T, int N> struct VB<T, cml::fixed<N>> { cml::vector<T, cml::fixed<N>> v; explicit VB(int) {} bool ok() const { return true; } };
template<class T> struct VB<T, cml::external<>> { int n; std::unique_ptr<T[]> d; cml::vector<T, cml::external<>> v; explicit VB(int k) : n(k), d(new T[size_t(k) + 2]), v(d.get() + 1, k) { d[0] = d[size_t(k) + 1] = T(77); } bool ok() const { return d[0] == T(77) && d[size_t(n) + 1] == T(77); } };
template<class T, int N> struct VB<T, cml::external<N>> { T d[N + 2]; cml::vector<T, cml::external<N>> v{d + 1}; explicit VB(int) { d[0] = d[N + 1] = T(77); } bool ok() const { return d[0] == T(77) && d[N + 1] == T(77); } };
template<class T, class S, class B, class L> struct MB;
template<class T, class B, class L> struct MB<T, cml::dynamic<>, B, L> { cml::matrix<T, cml::dynamic<>, B, L> m; MB(int r, int c) { m.resize(r, c); } bool ok() const { return true; } };
template<class T, int R, int C, class B, class L> struct MB<T, cml::fixed<R, C>, B, L> { cml::matrix<T, cml::fixed<R, C>, B, L> m; MB(int, int) {} bool ok() const { return true; } };
template<class T, class B, class L> struct MB<T, cml::external<>, B, L> { int n; std::unique_ptr<T[]> d; cml::matrix<T, cml::external<>, B, L> m; MB(int r, int c) : n(r * c), d(new T[size_t(r * c) + 2]), m(d.get() + 1, r, c) { d[0] = d[size_t(n) + 1] = T(77); } bool ok() const { return d[0] == T(77) && d[size_t(n) + 1] == T(77); } };
template<class T, int R, int C, class B, class L> struct MB<T, cml::external<R, C>, B, L> { T d[R * C + 2]; cml::matrix<T, cml::external<R, C>, B, L> m{d + 1}; MB(int, int) { d[0] = d[R * C + 1] = T(77); } bool ok() const { return d[0] == T(77) && d[R * C + 1] == T(77); } };

// f(tag<storage>, n) for every storage kind and size.
template<bool Fixed = true, class F> void vectors(F f)
{
  const int k = mc::choose(Fixed ? 4 : 2);
  if(k == 0) return f(tag<cml::dynamic<>>(), size());
  if(k == 1) return f(tag<cml::external<>>(), size());
  if constexpr(Fixed) switch(k) {
  case 2: return one_of(Ns(), [&](auto n) { f(tag<cml::fixed<decltype(n)::value>>(), decltype(n)::value); });
  case 3: return one_of(Ns(), [&](auto n) { f(tag<cml::external<decltype(n)::value>>(), decltype(n)::value); });
  }
}
template<int R, int C> struct rc {};
template<class F, int... R, int... C> void shape_of(F f, rc<R, C>...)
{
  const int c = mc::choose(int(sizeof...(R)));
  int i = 0;
  (void) std::initializer_list<int>{(i++ == c ? (f(std::integral_constant<int, R>(), std::integral_constant<int, C>()), 0) : 0)...};
}
template<class F> void shapes(F f) { shape_of(f, rc<5, 5>(), rc<6, 6>(), rc<8, 8>(), rc<9, 9>(), rc<1, 8>(), rc<5, 7>(), rc<7, 5>(), rc<16, 3>(), rc<2, 33>(), rc<17, 17>()); }
// f(tag<storage>, r, c)
template<bool Fixed = true, class F> void matrices(F f)
{
  const int k = mc::choose(Fixed ? 4 : 2);
  if(k == 0) { const int r = dim(); return f(tag<cml::dynamic<>>(), r, dim()); }
  if(k == 1) { const int r = dim(); return f(tag<cml::external<>>(), r, dim()); }
  if constexpr(Fixed) switch(k) {
  case 2: return shapes([&](auto r, auto c) { f(tag<cml::fixed<decltype(r)::value, decltype(c)::value>>(), decltype(r)::value, decltype(c)::value); });
  case 3: return shapes([&](auto r, auto c) { f(tag<cml::external<decltype(r)::value, decltype(c)::value>>(), decltype(r)::value, decltype(c)::value); });
  }
}
template<class V, class G> vec fillv(V& v, int n, G g) { vec r; for(int i = 0; i < n; ++i) { const double x = g(i); v.put(i, typename std::decay_t<V>::value_type(x)); r.push_back(x); } return r; }
template<class M, class G> mat fillm(M& m, int r, int c, G g) { mat o(r, c); for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) { o(i, j) = g(i * c + j); m.put(i, j, typename std::decay_t<M>::value_type(o(i, j))); } return o; }
inline std::string at(const vec& got, const vec& want)
{
  std::ostringstream o;
  if(got.size() != want.size()) { o << "size " << got.size() << " instead of " << want.size(); return o.str(); }
  for(size_t i = 0; i < got.size(); ++i) if(!same(got[i], want[i])) { o << "element " << i << " of " << got.size() << " is " << got[i] << ", expected " << want[i]; return o.str(); }
  return "equal";
}
inline std::string at(const mat& got, const mat& want)
{
  std::ostringstream o;
  if(got.r != want.r || got.c != want.c) { o << got.r << "x" << got.c << " instead of " << want.r << "x" << want.c; return o.str(); }
  for(int i = 0; i < got.r; ++i) for(int j = 0; j < got.c; ++j) if(!same(got(i, j), want(i, j))) { o << "(" << i << "," << j << ") of " << got.r << "x" << got.c << " is " << got(i, j) << ", expected " << want(i, j); return o.str(); }
  return "equal";
}
template<class V> void expectv(const V& v, const vec& want, const char* what) { const vec g = read(v); MC_CHECK(same(g, want), "large", what << ": " << at(g, want)); mc::step(); }
template<class M> void expectm(const M& m, const mat& want, const char* what) { const mat g = readm(m); MC_CHECK(same(g, want), "large", what << ": " << at(g, want)); mc::step(); }
} // namespace wide
