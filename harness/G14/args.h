#pragma once
// G14: an argument of any arithmetic type means its value.  Every function is
// called with its arguments given as each arithmetic type, and must produce
// what it produces when the same values are given as double.
#include "mc.h"
#include <cml/cml.h>
#include <cml/mathlib/mathlib.h>
#include <cml/vector/hadamard_product.h>
#include <cmath>
#include <cstdint>
#include <string>
#include <type_traits>
#include <vector>

namespace g14 {
using namespace cml;
using Out = std::vector<long double>;
using Args = std::vector<int>;
using List = std::vector<Args>;

template<class T> const char* tn();
template<> inline const char* tn<signed char>() { return "schar"; }
template<> inline const char* tn<unsigned char>() { return "uchar"; }
template<> inline const char* tn<short>() { return "short"; }
template<> inline const char* tn<unsigned short>() { return "ushort"; }
template<> inline const char* tn<int>() { return "int"; }
template<> inline const char* tn<unsigned>() { return "unsigned"; }
template<> inline const char* tn<long>() { return "long"; }
template<> inline const char* tn<unsigned long>() { return "ulong"; }
template<> inline const char* tn<long long>() { return "llong"; }
template<> inline const char* tn<float>() { return "float"; }
template<> inline const char* tn<double>() { return "double"; }
template<> inline const char* tn<long double>() { return "ldouble"; }

/** All tuples of @c k values of @c set that @c ok accepts. */
template<class P> List grid(int k, const Args& set, P ok)
{
  List l{{}};
  for(int i = 0; i < k; ++i) {
    List n;
    for(auto& a : l) for(int v : set) { Args b(a); b.push_back(v); n.push_back(b); }
    l.swap(n);
  }
  List r;
  for(auto& a : l) if(ok(a)) r.push_back(a);
  return r;
}
inline List grid(int k, const Args& set) { return grid(k, set, [](const Args&) { return true; }); }
inline List nonneg(const List& l)
{
  List r;
  for(auto& a : l) { bool ok = true; for(int v : a) ok = ok && v >= 0; if(ok) r.push_back(a); }
  return r;
}

template<class M> void put_m(Out& o, const M& m)
{ for(int i = 0; i < m.rows(); ++i) for(int j = 0; j < m.cols(); ++j) o.push_back(m(i, j)); }
template<class V> void put_v(Out& o, const V& v)
{ for(int i = 0; i < v.size(); ++i) o.push_back(v[i]); }
template<class Q> void put_q(Out& o, const Q& q)
{ o.push_back(q.w()); o.push_back(q.x()); o.push_back(q.y()); o.push_back(q.z()); }

/** Compare @c f for the values of @c a given as @c T... with all double. */
template<class D, class... T, class F>
void one(const std::string& name, const List& all, F f)
{
  constexpr bool uns = (false || ... || std::is_unsigned<T>::value);
  constexpr bool flt = std::is_same<D, float>::value || (false || ... || std::is_same<T, float>::value);
  const List l = uns ? nonneg(all) : all;
  std::string types = std::string(tn<D>()) + " <-";
  ((types += std::string(" ") + tn<T>()), ...);
  mc::add(name + ", " + types, [name, types, l, f] {
    const int n = int(l.size()), block = 64;
    const int b = mc::choose((n + block - 1) / block);
    for(int c = b * block; c < n && c < (b + 1) * block; ++c) {
      const Args& a = l[c];
      mc::step();
      const Out got = f(a, D(), T()...), want = f(a, D(), (T(), double())...);
      long double scale = 1;
      for(auto w : want) if(std::isfinite(w)) scale = std::max(scale, std::fabs(w));
      mc::Hash h; h.raw(c);
      for(auto w : want) h(double(w));
      mc::state(h);
      MC_CHECK(got.size() == want.size(), name, types << ": " << got.size() << " results, expected " << want.size());
      const long double tol = (flt ? 2e-5L : 1e-13L) * scale;
      for(std::size_t i = 0; i < got.size(); ++i) {
        const bool same = (std::isnan(got[i]) && std::isnan(want[i])) || got[i] == want[i]
          || std::fabs(got[i] - want[i]) <= tol;
        std::string s;
        for(int v : a) s += " " + std::to_string(v);
        MC_CHECK(same, name, types << ": arguments" << s << ": result " << i << " is " << got[i]
          << ", with the same values given as double it is " << want[i]);
      }
    }
  });
}

/** One type for all arguments. */
template<class D, class F> void each1(const std::string& name, const List& l, F f)
{
  one<D, signed char>(name, l, f); one<D, unsigned char>(name, l, f);
  one<D, short>(name, l, f); one<D, unsigned short>(name, l, f);
  one<D, int>(name, l, f); one<D, unsigned>(name, l, f);
  one<D, long>(name, l, f); one<D, unsigned long>(name, l, f); one<D, long long>(name, l, f);
  one<D, float>(name, l, f); one<D, long double>(name, l, f);
  if(!std::is_same<D, double>::value) one<D, double>(name, l, f);
}
template<class F> void each(const std::string& name, const List& l, F f)
{ each1<float>(name, l, f); each1<double>(name, l, f); each1<long double>(name, l, f); }
/** Signed types only: for objects, whose negation is that of their type. */
template<class D, class F> void signed1(const std::string& name, const List& l, F f)
{
  one<D, signed char>(name, l, f); one<D, short>(name, l, f);
  one<D, int>(name, l, f); one<D, long>(name, l, f); one<D, long long>(name, l, f);
  one<D, float>(name, l, f); one<D, long double>(name, l, f);
}
template<class F> void each_signed(const std::string& name, const List& l, F f)
{ signed1<float>(name, l, f); signed1<double>(name, l, f); }

/** Two argument types. */
template<class D, class A, class F> void pairs2(const std::string& name, const List& l, F f)
{ one<D, A, short>(name, l, f); one<D, A, int>(name, l, f); one<D, A, float>(name, l, f); one<D, A, double>(name, l, f); }
template<class D, class F> void pairs1(const std::string& name, const List& l, F f)
{ pairs2<D, short>(name, l, f); pairs2<D, int>(name, l, f); pairs2<D, float>(name, l, f); pairs2<D, double>(name, l, f); }
template<class F> void pairs(const std::string& name, const List& l, F f)
{ pairs1<float>(name, l, f); pairs1<double>(name, l, f); }

/** Three argument types. */
template<class D, class A, class B, class F> void triples3(const std::string& name, const List& l, F f)
{ one<D, A, B, int>(name, l, f); one<D, A, B, float>(name, l, f); one<D, A, B, double>(name, l, f); }
template<class D, class A, class F> void triples2(const std::string& name, const List& l, F f)
{ triples3<D, A, int>(name, l, f); triples3<D, A, float>(name, l, f); triples3<D, A, double>(name, l, f); }
template<class D, class F> void triples1(const std::string& name, const List& l, F f)
{ triples2<D, int>(name, l, f); triples2<D, float>(name, l, f); triples2<D, double>(name, l, f); }
template<class F> void triples(const std::string& name, const List& l, F f)
{ triples1<float>(name, l, f); triples1<double>(name, l, f); }

/** An angle, up to a full turn (-pi and pi are the same angle). */
template<class T> void put_angle(Out& o, T a) { o.push_back(std::cos((long double)(a))); o.push_back(std::sin((long double)(a))); }

template<class T> vector<T, fixed<2>> v2(const Args& a, int i) { return vector<T, fixed<2>>(T(a[i]), T(a[i + 1])); }
template<class T> vector<T, fixed<3>> v3(const Args& a, int i) { return vector<T, fixed<3>>(T(a[i]), T(a[i + 1]), T(a[i + 2])); }
template<class T> vector<T, fixed<4>> v4(const Args& a, int i) { return vector<T, fixed<4>>(T(a[i]), T(a[i + 1]), T(a[i + 2]), T(a[i + 3])); }

template<class T> quaternion<T> q4(const Args& a, int i) { return quaternion<T>(T(a[i]), T(a[i + 1]), T(a[i + 2]), T(a[i + 3])); }

inline const Args& angles() { static const Args s{-7, -3, -2, -1, 0, 1, 2, 3, 6}; return s; }
inline const Args& coords() { static const Args s{-2, -1, 0, 1, 3}; return s; }
}
