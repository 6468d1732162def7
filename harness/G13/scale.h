// Homogeneity: a run of the library at scale 1 against runs with each length
// argument scaled by a power of two.  Nothing rounds in the scaling, so every
// value of degree (a,b,c) in the three arguments has to scale by exactly that.
#pragma once
#include "all.h"
#include "ref.h"
#include <cml/mathlib/mathlib.h>
#include <cml/matrix/lu.h>
#include <array>
namespace g13 {
using namespace cml;
using ref::operator<<;

struct Out
{
  struct V { double x; int d[3]; };
  std::vector<V> v;
  std::string thrown;
  void num(double x, int a = 0, int b = 0, int c = 0) { v.push_back({x, {a, b, c}}); }
  template<class T> void vec(const T& t, int a = 0, int b = 0, int c = 0) { for(int i = 0; i < t.size(); ++i) num(double(t.get(i)), a, b, c); }
  template<class T> void mat(const T& t, int a = 0, int b = 0, int c = 0) { for(int i = 0; i < t.rows(); ++i) for(int j = 0; j < t.cols(); ++j) num(double(t.get(i, j)), a, b, c); }
  template<class T> void quat(const T& t, int a = 0, int b = 0, int c = 0) { for(int i = 0; i < 4; ++i) num(double(t.get(i)), a, b, c); }
  // A rigid map over lengths: the linear part has no unit, the translation one.
  template<class T> void affine(const T& t, int n, int a = 0, int b = 0, int c = 0)
  {
    for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) num(double(t.get(i, j)));
    for(int i = 0; i < n; ++i) num(double(t.basis_element(n, i)), a, b, c);
  }
};

template<class E> constexpr double tol() { return sizeof(E) == 4 ? 2e-5 : 1e-12; }

template<class F> Out run(F f, double a, double b, double c)
{
  Out o;
  try { f(o, a, b, c); }
  catch(const std::exception& e) { o.thrown = typeid(e).name(); }
  return o;
}

// The scales of up to three arguments: every combination of 1 and the extremes.
template<class E> std::array<int, 3> scales(int n, int big)
{
  std::array<int, 3> e{};
  const int k[] = {0, big, -big, 9, -9};
  for(int i = 0; i < n; ++i) e[size_t(i)] = k[mc::choose(i == 0 || mc::thorough() ? 5 : 3)];
  return e;
}

template<class E, class F> void homogeneous(const std::string& what, int n, int big, F f)
{
  const auto e = scales<E>(n, big);
  const double s[3] = {std::ldexp(1., e[0]), std::ldexp(1., e[1]), std::ldexp(1., e[2])};
  const Out one = run(f, 1, 1, 1), o = run(f, s[0], s[1], s[2]);
  MC_CHECK(o.thrown == one.thrown, what + ": thrown", "scales 2^" << e[0] << " 2^" << e[1] << " 2^" << e[2] << ": \"" << o.thrown << "\" instead of \"" << one.thrown << "\"");
  MC_CHECK(o.v.size() == one.v.size(), what + ": results", o.v.size());
  mc::Hash h;
  h(e[0])(e[1])(e[2]);
  for(size_t i = 0; i < o.v.size(); ++i) {
    const auto& w = one.v[i];
    const double u = std::ldexp(1., w.d[0] * e[0] + w.d[1] * e[1] + w.d[2] * e[2]);
    const double got = o.v[i].x / u;
    MC_CHECK(ref::same(got, w.x) || ref::near(got, w.x, tol<E>()), what, "scales 2^" << e[0] << " 2^" << e[1] << " 2^" << e[2] << ": value " << i << " is " << o.v[i].x << ", in its unit " << got << " instead of " << w.x);
    h(w.x);
    mc::step();
  }
  mc::state(h);
}

inline ref::vec pick(int n, int m = 3)
{
  static const double A[] = {-2, 0, 1, 3};
  ref::vec v;
  for(int i = 0; i < n; ++i) v.push_back(A[mc::choose(m)]);
  return v;
}
template<class V> V make(const ref::vec& v, double s)
{
  using E = value_type_trait_of_t<V>;
  std::array<E, 8> b{};
  for(size_t i = 0; i < v.size(); ++i) b[i] = E(v[i] * s);
  if constexpr(std::is_constructible_v<V, int, const E*>) return V(int(v.size()), b.data());
  else { V o; for(int i = 0; i < int(v.size()); ++i) o[i] = b[size_t(i)]; return o; }
}
template<class M> M makem(const ref::mat& m, double s)
{
  M o;
  cml::detail::check_or_resize(o, m.r, m.c);
  for(int i = 0; i < m.r; ++i) for(int j = 0; j < m.c; ++j) o(i, j) = value_type_trait_of_t<M>(m(i, j) * s);
  return o;
}
}
