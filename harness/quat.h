// Reference quaternions (w,x,y,z), Hamilton's table written out.
#pragma once
#include "all.h"
#include "ref.h"

namespace rq {
struct Q
{
  double w = 0, x = 0, y = 0, z = 0;
  double operator[](int i) const { return i == 0 ? w : i == 1 ? x : i == 2 ? y : z; }
  double& operator[](int i) { return i == 0 ? w : i == 1 ? x : i == 2 ? y : z; }
};
inline std::ostream& operator<<(std::ostream& os, const Q& q) { return os << "(" << q.w << " + " << q.x << "i + " << q.y << "j + " << q.z << "k)"; }
inline Q operator+(const Q& a, const Q& b) { return {a.w + b.w, a.x + b.x, a.y + b.y, a.z + b.z}; }
inline Q operator-(const Q& a, const Q& b) { return {a.w - b.w, a.x - b.x, a.y - b.y, a.z - b.z}; }
inline Q operator*(double s, const Q& a) { return {s * a.w, s * a.x, s * a.y, s * a.z}; }
// ij = k, jk = i, ki = j, ii = jj = kk = -1.
inline Q hamilton(const Q& a, const Q& b)
{
  return {a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z,
          a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y,
          a.w * b.y + a.y * b.w + a.z * b.x - a.x * b.z,
          a.w * b.z + a.z * b.w + a.x * b.y - a.y * b.x};
}
inline Q conj(const Q& a) { return {a.w, -a.x, -a.y, -a.z}; }
inline double norm(const Q& a) { return a.w * a.w + a.x * a.x + a.y * a.y + a.z * a.z; }
inline double dot(const Q& a, const Q& b) { return a.w * b.w + a.x * b.x + a.y * b.y + a.z * b.z; }
inline Q inv(const Q& a) { return (1 / norm(a)) * conj(a); }
inline bool near(const Q& a, const Q& b, double t)
{
  for(int i = 0; i < 4; ++i) if(!ref::near(a[i], b[i], t)) return false;
  return true;
}
inline bool same(const Q& a, const Q& b) { for(int i = 0; i < 4; ++i) if(!ref::same(a[i], b[i])) return false; return true; }
template<class X> Q read(const X& q) { return {double(q.w()), double(q.x()), double(q.y()), double(q.z())}; }

template<class T> constexpr bool positive() { return std::is_same_v<cml::cross_type_trait_of_t<T>, cml::positive_cross>; }
template<class T> Q product(const Q& a, const Q& b) { return positive<T>() ? hamilton(a, b) : hamilton(b, a); }
template<class T> T make(const Q& q)
{
  using E = cml::value_type_trait_of_t<T>;
  using O = cml::order_type_trait_of_t<T>;
  T t;
  t.put(O::W, E(q.w)), t.put(O::X, E(q.x)), t.put(O::Y, E(q.y)), t.put(O::Z, E(q.z));
  return t;
}
template<class T> constexpr double tol() { return sizeof(cml::value_type_trait_of_t<T>) == 4 ? 2e-5 : 1e-12; }
} // namespace rq
