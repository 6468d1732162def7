// Plain reference values: a flat list and a row-major grid of doubles.
#pragma once
#include "mc.h"
#include <cmath>
#include <limits>
#include <ostream>
#include <vector>

namespace ref {

using vec = std::vector<double>;

struct mat
{
  int r = 0, c = 0;
  vec d;
  mat() = default;
  mat(int r, int c, double v = 0) : r(r), c(c), d(size_t(r * c), v) {}
  double& operator()(int i, int j) { return d[size_t(i * c + j)]; }
  double operator()(int i, int j) const { return d[size_t(i * c + j)]; }
  static mat identity(int n) { mat m(n, n); for(int i = 0; i < n; ++i) m(i, i) = 1; return m; }
};

// Readers of any library expression.
template<class V> vec read(const V& v) { vec o; for(int i = 0; i < v.size(); ++i) o.push_back(double(v.get(i))); return o; }
template<class M> mat readm(const M& m)
{
  mat o(m.rows(), m.cols());
  for(int i = 0; i < o.r; ++i) for(int j = 0; j < o.c; ++j) o(i, j) = double(m.get(i, j));
  return o;
}

inline bool same(double a, double b) { return a == b || (a != a && b != b); }
inline bool same(const vec& a, const vec& b)
{
  if(a.size() != b.size()) return false;
  for(size_t i = 0; i < a.size(); ++i) if(!same(a[i], b[i])) return false;
  return true;
}
inline bool same(const mat& a, const mat& b) { return a.r == b.r && a.c == b.c && same(a.d, b.d); }

// |a-b| within tol, absolute for small and relative for large values.
inline bool near(double a, double b, double tol)
{
  if(a != a || b != b) return false;
  if(a == b) return true;
  const double s = std::fmax(1., std::fmax(std::fabs(a), std::fabs(b)));
  return std::fabs(a - b) <= tol * s;
}
inline bool near(const vec& a, const vec& b, double tol)
{
  if(a.size() != b.size()) return false;
  for(size_t i = 0; i < a.size(); ++i) if(!near(a[i], b[i], tol)) return false;
  return true;
}
inline bool near(const mat& a, const mat& b, double tol) { return a.r == b.r && a.c == b.c && near(a.d, b.d, tol); }

inline std::ostream& operator<<(std::ostream& os, const vec& v)
{
  os << "(";
  for(size_t i = 0; i < v.size(); ++i) os << (i ? "," : "") << v[i];
  return os << ")";
}
inline std::ostream& operator<<(std::ostream& os, const mat& m)
{
  os << m.r << "x" << m.c << "[";
  for(int i = 0; i < m.r; ++i) {
    for(int j = 0; j < m.c; ++j) os << (j ? " " : (i ? "; " : "")) << m(i, j);
  }
  return os << "]";
}

inline uint64_t hash(const vec& v) { mc::Hash h; h(int(v.size())); for(double d : v) h(d); return h; }
inline uint64_t hash(const mat& m) { mc::Hash h; h(m.r)(m.c); for(double d : m.d) h(d); return h; }

// Arithmetic.
inline vec add(const vec& a, const vec& b, double s = 1) { vec o(a); for(size_t i = 0; i < o.size(); ++i) o[i] += s * b[i]; return o; }
inline vec scale(const vec& a, double s) { vec o(a); for(double& d : o) d *= s; return o; }
inline double dot(const vec& a, const vec& b) { double s = 0; for(size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
inline double len(const vec& a) { return std::sqrt(dot(a, a)); }
inline vec unit(const vec& a) { return scale(a, 1 / len(a)); }
inline vec cross(const vec& a, const vec& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline mat mul(const mat& a, const mat& b)
{
  mat o(a.r, b.c);
  for(int i = 0; i < o.r; ++i) for(int j = 0; j < o.c; ++j) for(int k = 0; k < a.c; ++k) o(i, j) += a(i, k) * b(k, j);
  return o;
}
inline vec mul(const mat& a, const vec& x) { vec o(size_t(a.r), 0.); for(int i = 0; i < a.r; ++i) for(int k = 0; k < a.c; ++k) o[size_t(i)] += a(i, k) * x[size_t(k)]; return o; }
inline vec mul(const vec& x, const mat& a) { vec o(size_t(a.c), 0.); for(int i = 0; i < a.c; ++i) for(int k = 0; k < a.r; ++k) o[size_t(i)] += x[size_t(k)] * a(k, i); return o; }
inline mat transpose(const mat& a) { mat o(a.c, a.r); for(int i = 0; i < a.r; ++i) for(int j = 0; j < a.c; ++j) o(j, i) = a(i, j); return o; }
inline mat add(const mat& a, const mat& b, double s = 1) { mat o(a); for(size_t i = 0; i < o.d.size(); ++i) o.d[i] += s * b.d[i]; return o; }
inline mat scale(const mat& a, double s) { mat o(a); for(double& d : o.d) d *= s; return o; }
// Signed sum over permutations (Laplace).
inline double det(const mat& a)
{
  const int n = a.r;
  if(n == 0) return 1;
  if(n == 1) return a(0, 0);
  double s = 0;
  for(int k = 0; k < n; ++k) {
    if(a(0, k) == 0) continue;
    mat b(n - 1, n - 1);
    for(int i = 1; i < n; ++i) for(int j = 0, q = 0; j < n; ++j) if(j != k) b(i - 1, q++) = a(i, j);
    s += (k % 2 ? -1 : 1) * a(0, k) * det(b);
  }
  return s;
}
inline mat minor3(const mat& a, int r, int c) { mat o(r, c); for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) o(i, j) = a(i, j); return o; }
// Rotation by a about unit axis u (Rodrigues), acting on column vectors.
inline mat rodrigues(const vec& u, double a)
{
  const double c = std::cos(a), s = std::sin(a), x = u[0], y = u[1], z = u[2], t = 1 - c;
  mat m(3, 3);
  m.d = {t * x * x + c, t * x * y - s * z, t * x * z + s * y, t * x * y + s * z, t * y * y + c, t * y * z - s * x, t * x * z - s * y, t * y * z + s * x, t * z * z + c};
  return m;
}

} // namespace ref
