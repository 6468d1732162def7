// Families of square integer matrices, chosen exhaustively, with exact answers.
#pragma once
#include "all.h"
#include "ref.h"
#include <cml/matrix/lu.h>
#include <numeric>

namespace lin {
using namespace cml;
using ref::mat;
using ll = long long;

inline mat read_perm(int n, const std::vector<int>& p, const mat& a)
{
  mat o(n, n);
  for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) o(i, j) = a(p[size_t(i)], j);
  return o;
}

// A permutation of n elements, all n! of them.
inline std::vector<int> choose_perm(int n)
{
  std::vector<int> left(static_cast<size_t>(n)), out;
  std::iota(left.begin(), left.end(), 0);
  while(!left.empty()) {
    const int k = mc::choose(int(left.size()));
    out.push_back(left[size_t(k)]);
    left.erase(left.begin() + k);
  }
  return out;
}

// Every n x n matrix with entries lo..hi.
inline mat all(int n, int lo, int hi)
{
  mat m(n, n);
  for(double& v : m.d) v = lo + mc::choose(hi - lo + 1);
  return m;
}

// Every permutation matrix scaled by every ordering of 1..n, three sign rules.
inline mat scaled_perm(int n)
{
  const std::vector<int> p = choose_perm(n), s = choose_perm(n);
  const int sg = mc::choose(3);
  mat m(n, n);
  for(int i = 0; i < n; ++i)
    m(i, p[size_t(i)]) = (1 + s[size_t(i)]) * (sg == 0 ? 1 : sg == 1 ? -1 : (i % 2 ? -1 : 1));
  return m;
}
// Every signed permutation matrix.
inline mat signed_perm(int n)
{
  const std::vector<int> p = choose_perm(n);
  mat m(n, n);
  for(int i = 0; i < n; ++i) m(i, p[size_t(i)]) = mc::choose(2) ? -1 : 1;
  return m;
}
// Every circulant over {-1,0,1} with its rows moved by every rotation/reversal.
inline mat circulant(int n)
{
  ref::vec g;
  for(int i = 0; i < n; ++i) g.push_back(mc::choose(3) - 1);
  const int rot = mc::choose(n), rev = mc::choose(2);
  mat m(n, n);
  for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j)
    m((rev ? n - 1 - (i + rot) % n : (i + rot) % n), j) = g[size_t((j - i + n) % n)];
  return m;
}
// P L U with every P, and L, U from small pattern sets.
inline mat plu(int n)
{
  const std::vector<int> p = choose_perm(n);
  const int lp = mc::choose(4), up = mc::choose(4);
  const int zero = mc::choose(n + 1); // which diagonal element of U is 0 (n: none)
  mat L = mat::identity(n), U(n, n), o(n, n);
  for(int i = 0; i < n; ++i) for(int j = 0; j < i; ++j)
    L(i, j) = lp == 0 ? 1 : lp == 1 ? -1 : lp == 2 ? ((i + j) % 3 - 1) : (j == 0 ? 2 : 0);
  for(int i = 0; i < n; ++i) for(int j = i; j < n; ++j)
    U(i, j) = i == j ? (i == zero ? 0 : up == 0 ? 1 : up == 1 ? -1 : up == 2 ? (i % 2 ? 2 : -1) : i + 1)
            : up == 0 ? 1 : up == 1 ? (i + j) % 2 : up == 2 ? ((i * j) % 3 - 1) : (j == n - 1);
  for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) {
    double s = 0;
    for(int k = 0; k < n; ++k) s += L(i, k) * U(k, j);
    o(p[size_t(i)], j) = s;
  }
  return o;
}
// Every 3x3 over {-1,0,1} embedded in the identity at a chosen place.
inline mat embedded(int n)
{
  const mat a = all(3, -1, 1);
  const int at = mc::choose(n - 2), off = mc::choose(2);
  mat m = mat::identity(n);
  for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) m(at + i, at + j) = a(i, j);
  if(off) for(int i = 0; i < n; ++i) if(i < at || i >= at + 3) m(i, at + 1) = 2;
  return m;
}

// Elimination must not divide by the tiny element at (k,k): every 2x2 or 3x3
// trailing block over {-1,0,1} around it, rows before it from the identity.
// (The exact answers below take the tiny element as zero.)
inline mat tiny_pivot(int n)
{
  const int k = mc::choose(n - 1), rest = n - k;
  mat m = mat::identity(n);
  if(rest <= 3) for(int i = k; i < n; ++i) for(int j = k; j < n; ++j) { if(i != k || j != k) m(i, j) = mc::choose(3) - 1; }
  else {
    ref::vec g, h;
    for(int i = 1; i < rest; ++i) g.push_back(mc::choose(3) - 1);
    for(int i = 1; i < rest; ++i) for(int j = 1; j < rest; ++j) m(k + i, k + j) = g[size_t((i + j) % (rest - 1))];
    const int q = mc::choose(2);
    for(int i = 1; i < rest; ++i) m(k + i, k) = q ? 1 : i % 2, m(k, k + i) = q ? (i == 2 ? -1 : 1) : 1;
  }
  m(k, k) = std::ldexp(1., -45);
  return m;
}

// Small enough for every configuration; `deep` adds the larger families.
inline mat any(int n, bool deep)
{
  if(n == 1) return all(1, -4, 4);
  if(n == 2) return deep ? all(2, -3, 3) : all(2, -2, 2);
  if(n == 3) {
    if(mc::thorough() && deep) return all(3, -2, 2);
    return all(3, -1, 1);
  }
  const int f = mc::choose(deep ? 7 : 4);
  if(f == 0) return circulant(n);
  if(f == 1) return plu(n);
  if(f == 2) return tiny_pivot(n);
  if(f == 3) return n == 6 ? signed_perm(n) : scaled_perm(n);
  if(f == 4) return n == 6 ? circulant(n) : signed_perm(n);
  if(f == 5) return n == 4 ? all(4, 0, 1) : circulant(n);
  return mc::thorough() && n > 4 ? embedded(n) : tiny_pivot(n);
}

// Exact integer determinant (fraction-free elimination).
inline double xdet(const mat& a)
{
  const int n = a.r;
  if(n == 0) return 1;
  std::vector<__int128> m;
  for(double v : a.d) m.push_back(__int128(ll(v)));
  auto at = [&](int i, int j) -> __int128& { return m[size_t(i * n + j)]; };
  __int128 prev = 1;
  int sign = 1;
  for(int k = 0; k + 1 < n; ++k) {
    if(at(k, k) == 0) {
      int r = k + 1;
      while(r < n && at(r, k) == 0) ++r;
      if(r == n) return 0;
      for(int j = 0; j < n; ++j) std::swap(at(k, j), at(r, j));
      sign = -sign;
    }
    for(int i = k + 1; i < n; ++i) for(int j = k + 1; j < n; ++j)
      at(i, j) = (at(i, j) * at(k, k) - at(i, k) * at(k, j)) / prev;
    prev = at(k, k);
  }
  return double(sign) * double(ll(at(n - 1, n - 1)));
}
inline mat minor_of(const mat& a, int r, int c)
{
  mat o(a.r - 1, a.r - 1);
  for(int i = 0, y = 0; i < a.r; ++i) {
    if(i == r) continue;
    for(int j = 0, x = 0; j < a.r; ++j) if(j != c) o(y, x++) = a(i, j);
    ++y;
  }
  return o;
}
// Exact inverse by cofactors (a nonsingular).
inline mat xinv(const mat& a, double d)
{
  mat o(a.r, a.r);
  for(int i = 0; i < a.r; ++i) for(int j = 0; j < a.r; ++j) o(j, i) = ((i + j) % 2 ? -1 : 1) * xdet(minor_of(a, i, j)) / d;
  return o;
}
inline mat xmul(const mat& a, const mat& b)
{
  mat o(a.r, b.c);
  for(int i = 0; i < a.r; ++i) for(int j = 0; j < b.c; ++j) for(int k = 0; k < a.c; ++k) o(i, j) += a(i, k) * b(k, j);
  return o;
}
inline mat transposed(const mat& a)
{
  mat o(a.c, a.r);
  for(int i = 0; i < a.r; ++i) for(int j = 0; j < a.c; ++j) o(j, i) = a(i, j);
  return o;
}

template<class M> void put(M& m, const mat& a)
{
  using E = value_type_trait_of_t<M>;
  for(int i = 0; i < a.r; ++i) for(int j = 0; j < a.c; ++j) m(i, j) = std::is_integral<E>::value ? E(std::lround(a(i, j))) : E(a(i, j));
}

// A matrix object of type M and size n x n with its own storage.
template<class M> struct Obj;
template<class E, int R, int C, class B, class L> struct Obj<matrix<E, fixed<R, C>, B, L>>
{ matrix<E, fixed<R, C>, B, L> m; explicit Obj(int) {} };
template<class E, class A, class B, class L> struct Obj<matrix<E, dynamic<A>, B, L>>
{ matrix<E, dynamic<A>, B, L> m; explicit Obj(int n) : m(n, n) {} };
template<class E, int R, int C, class B, class L> struct Obj<matrix<E, external<R, C>, B, L>>
{ E buf[R * C]; matrix<E, external<R, C>, B, L> m; explicit Obj(int) : m(buf) {} };
template<class E, class B, class L> struct Obj<matrix<E, external<>, B, L>>
{ std::vector<E> buf; matrix<E, external<>, B, L> m; explicit Obj(int n) : buf(size_t(n * n)), m(buf.data(), n, n) {} };

template<class E> constexpr double tol() { return sizeof(E) == 4 ? 2e-3 : 1e-9; }

} // namespace lin
