#pragma once
// Larger square systems: P L U with known factors, dominant dense matrices,
// and singular ones, with the row orders of a fixed list.
#include "linalg.h"
#include "wide.h"
namespace wlin {
using namespace wide;
struct Sys { mat a; double det = 1; bool plain = false; std::string name; };
inline int order()
{
  static const std::vector<int> q = {5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 32}, t = {4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 24, 25, 31, 32, 33, 40};
  return pick(mc::thorough() ? t : q);
}
inline int parity(const std::vector<int>& p) { int s = 1; for(size_t i = 0; i < p.size(); ++i) for(size_t j = 0; j < i; ++j) if(p[j] > p[i]) s = -s; return s; }
inline std::vector<int> rows(int n, int k)
{
  std::vector<int> p(static_cast<size_t>(n)); std::iota(p.begin(), p.end(), 0);
  switch(k) {
  case 1: std::reverse(p.begin(), p.end()); break;
  case 2: std::rotate(p.begin(), p.begin() + 1, p.end()); break;
  case 3: std::rotate(p.begin(), p.begin() + n / 2, p.end()); break;
  case 4: std::swap(p[0], p[size_t(n - 1)]); break;
  case 5: std::swap(p[size_t(n - 2)], p[size_t(n - 1)]); break;
  case 6: { std::vector<int> q; for(int i = 0; i < n; i += 2) q.push_back(i); for(int i = 1; i < n; i += 2) q.push_back(i); p = q; } break;
  case 7: for(int i = 0; i + 1 < n; i += 2) std::swap(p[size_t(i)], p[size_t(i + 1)]); break;
  case 8: std::rotate(p.begin(), p.begin() + n - 1, p.end()); break;
  case 9: std::swap(p[0], p[1]); std::swap(p[size_t(n / 2)], p[size_t(n - 1)]); break;
  }
  return p;
}
inline mat arrange(const mat& m, const std::vector<int>& p) { mat o(m.r, m.c); for(int i = 0; i < m.r; ++i) for(int j = 0; j < m.c; ++j) o(p[size_t(i)], j) = m(i, j); return o; }
inline Sys system(int n)
{
  Sys s; const int fam = mc::choose(5), k = mc::choose(10); const auto p = rows(n, k);
  mat m(n, n);
  if(fam < 3) { // unit lower (subdiagonal and first column) times upper
    mat L = mat::identity(n), U(n, n);
    for(int i = 1; i < n; ++i) { L(i, i - 1) = fam == 1 ? -.5 : .5; if(fam == 2 && i > 1) L(i, 0) = i % 2 ? .25 : -.5; }
    static const double d[] = {1, -2, .5, -1, 2, 1, -.5}; 
    for(int i = 0; i < n; ++i) { U(i, i) = d[(i + fam) % 7]; s.det *= U(i, i); if(i + 1 < n) U(i, i + 1) = fam ? .5 : -.25; if(fam == 2 && i + 3 < n) U(i, n - 1) = .125; }
    m = mul(L, U); s.name = "P L U"; s.plain = k == 0;
  }
  else if(fam == 3) { // dense, dominant
    for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) m(i, j) = i == j ? (i % 3 == 1 ? -1 : 1) : small(i * n + j, 7) / 2048;
    mat e(m); long double det = 1; std::vector<long double> w(e.d.begin(), e.d.end()); auto W = [&](int i, int j) -> long double& { return w[size_t(i * n + j)]; };
    for(int c = 0; c < n; ++c) { det *= W(c, c); for(int i = c + 1; i < n; ++i) { const long double f = W(i, c) / W(c, c); for(int j = c; j < n; ++j) W(i, j) -= f * W(c, j); } }
    s.det = double(det); s.name = "dominant"; s.plain = k == 0;
  }
  else { // singular: an empty row, an empty column, or a repeated row
    for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) m(i, j) = i == j ? 2 : small(i * n + j, 3) / 64;
    const int how = mc::choose(3), u = mc::choose(3) * (n - 1) / 2, v = (u + 1 + mc::choose(2) * (n / 2)) % n;
    for(int j = 0; j < n; ++j) if(how == 0) m(u, j) = 0; else if(how == 1) m(j, u) = 0; else m(u, j) = m(v, j);
    s.det = 0; s.name = "singular";
  }
  s.det *= parity(p); s.a = arrange(m, p);
  return s;
}
inline double top(const mat& a) { double s = 1; for(double v : a.d) s = std::fmax(s, std::fabs(v)); return s; }
}
