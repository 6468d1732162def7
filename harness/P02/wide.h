#pragma once
// Matrix products over every triple of the larger dimensions.
#include "../wide.h"
namespace p02w {
using namespace wide;
inline int pdim()
{
  static const std::vector<int> q = {1, 2, 4, 5, 6, 7, 8, 9, 16, 17}, t = {1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17, 24, 31, 32, 33};
  return pick(mc::thorough() ? t : q);
}
template<class T, class B, class L, class SA, class SB, class SC> void product(int n, int k, int m)
{
  MB<T, SA, B, L> A(n, k); MB<T, SB, B, L> C(k, m); auto &a = A.m; auto& b = C.m;
  const mat x = fillm(a, n, k, [](int i) { return small(i); }), y = fillm(b, k, m, [](int i) { return small(i, 5); }), w = mul(x, y);
  switch(mc::choose(10)) {
  case 0: { auto r = a * b; expectm(r, w, "product"); } break;
  case 1: { MB<T, SC, B, L> R(n, m); R.m = a * b; expectm(R.m, w, "assigned product"); MC_CHECK(R.ok(), "guard", "product"); } break;
  case 2: { auto r = (a + a) * (-b); expectm(r, scale(w, -2), "(a + a)(-b)"); } break;
  case 3: { auto r = cml::transpose(b) * cml::transpose(a); expectm(r, transpose(w), "transposed product"); } break;
  case 4: { cml::matrix<T, cml::dynamic<>, B, L> d(b); auto r = a * d; expectm(r, w, "a * dynamic"); } break;
  case 5: { cml::matrix<T, cml::dynamic<>, B, L> d(a); auto r = d * b; expectm(r, w, "dynamic * b"); if(k == m) { d = d * b; expectm(d, w, "d = d * b"); } } break;
  case 6: { cml::vector<T, cml::dynamic<>> v(k), u; const vec z = fillv(v, k, [](int i) { return small(i, 9); }); expectv(a * v, mul(x, z), "a * v"); u = a * (v + v); expectv(u, scale(mul(x, z), 2), "a * (v + v)"); expectv(a * cml::col(b, m - 1), mul(x, [&] { vec c; for(int i = 0; i < k; ++i) c.push_back(y(i, m - 1)); return c; }()), "a * col(b)"); } break;
  case 7: { cml::vector<T, cml::dynamic<>> v(n), u; const vec z = fillv(v, n, [](int i) { return small(i, 9); }); expectv(v * a, mul(z, x), "v * a"); u = (v - T(3) * v) * a; expectv(u, scale(mul(z, x), -2), "(v - 3v) * a"); expectv(cml::row(a, n - 1) * b, mul([&] { vec c; for(int j = 0; j < k; ++j) c.push_back(x(n - 1, j)); return c; }(), y), "row(a) * b"); } break;
  case 8: { cml::vector<T, cml::dynamic<>> v(k); const vec z = fillv(v, k, [](int i) { return small(i, 9); }); VB<T, cml::external<>> E(k); E.v = v; if(n == k) { E.v = a * E.v; expectv(E.v, mul(x, z), "v = a * v"); MC_CHECK(E.ok(), "guard", "a * v"); v = v * a; expectv(v, mul(z, x), "v = v * a"); } } break;
  case 9: { if(n == k) { cml::matrix<T, cml::dynamic<>, B, L> d(b); d = a * d; expectm(d, w, "d = a * d"); } } break;
  }
  expectm(a, x, "left operand"); expectm(b, y, "right operand"); MC_CHECK(A.ok() && C.ok(), "guard", "product"); mc::state(hash(w));
}
template<class T, class B, class L> void runtime()
{
  const int n = pdim(), k = pdim(), m = pdim();
  if(mc::choose(2)) product<T, B, L, cml::external<>, cml::dynamic<>, cml::external<>>(n, k, m);
  else product<T, B, L, cml::dynamic<>, cml::external<>, cml::dynamic<>>(n, k, m);
}
template<class T, class B, class L, int N, int K, int M> void fixed()
{
  if(mc::choose(2)) product<T, B, L, cml::fixed<N, K>, cml::fixed<K, M>, cml::fixed<N, M>>(N, K, M);
  else product<T, B, L, cml::external<N, K>, cml::fixed<K, M>, cml::external<N, M>>(N, K, M);
}
template<class T, class B, class L> void fixed_all()
{
  switch(mc::choose(8)) {
  case 0: return fixed<T, B, L, 5, 5, 5>(); case 1: return fixed<T, B, L, 6, 6, 6>(); case 2: return fixed<T, B, L, 8, 8, 8>(); case 3: return fixed<T, B, L, 9, 7, 5>();
  case 4: return fixed<T, B, L, 1, 16, 1>(); case 5: return fixed<T, B, L, 16, 1, 16>(); case 6: return fixed<T, B, L, 4, 17, 6>(); case 7: return fixed<T, B, L, 16, 16, 16>();
  }
}
}
