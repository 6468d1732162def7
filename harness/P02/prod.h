// P02: matrix products equal the textbook sums and obey their laws.
#pragma once
#include "all.h"
#include "ref.h"
#include <utility>

namespace p02 {
using namespace ref;
using cml::row_basis; using cml::col_basis; using cml::row_major; using cml::col_major;
inline double prime(int i) { static const int p[] = {2, -3, 5, 7, -11, 13, 17, 19, -23, 29, 31, 37, -41, 43, 47, 53, 59, -61, 67, 71}; return p[i % 20]; }
// One-hot or distinct contents; a bilinear map is determined by the former.
inline mat contents(int r, int c, int salt)
{
  const int k = mc::choose(r * c + 2); mat m(r, c);
  if(k < r * c) m.d[size_t(k)] = salt % 2 ? 3 : -2;
  else for(int i = 0; i < r * c; ++i) m.d[size_t(i)] = k == r * c ? prime(i + salt) : double((i * 7 + salt) % 5 - 2);
  return m;
}
inline mat distinct(int r, int c, int salt) { mat m(r, c); for(int i = 0; i < r * c; ++i) m.d[size_t(i)] = prime(i * 3 + salt); return m; }
template<class M> void put(M& m, const mat& g) { for(int i = 0; i < g.r; ++i) for(int j = 0; j < g.c; ++j) m.put(i, j, typename M::value_type(g(i, j))); }
template<class V> void putv(V& v, const vec& g) { for(size_t i = 0; i < g.size(); ++i) v.put(int(i), typename V::value_type(g[i])); }
#define SAMEM(e, want, what) do { const mat got_ = readm(e); MC_CHECK(same(got_, want), what, A << " and " << B_ << " give " << got_ << ", expected " << want); } while(0)
#define SAMEV(e, want, what) do { const vec got_ = read(e); MC_CHECK(same(got_, want), what, A << " and " << v << " give " << got_ << ", expected " << want); } while(0)

// ---- run-time sizes ---------------------------------------------------
template<class T, class B, class L> struct Dyn
{
  using D = cml::matrix<T, cml::dynamic<>, B, L>;
  using X = cml::matrix<T, cml::external<>, B, L>;
  static D make(const mat& g) { D m(g.r, g.c); put(m, g); return m; }
};
template<class T, class B, class L> void dynamic_products()
{
  using D = typename Dyn<T, B, L>::D; using X = typename Dyn<T, B, L>::X;
  const int n = 1 + mc::choose(4), k = 1 + mc::choose(4), m = 1 + mc::choose(4);
  const mat A = contents(n, k, 1), B_ = contents(k, m, 4), want = mul(A, B_);
  const D a = Dyn<T, B, L>::make(A), b = Dyn<T, B, L>::make(B_);
  { auto r = a * b; SAMEM(r, want, "product"); }
  { D r; r = a * b; SAMEM(r, want, "assigned product"); }
  T ba[16], bb[16], bc[18]; X xa(ba, n, k), xb(bb, k, m), xc(bc + 1, n, m); put(xa, A); put(xb, B_); bc[0] = T(-9); bc[n * m + 1] = T(-9);
  SAMEM(xa * b, want, "external * dynamic"); SAMEM(a * xb, want, "dynamic * external"); SAMEM(xa * xb, want, "external * external");
  xc = a * xb; SAMEM(xc, want, "product into a view"); MC_CHECK(bc[0] == T(-9) && bc[n * m + 1] == T(-9), "guard", "element outside the view changed");
  SAMEM((a + a) * b, scale(want, 2), "expression * matrix"); SAMEM(a * (-b), scale(want, -1), "matrix * expression");
  SAMEM(D(a) * D(b), want, "temporary * temporary");
  { const auto t = cml::transpose(a * b); SAMEM(t, transpose(want), "transposed product"); }
  SAMEM(cml::transpose(b) * cml::transpose(a), transpose(want), "product of transposes");
  if(k == m) { D c(a); c = c * b; SAMEM(c, want, "product into the left operand"); }
  if(n == k) { D c(b); c = a * c; SAMEM(c, want, "product into the right operand"); }
  if(k == m) { xa = xa * b; SAMEM(xa, want, "product into the left operand (view)"); }
  SAMEM(a, A, "left operand"); SAMEM(b, B_, "right operand");
  mc::step(14); mc::state(hash(want) ^ uint64_t(n * 100 + k * 10 + m));
}
template<class T, class B, class L> void dynamic_vectors()
{
  using D = typename Dyn<T, B, L>::D; using X = typename Dyn<T, B, L>::X;
  const int n = 1 + mc::choose(4), k = 1 + mc::choose(4);
  const mat A = contents(n, k, 2); const mat V = contents(k, 1, 3), W = contents(n, 1, 5); const vec v = V.d, w = W.d;
  const D a = Dyn<T, B, L>::make(A); T ba[16]; X xa(ba, n, k); put(xa, A);
  cml::vector<T, cml::dynamic<>> dv(k), dw(n); putv(dv, v); putv(dw, w);
  T bv[4], bw[4]; cml::vector<T, cml::external<>> xv(bv, k), xw(bw, n); putv(xv, v); putv(xw, w);
  const vec want = mul(A, v), wantl = mul(w, A);
  SAMEV(a * dv, want, "A*v"); SAMEV(dw * a, wantl, "v*A"); SAMEV(xa * xv, want, "A*v"); SAMEV(xw * xa, wantl, "v*A"); SAMEV(a * xv, want, "A*v"); SAMEV(dw * xa, wantl, "v*A");
  SAMEV(a * (dv + dv), scale(want, 2), "A*expression"); SAMEV((-dw) * a, scale(wantl, -1), "expression*A"); SAMEV((a - 2 * a) * dv, scale(want, -1), "expression*v"); SAMEV(cml::transpose(a) * dw, wantl, "transpose(A)*v"); SAMEV(dv * cml::transpose(a), want, "v*transpose(A)");
  { cml::vector<T, cml::dynamic<>> r; r = a * dv; SAMEV(r, want, "assigned A*v"); r = dw * a; SAMEV(r, wantl, "assigned v*A"); }
  if(n == k) { cml::vector<T, cml::dynamic<>> r(dv); r = a * r; SAMEV(r, want, "A*v into v"); cml::vector<T, cml::dynamic<>> q(dw); q = q * a; SAMEV(q, wantl, "v*A into v"); xv = xa * xv; SAMEV(xv, want, "A*v into v (view)"); }
  if(n > 1) { cml::matrix<T, cml::dynamic<>, B, L> p(2, k); put(p, [&] { mat g(2, k); for(int j = 0; j < k; ++j) { g(0, j) = 9; g(1, j) = v[size_t(j)]; } return g; }()); SAMEV(a * cml::row(p, 1), want, "A*row"); }
  SAMEV(dv, v, "operand"); SAMEV(dw, w, "operand");
  mc::step(14); mc::state(hash(want) ^ hash(wantl));
}
// Laws over three matrices of distinct contents and one one-hot matrix.
template<class T, class B, class L> void dynamic_laws()
{
  const int n = 1 + mc::choose(4), k = 1 + mc::choose(4), m = 1 + mc::choose(4), p = 1 + mc::choose(4), hot = mc::choose(3);
  const mat A = hot == 0 ? contents(n, k, 1) : distinct(n, k, 1), B_ = hot == 1 ? contents(k, m, 2) : distinct(k, m, 2), C = hot == 2 ? contents(m, p, 3) : distinct(m, p, 3), B2 = distinct(k, m, 7);
  using F = Dyn<T, B, L>; const auto a = F::make(A), b = F::make(B_), c = F::make(C), b2 = F::make(B2);
  const mat w = mul(mul(A, B_), C);
  SAMEM((a * b) * c, w, "associates"); SAMEM(a * (b * c), w, "associates");
  const mat d = add(mul(A, B_), mul(A, B2)); SAMEM(a * (b + b2), d, "distributes"); SAMEM((a * b) + (a * b2), d, "distributes");
  const mat d2 = add(mul(B_, C), mul(B2, C), -1); SAMEM((b - b2) * c, d2, "distributes");
  auto in = F::make(mat::identity(n)), ik = F::make(mat::identity(k)); SAMEM(in * a, A, "identity"); SAMEM(a * ik, A, "identity");
  SAMEM((T(3) * a) * b, scale(mul(A, B_), 3), "scales"); SAMEM(a * (b * T(3)), scale(mul(A, B_), 3), "scales");
  mc::step(10); mc::state(hash(w));
}
// ---- fixed sizes --------------------------------------------------------
template<class T, class B, class L, int N, int K, int M> void fixed_products()
{
  using FA = cml::matrix<T, cml::fixed<N, K>, B, L>; using FB = cml::matrix<T, cml::fixed<K, M>, B, L>; using FC = cml::matrix<T, cml::fixed<N, M>, B, L>;
  const mat A = contents(N, K, 1), B_ = contents(K, M, 4), want = mul(A, B_);
  FA a; FB b; put(a, A); put(b, B_);
  { auto r = a * b; SAMEM(r, want, "product"); MC_CHECK(r.rows() == N && r.cols() == M, "size", "product is " << r.rows() << "x" << r.cols()); }
  { FC r; r = a * b; SAMEM(r, want, "assigned product"); FC q(a * b); SAMEM(q, want, "constructed product"); }
  const auto db = Dyn<T, B, L>::make(B_), da = Dyn<T, B, L>::make(A);
  SAMEM(a * db, want, "fixed * dynamic"); SAMEM(da * b, want, "dynamic * fixed");
  T ba[N * K], bb[K * M]; cml::matrix<T, cml::external<N, K>, B, L> xa(ba); cml::matrix<T, cml::external<K, M>, B, L> xb(bb); put(xa, A); put(xb, B_);
  SAMEM(xa * xb, want, "external * external"); SAMEM(a * xb, want, "fixed * external"); SAMEM(xa * db, want, "external * dynamic");
  SAMEM(cml::transpose(b) * cml::transpose(a), transpose(want), "product of transposes");
  SAMEM((a + a) * (-b), scale(want, -2), "expressions");
  if constexpr(K == M) { FA c(a); c = c * b; SAMEM(c, want, "product into the left operand"); }
  if constexpr(N == K) { FB c(b); c = a * c; SAMEM(c, want, "product into the right operand"); }
  // vectors: first column of b, first row of a
  vec v = vec(size_t(K), 0.), w = vec(size_t(N), 0.); for(int i = 0; i < K; ++i) v[size_t(i)] = B_(i, M - 1); for(int i = 0; i < N; ++i) w[size_t(i)] = A(i, 0) - i;
  cml::vector<T, cml::fixed<K>> fv; cml::vector<T, cml::fixed<N>> fw; putv(fv, v); putv(fw, w);
  const vec wr = mul(A, v), wl = mul(w, A);
  SAMEV(a * fv, wr, "A*v"); SAMEV(fw * a, wl, "v*A"); SAMEV(a * cml::col(b, M - 1), wr, "A*col"); SAMEV(da * fv, wr, "dynamic A*v"); SAMEV(fw * da, wl, "v*dynamic A"); SAMEV(xa * fv, wr, "external A*v");
  { cml::vector<T, cml::dynamic<>> r(K); putv(r, v); SAMEV(a * r, wr, "A*dynamic v"); }
  if constexpr(N == K) { auto r = fv; r = a * r; SAMEV(r, wr, "A*v into v"); auto q = fw; q = q * a; SAMEV(q, wl, "v*A into v"); }
  SAMEM(a, A, "left operand"); SAMEM(b, B_, "right operand");
  mc::step(20); mc::state(hash(want) ^ uint64_t(N * 100 + K * 10 + M));
}
}
