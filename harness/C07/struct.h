// C07: structural queries and edits of matrices, against a plain grid.
#pragma once
#include "all.h"
#include "ref.h"
#include <memory>

namespace c07 {
using namespace ref;
template<class B> constexpr bool rowb = std::is_same_v<B, cml::row_basis>;
template<class L> constexpr bool rowm = std::is_same_v<L, cml::row_major>;

// A matrix of one storage kind, filled with distinct values, and its grid.
template<class E, class S, class B, class L> struct Box;
template<class E, int R, int C, class B, class L> struct Box<E, cml::fixed<R, C>, B, L> { cml::matrix<E, cml::fixed<R, C>, B, L> m; Box(int, int) {} void guard() {} };
template<class E, class B, class L> struct Box<E, cml::dynamic<>, B, L> { cml::matrix<E, cml::dynamic<>, B, L> m; Box(int r, int c) : m(r, c) {} void guard() {} };
template<class E, int R, int C, class B, class L> struct Box<E, cml::external<R, C>, B, L> { E d[R * C + 2]; cml::matrix<E, cml::external<R, C>, B, L> m{d + 1}; Box(int, int) { for(E& x : d) x = 77; } void guard() { MC_CHECK(d[0] == 77 && d[R * C + 1] == 77, "outside", "wrote outside the view"); } };
template<class E, class B, class L> struct Box<E, cml::external<>, B, L> { std::unique_ptr<E[]> d; int n; cml::matrix<E, cml::external<>, B, L> m; Box(int r, int c) : d(new E[size_t(r * c + 2)]), n(r * c), m(d.get() + 1, r, c) { d[0] = d[size_t(n + 1)] = 77; } void guard() { MC_CHECK(d[0] == 77 && d[size_t(n + 1)] == 77, "outside", "wrote outside the view"); } };

template<class M, class B, class L> void expect(const M& m, const mat& g, const char* op)
{
  MC_CHECK(m.rows() == g.r && m.cols() == g.c && m.size() == cml::matrix_size(g.r, g.c), "size", op << ": matrix is " << m.rows() << "x" << m.cols());
  MC_CHECK(m.basis_count() == (rowb<B> ? g.r : g.c) && m.basis_size() == (rowb<B> ? g.c : g.r), "basis-size", op << ": " << m.basis_count() << " basis vectors of " << m.basis_size());
  for(int i = 0; i < g.r; ++i) for(int j = 0; j < g.c; ++j) {
    MC_CHECK(m(i, j) == g(i, j) && m.get(i, j) == g(i, j), "element", op << ": (" << i << "," << j << ") is " << m(i, j) << ", expected " << g(i, j) << " in " << g);
    MC_CHECK(rowb<B> ? m.basis_element(i, j) == g(i, j) : m.basis_element(j, i) == g(i, j), "basis-element", op << ": basis_element disagrees at (" << i << "," << j << ")");
    MC_CHECK(m.data()[rowm<L> ? i * g.c + j : j * g.r + i] == g(i, j), "layout", op << ": data() at (" << i << "," << j << ")");
  }
  MC_CHECK(m.end() - m.begin() == g.r * g.c && m.begin() == m.data(), "iterators", op);
  MC_TRACE(op << ": " << g); mc::step(); mc::state(hash(g));
}
template<class V> void expectv(const V& v, const vec& e, const char* op)
{
  const vec r = read(v);
  MC_CHECK(same(r, e), "vector", op << ": read " << r << ", expected " << e);
  MC_TRACE(op << ": " << r); mc::step(); mc::state(hash(r));
}
inline vec rowv(const mat& g, int i) { vec o; for(int j = 0; j < g.c; ++j) o.push_back(g(i, j)); return o; }
inline vec colv(const mat& g, int j) { vec o; for(int i = 0; i < g.r; ++i) o.push_back(g(i, j)); return o; }

template<class S> constexpr int SR = -1;
template<int R, int C> constexpr int SR<cml::fixed<R, C>> = R;
template<int R, int C> constexpr int SR<cml::external<R, C>> = R;
template<class S> constexpr int SC = -1;
template<int R, int C> constexpr int SC<cml::fixed<R, C>> = C;
template<int R, int C> constexpr int SC<cml::external<R, C>> = C;

// A vector of n elements: dynamic, fixed or view.
template<int N> struct VecN { cml::vector<double, cml::fixed<N>> v; explicit VecN(int) {} };
template<> struct VecN<-1> { cml::vector<double, cml::dynamic<>> v; explicit VecN(int n) : v(n) {} };

// One operation on one matrix.  ACC is true when the shape may be square at compile time.
template<class E, class S, class B, class L> void one(int r, int c)
{
  constexpr int R = SR<S>, C = SC<S>;
  Box<E, S, B, L> b(r, c); auto& m = b.m; const auto& k = m; using M = std::decay_t<decltype(m)>;
  mat g(r, c);
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) { g(i, j) = 1 + i * 5 + j + ((i * 3 + j) % 4) * 16; m.put(i, j, g(i, j)); }
  auto done = [&](const char* op) { expect<M, B, L>(m, g, op); b.guard(); };
  auto ret = [&](const M& x, const char* op) { MC_CHECK(&x == &m, "return", op << ": did not return the matrix"); done(op); };
  const bool square = r == c;
  constexpr bool fixed_nonsquare = R > 0 && R != C;
  VecN<C> rv(c); VecN<R> cv(r);
  cml::vector<double, cml::dynamic<>> drv(c), dcv(r);
  for(int j = 0; j < c; ++j) { rv.v.put(j, 200 + j); drv.put(j, 300 + j); }
  for(int i = 0; i < r; ++i) { cv.v.put(i, 400 + i); dcv.put(i, 500 + i); }
  const int op = mc::choose(44), I = mc::choose(r), J = mc::choose(c);
  switch(op) {
  case 0: return done("fill by put");
  case 1: g(I, J) = 900; m(I, J) = 900; return done("m(i,j) =");
  case 2: g(I, J) = 900; m.get(I, J) = 900; return done("get(i,j) =");
  case 3: g(I, J) = 900; return ret(m.put(I, J, 900), "put(i,j,v)");
  case 4: { g(I, J) = 900; M&& x = std::move(m).put(I, J, 900); return ret(x, "temporary.put(i,j,v)"); }
  case 5: { g(I, J) = 900; return ret(rowb<B> ? m.set_basis_element(I, J, 900) : m.set_basis_element(J, I, 900), "set_basis_element"); }
  case 6: { g(I, J) = 900; M&& x = rowb<B> ? std::move(m).set_basis_element(I, J, 900) : std::move(m).set_basis_element(J, I, 900); return ret(x, "temporary.set_basis_element"); }
  case 7: if(J) return; for(int j = 0; j < c; ++j) g(I, j) = rv.v[j]; return ret(m.set_row(I, rv.v), "set_row(same-kind vector)");
  case 8: if(J) return; for(int j = 0; j < c; ++j) g(I, j) = 2 * drv[j]; { M&& x = std::move(m).set_row(I, drv + drv); return ret(x, "temporary.set_row(expression)"); }
  case 9: if(I) return; for(int i = 0; i < r; ++i) g(i, J) = cv.v[i]; return ret(m.set_col(J, cv.v), "set_col(same-kind vector)");
  case 10: if(I) return; for(int i = 0; i < r; ++i) g(i, J) = 2 * dcv[i]; { M&& x = std::move(m).set_col(J, dcv + dcv); return ret(x, "temporary.set_col(expression)"); }
  case 11: { const int I2 = mc::choose(r); if(J) return; for(int j = 0; j < c; ++j) g(I, j) = g(I2, j); return ret(m.set_row(I, cml::row(k, I2)), "set_row(row of itself)"); }
  case 12: { const int J2 = mc::choose(c); if(I) return; for(int i = 0; i < r; ++i) g(i, J) = g(i, J2); return ret(m.set_col(J, cml::col(k, J2)), "set_col(col of itself)"); }
  case 13: if(I || J) return; for(double& x : g.d) x = 0; return ret(m.zero(), "zero()");
  case 14: if(I || J) return; for(double& x : g.d) x = 0; { M&& x = std::move(m).zero(); return ret(x, "temporary.zero()"); }
  case 15: if(I || J) return; for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) g(i, j) = i == j; return ret(m.identity(), "identity()");
  case 16: if(I || J) return; for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) g(i, j) = i == j; { M&& x = std::move(m).identity(); return ret(x, "temporary.identity()"); }
  case 17: if(I || J) return; for(double& x : g.d) x = 12; return ret(m.fill(12), "fill(v)");
  case 18: { const double v = g(I, J); for(double& x : g.d) x = v; return ret(m.fill(m(I, J)), "fill(element of itself)"); }
  case 19: if(I || J) return; if constexpr(!fixed_nonsquare && !std::is_same_v<S, cml::external<>>) { g = transpose(g); return ret(m.transpose(), "transpose()"); } return;
  case 20: if(I || J) return; if constexpr(!fixed_nonsquare && !std::is_same_v<S, cml::external<>>) { g = transpose(g); M&& x = std::move(m).transpose(); return ret(x, "temporary.transpose()"); } return;
  case 21: if(I || J) return; if constexpr(!fixed_nonsquare && !std::is_same_v<S, cml::external<>>) { m.transpose().transpose(); return done("transpose() twice"); } return;
  // Views.
  case 22: if(J) return; expectv(cml::row(m, I), rowv(g, I), "row(m,i)"); return done("row(m,i)");
  case 23: if(J) return; expectv(cml::row(k, I), rowv(g, I), "row(const m,i)"); return done("row(const m,i)");
  case 24: if(I) return; expectv(cml::col(m, J), colv(g, J), "col(m,j)"); return done("col(m,j)");
  case 25: if(I) return; expectv(cml::col(k, J), colv(g, J), "col(const m,j)"); return done("col(const m,j)");
  case 26: if(rowb<B> ? J : I) return; expectv(cml::basis(k, rowb<B> ? I : J), rowb<B> ? rowv(g, I) : colv(g, J), "basis(m,i)"); return done("basis(m,i)");
  case 27: if(rowb<B> ? J : I) return; { cml::vector<E, cml::dynamic<>> v(cml::basis(m, rowb<B> ? I : J)); expectv(v, rowb<B> ? rowv(g, I) : colv(g, J), "vector(basis(m,i))"); } return done("vector(basis(m,i))");
  case 28: if(rowb<B> ? J : I) return; expectv(cml::matrix_get_basis_vector_nD(k, rowb<B> ? I : J), rowb<B> ? rowv(g, I) : colv(g, J), "matrix_get_basis_vector_nD"); return done("matrix_get_basis_vector_nD");
  case 29: if(I || J) return; { auto t = cml::transpose(k); const mat x = readm(t); MC_CHECK(same(x, transpose(g)), "transpose", "transpose(m) reads " << x << ", expected " << transpose(g)); } return done("transpose(m)");
  case 30: if(I || J) return; { auto t = cml::transpose(cml::transpose(m)); const mat x = readm(t); MC_CHECK(same(x, g), "transpose", "transpose(transpose(m)) reads " << x << ", expected " << g); } return done("transpose(transpose(m))");
  case 31: if(J) return; expectv(cml::col(cml::transpose(k), I), rowv(g, I), "col(transpose(m),i)"); return done("col(transpose(m),i)");
  case 32: if(I) return; expectv(cml::row(cml::transpose(m), J), colv(g, J), "row(transpose(m),j)"); return done("row(transpose(m),j)");
  case 33: if(J) return; expectv(cml::row(cml::matrix<std::decay_t<typename cml::matrix_traits<M>::value_type>, cml::dynamic<>>(m) /* a temporary copy */, I), rowv(g, I), "row(temporary,i)"); return done("row(temporary,i)");
  case 34: if(I) return; expectv(cml::col(m + m, J), scale(colv(g, J), 2), "col(m+m,j)"); return done("col(m+m,j)");
  case 35: if(J) return; { auto v = cml::row(m, I); g(I, c - 1) = 901; m(I, c - 1) = 901; expectv(v, rowv(g, I), "row view after a write"); } return done("row view after a write");
  case 36: if(I) return; { auto v = cml::col(m, J); g(r - 1, J) = 901; m(r - 1, J) = 901; expectv(v, colv(g, J), "col view after a write"); } return done("col view after a write");
  case 37: { auto t = cml::transpose(m); g(I, J) = 901; m(I, J) = 901; const mat x = readm(t); MC_CHECK(same(x, transpose(g)), "transpose", "transpose view after a write reads " << x); } return done("transpose view after a write");
  case 38: if(I || J || !square) return; if constexpr(!fixed_nonsquare) { double s = 0; for(int i = 0; i < r; ++i) s += g(i, i); MC_CHECK(m.trace() == s && cml::trace(k) == s, "trace", "trace is " << m.trace() << " and " << cml::trace(k) << ", expected " << s); MC_CHECK(cml::trace(m + m) == 2 * s && cml::trace(cml::transpose(m)) == s, "trace", "trace of an expression"); } return done("trace");
  case 39: { const int I2 = mc::choose(r); if(J) return; // exchange two rows through copies
      cml::vector<E, cml::dynamic<>> x(cml::row(m, I)), y(cml::row(m, I2)); m.set_row(I, y); m.set_row(I2, x); const vec gx = rowv(g, I), gy = rowv(g, I2);
      for(int j = 0; j < c; ++j) { g(I, j) = gy[size_t(j)]; g(I2, j) = gx[size_t(j)]; } return done("row exchange"); }
  case 40: { const int J2 = mc::choose(c); if(I) return; // exchange two columns through copies
      cml::vector<E, cml::dynamic<>> x(cml::col(m, J)), y(cml::col(m, J2)); m.set_col(J, y); m.set_col(J2, x); const vec gx = colv(g, J), gy = colv(g, J2);
      for(int i = 0; i < r; ++i) { g(i, J) = gy[size_t(i)]; g(i, J2) = gx[size_t(i)]; } return done("column exchange"); }
  case 41: if(J) return; { cml::vector<E, cml::dynamic<>> v; v = cml::row(m, I); m(I, 0) = 902; expectv(v, rowv(g, I), "stored row is a copy"); g(I, 0) = 902; } return done("stored row is a copy");
  case 42: if(I) return; if constexpr(R > 0) { cml::vector<E, cml::fixed<R>> v(cml::col(k, J)); expectv(v, colv(g, J), "fixed vector(col)"); if(!rowb<B>) { if constexpr(!rowb<B>) { cml::vector<E, cml::fixed<R>> w(cml::basis(k, J)); expectv(w, colv(g, J), "fixed vector(basis)"); } } } return done("fixed vector(col)");
  case 43: if(J) return; if constexpr(C > 0) { cml::vector<E, cml::fixed<C>> v(cml::row(k, I)); expectv(v, rowv(g, I), "fixed vector(row)"); if constexpr(rowb<B>) { cml::vector<E, cml::fixed<C>> w(cml::basis(k, I)); expectv(w, rowv(g, I), "fixed vector(basis)"); } } return done("fixed vector(row)");
  }
}

template<class F> void shape(F f)
{
  const int top = mc::thorough() ? 6 : 4;
  const int r = 1 + mc::choose(top), c = 1 + mc::choose(top);
  f(r, c);
}
template<class E, class B, class L> void add_dyn(const std::string& n)
{
  mc::add("dynamic " + n, [] { shape([](int r, int c) { one<E, cml::dynamic<>, B, L>(r, c); }); });
  mc::add("dynamic external " + n, [] { shape([](int r, int c) { one<E, cml::external<>, B, L>(r, c); }); });
}
template<class E, class B, class L, int R, int C> void add_fix(const std::string& n)
{
  const std::string s = std::to_string(R) + "x" + std::to_string(C) + " " + n;
  mc::add("fixed " + s, [] { one<E, cml::fixed<R, C>, B, L>(R, C); });
  mc::add("fixed external " + s, [] { one<E, cml::external<R, C>, B, L>(R, C); });
}

// ---- the mathlib basis accessors: 2D and 3D, plain and transposed -------
template<class M, class B, class L> void basis_op(M& m, mat g)
{
  const int r = g.r, c = g.c;
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) { g(i, j) = 1 + i * 5 + j + ((i * 3 + j) % 4) * 16; m.put(i, j, g(i, j)); }
  // element j of basis vector i is (i,j) or (j,i)
  auto at = [&](mat& x, int i, int j) -> double& { return rowb<B> ? x(i, j) : x(j, i); };
  auto done = [&](const char* op) { expect<M, B, L>(m, g, op); };
  cml::vector<double, cml::fixed<3>> v[3] = {{301, 302, 303}, {311, 312, 313}, {321, 322, 323}};
  cml::vector<double, cml::fixed<2>> w[2] = {{401, 402}, {411, 412}};
  auto get = [&](int i, bool t, int n) { vec o; for(int j = 0; j < n; ++j) o.push_back(t ? at(g, j, i) : at(g, i, j)); return o; };
  auto set = [&](int i, bool t, int n, const auto& x) { for(int j = 0; j < n; ++j) (t ? at(g, j, i) : at(g, i, j)) = x[j]; };
  const int op = mc::choose(34), i = mc::choose(3);
  const bool ok3 = r >= 3 && c >= 3;
  if(op < 17 && !ok3) return;
  if(op >= 17 && i == 2 && op != 33) return;
  cml::vector<double, cml::dynamic<>> a, b2, d; cml::vector<double, cml::fixed<3>> fa, fb, fd; cml::vector<double, cml::fixed<2>> ga, gb;
  switch(op) {
  case 0: cml::matrix_set_basis_vector(m, i, v[0]); set(i, false, 3, v[0]); return done("matrix_set_basis_vector");
  case 1: if(i == 0) cml::matrix_set_x_basis_vector(m, v[1]); else if(i == 1) cml::matrix_set_y_basis_vector(m, v[1]); else cml::matrix_set_z_basis_vector(m, v[1]); set(i, false, 3, v[1]); return done("matrix_set_{x,y,z}_basis_vector");
  case 2: if(i) return; cml::matrix_set_basis_vectors(m, v[0], v[1], v[2]); for(int q = 0; q < 3; ++q) set(q, false, 3, v[q]); return done("matrix_set_basis_vectors");
  case 3: cml::matrix_set_transposed_basis_vector(m, i, v[0]); set(i, true, 3, v[0]); return done("matrix_set_transposed_basis_vector");
  case 4: if(i == 0) cml::matrix_set_transposed_x_basis_vector(m, v[1]); else if(i == 1) cml::matrix_set_transposed_y_basis_vector(m, v[1]); else cml::matrix_set_transposed_z_basis_vector(m, v[1]); set(i, true, 3, v[1]); return done("matrix_set_transposed_{x,y,z}_basis_vector");
  case 5: if(i) return; cml::matrix_set_transposed_basis_vectors(m, v[0], v[1], v[2]); for(int q = 0; q < 3; ++q) set(q, true, 3, v[q]); return done("matrix_set_transposed_basis_vectors");
  case 6: expectv(cml::matrix_get_basis_vector(m, i), get(i, false, 3), "matrix_get_basis_vector"); return done("matrix_get_basis_vector");
  case 7: expectv(i == 0 ? cml::matrix_get_x_basis_vector(m) : i == 1 ? cml::matrix_get_y_basis_vector(m) : cml::matrix_get_z_basis_vector(m), get(i, false, 3), "matrix_get_{x,y,z}_basis_vector"); return;
  case 8: if(i) return; cml::matrix_get_basis_vectors(m, a, b2, d); expectv(a, get(0, false, 3), "matrix_get_basis_vectors x"); expectv(b2, get(1, false, 3), "matrix_get_basis_vectors y"); expectv(d, get(2, false, 3), "matrix_get_basis_vectors z"); return done("matrix_get_basis_vectors");
  case 9: expectv(cml::matrix_get_transposed_basis_vector(m, i), get(i, true, 3), "matrix_get_transposed_basis_vector"); return done("matrix_get_transposed_basis_vector");
  case 10: expectv(i == 0 ? cml::matrix_get_transposed_x_basis_vector(m) : i == 1 ? cml::matrix_get_transposed_y_basis_vector(m) : cml::matrix_get_transposed_z_basis_vector(m), get(i, true, 3), "matrix_get_transposed_{x,y,z}_basis_vector"); return;
  case 11: if(i) return; cml::matrix_get_transposed_basis_vectors(m, fa, fb, fd); expectv(fa, get(0, true, 3), "matrix_get_transposed_basis_vectors x"); expectv(fb, get(1, true, 3), "matrix_get_transposed_basis_vectors y"); expectv(fd, get(2, true, 3), "matrix_get_transposed_basis_vectors z"); return;
  case 12: cml::matrix_set_basis_vector(m, i, cml::matrix_get_transposed_basis_vector(m, i)); { vec x = get(i, true, 3); set(i, false, 3, x); } return done("basis vector from transposed basis vector");
  case 13: case 14: case 15: case 16: { bool threw = false; const int bad = i == 0 ? -1 : i + 2; // an axis index outside 0..2
      try { if(op == 13) cml::matrix_set_basis_vector(m, bad, v[0]); if(op == 14) cml::matrix_set_transposed_basis_vector(m, bad, v[0]); if(op == 15) cml::matrix_get_basis_vector(m, bad); if(op == 16) cml::matrix_get_transposed_basis_vector(m, bad); } catch(const std::invalid_argument&) { threw = true; }
      MC_CHECK(threw, "bad-index", "axis index " << bad << " was accepted"); return done("invalid axis index"); }
  case 17: cml::matrix_set_basis_vector_2D(m, i, w[0]); set(i, false, 2, w[0]); return done("matrix_set_basis_vector_2D");
  case 18: if(i == 0) cml::matrix_set_x_basis_vector_2D(m, w[1]); else cml::matrix_set_y_basis_vector_2D(m, w[1]); set(i, false, 2, w[1]); return done("matrix_set_{x,y}_basis_vector_2D");
  case 19: if(i) return; cml::matrix_set_basis_vectors_2D(m, w[0], w[1]); for(int q = 0; q < 2; ++q) set(q, false, 2, w[q]); return done("matrix_set_basis_vectors_2D");
  case 20: cml::matrix_set_transposed_basis_vector_2D(m, i, w[0]); set(i, true, 2, w[0]); return done("matrix_set_transposed_basis_vector_2D");
  case 21: if(i == 0) cml::matrix_set_transposed_x_basis_vector_2D(m, w[1]); else cml::matrix_set_transposed_y_basis_vector_2D(m, w[1]); set(i, true, 2, w[1]); return done("matrix_set_transposed_{x,y}_basis_vector_2D");
  case 22: if(i) return; cml::matrix_set_transposed_basis_vectors_2D(m, w[0], w[1]); for(int q = 0; q < 2; ++q) set(q, true, 2, w[q]); return done("matrix_set_transposed_basis_vectors_2D");
  case 23: expectv(cml::matrix_get_basis_vector_2D(m, i), get(i, false, 2), "matrix_get_basis_vector_2D"); return done("matrix_get_basis_vector_2D");
  case 24: expectv(i == 0 ? cml::matrix_get_x_basis_vector_2D(m) : cml::matrix_get_y_basis_vector_2D(m), get(i, false, 2), "matrix_get_{x,y}_basis_vector_2D"); return;
  case 25: if(i) return; cml::matrix_get_basis_vectors_2D(m, a, ga); expectv(a, get(0, false, 2), "matrix_get_basis_vectors_2D x"); expectv(ga, get(1, false, 2), "matrix_get_basis_vectors_2D y"); return;
  case 26: expectv(cml::matrix_get_transposed_basis_vector_2D(m, i), get(i, true, 2), "matrix_get_transposed_basis_vector_2D"); return done("matrix_get_transposed_basis_vector_2D");
  case 27: expectv(i == 0 ? cml::matrix_get_transposed_x_basis_vector_2D(m) : cml::matrix_get_transposed_y_basis_vector_2D(m), get(i, true, 2), "matrix_get_transposed_{x,y}_basis_vector_2D"); return;
  case 28: if(i) return; cml::matrix_get_transposed_basis_vectors_2D(m, gb, a); expectv(gb, get(0, true, 2), "matrix_get_transposed_basis_vectors_2D x"); expectv(a, get(1, true, 2), "matrix_get_transposed_basis_vectors_2D y"); return;
  case 29: case 30: case 31: case 32: { bool threw = false; const int bad = i == 0 ? -1 : 2;
      try { if(op == 29) cml::matrix_set_basis_vector_2D(m, bad, w[0]); if(op == 30) cml::matrix_set_transposed_basis_vector_2D(m, bad, w[0]); if(op == 31) cml::matrix_get_basis_vector_2D(m, bad); if(op == 32) cml::matrix_get_transposed_basis_vector_2D(m, bad); } catch(const std::invalid_argument&) { threw = true; }
      MC_CHECK(threw, "bad-index", "2D axis index " << bad << " was accepted"); return done("invalid 2D axis index"); }
  case 33: if(i) return; return done("fill");
  }
}
template<class B, class L> void add_basis(const std::string& n)
{
  mc::add("basis accessors, dynamic " + n, [] { const int r = 2 + mc::choose(3), c = 2 + mc::choose(3); cml::matrix<double, cml::dynamic<>, B, L> m(r, c); basis_op<decltype(m), B, L>(m, mat(r, c)); });
  mc::add("basis accessors, fixed 3x3 " + n, [] { cml::matrix<double, cml::fixed<3, 3>, B, L> m; basis_op<decltype(m), B, L>(m, mat(3, 3)); });
  mc::add("basis accessors, fixed 4x4 " + n, [] { cml::matrix<float, cml::fixed<4, 4>, B, L> m; basis_op<decltype(m), B, L>(m, mat(4, 4)); });
  mc::add("basis accessors, fixed 3x4 " + n, [] { cml::matrix<double, cml::fixed<3, 4>, B, L> m; basis_op<decltype(m), B, L>(m, mat(3, 4)); });
}
} // namespace c07
