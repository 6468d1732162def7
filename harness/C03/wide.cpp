// Views of every size of the list over one guarded buffer, against its image.
#include "../wide.h"
namespace {
using namespace wide;
template<class T> struct Mem
{
  int off, n; std::vector<T> model; std::unique_ptr<T[]> b;
  Mem(int o, int k) : off(o), n(k), model(size_t(k + 2 * o)), b(new T[size_t(k + 2 * o)]) { for(size_t i = 0; i < model.size(); ++i) model[i] = b[i] = T(val(int(i), 7)); }
  T* at() { return b.get() + off; }
  T& operator[](int i) { return model[size_t(off + i)]; }
  void check(const char* what) { for(size_t i = 0; i < model.size(); ++i) MC_CHECK(b[i] == model[i], int(i) < off || int(i) >= off + n ? "guard" : "large", what << ": element " << int(i) - off << " of " << n << " is " << double(b[i]) << ", expected " << double(model[i])); mc::step(); }
};
template<class T, class V, class CV> void vector_ops(Mem<T>& m, V& v, const CV& cv, int n)
{
  auto view = [&](const char* what) {
    MC_CHECK(v.size() == n && v.data() == m.at() && v.end() == m.at() + n && cv.size() == n && cv.data() == m.at(), "rebound", what);
    for(int i = 0; i < n; ++i) MC_CHECK(v[i] == m[i] && cv[i] == m[i] && v.get(i) == m[i] && cv.get(i) == m[i], "large", what << ": view element " << i << " of " << n);
    m.check(what); mc::Hash h; for(int i = 0; i < n; ++i) h(double(m[i])); mc::state(h);
  };
  cml::vector<T, cml::dynamic<>> d(n); std::unique_ptr<T[]> raw(new T[size_t(n) + 1]); Mem<T> o(3, n); cml::vector<T, cml::external<>> ov(o.at(), n);
  for(int i = 0; i < n; ++i) { d[i] = T(val(i, 3)); raw[size_t(i)] = T(val(i, 4)); }
  const int e = n ? mc::choose(3) * (n - 1) / 2 : 0;
  auto each = [&](auto f) { for(int i = 0; i < n; ++i) m[i] = T(f(i)); };
  switch(mc::choose(17)) {
  case 0: return view("construct");
  case 1: if(!n) return; v[e] = T(4242); m[e] = T(4242); return view("v[i] =");
  case 2: if(!n) return; m.at()[e] = T(4242); m[e] = T(4242); return view("raw write");
  case 3: if(!n) return; v.put(e, T(4242)); m[e] = T(4242); return view("put");
  case 4: v = d; each([&](int i) { return d[i]; }); return view("= dynamic");
  case 5: v = ov; each([&](int i) { return o[i]; }); o.check("source view"); return view("= other view");
  case 6: v = d + ov; each([&](int i) { return d[i] + o[i]; }); o.check("source view"); return view("= expression");
  case 7: v += d; each([&](int i) { return m[i] + d[i]; }); return view("+=");
  case 8: v -= ov; each([&](int i) { return m[i] - o[i]; }); o.check("source view"); return view("-= other view");
  case 9: v *= T(3); each([&](int i) { return m[i] * 3; }); return view("*=");
  case 10: v.zero(); each([&](int) { return 0; }); return view("zero");
  case 11: v.fill(T(9)); each([&](int) { return 9; }); return view("fill");
  case 12: { if(!n) return; v.cardinal(e); each([&](int i) { return i == e; }); return view("cardinal"); }
  case 13: v.minimize(d); each([&](int i) { return d[i] < m[i] ? d[i] : m[i]; }); return view("minimize");
  case 14: { V c(v); if(n) { c[e] = T(4242); m[e] = T(4242); } MC_CHECK(c.data() == m.at() && c.size() == n, "rebound", "copy"); return view("copy of the view"); }
  case 15: { ov = v; for(int i = 0; i < n; ++i) o[i] = m[i]; o.check("view read into another"); return view("other = view"); }
  case 16: { V c(v); V q(std::move(c)); if(n) { q[n - 1] = T(4242); m[n - 1] = T(4242); } return view("moved copy of the view"); }
  }
}
template<class T, bool Fixed> void vecs()
{
  const int k = mc::choose(Fixed ? 2 : 1);
  if(k == 0) { const int n = size(); Mem<T> m(1 + mc::choose(3), n); cml::vector<T, cml::external<>> v(m.at(), n); const cml::vector<const T, cml::external<>> cv(m.at(), n); return vector_ops(m, v, cv, n); }
  if constexpr(Fixed) one_of(Ns(), [](auto N) { constexpr int n = decltype(N)::value; Mem<T> m(1 + mc::choose(3), n); cml::vector<T, cml::external<n>> v(m.at()); const cml::vector<const T, cml::external<n>> cv(m.at()); return vector_ops(m, v, cv, n); });
}
template<class T, class B, class L, class M, class CM> void matrix_ops(Mem<T>& m, M& v, const CM& cv, int r, int c)
{
  constexpr bool rm = std::is_same_v<L, cml::row_major>, run = std::is_same_v<M, cml::matrix<T, cml::external<>, B, L>>;
  auto ix = [&](int i, int j) { return rm ? i * v.cols() + j : j * v.rows() + i; };
  auto view = [&](const char* what) {
    MC_CHECK(v.data() == m.at() && v.end() == m.at() + r * c && v.rows() * v.cols() == r * c, "rebound", what);
    for(int i = 0; i < v.rows(); ++i) for(int j = 0; j < v.cols(); ++j) MC_CHECK(v(i, j) == m[ix(i, j)] && v.get(i, j) == m[ix(i, j)] && (v.rows() != r || cv(i, j) == m[ix(i, j)]), "large", what << ": view element (" << i << "," << j << ") of " << r << "x" << c);
    m.check(what); mc::Hash h; h(v.rows()); for(int i = 0; i < r * c; ++i) h(double(m[i])); mc::state(h);
  };
  cml::matrix<T, cml::dynamic<>, B, L> d(r, c); cml::matrix<T, cml::dynamic<>, B, std::conditional_t<rm, cml::col_major, cml::row_major>> x(r, c);
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) { d(i, j) = T(val(i * c + j, 3)); x(i, j) = T(val(i * c + j, 4)); }
  const int I = r ? mc::choose(3) * (r - 1) / 2 : 0, J = c ? mc::choose(3) * (c - 1) / 2 : 0;
  auto each = [&](auto f) { for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) m[ix(i, j)] = T(f(i, j)); };
  switch(mc::choose(14)) {
  case 0: return view("construct");
  case 1: if(!r || !c) return; v(I, J) = T(4242); m[ix(I, J)] = T(4242); return view("m(i,j) =");
  case 2: if(!r || !c) return; m.at()[ix(I, J)] = T(4242); m[ix(I, J)] = T(4242); return view("raw write");
  case 3: v = d; each([&](int i, int j) { return d(i, j); }); return view("= dynamic");
  case 4: v = x; each([&](int i, int j) { return x(i, j); }); return view("= other layout");
  case 5: v = d - x; each([&](int i, int j) { return d(i, j) - x(i, j); }); return view("= expression");
  case 6: v += x; each([&](int i, int j) { return m[ix(i, j)] + x(i, j); }); return view("+= other layout");
  case 7: v *= T(3); each([&](int i, int j) { return m[ix(i, j)] * 3; }); return view("*=");
  case 8: v.identity(); each([&](int i, int j) { return i == j; }); return view("identity");
  case 9: v.fill(T(9)); each([&](int, int) { return 9; }); return view("fill");
  case 10: if(!r || !c) return; { cml::vector<T, cml::dynamic<>> u(c); for(int j = 0; j < c; ++j) { u[j] = T(5000 + j); m[ix(I, j)] = u[j]; } v.set_row(I, u); return view("set_row"); }
  case 11: if(!r || !c) return; { cml::vector<T, cml::dynamic<>> u(r); for(int i = 0; i < r; ++i) { u[i] = T(5000 + i); m[ix(i, J)] = u[i]; } v.set_col(J, u); return view("set_col"); }
  case 12: if constexpr(run) { v.resize(c, r); MC_CHECK(v.rows() == c && v.cols() == r, "size", "resize"); return view("resize, same count"); } return;
  case 13: if constexpr(run) { M t(m.at(), r, c); M q(std::move(t)); if(r && c) { q(r - 1, c - 1) = T(4242); m[r * c - 1] = T(4242); } return view("moved view"); } return;
  }
}
template<class T, class B, class L, bool Fixed> void mats()
{
  const int k = mc::choose(Fixed ? 2 : 1);
  if(k == 0) { const int r = dim(), c = dim(); Mem<T> m(1 + mc::choose(2) * 2, r * c); cml::matrix<T, cml::external<>, B, L> v(m.at(), r, c); const cml::matrix<const T, cml::external<>, B, L> cv(m.at(), r, c); return matrix_ops<T, B, L>(m, v, cv, r, c); }
  if constexpr(Fixed) shapes([](auto R, auto C) { constexpr int r = decltype(R)::value, c = decltype(C)::value; Mem<T> m(1 + mc::choose(2) * 2, r * c); cml::matrix<T, cml::external<r, c>, B, L> v(m.at()); const cml::matrix<const T, cml::external<r, c>, B, L> cv(m.at()); return matrix_ops<T, B, L>(m, v, cv, r, c); });
}
struct R { R() {
  mc::add("large vector double", vecs<double, true>); mc::add("large vector int", vecs<int, false>);
  mc::add("large matrix double row basis row major", mats<double, cml::row_basis, cml::row_major, true>);
  mc::add("large matrix double col basis col major", mats<double, cml::col_basis, cml::col_major, false>);
  mc::add("large matrix int row basis col major", mats<int, cml::row_basis, cml::col_major, false>);
} } r;
}
