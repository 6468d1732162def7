// E07: expressions kept for later own their temporaries and refer to their
// named operands: every operand that was a temporary is destroyed and
// overwritten, every named operand gets new values, and only then is the
// expression (stored, moved from, copied, or returned) read.
#pragma once
#include "all.h"
#include "pool.h"
#include "ref.h"
#include <functional>
#include <memory>
#include <utility>

namespace e07 {
using namespace ref;
using cml::row_basis; using cml::col_basis; using cml::row_major; using cml::col_major;
using VF = cml::vector<double, cml::fixed<3>>;
using VD = cml::vector<double, cml::dynamic<>>;
using VE = cml::vector<double, cml::external<3>>;
using MF = cml::matrix<double, cml::fixed<2, 3>, col_basis, row_major>;
using MD = cml::matrix<double, cml::dynamic<>, row_basis, col_major>;
using ME = cml::matrix<double, cml::external<>, col_basis, col_major>;
using Q = cml::quaternion<double, cml::fixed<>, cml::real_first, cml::positive_cross>;
using QN = cml::quaternion<double, cml::fixed<>, cml::imaginary_first, cml::negative_cross>;
using VFn = std::function<vec()>;
using MFn = std::function<mat()>;

struct Env
{
  bool change; // whether named operands get new values before the read
  vec g[3]; mat m[3]; vec q[3];
  VF vf[3]; std::unique_ptr<VD> vd[3]; double buf[3][3]; std::unique_ptr<VE> ve[3];
  MF mf[3]; std::unique_ptr<MD> md[3]; double mbuf[3][6]; std::unique_ptr<ME> me[3];
  Q qa[3]; QN qb[3];
  double k = -2;
  Pool pool;
  Env() { for(int i = 0; i < 3; ++i) { vd[i] = std::make_unique<VD>(3); ve[i] = std::make_unique<VE>(buf[i]); md[i] = std::make_unique<MD>(2, 3); me[i] = std::make_unique<ME>(mbuf[i], 2, 3); } load(0); }
  void load(int epoch)
  {
    for(int s = 0; s < 3; ++s) {
      g[s].resize(3); m[s] = mat(2, 3); q[s].resize(4);
      for(int i = 0; i < 3; ++i) { const double x = (s + 2) * (i + 1) + 17 * epoch * (i - 1) - (i == s ? 5 : 0); g[s][size_t(i)] = x; vf[s][i] = x; (*vd[s])[i] = x; buf[s][i] = x; }
      for(int i = 0; i < 2; ++i) for(int j = 0; j < 3; ++j) { const double x = 10 * s + 4 * i - j * j + 31 * epoch * (i + j); m[s](i, j) = x; mf[s](i, j) = x; (*md[s])(i, j) = x; (*me[s])(i, j) = x; }
      for(int i = 0; i < 4; ++i) { const double x = (i == s ? 4 : 1 - i) + 8 * epoch + s; q[s][size_t(i)] = x; }
      for(int i = 0; i < 4; ++i) { qa[s].put(i, q[s][size_t(i)]); qb[s].put((i + 3) % 4, q[s][size_t(i)]); }
    }
  }
  void settle() { pool.kill(); if(change) load(1); }
};
inline std::unique_ptr<Env> make(bool mutate = true) { auto e = std::make_unique<Env>(); e->change = mutate && mc::choose(2); return e; }

// Read expression `e` (any kind) in one of the ways it can be kept.
template<class E, class Check> void keep(Env& env, E&& e, Check check)
{
  using X = std::decay_t<E>;
  const int form = mc::choose(5);
  switch(form) {
  case 0: { auto p = std::make_unique<X>(std::forward<E>(e)); env.settle(); check(*p, "a stored expression"); break; }
  case 1: { auto p = std::make_unique<X>(std::forward<E>(e)); auto r = std::make_unique<X>(std::move(*p)); p.reset(); env.settle(); check(*r, "a moved expression"); break; }
  case 2: { auto p = std::make_unique<X>(std::forward<E>(e)); auto r = std::make_unique<X>(std::as_const(*p)); p.reset(); env.settle(); check(*r, "a copied expression"); break; }
  case 3: { auto p = std::make_unique<X>(std::forward<E>(e)); auto make = [&]() -> X { X local(*p); return local; }; X r = make(); p.reset(); env.settle(); check(r, "a returned expression"); break; }
  case 4: { auto p = std::make_unique<X>(std::forward<E>(e)); env.settle(); check(static_cast<const X&>(*p), "an expression read repeatedly"); check(*p, "an expression read repeatedly"); break; }
  }
  mc::step();
}
template<class E> void keepv(Env& env, const char* what, E&& e, const VFn& f)
{
  keep(env, std::forward<E>(e), [&](const auto& x, const char* how) {
    const vec want = f(), got = read(x);
    MC_CHECK(same(got, want), "vector", how << " " << what << " reads " << got << ", expected " << want);
    cml::vector<double, cml::dynamic<>> d(x); MC_CHECK(same(read(d), want), "vector", how << " " << what << " stores " << read(d) << ", expected " << want);
    mc::state(hash(want));
  });
}
template<class E> void keepm(Env& env, const char* what, E&& e, const MFn& f)
{
  keep(env, std::forward<E>(e), [&](const auto& x, const char* how) {
    const mat want = f(), got = readm(x);
    MC_CHECK(same(got, want), "matrix", how << " " << what << " reads " << got << ", expected " << want);
    cml::matrix<double, cml::dynamic<>> d(x); MC_CHECK(same(readm(d), want), "matrix", how << " " << what << " stores " << readm(d) << ", expected " << want);
    mc::state(hash(want));
  });
}
// ---- leaves: lvalues, const lvalues and temporaries ---------------------
enum { VFixL, VDynL, VDynC, VExtL, VFixT, VDynT };
template<int K, class F> void vleaf(Env& e, int s, F f)
{
  Env* p = &e; const vec now = e.g[s];
  const VFn live = [p, s] { return p->g[s]; }, kept = [now] { return now; };
  if constexpr(K == VFixL) f(e.vf[s], live);
  if constexpr(K == VDynL) f(*e.vd[s], live);
  if constexpr(K == VDynC) f(std::as_const(*e.vd[s]), live);
  if constexpr(K == VExtL) f(*e.ve[s], live);
  if constexpr(K == VFixT) f(e.pool(VF(e.vf[s])), kept);
  if constexpr(K == VDynT) f(e.pool(VD(*e.vd[s])), kept);
}
enum { MFixL, MDynL, MDynC, MExtL, MFixT, MDynT };
template<int K, class F> void mleaf(Env& e, int s, F f)
{
  Env* p = &e; const mat now = e.m[s];
  const MFn live = [p, s] { return p->m[s]; }, kept = [now] { return now; };
  if constexpr(K == MFixL) f(e.mf[s], live);
  if constexpr(K == MDynL) f(*e.md[s], live);
  if constexpr(K == MDynC) f(std::as_const(*e.md[s]), live);
  if constexpr(K == MExtL) f(*e.me[s], live);
  if constexpr(K == MFixT) f(e.pool(MF(e.mf[s])), kept);
  if constexpr(K == MDynT) f(e.pool(MD(*e.md[s])), kept);
}
// ---- operators ------------------------------------------------------------
enum { Plus, Minus, Cross, Had, BINARY };
template<int O, class A, class B, class F> void vbin(A&& a, const VFn& x, B&& b, const VFn& y, F f)
{
  const VFn r = [x, y] { vec p = x(), q = y(), z(3); for(size_t i = 0; i < 3; ++i) z[i] = O == Plus ? p[i] + q[i] : O == Minus ? p[i] - q[i] : p[i] * q[i]; return O == Cross ? cross(p, q) : z; };
  if constexpr(O == Plus) f(std::forward<A>(a) + std::forward<B>(b), r);
  if constexpr(O == Minus) f(std::forward<A>(a) - std::forward<B>(b), r);
  if constexpr(O == Cross) f(cml::cross(std::forward<A>(a), std::forward<B>(b)), r);
  if constexpr(O == Had) f(cml::hadamard(std::forward<A>(a), std::forward<B>(b)), r);
}
enum { Neg, Pos, MulR, MulL, Div, Sub, UNARY };
template<int O, class A, class F> void vun(Env& e, A&& a, const VFn& x, F f)
{
  const double k = e.k; const int skip = O == Sub ? mc::choose(3) : 0;
  const VFn r = [x, k, skip] { vec p = x(); if(O == Sub) { p.erase(p.begin() + skip); return p; } for(double& t : p) t = O == Neg ? -t : O == Pos ? t : O == Div ? t / k : t * k; return p; };
  if constexpr(O == Neg) f(-std::forward<A>(a), r);
  if constexpr(O == Pos) f(+std::forward<A>(a), r);
  if constexpr(O == MulR) f(std::forward<A>(a) * double(k), r);
  if constexpr(O == MulL) f(double(k) * std::forward<A>(a), r);
  if constexpr(O == Div) f(std::forward<A>(a) / double(k), r);
  if constexpr(O == Sub) f(cml::subvector(std::forward<A>(a), skip), r);
}
enum { MPlus, MMinus, MHad };
template<int O, class A, class B, class F> void mbin(A&& a, const MFn& x, B&& b, const MFn& y, F f)
{
  const MFn r = [x, y] { mat p = x(), q = y(); for(size_t i = 0; i < p.d.size(); ++i) p.d[i] = O == MPlus ? p.d[i] + q.d[i] : O == MMinus ? p.d[i] - q.d[i] : p.d[i] * q.d[i]; return p; };
  if constexpr(O == MPlus) f(std::forward<A>(a) + std::forward<B>(b), r);
  if constexpr(O == MMinus) f(std::forward<A>(a) - std::forward<B>(b), r);
  if constexpr(O == MHad) f(cml::hadamard(std::forward<A>(a), std::forward<B>(b)), r);
}
enum { MNeg, MPos, MMulR, MMulL, MDiv, MTra };
template<int O, class A, class F> void mun(Env& e, A&& a, const MFn& x, F f)
{
  const double k = e.k;
  const MFn r = [x, k] { mat p = x(); if(O == MTra) return transpose(p); for(double& t : p.d) t = O == MNeg ? -t : O == MPos ? t : O == MDiv ? t / k : t * k; return p; };
  if constexpr(O == MNeg) f(-std::forward<A>(a), r);
  if constexpr(O == MPos) f(+std::forward<A>(a), r);
  if constexpr(O == MMulR) f(std::forward<A>(a) * double(k), r);
  if constexpr(O == MMulL) f(double(k) * std::forward<A>(a), r);
  if constexpr(O == MDiv) f(std::forward<A>(a) / double(k), r);
  if constexpr(O == MTra) f(cml::transpose(std::forward<A>(a)), r);
}
// A matrix expression's row/col views.
enum { Row, Col };
template<int O, class A, class F> void view(A&& a, const MFn& x, F f)
{
  const int i = mc::choose(2);
  const VFn r = [x, i] { mat p = x(); vec z; for(int j = 0; j < (O == Row ? p.c : p.r); ++j) z.push_back(O == Row ? p(i, j) : p(j, i)); return z; };
  if constexpr(O == Row) f(cml::row(std::forward<A>(a), i), r);
  if constexpr(O == Col) f(cml::col(std::forward<A>(a), i), r);
}
// ---- scenarios ------------------------------------------------------------
template<int O, int A, int B> void v1b() { auto e = make(); vleaf<A>(*e, 0, [&](auto&& a, const VFn& x) { vleaf<B>(*e, 1, [&](auto&& b, const VFn& y) { vbin<O>(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y, [&](auto&& r, const VFn& f) { keepv(*e, "binary", std::forward<decltype(r)>(r), f); }); }); }); }
template<int O, int A> void v1u() { auto e = make(); vleaf<A>(*e, 0, [&](auto&& a, const VFn& x) { vun<O>(*e, std::forward<decltype(a)>(a), x, [&](auto&& r, const VFn& f) { keepv(*e, "unary", std::forward<decltype(r)>(r), f); }); }); }
// Inner expression handed on as a temporary, or as a named (live) expression.
template<class Inner, class Outer> void nest(Env& e, Inner inner, Outer outer)
{
  inner([&](auto&& x, const auto& f) {
    using X = std::decay_t<decltype(x)>;
    if(mc::choose(2)) { auto named = std::make_unique<X>(x); outer(*named, f); }
    else outer(e.pool(X(x)), f);
  });
}
template<int O1, int A, int B, int O2> void v2bu()
{
  auto e = make();
  nest(*e, [&](auto f) { vleaf<A>(*e, 0, [&](auto&& a, const VFn& x) { vleaf<B>(*e, 1, [&](auto&& b, const VFn& y) { vbin<O1>(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y, f); }); }); },
    [&](auto&& i, const VFn& g) { vun<O2>(*e, std::forward<decltype(i)>(i), g, [&](auto&& r, const VFn& f) { keepv(*e, "unary of binary", std::forward<decltype(r)>(r), f); }); });
}
template<int O1, int A, int B, int O2, int C> void v2bb()
{
  auto e = make(); const int side = mc::choose(2);
  nest(*e, [&](auto f) { vleaf<A>(*e, 0, [&](auto&& a, const VFn& x) { vleaf<B>(*e, 1, [&](auto&& b, const VFn& y) { vbin<O1>(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y, f); }); }); },
    [&](auto&& i, const VFn& g) { vleaf<C>(*e, 2, [&](auto&& c, const VFn& z) {
      auto fin = [&](auto&& r, const VFn& f) { keepv(*e, "binary of binary", std::forward<decltype(r)>(r), f); };
      if(side) vbin<O2>(std::forward<decltype(i)>(i), g, std::forward<decltype(c)>(c), z, fin);
      else vbin<O2>(std::forward<decltype(c)>(c), z, std::forward<decltype(i)>(i), g, fin);
    }); });
}
template<int O1, int A, int O2, int C> void v2ub()
{
  auto e = make();
  nest(*e, [&](auto f) { vleaf<A>(*e, 0, [&](auto&& a, const VFn& x) { vun<O1>(*e, std::forward<decltype(a)>(a), x, f); }); },
    [&](auto&& i, const VFn& g) { vleaf<C>(*e, 2, [&](auto&& c, const VFn& z) { vbin<O2>(std::forward<decltype(c)>(c), z, std::forward<decltype(i)>(i), g, [&](auto&& r, const VFn& f) { keepv(*e, "binary of unary", std::forward<decltype(r)>(r), f); }); }); });
}
template<int O, int A, int B> void m1b() { auto e = make(); mleaf<A>(*e, 0, [&](auto&& a, const MFn& x) { mleaf<B>(*e, 1, [&](auto&& b, const MFn& y) { mbin<O>(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y, [&](auto&& r, const MFn& f) { keepm(*e, "binary", std::forward<decltype(r)>(r), f); }); }); }); }
template<int O, int A> void m1u() { auto e = make(); mleaf<A>(*e, 0, [&](auto&& a, const MFn& x) { mun<O>(*e, std::forward<decltype(a)>(a), x, [&](auto&& r, const MFn& f) { keepm(*e, "unary", std::forward<decltype(r)>(r), f); }); }); }
template<int O, int A> void mview() { auto e = make(); mleaf<A>(*e, 0, [&](auto&& a, const MFn& x) { view<O>(std::forward<decltype(a)>(a), x, [&](auto&& r, const VFn& f) { keepv(*e, "row or column", std::forward<decltype(r)>(r), f); }); }); }
template<int O1, int A, int B, int O2> void m2bu()
{
  auto e = make();
  nest(*e, [&](auto f) { mleaf<A>(*e, 0, [&](auto&& a, const MFn& x) { mleaf<B>(*e, 1, [&](auto&& b, const MFn& y) { mbin<O1>(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y, f); }); }); },
    [&](auto&& i, const MFn& g) { mun<O2>(*e, std::forward<decltype(i)>(i), g, [&](auto&& r, const MFn& f) { keepm(*e, "unary of binary", std::forward<decltype(r)>(r), f); }); });
}
template<int O1, int A, int O2, int C> void m2ub()
{
  auto e = make();
  nest(*e, [&](auto f) { mleaf<A>(*e, 0, [&](auto&& a, const MFn& x) { mun<O1>(*e, std::forward<decltype(a)>(a), x, f); }); },
    [&](auto&& i, const MFn& g) { mleaf<C>(*e, 2, [&](auto&& c, const MFn& z) { mbin<O2>(std::forward<decltype(i)>(i), g, std::forward<decltype(c)>(c), z, [&](auto&& r, const MFn& f) { keepm(*e, "binary of unary", std::forward<decltype(r)>(r), f); }); }); });
}
template<int O1, int A, int O2> void m2uv()
{
  auto e = make();
  nest(*e, [&](auto f) { mleaf<A>(*e, 0, [&](auto&& a, const MFn& x) { mun<O1>(*e, std::forward<decltype(a)>(a), x, f); }); },
    [&](auto&& i, const MFn& g) { view<O2>(std::forward<decltype(i)>(i), g, [&](auto&& r, const VFn& f) { keepv(*e, "row or column of an expression", std::forward<decltype(r)>(r), f); }); });
}
// Views of views feeding vector expressions: 2*row(A), row(A,i)+row(B,j), outer products and their rows.
template<int A, int B> void mixed()
{
  auto e = make(); const int op = mc::choose(5);
  mleaf<A>(*e, 0, [&](auto&& a, const MFn& x) { mleaf<B>(*e, 1, [&](auto&& b, const MFn& y) {
    const VFn rx = [x] { mat m = x(); return vec{m(1, 0), m(1, 1), m(1, 2)}; }, ry = [y] { mat m = y(); return vec{m(0, 0), m(0, 1), m(0, 2)}; };
    switch(op) {
    case 0: return keepv(*e, "2*row(A)", 2. * e->pool(cml::row(std::forward<decltype(a)>(a), 1)), [rx] { return scale(rx(), 2); });
    case 1: return keepv(*e, "row(A)+row(B)", e->pool(cml::row(std::forward<decltype(a)>(a), 1)) + e->pool(cml::row(std::forward<decltype(b)>(b), 0)), [rx, ry] { return add(rx(), ry()); });
    case 2: return keepv(*e, "cross(row(A),row(B))", cml::cross(e->pool(cml::row(std::forward<decltype(a)>(a), 1)), e->pool(cml::row(std::forward<decltype(b)>(b), 0))), [rx, ry] { return cross(rx(), ry()); });
    case 3: return keepm(*e, "outer(row(A),row(B))", cml::outer(e->pool(cml::row(std::forward<decltype(a)>(a), 1)), e->pool(cml::row(std::forward<decltype(b)>(b), 0))), [rx, ry] { mat m(3, 3); for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) m(i, j) = rx()[size_t(i)] * ry()[size_t(j)]; return m; });
    case 4: return keepv(*e, "col(transpose(A))", cml::col(e->pool(cml::transpose(std::forward<decltype(a)>(a))), 1), rx);
    }
  }); });
}
template<int A, int B> void outers()
{
  auto e = make(); const int op = mc::choose(2);
  vleaf<A>(*e, 0, [&](auto&& a, const VFn& x) { vleaf<B>(*e, 1, [&](auto&& b, const VFn& y) {
    const MFn o = [x, y] { mat m(3, 3); for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) m(i, j) = x()[size_t(i)] * y()[size_t(j)]; return m; };
    if(op == 0) keepm(*e, "outer(v,w)", cml::outer(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)), o);
    else keepv(*e, "row(outer(v,w))", cml::row(e->pool(cml::outer(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b))), 2), [o] { mat m = o(); return vec{m(2, 0), m(2, 1), m(2, 2)}; });
  }); });
}
// Basis views and normalisation (which may precompute the length: named operands keep their value).
template<int A> void basis_views()
{
  auto e = make(); const int i = mc::choose(2);
  mleaf<A>(*e, 0, [&](auto&& a, const MFn& x) {
    constexpr bool row = std::is_same_v<cml::basis_tag_trait_of_t<std::decay_t<decltype(a)>>, cml::row_basis>;
    keepv(*e, "basis(A)", cml::basis(std::forward<decltype(a)>(a), i), [x, i] { mat m = x(); vec z; for(int j = 0; j < (row ? m.c : m.r); ++j) z.push_back(row ? m(i, j) : m(j, i)); return z; });
  });
}
template<int A> void normal()
{
  auto e = make(false);
  vleaf<A>(*e, 0, [&](auto&& a, const VFn& x) { keep(*e, cml::normalize(std::forward<decltype(a)>(a)), [&](const auto& n, const char* how) { MC_CHECK(near(read(n), unit(x()), 1e-14), "vector", how << " normalize(v) reads " << read(n)); }); });
}
// ---- quaternions -----------------------------------------------------------
template<class T> vec rq(const T& q) { return {double(q.w()), double(q.x()), double(q.y()), double(q.z())}; }
template<class T> T& named(Env& e, int s) { if constexpr(std::is_same_v<T, Q>) return e.qa[s]; else return e.qb[s]; }
template<class T, int K, class F> void qleaf(Env& e, int s, F f)
{
  Env* p = &e; const vec now = e.q[s];
  if constexpr(K == 0) f(named<T>(e, s), VFn([p, s] { return p->q[s]; }));
  if constexpr(K == 1) f(std::as_const(named<T>(e, s)), VFn([p, s] { return p->q[s]; }));
  if constexpr(K == 2) f(e.pool(T(named<T>(e, s))), VFn([now] { return now; }));
}
template<class E> void keepq(Env& env, const char* what, E&& e, const VFn& f)
{
  keep(env, std::forward<E>(e), [&](const auto& x, const char* how) { const vec want = f(); MC_CHECK(same(rq(x), want), "quaternion", how << " " << what << " reads " << rq(x) << ", expected " << want); mc::state(hash(want)); });
}
template<class T, int A, int B> void q1()
{
  auto e = make(); const int op = mc::choose(10); const double k = e->k;
  qleaf<T, A>(*e, 0, [&](auto&& a, const VFn& x) { qleaf<T, B>(*e, 1, [&](auto&& b, const VFn& y) {
    auto conj = [](vec v) { for(int i = 1; i < 4; ++i) v[size_t(i)] = -v[size_t(i)]; return v; };
#define FA std::forward<decltype(a)>(a)
#define FB std::forward<decltype(b)>(b)
    switch(op) {
    case 0: return keepq(*e, "q+r", FA + FB, [x, y] { return add(x(), y()); });
    case 1: return keepq(*e, "q-r", FA - FB, [x, y] { return add(x(), y(), -1); });
    case 2: return keepq(*e, "-q", -FA, [x] { return scale(x(), -1); });
    case 3: return keepq(*e, "q*k", FA * double(k), [x, k] { return scale(x(), k); });
    case 4: return keepq(*e, "k*q", double(k) * FA, [x, k] { return scale(x(), k); });
    case 5: return keepq(*e, "q/k", FA / double(k), [x, k] { return scale(x(), 1 / k); });
    case 6: return keepq(*e, "conjugate(q)", cml::conjugate(FA), [x, conj] { return conj(x()); });
    case 7: return keepv(*e, "imaginary(q)", cml::imaginary(FA), [x] { vec v = x(); v.erase(v.begin()); return v; });
    case 8: return keepq(*e, "conjugate(q+r)", cml::conjugate(e->pool(FA + FB)), [x, y, conj] { return conj(add(x(), y())); });
    case 9: return keepq(*e, "(k*q)-r", e->pool(double(k) * FA) - FB, [x, y, k] { return add(scale(x(), k), y(), -1); });
    }
  }); });
}
// inverse() and the const forms of normalize() keep a length computed when they
// are built.  `old` is the operand's value at that time.
inline double norm2(const vec& v) { double n = 0; for(double d : v) n += d * d; return n; }
template<class X> void divided(const X& got, const char* how, const char* what, vec now, const vec& old, bool inv)
{
  auto by = [&](const vec& v) { return inv ? norm2(v) : std::sqrt(norm2(v)); };
  if(inv) for(size_t i = 1; i < 4; ++i) now[i] = -now[i];
  const vec want = scale(now, 1 / by(now)), mix = scale(now, 1 / by(old));
  mc::state(hash(got));
  if(near(got, want, 1e-14)) return;
  MC_CHECK(!near(got, mix, 1e-14), "length-kept", how << " " << what << " of a named operand written since reads " << got << ", the new elements over the old length; expected " << want);
  MC_CHECK(false, "quaternion", how << " " << what << " reads " << got << ", expected " << want);
}
template<int K> void vlength()
{
  auto e = make(); Env* p = e.get();
  vleaf<K>(*e, 0, [&](auto&& a, const VFn& x) {
    const vec old = x(); (void) p;
    if constexpr(std::is_lvalue_reference_v<decltype(a)>)
      keep(*e, std::as_const(a).normalize(), [&](const auto& r, const char* how) { divided(read(r), how, "normalize(v)", x(), old, false); });
  });
}
template<class T, int A> void qlength()
{
  auto e = make(); const int op = mc::choose(2);
  qleaf<T, A>(*e, 0, [&](auto&& a, const VFn& x) {
    const vec old = x();
    if(op == 0) return keep(*e, cml::inverse(FA), [&](const auto& r, const char* how) { divided(rq(r), how, "inverse(q)", x(), old, true); });
    if constexpr(std::is_lvalue_reference_v<decltype(a)>)
      keep(*e, std::as_const(a).normalize(), [&](const auto& r, const char* how) { divided(rq(r), how, "normalize(q)", x(), old, false); });
  });
}
template<class T, int A> void q2()
{
  auto e = make(false); const int op = mc::choose(4);
  qleaf<T, A>(*e, 0, [&](auto&& a, const VFn& x) {
    const vec g = x(); double n = 0; for(double d : g) n += d * d;
    auto chk = [&](const vec& want) { return [&, want](const auto& r, const char* how) { MC_CHECK(near(rq(r), want, 1e-14), "quaternion", how << " (op " << op << ") reads " << rq(r) << ", expected " << want); }; };
    switch(op) {
    case 0: return keep(*e, cml::inverse(FA), chk({g[0] / n, -g[1] / n, -g[2] / n, -g[3] / n}));
    case 1: return keep(*e, cml::normalize(FA), chk(scale(g, 1 / std::sqrt(n))));
    case 2: return keepv(*e, "imaginary(conjugate(q))", cml::imaginary(e->pool(cml::conjugate(FA))), [g] { return vec{-g[1], -g[2], -g[3]}; });
    case 3: return keepv(*e, "2*imaginary(q)", 2. * e->pool(cml::imaginary(FA)), [g] { return vec{2 * g[1], 2 * g[2], 2 * g[3]}; });
    }
  });
}
}
