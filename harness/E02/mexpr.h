// E02: matrix expressions equal eager element-by-element evaluation (see E01).
#pragma once
#include "all.h"
#include "pool.h"
#include "ref.h"
#include <utility>

namespace e02 {
using namespace ref;
using cml::row_basis; using cml::col_basis; using cml::row_major; using cml::col_major;

// One RxC operand in every storage kind; t holds the same matrix transposed.
template<int R, int C> struct Slot
{
  mat g;
  cml::matrix<double, cml::fixed<R, C>> f;                                  // column basis, row major
  cml::matrix<double, cml::fixed<R, C>, row_basis, col_major> fc;
  cml::matrix<double, cml::dynamic<>, row_basis, row_major> d;
  cml::matrix<double, cml::dynamic<>, col_basis, col_major> dc;
  double x[R * C + 2];
  cml::matrix<double, cml::external<R, C>, col_basis, col_major> e;
  cml::matrix<double, cml::external<>, col_basis, col_major> de;
  cml::matrix<const double, cml::external<R, C>, col_basis, col_major> ce;
  cml::matrix<double, cml::fixed<C, R>> tf;
  cml::matrix<double, cml::dynamic<>, col_basis, col_major> td;
  explicit Slot(const mat& a) : g(a), d(R, C), dc(R, C), e(x + 1), de(x + 1, R, C), ce(x + 1), td(C, R)
  {
    x[0] = x[R * C + 1] = -77;
    for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) { const double v = a(i, j); f.put(i, j, v); fc.put(i, j, v); d.put(i, j, v); dc.put(i, j, v); e.put(i, j, v); tf.put(j, i, v); td.put(j, i, v); }
  }
  void check() const
  {
    MC_CHECK(same(readm(f), g) && same(readm(fc), g) && same(readm(d), g) && same(readm(dc), g) && same(readm(e), g) && same(readm(tf), transpose(g)) && same(readm(td), transpose(g)) && x[0] == -77 && x[R * C + 1] == -77,
      "operand-changed", "a named operand changed: fixed " << readm(f) << ", dynamic " << readm(d) << ", expected " << g);
  }
};
template<int R, int C> struct Env
{
  Slot<R, C> s[4];
  double k;
  Pool pool;
  int sl[4];
  Env(double kk, const mat (&p)[4]) : s{Slot<R, C>(p[0]), Slot<R, C>(p[1]), Slot<R, C>(p[2]), Slot<R, C>(p[3])}, k(kk) { for(int i = 0; i < 4; ++i) sl[i] = i; }
};
enum { FixL, FixC, FixT, DynL, DynT, DynCL, ExtL, ExtT, CExt, TraL, TraT, KINDS };
template<int K, int R, int C, class F> void leaf(Env<R, C>& env, int slot, F f)
{
  auto& s = env.s[env.sl[slot]];
  if constexpr(K == FixL) f(s.f, s.g);
  if constexpr(K == FixC) f(std::as_const(s.fc), s.g);
  if constexpr(K == FixT) f(env.pool(cml::matrix<double, cml::fixed<R, C>, row_basis, col_major>(s.fc)), s.g);
  if constexpr(K == DynL) f(s.d, s.g);
  if constexpr(K == DynT) f(env.pool(cml::matrix<double, cml::dynamic<>, col_basis, col_major>(s.dc)), s.g);
  if constexpr(K == DynCL) f(s.dc, s.g);
  if constexpr(K == ExtL) f(s.e, s.g);
  if constexpr(K == ExtT) f(env.pool(-(-s.de)), s.g);
  if constexpr(K == CExt) f(s.ce, s.g);
  if constexpr(K == TraL) f(env.pool(cml::transpose(s.tf)), s.g);
  if constexpr(K == TraT) f(env.pool(cml::transpose(cml::matrix<double, cml::dynamic<>, col_basis, col_major>(s.td))), s.g);
}
template<int... Ks> struct Kinds {};
template<int R, int C, class F, int... Ks> void leaves(Kinds<Ks...>, Env<R, C>& env, int slot, F f)
{
  const int c = mc::choose(int(sizeof...(Ks)));
  int i = 0;
  (void) std::initializer_list<int>{(i++ == c ? (leaf<Ks, R, C>(env, slot, f), 0) : 0)...};
}
enum { Plus, Minus, Had, Neg, Pos, MulR, MulL, Div };
template<int O, class A, class B, class F> void binary(A&& a, const mat& x, B&& b, const mat& y, F f)
{
  mat r(x.r, x.c);
  for(size_t i = 0; i < x.d.size(); ++i) r.d[i] = O == Plus ? x.d[i] + y.d[i] : O == Minus ? x.d[i] - y.d[i] : x.d[i] * y.d[i];
  if constexpr(O == Plus) f(std::forward<A>(a) + std::forward<B>(b), r);
  if constexpr(O == Minus) f(std::forward<A>(a) - std::forward<B>(b), r);
  if constexpr(O == Had) f(cml::hadamard(std::forward<A>(a), std::forward<B>(b)), r);
}
template<int O, class A, class F> void unary(A&& a, const mat& x, double k, F f)
{
  mat r(x);
  for(double& t : r.d) t = O == Neg ? -t : O == Pos ? t : O == Div ? t / k : t * k;
  if constexpr(O == Neg) f(-std::forward<A>(a), r);
  if constexpr(O == Pos) f(+std::forward<A>(a), r);
  if constexpr(O == MulR) f(std::forward<A>(a) * k, r);
  if constexpr(O == MulL) f(k * std::forward<A>(a), r);
  if constexpr(O == Div) f(std::forward<A>(a) / k, r);
}
template<int R, int C, bool Full, bool Keep = false, class X> void sink(Env<R, C>& env, X&& e, const mat& r)
{
  if(!Keep) env.pool.kill(); // no temporary may be needed any more
  const mat got = readm(e);
  MC_CHECK(same(got, r), "element", "expression reads " << got << ", expected " << r);
  for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) MC_CHECK(e(i, j) == r(i, j), "element", "expression(" << i << "," << j << ") is " << e(i, j) << ", expected " << r);
  { auto copy = e; const mat g = readm(copy); MC_CHECK(same(g, r), "copied-expression", "a copy of the expression reads " << g << ", expected " << r); }
  { cml::matrix<double, cml::dynamic<>> d(e); MC_CHECK(same(readm(d), r), "construct", "matrix constructed from the expression is " << readm(d) << ", expected " << r); }
  { cml::matrix<double, cml::fixed<R, C>> d; d = e; MC_CHECK(same(readm(d), r), "assign", "matrix assigned from the expression is " << readm(d) << ", expected " << r); }
  if constexpr(Full) {
    { cml::matrix<double, cml::fixed<R, C>, row_basis, col_major> d(e); MC_CHECK(same(readm(d), r), "construct", "fixed column-major matrix constructed from the expression is " << readm(d) << ", expected " << r); }
    { cml::matrix<double, cml::dynamic<>, col_basis, col_major> d(4, 3); d = e; MC_CHECK(same(readm(d), r), "assign", "column-major matrix assigned from the expression is " << readm(d) << ", expected " << r); }
    { double b[R * C + 2]; b[0] = b[R * C + 1] = 5; cml::matrix<double, cml::external<R, C>> d(b + 1); d = e; MC_CHECK(same(readm(d), r) && b[0] == 5 && b[R * C + 1] == 5, "assign", "view assigned from the expression is " << readm(d) << ", expected " << r); }
    { auto t = cml::transpose(e); MC_CHECK(same(readm(t), transpose(r)), "transpose", "transpose of the expression reads " << readm(t)); cml::matrix<double, cml::fixed<C, R>> d(cml::transpose(e)); MC_CHECK(same(readm(d), transpose(r)), "transpose", "stored transpose is " << readm(d)); }
  }
  { auto moved = std::move(e); const mat g = readm(moved); MC_CHECK(same(g, r), "moved-expression", "the moved expression reads " << g << ", expected " << r); }
  for(const auto& s : env.s) s.check();
  MC_TRACE(r); mc::step(); mc::state(hash(r));
}
template<int R, int C> Env<R, C> make()
{
  static const double a[2][4][9] = {{{3, -1, 4, 2, 11, -5, 6, 13, 8}, {-2, 6, 5, -3, 7, 1, 10, -9, 12}, {7, 8, -4, 1, 0.5, 9, -11, 2, 3}, {0.5, 9, -6, -8, 2, 3, 15, 4, -1}}, {{0, 1e8, -0.25, 5, 1, 1, 0, 2, 0}, {1, 0, 0, -7, 0, 2, 0, 0, 5}, {-1024, 3, 0.125, 0, 0, 1, 8, 0, 1}, {2, -2, 1, -1, 4, 4, 1, 0, 0}}};
  static const double ks[] = {2, -0.5};
  const int w = mc::choose(2), k = mc::choose(2);
  mat p[4]; for(int i = 0; i < 4; ++i) { p[i] = mat(R, C); for(int q = 0; q < R * C; ++q) p[i].d[size_t(q)] = a[w][i][q]; }
  return Env<R, C>(ks[k], p);
}
using All = Kinds<FixL, FixC, FixT, DynL, DynT, DynCL, ExtL, ExtT, CExt, TraL, TraT>;
#ifdef MC_THOROUGH
using Pair = All;
using Right = All;
using Few = Kinds<FixL, DynT, ExtL, TraT>;
using Deep = Kinds<FixL, FixC, DynL, DynT>;
#else
using Pair = Kinds<FixL, FixT, DynT, DynCL, ExtL, TraL>;
using Right = Kinds<FixC, DynL, ExtT, CExt, TraT>;
using Few = Kinds<FixL, DynT, ExtL>;
using Deep = Kinds<FixC, DynT>;
#endif
template<int R, int C, int O> void depth1()
{
  Env<R, C> env = make<R, C>();
  if constexpr(O < Neg) {
    if(mc::choose(2)) env.sl[1] = 0;
    leaves(Pair(), env, 0, [&](auto&& a, const mat& x) {
      leaves(Right(), env, 1, [&](auto&& b, const mat& y) {
        binary<O>(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y, [&](auto&& e, const mat& r) { sink<R, C, false>(env, std::forward<decltype(e)>(e), r); }); }); });
  } else
    leaves(All(), env, 0, [&](auto&& a, const mat& x) { unary<O>(std::forward<decltype(a)>(a), x, env.k, [&](auto&& e, const mat& r) { sink<R, C, true>(env, std::forward<decltype(e)>(e), r); }); });
}
template<class K, int R, int C, class F> void level1(Env<R, C>& env, int slot, F g)
{
  auto f = [&](auto&& e, const mat& r) { g(env.pool(std::move(e)), r); };
  auto un = [&](auto op) { leaves(K(), env, slot, [&](auto&& a, const mat& x) { unary<decltype(op)::value>(std::forward<decltype(a)>(a), x, env.k, f); }); };
  auto bi = [&](auto op) { leaves(K(), env, slot, [&](auto&& a, const mat& x) { leaves(K(), env, slot + 1, [&](auto&& b, const mat& y) { binary<decltype(op)::value>(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y, f); }); }); };
  switch(mc::choose(R == C ? 7 : 6)) {
  case 0: return bi(std::integral_constant<int, Plus>());
  case 1: return bi(std::integral_constant<int, Minus>());
  case 2: return bi(std::integral_constant<int, Had>());
  case 3: return un(std::integral_constant<int, Neg>());
  case 4: return un(std::integral_constant<int, MulL>());
  case 5: return un(std::integral_constant<int, Div>());
  case 6: if constexpr(R == C) leaves(K(), env, slot, [&](auto&& a, const mat& x) { f(cml::transpose(std::forward<decltype(a)>(a)), transpose(x)); }); return;
  }
}
template<int R, int C, int O> void depth2()
{
  Env<R, C> env = make<R, C>();
  auto top = [&](auto&& a, const mat& x, auto&& b, const mat& y) { binary<O>(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y, [&](auto&& e, const mat& r) { sink<R, C, false>(env, std::forward<decltype(e)>(e), r); }); };
  switch(mc::choose(3)) {
  case 0: return level1<Deep>(env, 0, [&](auto&& a, const mat& x) { leaves(Deep(), env, 2, [&](auto&& b, const mat& y) { top(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y); }); });
  case 1: return leaves(Deep(), env, 2, [&](auto&& a, const mat& x) { level1<Deep>(env, 0, [&](auto&& b, const mat& y) { top(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y); }); });
  case 2: return level1<Kinds<DynT>>(env, 0, [&](auto&& a, const mat& x) { level1<Kinds<FixL>>(env, 2, [&](auto&& b, const mat& y) { top(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y); }); });
  }
}
template<int R, int C, int O> void wrap()
{
  Env<R, C> env = make<R, C>();
  level1<Few>(env, 0, [&](auto&& a, const mat& x) {
    auto done = [&](auto&& e, const mat& r) { sink<R, C, false>(env, std::forward<decltype(e)>(e), r); };
    auto keep = [&](auto&& e, const mat& r) { sink<R, C, false, true>(env, std::forward<decltype(e)>(e), r); };
    if(mc::choose(2)) { auto& named = a; unary<O>(named, x, env.k, keep); } else unary<O>(std::forward<decltype(a)>(a), x, env.k, done);
  });
}
// transposes, rows, columns and basis vectors of one-level expressions
template<int R, int C> void select()
{
  Env<R, C> env = make<R, C>();
  const int q = mc::choose(5);
  const int i = q == 1 ? mc::choose(R) : q == 2 ? mc::choose(C) : q == 3 ? mc::choose(R < C ? R : C) : 0;
  level1<Few>(env, 0, [&](auto&& a, const mat& x) {
    auto v = [&](auto&& e, const vec& r, bool keep) {
      if(!keep) env.pool.kill();
      MC_CHECK(same(read(e), r), "selection", "selection reads " << read(e) << ", expected " << r << " from " << x);
      auto copy = e; cml::vector<double, cml::dynamic<>> d(copy + e); MC_CHECK(same(read(d), scale(r, 2)), "selection", "stored twice the selection is " << read(d) << ", expected twice " << r);
      mc::step(); mc::state(hash(r));
    };
    auto t = [&](auto&& e, bool keep) {
      if(!keep) env.pool.kill();
      const mat r = transpose(x);
      MC_CHECK(same(readm(e), r), "transpose", "transpose reads " << readm(e) << ", expected " << r);
      cml::matrix<double, cml::fixed<C, R>> f(e); cml::matrix<double, cml::dynamic<>, row_basis, col_major> d; d = e - 2. * e;
      MC_CHECK(same(readm(f), r) && same(readm(d), scale(r, -1)), "transpose", "stored transpose is " << readm(f) << ", expected " << r);
      mc::step(); mc::state(hash(r));
    };
    vec rw, cl; for(int j = 0; j < C; ++j) if(i < R) rw.push_back(x(i, j)); for(int j = 0; j < R; ++j) if(i < C) cl.push_back(x(j, i));
    auto& named = a;
    if(q == 0) t(cml::transpose(std::forward<decltype(a)>(a)), false);
    if(q == 1) v(cml::row(std::forward<decltype(a)>(a), i), rw, false);
    if(q == 2) v(cml::col(std::forward<decltype(a)>(a), i), cl, false);
    if(q == 3) v(cml::row(named, i), rw, true);
    if(q == 4) t(cml::transpose(named), true);
    for(const auto& s : env.s) s.check();
  });
}
inline void sizes()
{
  const int R = mc::choose(mc::thorough() ? 6 : 4), C = R ? 1 + mc::choose(mc::thorough() ? 5 : 3) : 0;
  mat p[3]; cml::matrix<double, cml::dynamic<>> v0(R, C); cml::matrix<double, cml::dynamic<>, col_basis, col_major> v1(R, C), v2(R, C);
  for(int s = 0; s < 3; ++s) { p[s] = mat(R, C); for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) { const double t = (i + 1) * (s + 2) - 3 * ((i + s + j) % 3) + 10 * j; p[s](i, j) = t; if(s == 0) v0(i, j) = t; else (s == 1 ? v1 : v2)(i, j) = t; } }
  auto combine = [](int o, const mat& x, const mat& y) { mat r(x); for(size_t i = 0; i < r.d.size(); ++i) r.d[i] = o == 0 ? x.d[i] + y.d[i] : o == 1 ? x.d[i] - y.d[i] : x.d[i] * y.d[i]; return r; };
  auto bin = [](int o, auto&& a, auto&& b, auto f) { if(o == 0) f(std::forward<decltype(a)>(a) + std::forward<decltype(b)>(b)); else if(o == 1) f(std::forward<decltype(a)>(a) - std::forward<decltype(b)>(b)); else f(cml::hadamard(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b))); };
  const int o1 = mc::choose(3), o2 = mc::choose(3), into = mc::choose(4);
  const mat r = combine(o2, combine(o1, p[0], p[1]), p[2]);
  bin(o1, v0, v1, [&](auto&& e) { bin(o2, std::forward<decltype(e)>(e), v2, [&](auto&& q) {
    MC_CHECK(same(readm(q), r), "element", "expression reads " << readm(q) << ", expected " << r);
    cml::matrix<double, cml::dynamic<>, col_basis, col_major> w(2, 2);
    if(into == 0) v0 = q; else (into == 1 ? v1 : into == 2 ? v2 : w) = q; // element-wise: aliases are well defined
    const mat got = into == 0 ? readm(v0) : into == 1 ? readm(v1) : into == 2 ? readm(v2) : readm(w);
    MC_CHECK(same(got, r), "assign", "assigned matrix is " << got << ", expected " << r);
    MC_CHECK((into == 0 || same(readm(v0), p[0])) && (into == 1 || same(readm(v1), p[1])) && (into == 2 || same(readm(v2), p[2])), "operand-changed", "an operand changed");
  }); });
  mc::step(); mc::state(hash(r));
}
template<int N> void alias()
{
  Env<N, N> env = make<N, N>();
  auto& s = env.s[0]; const mat y = env.s[1].g, x = s.g;
  static const char* on[] = {"m = m+n", "m = n-m", "m = 2*m-n", "m = hadamard(m,m)", "m = -m", "m = transpose(m)", "m = m+transpose(m)", "set_row(0,col(m,1))"};
  const int o = mc::choose(8), k = mc::choose(3);
  auto go = [&](auto& v, auto& w) {
    mat r(x);
    if(o == 0) { v = v + w; r = add(x, y); }
    if(o == 1) { v = w - v; r = add(y, x, -1); }
    if(o == 2) { v = 2. * v - w; r = add(scale(x, 2), y, -1); }
    if(o == 3) { v = cml::hadamard(v, v); for(double& t : r.d) t *= t; }
    if(o == 4) { v = -v; r = scale(x, -1); }
    if(o == 5) { v = cml::transpose(v); r = transpose(x); }
    if(o == 6) { v = v + cml::transpose(v); r = add(x, transpose(x)); }
    if(o == 7) { v.set_row(0, cml::col(v, 1)); for(int j = 0; j < N; ++j) r(0, j) = x(j, 1); }
    MC_CHECK(same(readm(v), r), o >= 5 ? "alias-transposed" : "alias", on[o] << " with m=" << x << ", n=" << y << " gives " << readm(v) << ", expected " << r);
    mc::step(); mc::state(hash(r));
  };
  if(k == 0) go(s.f, env.s[1].f); else if(k == 1) go(s.d, env.s[1].d); else go(s.e, env.s[1].e);
}
} // namespace e02
