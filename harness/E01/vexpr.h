// E01: vector expressions equal eager element-by-element evaluation.
// Expressions are built by continuation: every sub-expression keeps its own
// type and value category and reaches the operator exactly as user code would
// pass it (named object, const object, temporary, view, expression).
#pragma once
#include "all.h"
#include "pool.h"
#include "ref.h"
#include <memory>
#include <utility>

namespace e01 {
using namespace ref;

// One operand in every storage kind, all with the same elements.
template<int N> struct Slot
{
  vec v;
  cml::vector<double, cml::fixed<N>> f;
  cml::vector<double, cml::dynamic<>> d;
  double x[N + 2];                                    // guarded external memory
  cml::vector<double, cml::external<N>> e;
  cml::vector<double, cml::external<>> de;
  cml::vector<const double, cml::external<N>> ce;
  cml::matrix<double, cml::fixed<N, N>, cml::row_basis, cml::col_major> mr; // row 1
  cml::matrix<double, cml::dynamic<>> mc;             // column 0
  cml::vector<double, cml::fixed<N + 1>> up;          // with an extra element 1
  explicit Slot(const vec& a) : v(a), d(N), e(x + 1), de(x + 1, N), ce(x + 1), mc(N, 2)
  {
    x[0] = x[N + 1] = -77;
    for(int i = 0; i < N; ++i) {
      const double t = a[size_t(i)];
      f.put(i, t); d.put(i, t); e.put(i, t); mc.put(i, 0, t); mc.put(i, 1, 55); up.put(i < 1 ? i : i + 1, t);
      for(int j = 0; j < N; ++j) mr.put(i, j, i == 1 ? a[size_t(j)] : 66);
    }
    up.put(1, 99);
  }
  void check() const
  {
    MC_CHECK(same(read(f), v) && same(read(d), v) && same(read(e), v) && same(read(cml::row(mr, 1)), v) && same(read(cml::col(mc, 0)), v) && x[0] == -77 && x[N + 1] == -77 && up[1] == 99,
      "operand-changed", "a named operand changed: fixed " << read(f) << ", dynamic " << read(d) << ", expected " << v);
  }
};
template<int N> struct Env
{
  Slot<N> s[4];
  double k; // scalar
  Pool pool;
  int sl[4]; // slot used by each leaf, in order
  Env(double kk, const vec (&p)[4]) : s{Slot<N>(p[0]), Slot<N>(p[1]), Slot<N>(p[2]), Slot<N>(p[3])}, k(kk) { for(int i = 0; i < 4; ++i) sl[i] = i; }
};

// Leaf kinds.
enum { FixL, FixC, FixT, DynL, DynT, ExtL, ExtT, CExt, Row, Col, SubL, SubT, KINDS };
inline const char* kn(int k) { static const char* n[] = {"fixed", "const fixed", "fixed temporary", "dynamic", "dynamic temporary", "external", "view temporary", "const view", "row", "column", "subvector", "subvector of temporary"}; return n[k]; }

template<int K, int N, class F> void leaf(Env<N>& env, int slot, F f)
{
  auto& s = env.s[env.sl[slot]];
  if constexpr(K == FixL) f(s.f, s.v);
  if constexpr(K == FixC) f(std::as_const(s.f), s.v);
  if constexpr(K == FixT) f(env.pool(cml::vector<double, cml::fixed<N>>(s.f)), s.v);
  if constexpr(K == DynL) f(s.d, s.v);
  if constexpr(K == DynT) f(env.pool(cml::vector<double, cml::dynamic<>>(s.d)), s.v);
  if constexpr(K == ExtL) f(s.e, s.v);
  if constexpr(K == ExtT) f(env.pool(cml::vector<double, cml::external<>>(s.x + 1, N)), s.v);
  if constexpr(K == CExt) f(s.ce, s.v);
  if constexpr(K == Row) f(env.pool(cml::row(s.mr, 1)), s.v);
  if constexpr(K == Col) f(env.pool(cml::col(s.mc, 0)), s.v);
  if constexpr(K == SubL) f(env.pool(cml::subvector(s.up, 1)), s.v);
  if constexpr(K == SubT) f(env.pool(cml::vector<double, cml::fixed<N + 1>>(s.up).subvector(1)), s.v);
}
template<int... Ks> struct Kinds {};
template<int N, class F, int... Ks> void leaves(Kinds<Ks...>, Env<N>& env, int slot, F f)
{
  const int c = mc::choose(int(sizeof...(Ks)));
  int i = 0;
  (void) std::initializer_list<int>{(i++ == c ? (leaf<Ks, N>(env, slot, f), 0) : 0)...};
}

// Operators.
enum { Plus, Minus, Had, Cross, Neg, Pos, MulR, MulL, Div, OPS };
inline const char* on(int o) { static const char* n[] = {"+", "-", "hadamard", "cross", "unary -", "unary +", "*s", "s*", "/s"}; return n[o]; }
template<int O, class A, class B, class F> void binary(A&& a, const vec& x, B&& b, const vec& y, F f)
{
  vec r(x.size());
  for(size_t i = 0; i < x.size(); ++i) r[i] = O == Plus ? x[i] + y[i] : O == Minus ? x[i] - y[i] : x[i] * y[i];
  if constexpr(O == Plus) f(std::forward<A>(a) + std::forward<B>(b), r);
  if constexpr(O == Minus) f(std::forward<A>(a) - std::forward<B>(b), r);
  if constexpr(O == Had) f(cml::hadamard(std::forward<A>(a), std::forward<B>(b)), r);
  if constexpr(O == Cross) f(cml::cross(std::forward<A>(a), std::forward<B>(b)), cross(x, y));
}
template<int O, class A, class F> void unary(A&& a, const vec& x, double k, F f)
{
  vec r(x);
  for(double& t : r) t = O == Neg ? -t : O == Pos ? t : O == Div ? t / k : t * k;
  if constexpr(O == Neg) f(-std::forward<A>(a), r);
  if constexpr(O == Pos) f(+std::forward<A>(a), r);
  if constexpr(O == MulR) f(std::forward<A>(a) * k, r);
  if constexpr(O == MulL) f(k * std::forward<A>(a), r);
  if constexpr(O == Div) f(std::forward<A>(a) / k, r);
}
// Any operator over a one-level expression.
template<int... Os> struct Ops {};

// Materialise an expression in every way and compare.
template<int N, bool Full, bool Keep = false, class X> void sink(Env<N>& env, X&& e, const vec& r)
{
  if(!Keep) env.pool.kill(); // no temporary may be needed any more
  const vec got = read(e);
  MC_CHECK(same(got, r), "element", "expression reads " << got << ", expected " << r);
  for(int i = 0; i < N; ++i) MC_CHECK(e[i] == r[size_t(i)], "element", "expression[" << i << "] is " << e[i] << ", expected " << r);
  { auto copy = e; const vec g = read(copy); MC_CHECK(same(g, r), "copied-expression", "a copy of the expression reads " << g << ", expected " << r); }
  { cml::vector<double, cml::dynamic<>> d(e); MC_CHECK(same(read(d), r), "construct", "vector constructed from the expression is " << read(d) << ", expected " << r); }
  { cml::vector<double, cml::fixed<N>> d; d = e; MC_CHECK(same(read(d), r), "assign", "vector assigned from the expression is " << read(d) << ", expected " << r); }
  if constexpr(Full) {
    { cml::vector<double, cml::fixed<N>> d(e); MC_CHECK(same(read(d), r), "construct", "fixed vector constructed from the expression is " << read(d) << ", expected " << r); }
    { cml::vector<double, cml::dynamic<>> d(7); d = e; MC_CHECK(same(read(d), r), "assign", "vector assigned from the expression is " << read(d) << ", expected " << r); }
    { double b[N + 2]; b[0] = b[N + 1] = 5; cml::vector<double, cml::external<N>> d(b + 1); d = e; MC_CHECK(same(read(d), r) && b[0] == 5 && b[N + 1] == 5, "assign", "view assigned from the expression is " << read(d) << ", expected " << r); }
    { auto d = e; cml::vector<double, cml::fixed<N>> q(std::move(d)); MC_CHECK(same(read(q), r), "moved-expression", "vector from a moved copy is " << read(q)); }
  }
  { auto moved = std::move(e); const vec g = read(moved); MC_CHECK(same(g, r), "moved-expression", "the moved expression reads " << g << ", expected " << r); }
  for(const auto& s : env.s) s.check();
  MC_TRACE(r); mc::step(); mc::state(hash(r));
}

template<int N> void patterns(vec (&p)[4])
{
  static const double a[2][4][4] = {{{3, -1, 4, 2}, {-2, 6, 5, -3}, {7, 8, -4, 1}, {0.5, 9, -6, -8}}, {{0, 1e8, -0.25, 5}, {1, 0, 0, -7}, {-1024, 3, 0.125, 0}, {2, -2, 1, -1}}};
  const int w = mc::choose(2);
  for(int i = 0; i < 4; ++i) p[i] = vec(a[w][i], a[w][i] + N);
}
template<int N> Env<N> make()
{
  static const double ks[] = {2, -0.5};
  vec p[4]; patterns<N>(p);
  return Env<N>(ks[mc::choose(2)], p);
}
using All = Kinds<FixL, FixC, FixT, DynL, DynT, ExtL, ExtT, CExt, Row, Col, SubL, SubT>;
#ifdef MC_THOROUGH
using Pair = All;
using Right = All;
#else
using Pair = Kinds<FixL, FixT, DynL, DynT, ExtL, CExt, Row, SubT>;
using Right = Kinds<FixC, FixT, DynT, ExtT, Col>;
#endif
using Few = Kinds<FixL, DynT, ExtL>;
#ifdef MC_THOROUGH
using Deep = Kinds<FixL, FixT, DynL, DynT>;
#else
using Deep = Kinds<FixL, DynT>;
#endif

// depth 1: every operator over every pair of operand kinds; optionally the
// same named object on both sides.
template<int N, int O> void depth1()
{
  Env<N> env = make<N>();
  if constexpr(O < Neg) {
    if(mc::choose(2)) env.sl[1] = 0;
    leaves(Pair(), env, 0, [&](auto&& a, const vec& x) {
      leaves(Right(), env, 1, [&](auto&& b, const vec& y) {
        binary<O>(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y, [&](auto&& e, const vec& r) { sink<N, false>(env, std::forward<decltype(e)>(e), r); }); }); });
  } else
    leaves(All(), env, 0, [&](auto&& a, const vec& x) { unary<O>(std::forward<decltype(a)>(a), x, env.k, [&](auto&& e, const vec& r) { sink<N, true>(env, std::forward<decltype(e)>(e), r); }); });
}
// any one-level sub-expression over a set of leaves, or a leaf
template<class K, int N, class F> void level1(Env<N>& env, int slot, F g)
{
  auto f = [&](auto&& e, const vec& r) { g(env.pool(std::move(e)), r); };
  auto un = [&](auto op) { leaves(K(), env, slot, [&](auto&& a, const vec& x) { unary<decltype(op)::value>(std::forward<decltype(a)>(a), x, env.k, f); }); };
  auto bi = [&](auto op) { leaves(K(), env, slot, [&](auto&& a, const vec& x) { leaves(K(), env, slot + 1, [&](auto&& b, const vec& y) { binary<decltype(op)::value>(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y, f); }); }); };
  switch(mc::choose(N == 3 ? 7 : 6)) {
  case 0: return bi(std::integral_constant<int, Plus>());
  case 1: return bi(std::integral_constant<int, Minus>());
  case 2: return bi(std::integral_constant<int, Had>());
  case 3: return un(std::integral_constant<int, Neg>());
  case 4: return un(std::integral_constant<int, MulL>());
  case 5: return un(std::integral_constant<int, Div>());
  case 6: if constexpr(N == 3) return bi(std::integral_constant<int, Cross>()); return;
  }
}
// depth 2: a binary operator with a one-level expression on one or both sides
template<int N, int O> void depth2()
{
  Env<N> env = make<N>();
  auto top = [&](auto&& a, const vec& x, auto&& b, const vec& y) { binary<O>(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y, [&](auto&& e, const vec& r) { sink<N, false>(env, std::forward<decltype(e)>(e), r); }); };
  switch(mc::choose(3)) {
  case 0: return level1<Deep>(env, 0, [&](auto&& a, const vec& x) { leaves(Few(), env, 2, [&](auto&& b, const vec& y) { top(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y); }); });
  case 1: return leaves(Few(), env, 2, [&](auto&& a, const vec& x) { level1<Deep>(env, 0, [&](auto&& b, const vec& y) { top(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y); }); });
  case 2: return level1<Kinds<DynT>>(env, 0, [&](auto&& a, const vec& x) { level1<Kinds<FixL>>(env, 2, [&](auto&& b, const vec& y) { top(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y); }); });
  }
}
// depth 2 and 3 under unary operators, sub-vector selection and named (stored) sub-expressions
template<int N, int O> void wrap()
{
  Env<N> env = make<N>();
  level1<Deep>(env, 0, [&](auto&& a, const vec& x) {
    if(mc::choose(2)) { // the sub-expression is a named object
      auto& named = a;
      unary<O>(named, x, env.k, [&](auto&& e, const vec& r) { sink<N, false, true>(env, std::forward<decltype(e)>(e), r); });
    } else
      unary<O>(std::forward<decltype(a)>(a), x, env.k, [&](auto&& e, const vec& r) { sink<N, false>(env, std::forward<decltype(e)>(e), r); });
  });
}
template<int N> void subs()
{
  Env<N> env = make<N>();
  const int i = mc::choose(N);
  level1<Deep>(env, 0, [&](auto&& a, const vec& x) {
    vec r(x); r.erase(r.begin() + i);
    auto go = [&](auto&& e, bool keep) {
      if(!keep) env.pool.kill();
      MC_CHECK(same(read(e), r), "subvector", "subvector(" << i << ") of " << x << " reads " << read(e));
      cml::vector<double, cml::fixed<N - 1>> f(e); cml::vector<double, cml::dynamic<>> d; d = e;
      MC_CHECK(same(read(f), r) && same(read(d), r), "subvector", "subvector(" << i << ") of " << x << " stored " << read(f) << " and " << read(d));
      cml::vector<double, cml::dynamic<>> s(e - 2. * e); MC_CHECK(same(read(s), scale(r, -1)), "subvector", "e - 2e over a subvector is " << read(s));
      mc::step(); mc::state(hash(r));
    };
    if(mc::choose(2)) { auto& named = a; go(named.subvector(i), true); } else go(std::forward<decltype(a)>(a).subvector(i), false);
    for(const auto& s : env.s) s.check();
  });
}
// run-time sizes 0..6, all-dynamic chains of three operators
inline void sizes()
{
  const int n = mc::choose(mc::thorough() ? 10 : 7);
  vec p[3]; cml::vector<double, cml::dynamic<>> v[3];
  for(int s = 0; s < 3; ++s) { v[s].resize(n); for(int i = 0; i < n; ++i) { p[s].push_back((i + 1) * (s + 2) - 3 * ((i + s) % 3)); v[s][i] = p[s].back(); } }
  auto combine = [](int o, const vec& x, const vec& y) { vec r(x.size()); for(size_t i = 0; i < r.size(); ++i) r[i] = o == 0 ? x[i] + y[i] : o == 1 ? x[i] - y[i] : x[i] * y[i]; return r; };
  auto bin = [](int o, auto&& a, auto&& b, auto f) { if(o == 0) f(std::forward<decltype(a)>(a) + std::forward<decltype(b)>(b)); else if(o == 1) f(std::forward<decltype(a)>(a) - std::forward<decltype(b)>(b)); else f(cml::hadamard(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b))); };
  const int o1 = mc::choose(3), o2 = mc::choose(3), a = mc::choose(3), b = mc::choose(3), c = mc::choose(3);
  const vec r = combine(o2, combine(o1, p[a], p[b]), p[c]);
  const int into = mc::choose(5); // assign into v[0..2] (element-wise, so aliases are well defined), a fresh vector, another size
  bin(o1, v[a], v[b], [&](auto&& e) { bin(o2, std::forward<decltype(e)>(e), v[c], [&](auto&& q) {
    MC_CHECK(same(read(q), r), "element", "expression reads " << read(q) << ", expected " << r);
    cml::vector<double, cml::dynamic<>> w(n + 2); auto& d = into < 3 ? v[into] : w;
    if(into == 4) { cml::vector<double, cml::dynamic<>> z(q); w = std::move(z); } else d = q;
    MC_CHECK(same(read(d), r), "assign", "assigned vector is " << read(d) << ", expected " << r);
    for(int s = 0; s < 3; ++s) if(s != into) MC_CHECK(same(read(v[s]), p[s]), "operand-changed", "operand " << s << " changed to " << read(v[s]));
  }); });
  mc::step(); mc::state(hash(r));
}
// assigning an expression to one of its own operands
template<int N> void alias()
{
  Env<N> env = make<N>();
  Slot<N>& s = env.s[0]; const vec y = env.s[1].v;
  static const char* on[] = {"v = v+w", "v = w-v", "v = 2*v-w", "v = hadamard(v,v)", "v = -v", "v = cross(v,w)", "v = cross(w,v)", "v = cross(v,w)+v"};
  const int o = mc::choose(N == 3 ? 8 : 5), k = mc::choose(3);
  auto go = [&](auto& v, auto& w) {
    const vec x = s.v; vec r;
    if(o == 0) { v = v + w; r = add(x, y); }
    if(o == 1) { v = w - v; r = add(y, x, -1); }
    if(o == 2) { v = 2. * v - w; r = add(scale(x, 2), y, -1); }
    if(o == 3) { v = cml::hadamard(v, v); r = x; for(double& t : r) t *= t; }
    if(o == 4) { v = -v; r = scale(x, -1); }
    if constexpr(N == 3) {
      if(o == 5) { v = cml::cross(v, w); r = cross(x, y); }
      if(o == 6) { v = cml::cross(w, v); r = cross(y, x); }
      if(o == 7) { v = cml::cross(v, w) + v; r = add(cross(x, y), x); }
    }
    MC_CHECK(same(read(v), r), o >= 5 ? "alias-cross" : "alias", on[o] << " with v=" << x << ", w=" << y << " gives " << read(v) << ", expected " << r);
    mc::step(); mc::state(hash(r));
  };
  if(k == 0) go(s.f, env.s[1].f); else if(k == 1) go(s.d, env.s[1].d); else go(s.e, env.s[1].e);
}
} // namespace e01
