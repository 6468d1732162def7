// E03: quaternion expressions equal eager evaluation on (w,x,y,z) (see E01).
#pragma once
#include "all.h"
#include "pool.h"
#include "ref.h"

namespace e03 {
using namespace ref;
using quad = vec; // w, x, y, z
template<class Q> quad rq(const Q& q) { return {double(q.w()), double(q.x()), double(q.y()), double(q.z())}; }
inline quad hamilton(const quad& a, const quad& b)
{
  return {a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
    a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]};
}
template<class O, class X> using Quat = cml::quaternion<double, cml::fixed<>, O, X>;
template<class O> constexpr bool wfirst = std::is_same_v<O, cml::real_first>;
template<class X> constexpr bool pos = std::is_same_v<X, cml::positive_cross>;
template<class O, class X> struct Env
{
  quad g[4];
  Quat<O, X> q[4];
  double k;
  Pool pool;
  void check() const { for(int i = 0; i < 4; ++i) MC_CHECK(same(rq(q[i]), g[i]), "operand-changed", "named operand " << i << " is now " << rq(q[i]) << ", was " << g[i]); }
};
template<class O, class X> Env<O, X> make()
{
  static const double a[2][4][4] = {{{3, -1, 4, 2}, {-2, 6, 5, -3}, {7, 8, -4, 1}, {0.5, 9, -6, -8}}, {{1, 0, 0, 0}, {0, 1, -1024, 0}, {-0.25, 3, 0.125, 0}, {2, -2, 1, -1}}};
  static const double ks[] = {2, -0.5};
  const int w = mc::choose(2);
  Env<O, X> e; e.k = ks[mc::choose(2)];
  for(int i = 0; i < 4; ++i) {
    e.g[i] = quad(a[w][i], a[w][i] + 4);
    for(int j = 0; j < 4; ++j) e.q[i].put(wfirst<O> ? j : (j + 3) % 4, e.g[i][size_t(j)]); // storage position of w,x,y,z
  }
  return e;
}
template<class O, class X, class F> void leaves(Env<O, X>& env, int slot, F f)
{
  switch(mc::choose(3)) {
  case 0: return f(env.q[slot], env.g[slot]);
  case 1: return f(static_cast<const Quat<O, X>&>(env.q[slot]), env.g[slot]);
  case 2: return f(env.pool(Quat<O, X>(env.q[slot])), env.g[slot]);
  }
}
template<class O, class X, class F> void two(Env<O, X>& env, int slot, F f)
{
  if(mc::choose(2)) f(env.q[slot], env.g[slot]); else f(env.pool(Quat<O, X>(env.q[slot])), env.g[slot]);
}
enum { Plus, Minus, Prod, Neg, Pos, MulR, MulL, Div, Conj, Inv, Norm };
template<class X, int Op, class A, class B, class F> void binary(A&& a, const quad& x, B&& b, const quad& y, F f)
{
  if constexpr(Op == Plus) f(std::forward<A>(a) + std::forward<B>(b), add(x, y));
  if constexpr(Op == Minus) f(std::forward<A>(a) - std::forward<B>(b), add(x, y, -1));
  if constexpr(Op == Prod) f(std::forward<A>(a) * std::forward<B>(b), pos<X> ? hamilton(x, y) : hamilton(y, x));
}
template<int Op, class A, class F> void unary(A&& a, const quad& x, double k, F f)
{
  const quad c = {x[0], -x[1], -x[2], -x[3]};
  if constexpr(Op == Neg) f(-std::forward<A>(a), scale(x, -1));
  if constexpr(Op == Pos) f(+std::forward<A>(a), x);
  if constexpr(Op == MulR) f(std::forward<A>(a) * k, scale(x, k));
  if constexpr(Op == MulL) f(k * std::forward<A>(a), scale(x, k));
  if constexpr(Op == Div) f(std::forward<A>(a) / k, scale(x, 1 / k));
  if constexpr(Op == Conj) f(cml::conjugate(std::forward<A>(a)), c);
  if constexpr(Op == Inv) f(cml::inverse(std::forward<A>(a)), scale(c, 1 / dot(x, x)));
  if constexpr(Op == Norm) f(cml::normalize(std::forward<A>(a)), scale(x, 1 / len(x)));
}
template<class O, class X, bool Keep = false, class E> void sink(Env<O, X>& env, E&& e, const quad& r)
{
  const double tol = 1e-13;
  if(!Keep) env.pool.kill();
  const quad got = rq(e);
  MC_CHECK(near(got, r, tol), "element", "expression reads " << got << ", expected " << r);
  const quad byindex = wfirst<O> ? quad{e[0], e[1], e[2], e[3]} : quad{e[3], e[0], e[1], e[2]};
  MC_CHECK(same(byindex, got) && same(e.real(), got[0]) && same(double(cml::real(e)), got[0]), "element", "elements by index are " << byindex << ", by name " << got);
  { auto copy = e; MC_CHECK(same(rq(copy), got), "copied-expression", "a copy of the expression reads " << rq(copy) << ", expected " << got); }
  { Quat<O, X> d(e); MC_CHECK(same(rq(d), got), "construct", "quaternion constructed from the expression is " << rq(d) << ", expected " << got); }
  { Quat<O, X> d; d = e; MC_CHECK(same(rq(d), got), "assign", "quaternion assigned from the expression is " << rq(d) << ", expected " << got); }
  { auto i = cml::imaginary(e); const vec v = read(i); MC_CHECK(same(v, {got[1], got[2], got[3]}), "imaginary", "imaginary part reads " << v << ", expected that of " << got);
    cml::vector<double, cml::fixed<3>> s(e.imaginary()); MC_CHECK(same(read(s), v), "imaginary", "stored imaginary part is " << read(s) << ", expected " << v); }
  MC_CHECK(near(double(e.length_squared()), dot(r, r), tol) && near(double(e.norm()), dot(r, r), tol) && near(double(e.length()), len(r), tol), "length", "squared length " << e.length_squared() << " of " << r);
  { auto moved = std::move(e); MC_CHECK(same(rq(moved), got), "moved-expression", "the moved expression reads " << rq(moved) << ", expected " << got); }
  env.check();
  MC_TRACE(got); mc::step(); mc::state(hash(got));
}
template<int... Os> struct Ops {};
template<class O, class X, class F> void level1(Env<O, X>& env, int slot, F g)
{
  auto f = [&](auto&& e, const quad& r) { g(env.pool(std::move(e)), r); };
  auto un = [&](auto op) { two(env, slot, [&](auto&& a, const quad& x) { unary<decltype(op)::value>(std::forward<decltype(a)>(a), x, env.k, f); }); };
  auto bi = [&](auto op) { two(env, slot, [&](auto&& a, const quad& x) { two(env, slot + 1, [&](auto&& b, const quad& y) { binary<X, decltype(op)::value>(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y, f); }); }); };
  switch(mc::choose(8)) {
  case 0: return bi(std::integral_constant<int, Plus>());
  case 1: return bi(std::integral_constant<int, Minus>());
  case 2: return bi(std::integral_constant<int, Prod>());
  case 3: return un(std::integral_constant<int, Neg>());
  case 4: return un(std::integral_constant<int, MulL>());
  case 5: return un(std::integral_constant<int, Div>());
  case 6: return un(std::integral_constant<int, Conj>());
  case 7: return un(std::integral_constant<int, Inv>());
  }
}
template<class O, class X, int Op> void depth1()
{
  auto env = make<O, X>();
  auto done = [&](auto&& e, const quad& r) { sink<O, X>(env, std::forward<decltype(e)>(e), r); };
  if constexpr(Op < Neg) { const int s = mc::choose(2); leaves(env, 0, [&](auto&& a, const quad& x) { leaves(env, s, [&](auto&& b, const quad& y) { binary<X, Op>(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y, done); }); }); }
  else { const int s = mc::choose(4); leaves(env, s, [&](auto&& a, const quad& x) { unary<Op>(std::forward<decltype(a)>(a), x, env.k, done); }); }
}
template<class O, class X, int Op> void depth2()
{
  auto env = make<O, X>();
  auto done = [&](auto&& e, const quad& r) { sink<O, X>(env, std::forward<decltype(e)>(e), r); };
  auto keep = [&](auto&& e, const quad& r) { sink<O, X, true>(env, std::forward<decltype(e)>(e), r); };
  if constexpr(Op < Neg) switch(mc::choose(2)) {
  case 0: return level1(env, 0, [&](auto&& a, const quad& x) { two(env, 2, [&](auto&& b, const quad& y) { binary<X, Op>(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y, done); }); });
  case 1: return two(env, 2, [&](auto&& a, const quad& x) { level1(env, 0, [&](auto&& b, const quad& y) { binary<X, Op>(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y, done); }); });
  } else level1(env, 0, [&](auto&& a, const quad& x) { if(mc::choose(2)) { auto& named = a; unary<Op>(named, x, env.k, keep); } else unary<Op>(std::forward<decltype(a)>(a), x, env.k, done); });
}
template<class O, class X> void both() // an expression on both sides
{
  auto env = make<O, X>();
  auto done = [&](auto&& e, const quad& r) { sink<O, X>(env, std::forward<decltype(e)>(e), r); };
  auto third = [&](auto&& g) { switch(mc::choose(3)) {
    case 0: return g(env.pool(-env.q[2]), scale(env.g[2], -1));
    case 1: return g(env.pool(cml::conjugate(env.pool(Quat<O, X>(env.q[2])))), quad{env.g[2][0], -env.g[2][1], -env.g[2][2], -env.g[2][3]});
    case 2: return g(env.pool(env.q[2] * env.q[3]), pos<X> ? hamilton(env.g[2], env.g[3]) : hamilton(env.g[3], env.g[2]));
  } };
  const int o = mc::choose(2);
  level1(env, 0, [&](auto&& a, const quad& x) { third([&](auto&& b, const quad& y) { if(o) binary<X, Minus>(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y, done); else binary<X, Prod>(std::forward<decltype(a)>(a), x, std::forward<decltype(b)>(b), y, done); }); });
}
// assigning an expression to one of its own operands
template<class O, class X> void alias()
{
  auto env = make<O, X>();
  static const char* on[] = {"q = q+r", "q = r-q", "q = 2*q-r", "q = -q", "q = q*r", "q = r*q", "q = q*q", "q = conjugate(q)", "q = inverse(q)", "q = normalize(q)", "q = q*conjugate(q)", "q = conjugate(q)*q*q", "q = q*r*q"};
  const int o = mc::choose(13);
  const quad x = env.g[0], y = env.g[1]; auto& q = env.q[0]; const auto& w = env.q[1];
  auto mul = [](const quad& a, const quad& b) { return pos<X> ? hamilton(a, b) : hamilton(b, a); };
  const quad c = {x[0], -x[1], -x[2], -x[3]};
  quad r;
  switch(o) {
  case 0: q = q + w; r = add(x, y); break;
  case 1: q = w - q; r = add(y, x, -1); break;
  case 2: q = 2. * q - w; r = add(scale(x, 2), y, -1); break;
  case 3: q = -q; r = scale(x, -1); break;
  case 4: q = q * w; r = mul(x, y); break;
  case 5: q = w * q; r = mul(y, x); break;
  case 6: q = q * q; r = mul(x, x); break;
  case 7: q = cml::conjugate(q); r = c; break;
  case 8: q = cml::inverse(q); r = scale(c, 1 / dot(x, x)); break;
  case 9: q = cml::normalize(q); r = scale(x, 1 / len(x)); break;
  case 10: q = q * cml::conjugate(q); r = mul(x, c); break;
  case 11: q = cml::conjugate(q) * q * q; r = mul(mul(c, x), x); break;
  case 12: q = q * w * q; r = mul(mul(x, y), x); break;
  }
  MC_CHECK(near(rq(q), r, 1e-13), "alias", on[o] << " with q=" << x << ", r=" << y << " gives " << rq(q) << ", expected " << r);
  mc::step(); mc::state(hash(r));
}
} // namespace e03
