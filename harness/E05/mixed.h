// E05: mixed element types compute in the common type; mixed storage kinds
// materialise into an owner of the common size.
#pragma once
#include "all.h"
#include "pool.h"
#include "ref.h"
#include <memory>

namespace e05 {
using namespace ref;
using cml::row_basis; using cml::col_basis; using cml::row_major; using cml::col_major;

// Values whose narrowing into another listed type is visible.
template<class T> T val(int i);
template<> inline int val<int>(int i) { static const int v[] = {16777217, -3, 7, 2000000001}; return v[i]; }
template<> inline unsigned val<unsigned>(int i) { static const unsigned v[] = {3000000001u, 5, 16777219u, 2}; return v[i]; }
template<> inline long long val<long long>(int i) { static const long long v[] = {9007199254740993ll, -11, 4, 1099511627777ll}; return v[i]; }
template<> inline float val<float>(int i) { static const float v[] = {0.1f, -2.5f, 16777216.f, 3.f}; return v[i]; }
template<> inline double val<double>(int i) { static const double v[] = {0.1, 123456789.125, -2.25, 1e-9}; return v[i]; }
template<> inline long double val<long double>(int i) { static const long double v[] = {0.1l, -1.0000000000000000001l, 3.5l, 1e-12l}; return v[i]; }

template<class A, class B> using Common = std::common_type_t<A, B>;
template<class X> using ValueOf = cml::value_type_trait_of_t<std::decay_t<X>>;

// bitwise equal (NaN never occurs here)
template<class T> std::string str(T v) { std::ostringstream o; o.precision(22); o << v; return o.str(); }
#define E05_TYPE(expr, R) MC_CHECK((std::is_same_v<ValueOf<decltype(expr)>, R>), "type", name << ": the result's element type is not the common type")
template<class R, class G> void same_value(const char* name, const G& got, R expect)
{
  MC_CHECK((std::is_same_v<std::decay_t<G>, R>), "type", name << ": an element of the result does not have the common type");
  MC_CHECK(got == expect, "value", name << ": element is " << str(got) << ", expected " << str(expect));
}
// Storage-kind makers for vectors of 3.
template<class T, int K> struct V;
template<class T> struct V<T, 0> { cml::vector<T, cml::fixed<3>> v; };
template<class T> struct V<T, 1> { cml::vector<T, cml::dynamic<>> v; V() : v(3) {} };
template<class T> struct V<T, 2> { T d[3]; cml::vector<T, cml::external<3>> v{d}; };
template<class T> struct V<T, 3> { T d[3]; cml::vector<T, cml::external<>> v{d, 3}; };
template<class T> struct V<T, 4> { T d[3]; cml::vector<const T, cml::external<3>> v{d}; };
template<class T, int K> void put(V<T, K>& b, int i, T x) { if constexpr(K == 4) b.d[i] = x; else b.v.put(i, x); }

template<class A, class B, int KA, int KB> void vectors()
{
  using R = Common<A, B>;
  constexpr bool integral = std::is_integral_v<B>;
  const int ia = mc::choose(4), ib = mc::choose(4);
  V<A, KA> ba; V<B, KB> bb;
  A a[3]; B b[3];
  for(int i = 0; i < 3; ++i) { a[i] = val<A>((ia + i) % 4); b[i] = val<B>((ib + i) % 4); put(ba, i, a[i]); put(bb, i, b[i]); }
  const auto& x = ba.v; const auto& y = bb.v;
  const A sa = val<A>(ia); const B sb = val<B>(ib);
  const int op = mc::choose(13); const char* name = "";
  // Unsigned overflow wraps; avoid signed overflow, which has no value.
  auto ok = [](long double v) { return !std::is_integral_v<R> || std::is_unsigned_v<R> || std::fabs(v) < (sizeof(R) == 4 ? 2147483647.l : 9.2e18l); };
  auto each = [&](auto e, auto f) {
    E05_TYPE(e, R);
    MC_CHECK(e.size() == 3, "size", name << ": size " << e.size());
    cml::temporary_of_t<decltype(e)> t(e);
    E05_TYPE(t, R);
    cml::vector<R, cml::dynamic<>> d(e);
    for(int i = 0; i < 3; ++i) { const R r = f(i); same_value<R>(name, e.get(i), r); same_value<R>(name, R(t[i]), r); MC_CHECK(d[i] == r, "value", name << ": stored element is " << str(d[i]) << ", expected " << str(r)); }
  };
  for(int i = 0; i < 3; ++i) {
    const long double p = a[i], q = b[i];
    if((op == 0 && !ok(p + q)) || (op == 1 && !ok(p - q)) || (op == 2 && !ok(p * q)) || ((op == 3 || op == 4) && !ok(p * (long double) sb)) || (op == 6 && !ok(q * (long double) sa))) return;
    for(int j = 0; j < 3; ++j) if((op == 7 || op == 8 || op == 9 || op == 10) && (!ok((long double) a[i] * (long double) b[j]) || !ok(2 * (long double) a[i] * (long double) b[j]))) return;
  }
  // operands converted to the common type first, as the language does
  auto P = [&](int i) { return R(a[i]); }; auto Q = [&](int i) { return R(b[i]); };
  switch(op) {
  case 0: name = "v+w"; each(x + y, [&](int i) { return R(P(i) + Q(i)); }); break;
  case 1: name = "v-w"; each(x - y, [&](int i) { return R(P(i) - Q(i)); }); break;
  case 2: name = "hadamard(v,w)"; each(cml::hadamard(x, y), [&](int i) { return R(P(i) * Q(i)); }); break;
  case 3: name = "v*s"; each(x * sb, [&](int i) { return R(P(i) * R(sb)); }); break;
  case 4: name = "s*v"; each(sb * x, [&](int i) { return R(P(i) * R(sb)); }); break;
  case 5: name = "v/s"; each(x / sb, [&](int i) { return R(P(i) / R(sb)); }); break;
  case 6: name = "s*w"; each(sa * y, [&](int i) { return R(R(sa) * Q(i)); }); break;
  case 7: name = "cross(v,w)"; each(cml::cross(x, y), [&](int i) { const int j = (i + 1) % 3, k = (i + 2) % 3; return R(P(j) * Q(k) - P(k) * Q(j)); }); break;
  case 8: { name = "dot(v,w)"; for(int i = 1; i < 3; ++i) { a[i] = 0; b[i] = 0; put(ba, i, A(0)); put(bb, i, B(0)); } same_value<R>(name, cml::dot(x, y), R(P(0) * Q(0))); } break;
  case 9: { name = "outer(v,w)"; auto e = cml::outer(x, y); E05_TYPE(e, R); MC_CHECK(e.rows() == 3 && e.cols() == 3, "size", name); cml::matrix<R, cml::fixed<3, 3>> m(e); for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) { same_value<R>(name, e.get(i, j), R(P(i) * Q(j))); MC_CHECK(m(i, j) == R(P(i) * Q(j)), "value", name << " stored"); } } break;
  case 10: { name = "triple_product"; for(int i = 1; i < 3; ++i) put(ba, i, A(0)); V<B, 0> z; z.v[0] = 0; z.v[1] = 0; z.v[2] = 1; put(bb, 0, B(0)); put(bb, 2, B(0)); put(ba, 0, A(a[0])); same_value<R>(name, cml::triple_product(x, y, z.v), R(P(0) * R(b[1] * B(1)))); } break;
  case 11: { name = "v += w through the common type"; if constexpr(KA == 0 && std::is_same_v<A, R>) { auto c = ba; c.v += y; for(int i = 0; i < 3; ++i) if(ok((long double) a[i] + (long double) b[i])) same_value<A>(name, A(c.v[i]), A(P(i) + Q(i))); } } break;
  case 12: { name = "vector(w)"; if(!integral && std::is_integral_v<A>) return; if constexpr(KA == 0) { if constexpr(std::is_same_v<A, R>) { cml::vector<A, cml::fixed<3>> c(y), d; d = y; for(int i = 0; i < 3; ++i) { same_value<A>(name, A(c[i]), A(b[i])); same_value<A>(name, A(d[i]), A(b[i])); } } } } break;
  }
  mc::step(); mc::Hash h; h(op)(ia)(ib)(KA)(KB)(double(sizeof(A)))(double(sizeof(B))); mc::state(h);
}

template<class A, class B> void matrices()
{
  using R = Common<A, B>;
  const int ia = mc::choose(4), ib = mc::choose(4), op = mc::choose(11); const char* name = "";
  cml::matrix<A, cml::fixed<2, 2>> x; cml::matrix<B, cml::dynamic<>> y(2, 2); cml::matrix<B, cml::fixed<2, 2>> z; cml::vector<B, cml::fixed<2>> u; cml::vector<A, cml::dynamic<>> w(2);
  x.zero(); y.zero(); z.zero(); u.zero(); w.zero();
  const A a = val<A>(ia), a2 = val<A>((ia + 1) % 4); const B b = val<B>(ib), b2 = val<B>((ib + 1) % 4);
  x(0, 0) = a; x(1, 0) = a2; y(0, 1) = b; y(0, 0) = b2; z(0, 1) = b; z(0, 0) = b2; u[0] = b; w[0] = a; w[1] = a2;
  for(A p : {a, a2}) for(B q : {b, b2}) if(std::is_integral_v<R> && !std::is_unsigned_v<R> && std::fabs((long double) p * (long double) q) > (sizeof(R) == 4 ? 2147483647.l : 9.2e18l)) return;
  for(A p : {a, a2}) for(B q : {b, b2}) if(std::is_integral_v<R> && !std::is_unsigned_v<R> && std::fabs((long double) p) + std::fabs((long double) q) > (sizeof(R) == 4 ? 2147483647.l : 9.2e18l)) return;
  auto grid = [&](const auto& m, R m00, R m01, R m10, R m11) {
    E05_TYPE(m, R);
    MC_CHECK(m.rows() == 2 && m.cols() == 2, "size", name << ": " << m.rows() << "x" << m.cols());
    same_value<R>(name, R(m.get(0, 0)), m00); same_value<R>(name, R(m.get(0, 1)), m01); same_value<R>(name, R(m.get(1, 0)), m10); same_value<R>(name, R(m.get(1, 1)), m11);
  };
  const R A1(a), A2(a2), B1(b), B2(b2), O(0);
  switch(op) {
  case 0: name = "A*B (fixed, dynamic)"; grid(x * y, R(A1 * B2), R(A1 * B1), R(A2 * B2), R(A2 * B1)); break;
  case 1: name = "A*B (fixed, fixed)"; grid(x * z, R(A1 * B2), R(A1 * B1), R(A2 * B2), R(A2 * B1)); break;
  case 2: name = "A+B"; { auto e = x + y; grid(e, R(A1 + B2), R(O + B1), R(A2 + O), O); cml::temporary_of_t<decltype(e)> t(e); grid(t, R(A1 + B2), R(O + B1), R(A2 + O), O); } break;
  case 3: name = "A-B"; grid(x - z, R(A1 - B2), R(O - B1), R(A2 - O), O); break;
  case 4: name = "A*s"; grid(x * b, R(A1 * B1), O, R(A2 * B1), O); break;
  case 5: name = "s*A"; grid(b * x, R(A1 * B1), O, R(A2 * B1), O); break;
  case 6: name = "A/s"; grid(x / b, R(A1 / B1), O, R(A2 / B1), O); break;
  case 7: name = "hadamard(A,B)"; grid(cml::hadamard(x, y), R(A1 * B2), O, O, O); break;
  case 8: { name = "A*v"; auto r = x * u; E05_TYPE(r, R); MC_CHECK(r.size() == 2, "size", name); same_value<R>(name, R(r[0]), R(A1 * B1)); same_value<R>(name, R(r[1]), R(A2 * B1)); } break;
  case 9: { name = "v*B"; w[1] = 0; auto r = w * y; E05_TYPE(r, R); MC_CHECK(r.size() == 2, "size", name); same_value<R>(name, R(r[0]), R(A1 * B2)); same_value<R>(name, R(r[1]), R(A1 * B1)); } break;
  case 10: { name = "transpose(A)-B"; grid(cml::transpose(x) - z, R(A1 - B2), R(A2 - B1), O, O); } break;
  }
  mc::step(); mc::Hash h; h(op)(ia)(ib)(double(sizeof(A)))(double(sizeof(B))); mc::state(h);
}
template<class A, class B> void quaternions()
{
  using R = Common<A, B>;
  const int ia = mc::choose(4), ib = mc::choose(4), op = mc::choose(8); const char* name = "";
  cml::quaternion<A> x; cml::quaternion<B> y;
  A a[4]; B b[4];
  for(int i = 0; i < 4; ++i) { a[i] = val<A>((ia + i) % 4); b[i] = val<B>((ib + i) % 4); x.put(i, a[i]); y.put(i, b[i]); }
  auto each = [&](const auto& e, auto f) { E05_TYPE(e, R); for(int i = 0; i < 4; ++i) same_value<R>(name, R(e.get(i)), f(i)); };
  switch(op) {
  case 0: name = "q+r"; each(x + y, [&](int i) { return R(R(a[i]) + R(b[i])); }); break;
  case 1: name = "q-r"; each(x - y, [&](int i) { return R(R(a[i]) - R(b[i])); }); break;
  case 2: name = "q*s"; each(x * b[0], [&](int i) { return R(R(a[i]) * R(b[0])); }); break;
  case 3: name = "s*q"; each(b[0] * x, [&](int i) { return R(R(a[i]) * R(b[0])); }); break;
  case 4: name = "q/s"; each(x / b[0], [&](int i) { return R(R(a[i]) / R(b[0])); }); break;
  case 5: { name = "q*r"; x.zero(); x.w() = a[3]; auto e = x * y; each(e, [&](int i) { return R(R(a[3]) * R(b[i])); }); } break;
  case 6: { name = "dot(q,r)"; for(int i = 1; i < 4; ++i) { x[i] = 0; y[i] = 0; } same_value<R>(name, cml::dot(x, y), R(R(a[0]) * R(b[0]))); } break;
  case 7: { name = "quaternion(q)"; if constexpr(std::is_same_v<B, R>) { cml::quaternion<B> c(x), d; d = x; for(int i = 0; i < 4; ++i) { MC_CHECK(c[i] == B(a[i]) && d[i] == B(a[i]), "value", name << ": element " << i); } } } break;
  }
  mc::step(); mc::Hash h; h(op)(ia)(ib)(double(sizeof(A)))(double(sizeof(B)))(3); mc::state(h);
}

// ---- mixed storage kinds: the materialised result owns its storage -----
template<int KA, int KB, int R, int C> struct Two;
template<int K, int R, int C, class B, class L> struct M;
template<int R, int C, class B, class L> struct M<0, R, C, B, L> { cml::matrix<double, cml::fixed<R, C>, B, L> m; };
template<int R, int C, class B, class L> struct M<1, R, C, B, L> { cml::matrix<double, cml::dynamic<>, B, L> m{R, C}; };
template<int R, int C, class B, class L> struct M<2, R, C, B, L> { double d[R * C]; cml::matrix<double, cml::external<R, C>, B, L> m{d}; };
template<int R, int C, class B, class L> struct M<3, R, C, B, L> { double d[R * C]; cml::matrix<double, cml::external<>, B, L> m{d, R, C}; };
template<class X> mat fill(X& m, int s) { mat g(m.rows(), m.cols()); for(int i = 0; i < g.r; ++i) for(int j = 0; j < g.c; ++j) { g(i, j) = s + i * 3 + j * j - (i ^ j); m.put(i, j, g(i, j)); } return g; }
template<class X> vec fillv(X& v, int s) { vec g; for(int i = 0; i < v.size(); ++i) { g.push_back(s + i * i - 2 * i); v.put(i, g.back()); } return g; }

template<int KA, int KB, class B, class L> void owners()
{
  const int op = mc::choose(12); const char* name = "";
  auto a = std::make_unique<M<KA, 2, 3, B, L>>(); auto b = std::make_unique<M<KB, 2, 3, B, L>>(); auto c = std::make_unique<M<KB, 3, 4, B, L>>();
  auto v = std::make_unique<V<double, KA>>(); auto w = std::make_unique<V<double, KB>>();
  const mat ga = fill(a->m, 2), gb = fill(b->m, -5), gc = fill(c->m, 1); const vec gv = fillv(v->v, 3), gw = fillv(w->v, -1);
  auto overwrite = [&] { a->m.fill(-99); b->m.fill(-99); c->m.fill(-99); v->v.fill(-99); w->v.fill(-99); a.reset(); b.reset(); c.reset(); v.reset(); w.reset(); };
  auto checkm = [&](auto r, const mat& g) { overwrite(); MC_CHECK(same(readm(r), g), "owner", name << " reads " << readm(r) << " once its operands are gone, expected " << g); mc::state(hash(g)); };
  auto checkv = [&](auto r, const vec& g) { overwrite(); MC_CHECK(same(read(r), g), "owner", name << " reads " << read(r) << " once its operands are gone, expected " << g); mc::state(hash(g)); };
  switch(op) {
  case 0: name = "A*B"; checkm(a->m * c->m, mul(ga, gc)); break;
  case 1: { name = "temporary of A+B"; using T = cml::temporary_of_t<decltype(a->m + b->m)>; checkm(T(a->m + b->m), add(ga, gb)); } break;
  case 2: { name = "temporary of 2A"; using T = cml::temporary_of_t<decltype(2. * a->m)>; checkm(T(2. * a->m), scale(ga, 2)); } break;
  case 3: { name = "temporary of transpose(A)"; using T = cml::temporary_of_t<decltype(cml::transpose(a->m))>; checkm(T(cml::transpose(a->m)), transpose(ga)); } break;
  case 4: name = "A*v"; checkv(a->m * w->v, mul(ga, gw)); break;
  case 5: name = "v*C"; checkv(v->v * c->m, mul(gv, gc)); break;
  case 6: { name = "temporary of v+w"; using T = cml::temporary_of_t<decltype(v->v + w->v)>; checkv(T(v->v + w->v), add(gv, gw)); } break;
  case 7: { name = "temporary of cross(v,w)"; using T = cml::temporary_of_t<decltype(cml::cross(v->v, w->v))>; checkv(T(cml::cross(v->v, w->v)), cross(gv, gw)); } break;
  case 8: { name = "temporary of a view"; using T = cml::temporary_of_t<decltype(v->v)>; checkv(T(v->v), gv); } break;
  case 9: { name = "temporary of row(A,1)"; using T = cml::temporary_of_t<decltype(cml::row(a->m, 1))>; checkv(T(cml::row(a->m, 1)), {ga(1, 0), ga(1, 1), ga(1, 2)}); } break;
  case 10: name = "normalize(v)"; { vec g = scale(gv, 1 / len(gv)); auto r = cml::normalize(v->v); overwrite(); MC_CHECK(near(read(r), g, 1e-14), "owner", name << " reads " << read(r)); } break;
  case 11: { name = "temporary of outer(v,w)"; mat g(3, 3); for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) g(i, j) = gv[size_t(i)] * gw[size_t(j)]; auto e = cml::outer(v->v, w->v); cml::matrix<double, cml::dynamic<>> t(e); checkm(std::move(t), g); } break;
  }
  mc::step();
}
} // namespace e05
