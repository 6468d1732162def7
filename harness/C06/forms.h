// C06: every construction and assignment form, against a plain array.
#pragma once
#include "all.h"
#include "ref.h"
#include <array>
#include <memory>
#include <utility>

namespace c06 {
using namespace ref;

template<class E> constexpr const char* tn() { return std::is_same_v<E, double> ? "double" : std::is_same_v<E, float> ? "float" : std::is_same_v<E, int> ? "int" : std::is_same_v<E, long double> ? "long double" : std::is_same_v<E, short> ? "short" : std::is_same_v<E, long> ? "long" : "unsigned char"; }

// Source values that no two elements share; fractional so that conversions show.
template<class S> S value(int i) { return S(std::is_integral_v<S> ? 3 * i - 4 : 2.75 * i - 3.5); }

template<class S, int N> struct Src
{
  S a[N];
  std::array<S, N> sa;
  cml::vector<S, cml::fixed<N>> fx;
  cml::vector<S, cml::dynamic<>> dy = cml::vector<S, cml::dynamic<>>(N);
  Src() { for(int i = 0; i < N; ++i) { a[i] = sa[i] = value<S>(i); fx.put(i, a[i]); dy.put(i, a[i]); } }
  cml::vector<S, cml::external<N>> ex() { return cml::vector<S, cml::external<N>>(a); }
  cml::vector<const S, cml::external<>> cex() { return cml::vector<const S, cml::external<>>(a, N); }
  void intact(const char* w)
  {
    for(int i = 0; i < N; ++i)
      MC_CHECK(a[i] == value<S>(i) && sa[i] == a[i] && fx[i] == a[i] && dy.size() == N && dy[i] == a[i], "source-changed", w << ": source element " << i << " changed");
  }
  // Overwrite the source: an object built from it may not notice.
  void scribble() { for(int i = 0; i < N; ++i) { a[i] = sa[i] = S(99); fx.put(i, 99); dy.put(i, 99); } }
};

template<class V, class E, class S, int N> void check(const V& v, const char* w, bool scribbled = false)
{
  MC_CHECK(v.size() == N, "size", w << ": size " << v.size() << ", expected " << N);
  for(int i = 0; i < N; ++i)
    MC_CHECK(v.get(i) == E(value<S>(i)) && v[i] == v.get(i) && *(v.begin() + i) == v.get(i), "element",
      w << (scribbled ? " (after the source was overwritten)" : "") << ": element " << i << " is " << v.get(i) << ", source " << value<S>(i));
  MC_CHECK(v.end() - v.begin() == N && v.begin() == v.data(), "iterators", w << ": iterator range is wrong");
  MC_TRACE(w);
  mc::step(); mc::state(hash(read(v)));
}

// ---- vectors -----------------------------------------------------------
template<class E, class S, int N, bool Dyn, size_t... I> void vec_ctor(std::index_sequence<I...>)
{
  using V = cml::vector<E, std::conditional_t<Dyn, cml::dynamic<>, cml::fixed<N>>>;
  Src<S, N> s;
  auto ok = [&](V v, const char* w) {
    check<V, E, S, N>(v, w); s.intact(w);
    s.scribble();
    check<V, E, S, N>(v, w, true);
    v.put(0, 55); MC_CHECK(s.a[0] == S(99) && s.fx[0] == S(99) && s.dy[0] == S(99), "shared", w << ": writing the new vector changed its source");
  };
  switch(mc::choose(17)) {
  case 0: if constexpr(N > 1) return ok(V(s.a[I]...), "vector(e...)"); else if constexpr(!Dyn || !std::is_integral_v<E>) return ok(V(E(s.a[0])), "vector(e)"); else return; // vector(int) is a size
  case 1: { V v{s.a[I]...}; return ok(v, "vector{e...}"); }
  case 2: { if constexpr(std::is_same_v<E, S>) { V v = {s.a[I]...}; return ok(v, "vector = {e...}"); } else return; }
  case 3: return ok(V(s.a), "vector(T[N])");
  case 4: { const S (&k)[N] = s.a; return ok(V(k), "vector(const T[N])"); }
  case 5: { const S* p = s.a; if constexpr(Dyn) return ok(V(p, N), "vector(pointer,n)"); else return ok(V(p), "vector(pointer)"); }
  case 6: { S* p = s.a; if constexpr(Dyn) return ok(V(N, p), "vector(n,pointer)"); else return ok(V(p), "vector(mutable pointer)"); }
  case 7: return ok(V(s.fx), "vector(fixed)");
  case 8: return ok(V(s.dy), "vector(dynamic)");
  case 9: { auto e = s.ex(); return ok(V(e), "vector(external)"); }
  case 10: { auto e = s.cex(); return ok(V(e), "vector(const external)"); }
  case 11: return ok(V(s.fx + S(0) * s.fx), "vector(expression)");
  case 12: { const V c(s.fx); V d(c); return ok(V(std::move(d)), "vector(move of copy)"); }
  case 13: { std::initializer_list<S> l = {s.a[I]...}; return ok(V(l), "vector(initializer_list)"); }
  case 14: if constexpr(N > 1) { // leading sub-vector plus trailing elements, every split
      const int k = mc::choose(3), form = mc::choose(3);
      auto go = [&](const auto& sub) {
        if constexpr(true) {
          const int m = sub.size();
          if(m == N - 1) return ok(V(sub, s.a[N - 1]), "vector(sub,e)");
          if constexpr(N > 2) if(m == N - 2) return ok(V(sub, s.a[N - 2], s.a[N - 1]), "vector(sub,e,e)");
          if constexpr(N > 3) if(m == N - 3) return ok(V(sub, s.a[N - 3], s.a[N - 2], s.a[N - 1]), "vector(sub,e,e,e)");
        }
      };
      if(k == 0) {
        if(form == 0) { cml::vector<S, cml::fixed<N - 1>> f(static_cast<const S*>(s.a)); return ok(V(f, s.a[N - 1]), "vector(fixed sub,e)"); }
        if(form == 1) { cml::vector<S, cml::external<N - 1>> f(s.a); return ok(V(f, s.a[N - 1]), "vector(external sub,e)"); }
        cml::vector<S, cml::dynamic<>> f(static_cast<const S*>(s.a), N - 1); return go(f);
      }
      if constexpr(N > 2) if(k == 1) {
        if(form == 0) { cml::vector<S, cml::fixed<N - 2>> f(static_cast<const S*>(s.a)); return ok(V(f, s.a[N - 2], s.a[N - 1]), "vector(fixed sub,e,e)"); }
        if(form == 1) { cml::vector<S, cml::external<N - 2>> f(s.a); return ok(V(f + S(0) * f, s.a[N - 2], s.a[N - 1]), "vector(expression sub,e,e)"); }
        cml::vector<S, cml::dynamic<>> f(static_cast<const S*>(s.a), N - 2); return go(f);
      }
      if constexpr(N > 3) if(k == 2) {
        cml::vector<S, cml::fixed<N - 3>> f(static_cast<const S*>(s.a)); return ok(V(f, s.a[N - 3], s.a[N - 2], s.a[N - 1]), "vector(fixed sub,e,e,e)");
      }
    }
    return;
  case 15: { auto get = [&]() -> V { return V(s.fx); }; V v = get(); return ok(v, "vector = returned temporary"); }
  case 16: if constexpr(!Dyn) { V v(s.fx);
      int k = 0; bool good = true;
      ((good = good && v.template get<I>() == v[k] && std::as_const(v).template get<I>() == v[k], ++k), ...);
      MC_CHECK(good && std::tuple_size<V>::value == N, "tuple", "get<I>() disagrees with operator[]");
      if constexpr(N == 2) { auto& [x, y] = v; MC_CHECK(x == v[0] && y == v[1], "binding", "structured binding"); y = E(9); MC_CHECK(v[1] == E(9), "binding", "writing a structured binding"); }
      if constexpr(N == 3) { auto [x, y, z] = v; MC_CHECK(x == v[0] && y == v[1] && z == v[2], "binding", "structured binding"); }
      if constexpr(N == 4) { const auto& [x, y, z, w] = v; MC_CHECK(x == v[0] && y == v[1] && z == v[2] && w == v[3], "binding", "structured binding"); }
      v.template get<N - 1>() = E(77); MC_CHECK(v[N - 1] == E(77), "tuple", "writing through get<I>()");
      mc::step();
    }
    return;
  }
}

// Targets of assignment: owning, fixed and views.
template<class E, int N, int K> struct Target;
template<class E, int N> struct Target<E, N, 0> { cml::vector<E, cml::fixed<N>> v; Target() { v.fill(E(41)); } };
template<class E, int N> struct Target<E, N, 1> { cml::vector<E, cml::dynamic<>> v; Target() { int n = mc::choose(6); if(n) { v.resize(n); v.fill(E(41)); } } };
template<class E, int N> struct Target<E, N, 2> { E m[N + 2]; cml::vector<E, cml::external<N>> v{m + 1}; Target() { for(auto& x : m) x = E(41); } ~Target() noexcept(false) { MC_CHECK(m[0] == E(41) && m[N + 1] == E(41), "outside", "assignment wrote outside the view"); } };
template<class E, int N> struct Target<E, N, 3> { E m[N + 2]; cml::vector<E, cml::external<>> v{m + 1, N}; Target() { for(auto& x : m) x = E(41); } ~Target() noexcept(false) { MC_CHECK(m[0] == E(41) && m[N + 1] == E(41), "outside", "assignment wrote outside the view"); } };

template<class E, class S, int N, int K, size_t... I> void vec_assign(std::index_sequence<I...>)
{
  Src<S, N> s; Target<E, N, K> t; auto& v = t.v; using V = std::decay_t<decltype(v)>;
  auto ok = [&](const V& r, const char* w) {
    MC_CHECK(&r == &v, "return", w << ": did not return the assigned vector");
    check<V, E, S, N>(v, w); s.intact(w); s.scribble(); check<V, E, S, N>(v, w, true);
  };
  switch(mc::choose(18)) {
  case 0: return ok(v.set(s.a[I]...), "set(e...)");
  case 1: return ok(v = s.a, "= T[N]");
  case 2: { const S (&k)[N] = s.a; return ok(v = k, "= const T[N]"); }
  case 3: return ok(v = {s.a[I]...}, "= {e...}");
  case 4: return ok(v = s.fx, "= fixed");
  case 5: return ok(v = s.dy, "= dynamic");
  case 6: { auto e = s.ex(); if constexpr(K == 2 && std::is_same_v<E, S>) { static_cast<cml::writable_vector<V>&>(v) = e; return ok(v, "= external"); } else return ok(v = e, "= external"); }
  case 7: { auto e = s.cex(); return ok(v = e, "= const external"); }
  case 8: return ok(v = s.fx + S(0) * s.dy, "= expression");
  case 9: return ok(v = cml::vector<S, cml::fixed<N>>(s.fx), K == 0 ? "= fixed temporary" : "= temporary");
  case 10: return ok(v = cml::vector<S, cml::dynamic<>>(s.fx), "= dynamic temporary");
  // The same on a temporary target.
  case 11: { V&& r = std::move(v).set(s.a[I]...); return ok(r, "temporary.set(e...)"); }
  case 12: { auto&& r = static_cast<cml::writable_vector<V>&&>(v) = s.a; return ok(r, "temporary = T[N]"); }
  case 13: { auto&& r = static_cast<cml::writable_vector<V>&&>(v) = {s.a[I]...}; return ok(r, "temporary = {e...}"); }
  case 14: { auto&& r = static_cast<cml::writable_vector<V>&&>(v) = s.fx + S(0) * s.fx; return ok(r, "temporary = expression"); }
  case 15: { std::initializer_list<S> l = {s.a[I]...}; return ok(v = l, "= initializer_list"); }
  case 16: { // element by element
      if constexpr(K == 1) v.resize(N);
      for(int i = N - 1; i >= 0; --i) { if(i % 2) v[i] = E(s.a[i]); else v.put(i, s.a[i]); }
      return ok(v, "put/operator[]"); }
  case 17: { // element by element through get and a copy
      if constexpr(K == 1) v.resize(N);
      for(int i = 0; i < N; ++i) v.get(i) = E(s.a[i]);
      return ok(v, "get(i) ="); }
  }
}

template<class E, class S, int N> void vec_all()
{
  using Q = std::make_index_sequence<N>;
  switch(mc::choose(6)) {
  case 0: return vec_ctor<E, S, N, false>(Q());
  case 1: return vec_ctor<E, S, N, true>(Q());
  case 2: return vec_assign<E, S, N, 0>(Q());
  case 3: return vec_assign<E, S, N, 1>(Q());
  case 4: return vec_assign<E, S, N, 2>(Q());
  default: return vec_assign<E, S, N, 3>(Q());
  }
}

template<class E, class S> void add_vec()
{
  const std::string n = std::string("vector ") + tn<E>() + " from " + tn<S>();
  mc::add(n + " N=1", [] { vec_all<E, S, 1>(); });
  mc::add(n + " N=2", [] { vec_all<E, S, 2>(); });
  mc::add(n + " N=3", [] { vec_all<E, S, 3>(); });
  mc::add(n + " N=4", [] { vec_all<E, S, 4>(); });
}

// ---- matrices ----------------------------------------------------------
// Sources: element (i,j) is value(i*C+j), i.e. 1-D forms list rows.
template<class S, int R, int C> struct MSrc
{
  S a[R][C], f[R * C];
  std::array<S, R * C> sa;
  cml::matrix<S, cml::fixed<R, C>, cml::row_basis, cml::row_major> rr;
  cml::matrix<S, cml::fixed<R, C>, cml::col_basis, cml::col_major> cc;
  cml::matrix<S, cml::dynamic<>, cml::col_basis, cml::row_major> dr{R, C};
  cml::matrix<S, cml::dynamic<>, cml::row_basis, cml::col_major> dc{R, C};
  S colmem[R * C];
  MSrc() { set([](int i, int j) { return value<S>(i * C + j); }); }
  template<class F> void set(F fn)
  {
    for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) {
      const S x = fn(i, j);
      a[i][j] = f[i * C + j] = sa[size_t(i * C + j)] = colmem[j * R + i] = x;
      rr.put(i, j, x); cc.put(i, j, x); dr.put(i, j, x); dc.put(i, j, x);
    }
  }
  void scribble() { set([](int, int) { return S(99); }); }
  void intact(const char* w)
  {
    for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) {
      const S x = value<S>(i * C + j);
      MC_CHECK(a[i][j] == x && f[i * C + j] == x && sa[size_t(i * C + j)] == x && colmem[j * R + i] == x && rr(i, j) == x && cc(i, j) == x && dr(i, j) == x && dc(i, j) == x, "source-changed", w << ": source (" << i << "," << j << ") changed");
    }
  }
};

template<class E, class S, int R, int C, bool RowMajor, class M> void checkm(const M& m, const char* w, bool scribbled = false)
{
  MC_CHECK(m.rows() == R && m.cols() == C && m.size() == cml::matrix_size(R, C), "size", w << ": " << m.rows() << "x" << m.cols());
  for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) {
    const E x = E(value<S>(i * C + j));
    MC_CHECK(m(i, j) == x && m.get(i, j) == x, "element", w << (scribbled ? " (after the source was overwritten)" : "") << ": (" << i << "," << j << ") is " << m(i, j) << ", source " << value<S>(i * C + j));
    MC_CHECK(m.data()[RowMajor ? i * C + j : j * R + i] == x, "layout", w << ": data() does not list elements in the declared layout at (" << i << "," << j << ")");
  }
  MC_TRACE(w);
  mc::step(); mc::state(hash(readm(m)));
}

template<class E, class S, int R, int C, class B, class L, bool Dyn, size_t... I> void mat_ctor(std::index_sequence<I...>)
{
  using M = cml::matrix<E, std::conditional_t<Dyn, cml::dynamic<>, cml::fixed<R, C>>, B, L>;
  constexpr bool RM = std::is_same_v<L, cml::row_major>;
  MSrc<S, R, C> s;
  auto ok = [&](M m, const char* w) {
    checkm<E, S, R, C, RM>(m, w); s.intact(w); s.scribble(); checkm<E, S, R, C, RM>(m, w, true);
    m.put(0, 0, 55); MC_CHECK(s.a[0][0] == S(99) && s.rr(0, 0) == S(99) && s.dr(0, 0) == S(99), "shared", w << ": writing the new matrix changed its source");
  };
  switch(mc::choose(16)) {
  case 0: if constexpr(Dyn) return ok(M(R, C, s.f[I]...), "matrix(r,c,e...)"); else if constexpr(R * C > 1) return ok(M(s.f[I]...), "matrix(e...)"); else return;
  case 1: if constexpr(!Dyn) { M m{s.f[I]...}; return ok(m, "matrix{e...}"); } else return;
  case 2: return ok(M(s.a), "matrix(T[R][C])");
  case 3: if constexpr(Dyn) return ok(M(R, C, s.f), "matrix(r,c,T[N])"); else return ok(M(s.f), "matrix(T[N])");
  case 4: { const S* p = s.f; if constexpr(Dyn) return ok(M(R, C, p), "matrix(r,c,pointer)"); else return ok(M(p), "matrix(pointer)"); }
  case 5: { S* p = s.f; if constexpr(Dyn) return ok(M(p, R, C), "matrix(pointer,r,c)"); else return ok(M(p), "matrix(mutable pointer)"); }
  case 6: return ok(M(s.rr), "matrix(fixed row-major)");
  case 7: return ok(M(s.cc), "matrix(fixed col-major)");
  case 8: return ok(M(s.dr), "matrix(dynamic row-major)");
  case 9: return ok(M(s.dc), "matrix(dynamic col-major)");
  case 10: { cml::matrix<const S, cml::external<>, cml::row_basis, cml::row_major> e(s.f, R, C); return ok(M(e), "matrix(const external row-major)"); }
  case 11: { cml::matrix<S, cml::external<R, C>, cml::row_basis, cml::col_major> e(s.colmem); return ok(M(e), "matrix(external col-major)"); }
  case 12: return ok(M(s.rr + S(0) * s.rr), "matrix(expression)");
  case 13: { const M c(s.cc); M d(c); return ok(M(std::move(d)), "matrix(move of copy)"); }
  case 14: if constexpr(Dyn) return ok(M(R, C, s.f), "matrix(r,c,T[N])"); else { std::initializer_list<S> l = {s.f[I]...}; return ok(M(l), "matrix(initializer_list)"); }
  case 15: return ok(M(cml::transpose(cml::transpose(s.dc))), "matrix(transpose of transpose)");
  }
}

template<class E, int R, int C, class B, class L, int K> struct MTarget;
template<class E, int R, int C, class B, class L> struct MTarget<E, R, C, B, L, 0> { cml::matrix<E, cml::fixed<R, C>, B, L> m; MTarget() { m.fill(E(41)); } };
template<class E, int R, int C, class B, class L> struct MTarget<E, R, C, B, L, 1> { cml::matrix<E, cml::dynamic<>, B, L> m; MTarget() { int k = mc::choose(5); if(k) { const int sz[5][2] = {{0, 0}, {R, C}, {C, R}, {1, R * C + 1}, {1, 1}}; m.resize(sz[k][0], sz[k][1]); m.fill(E(41)); } } };
template<class E, int R, int C, class B, class L> struct MTarget<E, R, C, B, L, 2> { E d[R * C + 2]; cml::matrix<E, cml::external<R, C>, B, L> m{d + 1}; MTarget() { for(auto& x : d) x = E(41); } ~MTarget() noexcept(false) { MC_CHECK(d[0] == E(41) && d[R * C + 1] == E(41), "outside", "assignment wrote outside the view"); } };
template<class E, int R, int C, class B, class L> struct MTarget<E, R, C, B, L, 3> { E d[R * C + 2]; cml::matrix<E, cml::external<>, B, L> m{d + 1, R, C}; MTarget() { for(auto& x : d) x = E(41); } ~MTarget() noexcept(false) { MC_CHECK(d[0] == E(41) && d[R * C + 1] == E(41), "outside", "assignment wrote outside the view"); } };

template<class E, class S, int R, int C, class B, class L, int K, size_t... I> void mat_assign(std::index_sequence<I...>)
{
  constexpr bool RM = std::is_same_v<L, cml::row_major>;
  MSrc<S, R, C> s; MTarget<E, R, C, B, L, K> t; auto& m = t.m; using M = std::decay_t<decltype(m)>;
  auto ok = [&](const M& r, const char* w) {
    MC_CHECK(&r == &m, "return", w << ": did not return the assigned matrix");
    checkm<E, S, R, C, RM>(m, w); s.intact(w); s.scribble(); checkm<E, S, R, C, RM>(m, w, true);
  };
  using W = cml::writable_matrix<M>;
  const bool linear_ok = K != 1 || m.rows() * m.cols() == R * C;
  auto shape = [&] { if constexpr(K == 1) m.resize(R, C); };
  switch(mc::choose(K <= 1 ? 18 : 15)) {
  case 0: return ok(m = s.a, "= T[R][C]");
  case 1: if(!linear_ok) return; shape(); { const S (&k)[R * C] = s.f; return ok(m = k, "= const T[N]"); }
  case 2: if(!linear_ok) return; shape(); return ok(m = s.f, "= T[N]");
  case 3: if(!linear_ok) return; shape(); return ok(m = {s.f[I]...}, "= {e...}");
  case 4: return ok(m = s.rr, "= fixed row-major");
  case 5: return ok(m = s.cc, "= fixed col-major");
  case 6: return ok(m = s.dr, "= dynamic row-major");
  case 7: return ok(m = s.dc, "= dynamic col-major");
  case 8: { cml::matrix<const S, cml::external<>, cml::row_basis, cml::col_major> e(s.colmem, R, C); return ok(m = e, "= const external col-major"); }
  case 9: return ok(m = s.rr + S(0) * s.rr, "= expression");
  case 10: { M&& r = static_cast<W&&>(m) = s.a; return ok(r, "temporary = T[R][C]"); }
  case 11: { if(!linear_ok) return; shape(); M&& r = static_cast<W&&>(m) = {s.f[I]...}; return ok(r, "temporary = {e...}"); }
  case 12: { M&& r = static_cast<W&&>(m) = s.dc + S(0) * s.dc; return ok(r, "temporary = expression"); }
  case 13: { shape(); for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) { if((i + j) % 2) m(i, j) = E(s.a[i][j]); else m.put(i, j, s.a[i][j]); } return ok(m, "put/operator()"); }
  case 14: { if(!linear_ok) return; shape(); M&& r = static_cast<W&&>(m) = s.f; return ok(r, "temporary = T[N]"); }
  case 15: if constexpr(K <= 1) { const M c(s.cc); return ok(m = c, "= same type (copy)"); } break;
  case 16: if constexpr(K <= 1) { return ok(m = M(s.cc), "= same type (move)"); } break;
  case 17: if constexpr(K <= 1) { M c(s.dr); ok(m = std::move(c), "= std::move(same type)"); c = m; checkm<E, S, R, C, RM>(c, "moved-from object assigned again"); } break;
  }
}

template<class E, class S, int R, int C, class B, class L> void mat_all()
{
  using Q = std::make_index_sequence<R * C>;
  switch(mc::choose(6)) {
  case 0: return mat_ctor<E, S, R, C, B, L, false>(Q());
  case 1: return mat_ctor<E, S, R, C, B, L, true>(Q());
  case 2: return mat_assign<E, S, R, C, B, L, 0>(Q());
  case 3: return mat_assign<E, S, R, C, B, L, 1>(Q());
  case 4: return mat_assign<E, S, R, C, B, L, 2>(Q());
  default: return mat_assign<E, S, R, C, B, L, 3>(Q());
  }
}

template<class E, class S, int R, int C> void add_mat(const char* n)
{
  using namespace cml;
  mc::add(std::string(n) + " row basis, row major", [] { mat_all<E, S, R, C, row_basis, row_major>(); });
  mc::add(std::string(n) + " col basis, col major", [] { mat_all<E, S, R, C, col_basis, col_major>(); });
}
template<class E, class S, int R, int C> void add_mat2(const char* n)
{
  using namespace cml;
  mc::add(std::string(n) + " row basis, col major", [] { mat_all<E, S, R, C, row_basis, col_major>(); });
  mc::add(std::string(n) + " col basis, row major", [] { mat_all<E, S, R, C, col_basis, row_major>(); });
}
} // namespace c06
