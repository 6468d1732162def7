#pragma once
// Matrix expressions over every shape of the list, in every storage kind.
#include "../wide.h"
namespace e02w {
using namespace wide;
template<class T, class B, class L, bool Fixed> void all()
{
  matrices<Fixed>([](auto t, int r, int c) {
    using S = typename decltype(t)::type;
    MB<T, S, B, L> A(r, c), Bm(r, c); auto &a = A.m, &b = Bm.m;
    using OL = std::conditional_t<std::is_same_v<L, cml::row_major>, cml::col_major, cml::row_major>;
    cml::matrix<T, cml::dynamic<>, B, OL> d(r, c);
    const mat x = fillm(a, r, c, [](int i) { return val(i); }), y = fillm(b, r, c, [](int i) { return val(i, 5); }), z = fillm(d, r, c, [](int i) { return small(i, 3); });
    auto go = [&](auto&& e, const mat& w, const char* what) {
      expectm(e, w, what);
      { cml::matrix<T, cml::dynamic<>, B, OL> q(e); expectm(q, w, "constructed from it, other layout"); }
      { cml::matrix<T, cml::dynamic<>, B, L> q(1, 3); q = e; expectm(q, w, "assigned from it"); }
      if(w.r == r && w.c == c) { MB<T, S, B, L> q(r, c); if constexpr(std::is_same_v<S, cml::dynamic<>> || std::is_same_v<S, cml::external<>>) q.m = e; expectm(a, x, "left operand"); if constexpr(std::is_same_v<S, cml::dynamic<>> || std::is_same_v<S, cml::external<>>) expectm(q.m, w, "same kind assigned from it"); MC_CHECK(q.ok(), "guard", what); }
      expectm(a, x, "left operand afterwards"); expectm(b, y, "right operand afterwards"); MC_CHECK(A.ok() && Bm.ok(), "guard", what);
      mc::state(hash(w));
    };
    auto map = [&](auto f) { mat w(x); for(size_t i = 0; i < w.d.size(); ++i) w.d[i] = f(x.d[i], y.d[i], z.d[i]); return w; };
    switch(mc::choose(15)) {
    case 0: return go(a + b, map([](double p, double q, double) { return p + q; }), "a + b");
    case 1: return go(a - b, map([](double p, double q, double) { return p - q; }), "a - b");
    case 2: return go(-a, map([](double p, double, double) { return -p; }), "-a");
    case 3: return go(T(3) * a, map([](double p, double, double) { return 3 * p; }), "3 a");
    case 4: return go((a * T(4)) / T(-2), map([](double p, double, double) { return -2 * p; }), "a 4 / -2");
    case 5: return go(cml::hadamard(a, d), map([](double p, double, double s) { return p * s; }), "hadamard(a, d)");
    case 6: return go(d - b, map([](double, double q, double s) { return s - q; }), "d - b");
    case 7: return go(a - (b + T(2) * d), map([](double p, double q, double s) { return p - (q + 2 * s); }), "a - (b + 2 d)");
    case 8: return go(cml::transpose(a), transpose(x), "transpose(a)");
    case 9: return go(cml::transpose(a + d), transpose(add(x, z)), "transpose(a + d)");
    case 10: { const int k = mc::choose(r > 6 ? 3 : 1) ? mc::choose(2) ? r - 1 : r / 2 : 0; if(!r) return; vec w, u; for(int j = 0; j < c; ++j) { w.push_back(x(k, j)); u.push_back(x(k, j) + y(k, j)); }
      expectv(cml::row(a, k), w, "row"); cml::vector<T, cml::dynamic<>> q; q = cml::row(a + b, k); expectv(q, u, "row of a sum"); return; }
    case 11: { const int k = mc::choose(c > 6 ? 3 : 1) ? mc::choose(2) ? c - 1 : c / 2 : 0; if(!c) return; vec w, u; for(int i = 0; i < r; ++i) { w.push_back(x(i, k)); u.push_back(x(i, k) + y(i, k)); }
      expectv(cml::col(a, k), w, "column"); cml::vector<T, cml::dynamic<>> q; q = cml::col(a + b, k); expectv(q, u, "column of a sum"); return; }
    case 12: { a = a + b; expectm(a, add(x, y), "a = a + b"); MC_CHECK(A.ok(), "guard", "a = a + b"); return; }
    case 13: { a = b - a; expectm(a, add(y, x, -1), "a = b - a"); MC_CHECK(A.ok(), "guard", "a = b - a"); return; }
    case 14: { if(r != c) return; const auto e = cml::transpose(d) - d; mat w(r, c); for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) w(i, j) = z(j, i) - z(i, j); expectm(e, w, "d^T - d"); if constexpr(std::is_same_v<S, cml::dynamic<>> || std::is_same_v<S, cml::external<>>) { a = e; expectm(a, w, "a = d^T - d"); } return; }
    }
  });
}
}
