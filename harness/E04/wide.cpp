// In-place operations over every size of the list, in every storage kind.
#include "../wide.h"
namespace {
using namespace wide;
template<class T, bool Fixed> void vecs()
{
  vectors<Fixed>([](auto t, int n) {
    using S = typename decltype(t)::type;
    VB<T, S> A(n), B(n); auto &a = A.v, &b = B.v;
    vec x = fillv(a, n, [](int i) { return val(i); }); const vec y = fillv(b, n, [](int i) { return val(i, 5); });
    cml::vector<T, cml::dynamic<>> d(n); const vec z = fillv(d, n, [](int i) { return small(i, 3); });
    auto done = [&](auto& r, const vec& w, const char* what) {
      MC_CHECK(static_cast<const void*>(&r) == static_cast<const void*>(&a), "return", what << " did not return the object");
      if(what[0] == '~') { const vec g = read(a); MC_CHECK(near(g, w, sizeof(T) == 4 ? 1e-6 : 1e-14), "large", what << ": " << at(g, w)); } else expectv(a, w, what);
      expectv(b, y, "argument afterwards"); expectv(d, z, "argument afterwards"); MC_CHECK(A.ok() && B.ok(), "guard", what); mc::state(hash(w));
    };
    auto map = [&](auto f) { vec w(x); for(size_t i = 0; i < w.size(); ++i) w[i] = f(x[i], y[i], z[i]); return w; };
    switch(mc::choose(19)) {
    case 0: return done(a += b, map([](double p, double q, double) { return p + q; }), "a += b");
    case 1: return done(a -= b, map([](double p, double q, double) { return p - q; }), "a -= b");
    case 2: return done(a += d, map([](double p, double, double r) { return p + r; }), "a += dynamic");
    case 3: return done(a -= b + d, map([](double p, double q, double r) { return p - (q + r); }), "a -= b + d");
    case 4: return done(a += a, map([](double p, double, double) { return p + p; }), "a += a");
    case 5: return done(a *= T(3), map([](double p, double, double) { return p * 3; }), "a *= 3");
    case 6: { const vec w = x; a *= T(2); return done(a /= T(2), w, "a *= 2; a /= 2"); }
    case 7: return done(a.minimize(b), map([](double p, double q, double) { return q < p ? q : p; }), "minimize(b)");
    case 8: return done(a.maximize(b), map([](double p, double q, double) { return p < q ? q : p; }), "maximize(b)");
    case 9: return done(a.minimize(d - b), map([](double p, double q, double r) { return r - q < p ? r - q : p; }), "minimize(d - b)");
    case 10: return done(a.maximize(d - b), map([](double p, double q, double r) { return p < r - q ? r - q : p; }), "maximize(d - b)");
    case 11: return done(a.zero(), vec(x.size(), 0.), "zero()");
    case 12: return done(a.fill(T(6)), vec(x.size(), 6.), "fill(6)");
    case 13: { if(!n) return; const int e = mc::choose(3) * (n - 1) / 2; return done(a.fill(a[e]), vec(x.size(), x[size_t(e)]), "fill(a[e])"); }
    case 14: { if(!n) return; const int e = mc::choose(3) * (n - 1) / 2; const double k = z[size_t(e)]; a[e] = T(k); x[size_t(e)] = k; return done(a *= a[e], map([&](double p, double, double) { return p * k; }), "a *= a[e]"); }
    case 15: { if(!n) return; const int e = mc::choose(3) * (n - 1) / 2; vec w(x); w[size_t(e)] = 1; a *= T(2); a[e] = T(2); return done(a /= a[e], w, "a /= a[e]"); }
    case 16: { if(!n) return; const int e = mc::choose(3) * (n - 1) / 2; vec w(x.size(), 0.); w[size_t(e)] = 1; return done(a.cardinal(e), w, "cardinal(e)"); }
    case 17: if constexpr(std::is_floating_point_v<T>) { if(!n || len(x) == 0) return; return done(a.normalize(), unit(x), "~normalize()"); } return;
    case 18: return done(a -= a, vec(x.size(), 0.), "a -= a");
    }
  });
}
template<class T, class B, class L, bool Fixed> void mats()
{
  matrices<Fixed>([](auto t, int r, int c) {
    using S = typename decltype(t)::type;
    MB<T, S, B, L> A(r, c), Bm(r, c); auto &a = A.m, &b = Bm.m;
    using OL = std::conditional_t<std::is_same_v<L, cml::row_major>, cml::col_major, cml::row_major>;
    cml::matrix<T, cml::dynamic<>, B, OL> d(r, c);
    const mat x = fillm(a, r, c, [](int i) { return val(i); }), y = fillm(b, r, c, [](int i) { return val(i, 5); }), z = fillm(d, r, c, [](int i) { return small(i, 3); });
    auto done = [&](auto& o, const mat& w, const char* what) {
      MC_CHECK(static_cast<const void*>(&o) == static_cast<const void*>(&a), "return", what << " did not return the object");
      expectm(a, w, what); expectm(b, y, "argument afterwards"); expectm(d, z, "argument afterwards"); MC_CHECK(A.ok() && Bm.ok(), "guard", what); mc::state(hash(w));
    };
    auto map = [&](auto f) { mat w(x); for(size_t i = 0; i < w.d.size(); ++i) w.d[i] = f(x.d[i], y.d[i], z.d[i]); return w; };
    switch(mc::choose(14)) {
    case 0: return done(a += b, map([](double p, double q, double) { return p + q; }), "a += b");
    case 1: return done(a -= b, map([](double p, double q, double) { return p - q; }), "a -= b");
    case 2: return done(a += d, map([](double p, double, double s) { return p + s; }), "a += other layout");
    case 3: return done(a -= b + d, map([](double p, double q, double s) { return p - (q + s); }), "a -= b + d");
    case 4: return done(a += a, map([](double p, double, double) { return p + p; }), "a += a");
    case 5: return done(a *= T(3), map([](double p, double, double) { return p * 3; }), "a *= 3");
    case 6: a *= T(2); return done(a /= T(2), x, "a *= 2; a /= 2");
    case 7: return done(a.zero(), mat(r, c), "zero()");
    case 8: return done(a.fill(T(6)), mat(r, c, 6), "fill(6)");
    case 9: { if(!r || !c) return; const int i = mc::choose(3) * (r - 1) / 2, j = mc::choose(3) * (c - 1) / 2; return done(a.fill(a(i, j)), mat(r, c, x(i, j)), "fill(a(i,j))"); }
    case 10: { if(!r || !c) return; const int i = mc::choose(3) * (r - 1) / 2, j = mc::choose(3) * (c - 1) / 2; mat w(x); const double k = z(i, j); w(i, j) = k; a(i, j) = T(k); return done(a *= a(i, j), scale(w, k), "a *= a(i,j)"); }
    case 11: { mat w(r, c); for(int i = 0; i < r && i < c; ++i) w(i, i) = 1; return done(a.identity(), w, "identity()"); }
    case 12: if constexpr(!std::is_same_v<S, cml::external<>>) { if(r != c && !std::is_same_v<S, cml::dynamic<>>) return; if constexpr(std::is_same_v<S, cml::dynamic<>> || std::is_same_v<S, cml::fixed<5, 5>> || std::is_same_v<S, cml::fixed<8, 8>> || std::is_same_v<S, cml::fixed<17, 17>> || std::is_same_v<S, cml::external<6, 6>> || std::is_same_v<S, cml::external<9, 9>>) return done(a.transpose(), transpose(x), "transpose()"); } return;
    case 13: if constexpr(std::is_same_v<S, cml::dynamic<>> || std::is_same_v<S, cml::external<>>) { if(r != c) return; return done(a += cml::transpose(d), add(x, transpose(z)), "a += transpose(d)"); } return;
    }
  });
}
struct R { R() {
  mc::add("large vector double", vecs<double, true>); mc::add("large vector float", vecs<float, false>); mc::add("large vector int", vecs<int, false>);
  mc::add("large matrix double row basis row major", mats<double, cml::row_basis, cml::row_major, true>);
  mc::add("large matrix double col basis col major", mats<double, cml::col_basis, cml::col_major, false>);
  mc::add("large matrix float row basis col major", mats<float, cml::row_basis, cml::col_major, false>);
  mc::add("large matrix int col basis row major", mats<int, cml::col_basis, cml::row_major, false>);
} } r;
}
