// Vector expressions over every size of the list, in every storage kind.
#include "wide.h"
namespace {
using namespace wide;
template<class T, bool Fixed> void all()
{
  vectors<Fixed>([](auto t, int n) {
    using S = typename decltype(t)::type;
    VB<T, S> A(n), B(n); auto &a = A.v, &b = B.v;
    cml::vector<T, cml::dynamic<>> d(n);
    const vec x = fillv(a, n, [](int i) { return val(i); }), y = fillv(b, n, [](int i) { return val(i, 5); }), z = fillv(d, n, [](int i) { return small(i, 3); });
    auto go = [&](auto&& e, const vec& w, const char* what) {
      expectv(e, w, what);
      { cml::vector<T, cml::dynamic<>> r(e); expectv(r, w, "constructed from it"); }
      { cml::vector<T, cml::dynamic<>> r(n ? 1 : 3); r = e; expectv(r, w, "assigned from it"); }
      { VB<T, S> R(n); R.v = e; expectv(R.v, w, "same kind assigned from it"); MC_CHECK(R.ok(), "guard", what); }
      expectv(a, x, "left operand afterwards"); expectv(b, y, "right operand afterwards"); MC_CHECK(A.ok() && B.ok(), "guard", what);
      mc::state(hash(w));
    };
    auto map = [&](auto f) { vec w(x); for(size_t i = 0; i < w.size(); ++i) w[i] = f(x[i], y[i], z[i]); return w; };
    switch(mc::choose(14)) {
    case 0: return go(a + b, map([](double p, double q, double) { return p + q; }), "a + b");
    case 1: return go(a - b, map([](double p, double q, double) { return p - q; }), "a - b");
    case 2: return go(-a, map([](double p, double, double) { return -p; }), "-a");
    case 3: return go(T(3) * a, map([](double p, double, double) { return 3 * p; }), "3 a");
    case 4: return go(a * T(-2), map([](double p, double, double) { return -2 * p; }), "a (-2)");
    case 5: return go((T(4) * a) / T(2), map([](double p, double, double) { return 2 * p; }), "4 a / 2");
    case 6: return go(cml::hadamard(a, d), map([](double p, double, double r) { return p * r; }), "hadamard(a, d)");
    case 7: return go(a + d, map([](double p, double, double r) { return p + r; }), "a + dynamic");
    case 8: return go(d - b, map([](double, double q, double r) { return r - q; }), "dynamic - b");
    case 9: return go(a - (b + T(2) * d), map([](double p, double q, double r) { return p - (q + 2 * r); }), "a - (b + 2 d)");
    case 10: return go((a - b) + (d - a), map([](double, double q, double r) { return r - q; }), "(a - b) + (d - a)");
    case 11: { if(n < 2) return; static const int f[] = {0, 1, 2, 3, 4}; const int k = f[mc::choose(5)] * (n - 1) / 4; const auto e = cml::subvector(a, k); vec w(x); w.erase(w.begin() + k);
      expectv(e, w, "subvector"); cml::vector<T, cml::dynamic<>> r(e); expectv(r, w, "constructed from a subvector"); cml::vector<T, cml::dynamic<>> q; q = cml::subvector(a, k) - cml::subvector(b, k); vec u(y); u.erase(u.begin() + k); expectv(q, add(w, u, -1), "difference of subvectors"); return; }
    case 12: { a = a + b; expectv(a, add(x, y), "a = a + b"); MC_CHECK(A.ok(), "guard", "a = a + b"); return; }
    case 13: { a = b - a; expectv(a, add(y, x, -1), "a = b - a"); MC_CHECK(A.ok(), "guard", "a = b - a"); return; }
    }
  });
}
struct R { R() { mc::add("large double", all<double, true>); mc::add("large float", all<float, false>); mc::add("large int", all<int, false>); } } r;
}
