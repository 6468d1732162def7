// Comparison of large objects that differ at any one place.
#include "../wide.h"
#include <cml/util/vector_hash.h>
namespace {
using namespace wide;
template<class T, bool Fixed> void vecs()
{
  vectors<Fixed>([](auto t, int n) {
    using S = typename decltype(t)::type;
    VB<T, S> A(n); cml::vector<T, cml::dynamic<>> b(n);
    const vec x = fillv(A.v, n, [](int i) { return val(i); }); fillv(b, n, [](int i) { return val(i); });
    const auto& a = A.v;
    auto six = [&](int o, const char* w, int p) { // o: sign of a compared with b
      MC_CHECK((a == b) == (o == 0) && (a != b) == (o != 0) && (a < b) == (o < 0) && (a > b) == (o > 0) && (a <= b) == (o <= 0) && (a >= b) == (o >= 0), "large", w << " at " << p << " of " << n << ": == " << (a == b) << ", < " << (a < b) << ", > " << (a > b));
      MC_CHECK((b == a) == (o == 0) && (b != a) == (o != 0) && (b < a) == (o > 0) && (b > a) == (o < 0) && (b <= a) == (o >= 0) && (b >= a) == (o <= 0), "large", w << " at " << p << " of " << n << ", exchanged");
      mc::step(12);
    };
    const int k = mc::choose(4);
    if(k == 0) { six(0, "equal", 0); if constexpr(std::is_floating_point_v<T> || std::is_integral_v<T>) MC_CHECK(std::hash<std::decay_t<decltype(b)>>()(b) == std::hash<std::decay_t<decltype(b)>>()(cml::vector<T, cml::dynamic<>>(a)), "large", "equal vectors of " << n << " hash differently"); }
    if(k == 1 || k == 2) for(int p = 0; p < n; ++p) { // differ at p, and the other way at every later place
      const T old = b[p]; b[p] = T(old + (k == 1 ? 1 : -1)); six(k == 1 ? -1 : 1, "one difference", p);
      if(p + 1 < n) { const T o2 = b[n - 1]; b[n - 1] = T(o2 + (k == 1 ? -1 : 1)); six(k == 1 ? -1 : 1, "two differences", p); b[n - 1] = o2; }
      b[p] = old;
    }
    if(k == 3) { // prefixes
      cml::vector<T, cml::dynamic<>> c(n + 1), d(n > 0 ? n - 1 : 0); for(int i = 0; i < n; ++i) { c[i] = b[i]; if(i < n - 1) d[i] = b[i]; } c[n] = T(-5000);
      if constexpr(std::is_same_v<S, cml::dynamic<>> || std::is_same_v<S, cml::external<>>) {
        MC_CHECK(!(a == c) && a != c && a < c && !(a > c) && a <= c && !(a >= c) && c > a, "large", "a proper prefix of " << n);
        if(n) MC_CHECK(!(a == d) && a != d && a > d && !(a < d) && d < a, "large", "a proper extension of " << n - 1);
      }
      mc::step(12);
    }
    mc::state(hash(x) + uint64_t(k));
  });
}
template<class T, class B, class L, bool Fixed> void mats()
{
  matrices<Fixed>([](auto t, int r, int c) {
    using S = typename decltype(t)::type;
    using OL = std::conditional_t<std::is_same_v<L, cml::row_major>, cml::col_major, cml::row_major>;
    MB<T, S, B, L> A(r, c); cml::matrix<T, cml::dynamic<>, B, OL> b(r, c); cml::matrix<T, cml::dynamic<>, B, L> e(r, c);
    const mat x = fillm(A.m, r, c, [](int i) { return val(i); }); fillm(b, r, c, [](int i) { return val(i); }); fillm(e, r, c, [](int i) { return val(i); });
    const auto& a = A.m;
    MC_CHECK(a == b && b == a && a == e && !(a != b) && !(a != e) && e == b, "large", "equal matrices of " << r << "x" << c);
    for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) {
      const T o = b(i, j); b(i, j) = T(o + 1); e(i, j) = T(o - 1);
      MC_CHECK(!(a == b) && !(b == a) && a != b && !(a == e) && a != e, "large", r << "x" << c << " matrices that differ at (" << i << "," << j << ") compare equal");
      b(i, j) = o; e(i, j) = o;
      mc::step(5);
    }
    mc::state(hash(x));
  });
}
struct R { R() {
  mc::add("large vector double", vecs<double, true>); mc::add("large vector float", vecs<float, false>); mc::add("large vector int", vecs<int, false>);
  mc::add("large matrix double row basis row major", mats<double, cml::row_basis, cml::row_major, true>);
  mc::add("large matrix double col basis col major", mats<double, cml::col_basis, cml::col_major, false>);
  mc::add("large matrix float row basis col major", mats<float, cml::row_basis, cml::col_major, false>);
  mc::add("large matrix int col basis row major", mats<int, cml::col_basis, cml::row_major, false>);
} } r;
}
