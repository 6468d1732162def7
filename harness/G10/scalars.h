// Scalar helpers against their definitions.
#pragma once
#include "../geo.h"
#include <cml/util.h>
#include <climits>
#include <cstring>

namespace g10 {
using namespace geo;
using ld = long double;
template<class T> using lim = std::numeric_limits<T>;
template<class T> constexpr ld ulp() { return std::is_integral<T>::value ? 0 : ld(lim<T>::epsilon()); }
template<class T> bool close(ld got, ld want, ld n = 4) { return got == want || std::fabs(got - want) <= n * ulp<T>() * std::max(std::fabs(want), ld(lim<T>::min())); }
template<class T> bool near(ld got, ld want, ld scale, ld n = 8) { return std::fabs(got - want) <= n * ulp<T>() * std::max(scale, std::fabs(want)); }

// Values of T: a lattice, both sides of zero and one, and the extremes.
template<class T> typename std::enable_if<std::is_floating_point<T>::value, const std::vector<T>&>::type values()
{
  static const std::vector<T> v = [] {
    std::vector<T> o{T(0), -T(0), lim<T>::min(), -lim<T>::min(), lim<T>::denorm_min(), -lim<T>::denorm_min(), lim<T>::epsilon(), lim<T>::max(), lim<T>::lowest(), lim<T>::infinity(), -lim<T>::infinity()};
    for(T x : {T(1), T(2), T(pi), T(100), T(1e-3)}) for(T s : {x, -x}) {
      o.push_back(s);
      o.push_back(std::nextafter(s, lim<T>::infinity()));
      o.push_back(std::nextafter(s, -lim<T>::infinity()));
    }
    for(int i = -12; i <= 12; ++i) if(i) o.push_back(T(i) / 4 + T(.0625));
    return o;
  }();
  return v;
}
template<class T> typename std::enable_if<std::is_integral<T>::value, const std::vector<T>&>::type values()
{
  static const std::vector<T> v = [] {
    std::vector<T> o{lim<T>::max(), T(lim<T>::max() - 1), lim<T>::min(), T(lim<T>::min() + 1)};
    for(int i = std::is_signed<T>::value ? -8 : 0; i <= 9; ++i) o.push_back(T(i));
    return o;
  }();
  return v;
}
template<class T> T choose_value() { const auto& v = values<T>(); return v[size_t(mc::choose(int(v.size())))]; }

// Order: sign, clamp, in_range.
template<class T> void order()
{
  const T v = choose_value<T>(), a = choose_value<T>();
  const int s = sign(v) == T(1) ? 1 : sign(v) == T(0) ? 0 : sign(v) == T(-1) ? -1 : 9;
  MC_CHECK(s == (v > 0) - (v < T(0)), "sign", ld(v) << ": " << ld(sign(v)));
  for(const T b : values<T>()) {
    mc::step(2);
    mc::state(mc::Hash()(double(v))(double(a))(double(b)));
    const bool in = a <= v && v <= b;
    if(in_range(v, a, b) != in) MC_CHECK(false, "in_range", ld(v) << " in [" << ld(a) << "," << ld(b) << "]");
    if(b < a) continue;
    const T want = v < a ? a : v > b ? b : v, got = cml::clamp(v, a, b);
    if(got != want) MC_CHECK(false, "clamp", ld(v) << " to [" << ld(a) << "," << ld(b) << "]: " << ld(got));
    if(!in_range(got, a, b)) MC_CHECK(false, "clamp in range", ld(v) << " to [" << ld(a) << "," << ld(b) << "]: " << ld(got));
  }
}
// Wrapping whole numbers.
template<class T> void wrap_int()
{
  const int lowest = std::is_signed<T>::value ? -9 : 0, lo = lowest + mc::choose(14), n = 1 + mc::choose(9);
  mc::state(mc::Hash()(lo)(n));
  for(int v = std::is_signed<T>::value ? -60 : 0; v <= 60; ++v) {
    mc::step();
    const ld r = ld(wrap(T(v), T(lo), T(lo + n)));
    if(!(r >= lo && r <= lo + n)) MC_CHECK(false, "wrap stays in range", v << " to [" << lo << "," << lo + n << "]: " << r);
    if(std::fmod(ld(v) - r, ld(n)) != 0) MC_CHECK(false, "wrap by whole periods", v << " to [" << lo << "," << lo + n << "]: " << r);
    if(v > lo && v < lo + n && r != v) MC_CHECK(false, "wrap keeps what is in range", v << " to [" << lo << "," << lo + n << "]: " << r);
  }
}
// Wrapping multiples of an eighth: exact.
template<class T> void wrap_exact()
{
  const T lo = T(mc::choose(41) - 20) / 8, n = T(1 + mc::choose(24)) / 8;
  mc::state(mc::Hash()(double(lo))(double(n)));
  for(int i = -400; i <= 400; ++i) {
    mc::step();
    const T v = T(i) / 8, r = wrap(v, lo, lo + n);
    if(!(r >= lo && r <= lo + n)) MC_CHECK(false, "wrap stays in range", ld(v) << " to [" << ld(lo) << "," << ld(lo + n) << "]: " << ld(r));
    if(std::fmod(v - r, n) != 0) MC_CHECK(false, "wrap by whole periods", ld(v) << " to [" << ld(lo) << "," << ld(lo + n) << "]: " << ld(r));
    if(v > lo && v < lo + n && r != v) MC_CHECK(false, "wrap keeps what is in range", ld(v) << " to [" << ld(lo) << "," << ld(lo + n) << "]: " << ld(r));
    // One rounding step to either side.
    for(const T w : {std::nextafter(v, T(1000)), std::nextafter(v, T(-1000)), v + lim<T>::denorm_min(), v - lim<T>::min()}) {
      const T q = wrap(w, lo, lo + n);
      if(!(q >= lo && q <= lo + n)) MC_CHECK(false, "wrap stays in range", ld(w) << " to [" << ld(lo) << "," << ld(lo + n) << "]: " << ld(q));
      const ld k = (ld(w) - ld(q)) / ld(n);
      if(!(std::fabs(k - std::nearbyint(k)) <= 100 * ulp<T>() / n)) MC_CHECK(false, "wrap by whole periods", ld(w) << " to [" << ld(lo) << "," << ld(lo + n) << "]: " << ld(q));
    }
  }
}
// Wrapping angles.
template<class T> void wrap_angle()
{
  const int kind = mc::choose(3), turns = mc::choose(41) - 20;
  const T P = constants<T>::pi(), lo = kind == 0 ? -P : kind == 1 ? T(0) : -2 * P, hi = kind == 0 ? P : kind == 1 ? 2 * P : T(0);
  mc::state(mc::Hash()(kind)(turns));
  for(int i = 0; i < 256; ++i) {
    mc::step();
    const T v = T(turns) * 2 * P + T(i - 128) * P / 64, r = wrap(v, lo, hi);
    if(!(r >= lo && r <= hi)) MC_CHECK(false, "wrap angle in range", ld(v) << " to [" << ld(lo) << "," << ld(hi) << "]: " << ld(r));
    const ld k = (ld(v) - ld(r)) / (ld(hi) - ld(lo));
    if(!(std::fabs(k - std::nearbyint(k)) <= 200 * ulp<T>())) MC_CHECK(false, "wrap angle by whole turns", ld(v) << " to [" << ld(lo) << "," << ld(hi) << "]: " << ld(r));
  }
}
// Range mapping.
template<class T> void map_real()
{
  const T a = T(mc::choose(11) - 5) / 2, b = T(mc::choose(11) - 5) / 2;
  if(a == b) return;
  for(int ci = -4; ci <= 4; ++ci) for(int di = -4; di <= 4; ++di) {
    const T c = T(ci) * 2, d = T(di) / 2;
    mc::step(34);
    mc::state(mc::Hash()(double(a))(double(b))(ci)(di));
    if(map_range(a, a, b, c, d) != c) MC_CHECK(false, "map_range start", ld(a) << "," << ld(b) << " to " << ld(c) << "," << ld(d) << ": " << ld(map_range(a, a, b, c, d)));
    const T e = map_range(b, a, b, c, d);
    if(!near<T>(e, d, 12)) MC_CHECK(false, "map_range end", ld(a) << "," << ld(b) << " to " << ld(c) << "," << ld(d) << ": " << ld(e));
    for(int i = -8; i <= 24; ++i) {
      const T v = a + (b - a) * T(i) / 16;
      const ld want = ld(c) + (ld(v) - ld(a)) * (ld(d) - ld(c)) / (ld(b) - ld(a)), got = map_range(v, a, b, c, d);
      if(!near<T>(got, want, 24)) MC_CHECK(false, "map_range", ld(v) << " from " << ld(a) << "," << ld(b) << " to " << ld(c) << "," << ld(d) << ": " << got << " for " << want);
      if(c != d && !near<T>(map_range(T(got), c, d, a, b), v, 24 * 24)) MC_CHECK(false, "map_range round trip", ld(v) << " from " << ld(a) << "," << ld(b) << " to " << ld(c) << "," << ld(d));
    }
  }
}
template<class T> void map_int()
{
  const int lowest = std::is_signed<T>::value ? -6 : 0, a = lowest + mc::choose(8), n = 1 + mc::choose(12), c = lowest + mc::choose(8);
  for(int m = 0; m <= 24; ++m) for(int v = a; v <= a + n; ++v) {
    mc::step();
    mc::state(mc::Hash()(a)(n)(c)(m)(v));
    const ld got = ld(map_range(T(v), T(a), T(a + n), T(c), T(c + m)));
    const ld want = c + ld(v - a) * m / n;
    const bool exact = (v - a) * m % n == 0;
    if(exact ? got != want : std::fabs(got - want) >= 1) MC_CHECK(false, "map_range of whole numbers", v << " from [" << a << "," << a + n << "] to [" << c << "," << c + m << "]: " << got << " for " << want);
  }
}

// Functions of one argument, over every float there is (thorough) or every
// 2^k-th.
inline float bits(uint32_t b) { float f; std::memcpy(&f, &b, 4); return f; }
inline void one_float(float x, int& bad)
{
  if(x != x) return;
  const double c = x < -1 ? -1 : x > 1 ? 1 : x, ac = acos_safe(x), as = asin_safe(x), q = sqrt_safe(x), wq = std::sqrt(x > 0 ? double(x) : 0.);
  const double wa = std::acos(c), ws = std::asin(c);
  if(!(std::fabs(ac - wa) <= 3e-7 * std::max(wa, 0.)) && ++bad < 4) MC_CHECK(false, "acos_safe", x << ": " << ac << " for " << wa);
  if(!(std::fabs(as - ws) <= 2e-7 * std::fabs(ws) + 1e-44) && ++bad < 4) MC_CHECK(false, "asin_safe", x << ": " << as << " for " << ws);
  if(!(q == wq || std::fabs(q - wq) <= 1.2e-7 * wq + 1e-44) && ++bad < 4) MC_CHECK(false, "sqrt_safe", x << ": " << q << " for " << wq);
  const float s = sign(x);
  if(s != float((x > 0) - (x < 0)) && ++bad < 4) MC_CHECK(false, "sign", x << ": " << s);
  const float k = cml::clamp(x, -1.f, 1.f);
  if(k != float(c) && ++bad < 4) MC_CHECK(false, "clamp", x << ": " << k);
  if(in_range(x, -1.f, 1.f) != (x >= -1 && x <= 1) && ++bad < 4) MC_CHECK(false, "in_range", x);
  if(std::fabs(x) < 1e6f) {
    const float w = wrap(x, -2.f, 2.f);
    if(!(w >= -2 && w <= 2) && ++bad < 4) MC_CHECK(false, "wrap in range", x << ": " << w);
    const double t = (double(x) - double(w)) / 4;
    if(!(std::fabs(t - std::nearbyint(t)) <= 1e-7 * (2 + std::fabs(t))) && ++bad < 4) MC_CHECK(false, "wrap by whole periods", x << ": " << w);
    const float dr = rad(deg(x));
    if(!(std::fabs(dr - x) <= 4e-7f * std::fabs(x) + 1e-43f) && ++bad < 4) MC_CHECK(false, "rad after deg", x << ": " << dr);
  }
  if(x > 1e-30f && x < 1e30f) {
    const double i = inv_sqrt(x), wi = 1 / std::sqrt(double(x));
    if(!(std::fabs(i - wi) <= 3e-7 * wi) && ++bad < 4) MC_CHECK(false, "inv_sqrt", x << ": " << i << " for " << wi);
  }
}
inline void every_float(int eighth)
{
  const uint32_t top = uint32_t(eighth * (1 << 9) + mc::choose(1 << 9));
  const uint32_t step = mc::thorough() ? 1 : 1u << 11;
  mc::step((1u << 20) / step);
  mc::state(top);
  int bad = 0;
  for(uint32_t i = 0; i < 1u << 20; i += step) one_float(bits((top << 20) | (i + (step > 1 ? (top * 2654435761u) % step : 0))), bad);
}

// Functions of real arguments.
template<class T> void reals()
{
  const T x = choose_value<T>();
  mc::step(12);
  mc::state(mc::Hash()(double(x)));
  const ld c = x < T(-1) ? -1 : x > T(1) ? 1 : ld(x);
  MC_CHECK(near<T>(acos_safe(x), std::acos(c), 1), "acos_safe", ld(x) << ": " << ld(acos_safe(x)));
  MC_CHECK(near<T>(asin_safe(x), std::asin(c), 0), "asin_safe", ld(x) << ": " << ld(asin_safe(x)));
  MC_CHECK(close<T>(sqrt_safe(x), std::sqrt(x > 0 ? ld(x) : 0)), "sqrt_safe", ld(x) << ": " << ld(sqrt_safe(x)));
  if(std::fabs(x) < 1e9L && (x == 0 || std::fabs(x) > 1e-9L)) {
    MC_CHECK(close<T>(sqr(x), ld(x) * x), "sqr", ld(x) << ": " << ld(sqr(x)));
    MC_CHECK(close<T>(cub(x), ld(x) * x * x), "cub", ld(x) << ": " << ld(cub(x)));
    // The conversion factors are doubles.
    const ld r = std::max(8 * ulp<T>(), 8 * ulp<double>()), d = deg(x), a = rad(x), b = rad(deg(x)), e = deg(rad(x));
    MC_CHECK(std::fabs(d - ld(x) * 180 / acosl(-1)) <= r * std::fabs(d), "deg", ld(x) << ": " << d);
    MC_CHECK(std::fabs(a - ld(x) * acosl(-1) / 180) <= r * std::fabs(a), "rad", ld(x) << ": " << a);
    MC_CHECK(std::fabs(b - x) <= r * std::fabs(ld(x)) && std::fabs(e - x) <= r * std::fabs(ld(x)), "deg and rad round trip", ld(x) << ": " << b << " " << e);
    if(x > 0) MC_CHECK(close<T>(inv_sqrt(x), 1 / std::sqrt(ld(x))), "inv_sqrt", ld(x) << ": " << ld(inv_sqrt(x)));
  }
}
template<class T> void degrees()
{
  const int i = mc::choose(1441) - 720;
  mc::step(2);
  mc::state(i);
  const ld r = std::max(8 * ulp<T>(), 8 * ulp<double>());
  MC_CHECK(std::fabs(ld(rad(T(i))) - acosl(-1) * i / 180) <= r * std::fabs(acosl(-1) * i / 180), "rad", i << ": " << ld(rad(T(i))));
  MC_CHECK(std::fabs(ld(deg(rad(T(i)))) - i) <= r * std::abs(i), "deg after rad", i << ": " << ld(deg(rad(T(i)))));
}
template<class T> void lengths()
{
  const int h = mc::thorough() ? 14 : 6, x = mc::choose(2 * h + 1) - h, y = mc::choose(2 * h + 1) - h;
  for(int z = -h; z <= h; ++z) {
    mc::step(4);
    mc::state(mc::Hash()(x)(y)(z));
    const int q2 = x * x + y * y, q3 = q2 + z * z;
    if(ld(length_squared(T(x), T(y))) != q2) MC_CHECK(false, "length_squared of 2", x << "," << y);
    if(ld(length_squared(T(x), T(y), T(z))) != q3) MC_CHECK(false, "length_squared of 3", x << "," << y << "," << z);
    const ld l2 = length(T(x), T(y)), l3 = length(T(x), T(y), T(z));
    const ld w2 = std::is_integral<T>::value ? std::floor(std::sqrt(ld(q2))) : std::sqrt(ld(q2)), w3 = std::is_integral<T>::value ? std::floor(std::sqrt(ld(q3))) : std::sqrt(ld(q3));
    if(!close<T>(l2, w2)) MC_CHECK(false, "length of 2", x << "," << y << ": " << l2);
    if(!close<T>(l3, w3)) MC_CHECK(false, "length of 3", x << "," << y << "," << z << ": " << l3);
  }
  if(!std::is_unsigned<T>::value) MC_CHECK(sqr(T(x)) == T(x * x) && cub(T(x)) == T(x * x * x), "sqr and cub", x);
}

// Index cycling.
inline void cycling()
{
  const int N = 1 + mc::choose(64);
  mc::step(size_t(N) * 2);
  mc::state(N);
  for(int i = 0; i < N; ++i) {
    const int n = next(i, N), p = prev(i, N);
    MC_CHECK(n == (i == N - 1 ? 0 : i + 1), "next", i << " of " << N << ": " << n);
    MC_CHECK(p == (i == 0 ? N - 1 : i - 1), "prev", i << " of " << N << ": " << p);
    MC_CHECK(prev(n, N) == i && next(p, N) == i, "next and prev are inverse", i << " of " << N);
  }
}
inline void permutations()
{
  const int n = 2 + mc::choose(3), f = mc::choose(n), alias = mc::choose(2);
  int g[4] = {f, -1, -1, -1};
  if(!alias) g[0] = -1;
  mc::step();
  mc::state(mc::Hash()(n)(f)(alias));
  const int& first = alias ? g[0] : f; // the first index may be one of the results
  if(n == 2) cyclic_permutation(first, g[0], g[1]);
  if(n == 3) cyclic_permutation(first, g[0], g[1], g[2]);
  if(n == 4) cyclic_permutation(first, g[0], g[1], g[2], g[3]);
  for(int i = 0; i < n; ++i) MC_CHECK(g[i] == (f + i) % n, "cyclic_permutation", n << " from " << f << ": position " << i << " is " << g[i]);
}
// Index of extremes.
template<class T> const std::vector<T>& few()
{
  static const std::vector<T> v = [] {
    std::vector<T> o;
    for(int i = std::is_signed<T>::value || !std::is_integral<T>::value ? -3 : 0; i <= 3; ++i) o.push_back(T(i));
    if(lim<T>::has_infinity) o.push_back(lim<T>::infinity()), o.push_back(-lim<T>::infinity()), o.push_back(T(.5)), o.push_back(-lim<T>::denorm_min());
    else if(sizeof(T) <= 4) o.push_back(lim<T>::max()); // wider ones do not fit the double of the numeric functions
    return o;
  }();
  return v;
}
template<class T> void extremes()
{
  const auto& v = few<T>();
  const int n = 2 + mc::choose(3);
  ld x[4], m[4];
  T t[4];
  for(int i = 0; i < n; ++i) t[i] = v[size_t(mc::choose(int(v.size())))], x[i] = ld(t[i]), m[i] = std::fabs(x[i]);
  mc::step(4);
  mc::Hash h;
  for(int i = 0; i < n; ++i) h(double(x[i]));
  mc::state(h(n));
  int g[4];
  if(n == 2) g[0] = index_of_max(t[0], t[1]), g[1] = index_of_min(t[0], t[1]), g[2] = index_of_max_abs(t[0], t[1]), g[3] = index_of_min_abs(t[0], t[1]);
  if(n == 3) g[0] = index_of_max(t[0], t[1], t[2]), g[1] = index_of_min(t[0], t[1], t[2]), g[2] = index_of_max_abs(t[0], t[1], t[2]), g[3] = index_of_min_abs(t[0], t[1], t[2]);
  if(n == 4) g[0] = index_of_max(t[0], t[1], t[2], t[3]), g[1] = index_of_min(t[0], t[1], t[2], t[3]), g[2] = index_of_max_abs(t[0], t[1], t[2], t[3]), g[3] = index_of_min_abs(t[0], t[1], t[2], t[3]);
  const auto show = [&] { std::string s; for(int i = 0; i < n; ++i) s += std::to_string(double(x[i])) + " "; return s; };
  for(int k = 0; k < 4; ++k) MC_CHECK(g[k] >= 0 && g[k] < n, "an index", show() << ": " << g[k]);
  MC_CHECK(x[g[0]] == *std::max_element(x, x + n), "index_of_max", show() << ": " << g[0]);
  MC_CHECK(x[g[1]] == *std::min_element(x, x + n), "index_of_min", show() << ": " << g[1]);
  MC_CHECK(m[g[2]] == *std::max_element(m, m + n), "index_of_max_abs", show() << ": " << g[2]);
  MC_CHECK(m[g[3]] == *std::min_element(m, m + n), "index_of_min_abs", show() << ": " << g[3]);
}

// Fields of view and zooms.
template<class T> void views()
{
  const int i = 1 + mc::choose(199), j = mc::choose(9);
  static const double as[] = {.25, .5, 1, 1.25, 4. / 3, 1.5, 16. / 9, 2, 4};
  const T fov = T(pi * i / 200), a = T(as[j]);
  const ld t = std::tan(ld(fov) / 2), r = 40 * ulp<T>() * (1 + 1 / (ld(pi) - fov) + ld(as[j])) * std::max(ld(1), t);
  mc::step(8);
  mc::state(mc::Hash()(i)(j));
  const T y = xfov_to_yfov(fov, a), x = yfov_to_xfov(fov, a), z = fov_to_zoom(fov);
  MC_CHECK(y > 0 && ld(y) < acosl(-1) + r && x > 0 && ld(x) < acosl(-1) + r, "a field of view", ld(fov) << " " << ld(a));
  MC_CHECK(std::fabs(y - 2 * std::atan(t / a)) <= r, "xfov_to_yfov", ld(fov) << " aspect " << ld(a) << ": " << ld(y));
  MC_CHECK(std::fabs(x - 2 * std::atan(t * a)) <= r, "yfov_to_xfov", ld(fov) << " aspect " << ld(a) << ": " << ld(x));
  MC_CHECK(std::fabs(z * t - 1) <= r * 4 / std::min(ld(1), t), "fov_to_zoom", ld(fov) << ": " << ld(z));
  MC_CHECK(std::fabs(zoom_to_fov(z) - fov) <= r, "zoom_to_fov after fov_to_zoom", ld(fov) << ": " << ld(zoom_to_fov(z)));
  const ld k = 400 * ulp<T>() * std::max(t, 1 / t) * 5;
  MC_CHECK(std::fabs(yfov_to_xfov(y, a) - fov) <= k * 4, "yfov_to_xfov after xfov_to_yfov", ld(fov) << " aspect " << ld(a));
  // Zooms convert as their fields of view do.
  MC_CHECK(std::fabs(xzoom_to_yzoom(z, a) - a / t) <= k * a / t, "xzoom_to_yzoom", ld(z) << " aspect " << ld(a) << ": " << ld(xzoom_to_yzoom(z, a)));
  MC_CHECK(std::fabs(yzoom_to_xzoom(z, a) - 1 / t / a) <= k / t / a, "yzoom_to_xzoom", ld(z) << " aspect " << ld(a) << ": " << ld(yzoom_to_xzoom(z, a)));
  MC_CHECK(std::fabs(zoom_to_fov(xzoom_to_yzoom(z, a)) - y) <= k, "zoom and field of view agree", ld(fov) << " aspect " << ld(a));
  MC_CHECK(std::fabs(zoom_to_fov(yzoom_to_xzoom(z, a)) - x) <= k, "zoom and field of view agree", ld(fov) << " aspect " << ld(a));
}

// Named numbers.
template<class T> void named()
{
  using k = constants<T>;
  const ld P = acosl(-1);
  const ld got[] = {k::pi(), k::two_pi(), k::inv_pi(), k::inv_two_pi(), k::pi_over_2(), k::pi_over_4(), k::e(), k::deg_per_rad(), k::rad_per_deg(), k::sqrt_2(), k::sqrt_3(), k::sqrt_5(), k::sqrt_6()};
  const ld want[] = {P, 2 * P, 1 / P, 1 / (2 * P), P / 2, P / 4, expl(1), 180 / P, P / 180, sqrtl(2), sqrtl(3), sqrtl(5), sqrtl(6)};
  const int i = mc::choose(13);
  mc::step();
  mc::state(i);
  const ld r = std::max(ulp<T>(), ulp<double>());
  MC_CHECK(std::fabs(got[i] - want[i]) <= r * want[i], "constant", i << ": " << got[i] << " for " << want[i]);
}
template<class T> void traits_real()
{
  using s = scalar_traits<T>;
  const T x = choose_value<T>(), y = choose_value<T>();
  static_assert(std::is_same<typename s::value_type, T>::value && std::is_same<value_type_trait_of_t<T>, T>::value, "element type");
  mc::step(12);
  mc::state(mc::Hash()(double(x))(double(y)));
  const auto same = [](ld a, ld b) { return a == b || (a != a && b != b) || std::fabs(a - b) <= 2 * ulp<T>() * std::fabs(b); };
  MC_CHECK(same(s::fabs(x), std::fabs(x)), "fabs", ld(x));
  MC_CHECK(same(s::fmod(x, y), std::fmod(x, y)), "fmod", ld(x) << " " << ld(y));
  MC_CHECK(same(s::sqrt(x), std::sqrt(x)), "sqrt", ld(x));
  MC_CHECK(same(s::cos(x), std::cos(x)) && same(s::sin(x), std::sin(x)) && same(s::tan(x), std::tan(x)), "cos, sin, tan", ld(x));
  MC_CHECK(same(s::acos(x), std::acos(x)) && same(s::asin(x), std::asin(x)) && same(s::atan(x), std::atan(x)), "acos, asin, atan", ld(x));
  MC_CHECK(same(s::atan2(x, y), std::atan2(x, y)), "atan2", ld(x) << " " << ld(y));
  MC_CHECK(same(s::log(x), std::log(x)) && same(s::exp(x), std::exp(x)), "log, exp", ld(x));
  MC_CHECK(cml::epsilon<T>() == lim<T>::epsilon(), "epsilon", ld(cml::epsilon<T>()));
  MC_CHECK(std::fabs(ld(cml::sqrt_epsilon<T>()) - std::sqrt(ld(lim<T>::epsilon()))) <= 1e-7L * std::sqrt(ld(lim<T>::epsilon())), "sqrt_epsilon", ld(cml::sqrt_epsilon<T>()));
  MC_CHECK(s::max() == lim<T>::max() && s::min() == lim<T>::min() && s::digits == lim<T>::digits, "limits", "");
}
template<class T> void traits_int()
{
  using s = scalar_traits<T>;
  const int lowest = std::is_signed<T>::value ? -20 : 0, x = lowest + mc::choose(61), y = lowest + mc::choose(61);
  mc::step(6);
  mc::state(mc::Hash()(x)(y));
  MC_CHECK(s::fabs(T(x)) == T(std::abs(x)), "fabs", x);
  if(y) MC_CHECK(s::fmod(T(x), T(y)) == T(x % y), "fmod", x << " " << y);
  if(x >= 0) MC_CHECK(s::sqrt(T(x)) == T(std::floor(std::sqrt(double(x)))), "sqrt", x << ": " << ld(s::sqrt(T(x))));
  MC_CHECK(s::atan2(T(x), T(y)) == T(std::atan2(double(x), double(y))) || std::is_unsigned<T>::value, "atan2", x << " " << y);
  MC_CHECK(cml::epsilon<T>() == T(0) && cml::sqrt_epsilon<T>() == T(0), "epsilon", "");
}

// Axis and Euler orders name their axes.
inline void orders()
{
  static const struct { euler_order o; int a[3]; } e[] = {{euler_order_xyz, {0, 1, 2}}, {euler_order_xyx, {0, 1, 0}}, {euler_order_xzy, {0, 2, 1}}, {euler_order_xzx, {0, 2, 0}}, {euler_order_yzx, {1, 2, 0}}, {euler_order_yzy, {1, 2, 1}}, {euler_order_yxz, {1, 0, 2}}, {euler_order_yxy, {1, 0, 1}}, {euler_order_zxy, {2, 0, 1}}, {euler_order_zxz, {2, 0, 2}}, {euler_order_zyx, {2, 1, 0}}, {euler_order_zyz, {2, 1, 2}}};
  static const struct { axis_order o; int a[3]; } x[] = {{axis_order_xyz, {0, 1, 2}}, {axis_order_xzy, {0, 2, 1}}, {axis_order_yzx, {1, 2, 0}}, {axis_order_yxz, {1, 0, 2}}, {axis_order_zxy, {2, 0, 1}}, {axis_order_zyx, {2, 1, 0}}};
  const int n = mc::choose(20);
  mc::step();
  mc::state(n);
  int i = -1, j = -1, k = -1;
  bool odd = false, repeat = false;
  if(n < 12) {
    const auto& w = e[n];
    unpack_euler_order(w.o, i, j, k, odd, repeat);
    const bool rep = w.a[2] == w.a[0];
    const int third = rep ? 3 - w.a[0] - w.a[1] : w.a[2];
    MC_CHECK(i == w.a[0] && j == w.a[1] && k == third && repeat == rep && odd == (w.a[1] != (w.a[0] + 1) % 3), "unpack_euler_order", n << ": " << i << j << k << " odd " << odd << " repeat " << repeat);
  } else if(n < 18) {
    const auto& w = x[n - 12];
    unpack_axis_order(w.o, i, j, k, odd);
    MC_CHECK(i == w.a[0] && j == w.a[1] && k == w.a[2] && odd == (j != (i + 1) % 3), "unpack_axis_order", n << ": " << i << j << k << " odd " << odd);
    MC_CHECK(pack_axis_order(i, odd) == w.o, "pack_axis_order", n);
    int a = -1, b = -1, c = -1;
    unpack_axis_order(swap_axis_order(w.o), a, b, c, odd);
    MC_CHECK(a == j && b == i && c == k, "swap_axis_order", n << ": " << a << b << c);
  } else {
    unpack_axis_order2D(n == 18 ? axis_order_xy : axis_order_yx, i, j, odd);
    MC_CHECK(i == n - 18 && j == 19 - n && odd == (n == 19), "unpack_axis_order2D", n << ": " << i << j);
  }
}
} // namespace g10
