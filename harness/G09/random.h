// Random generation under a controlled random source: std::rand() and
// std::random_device answer what the exploration chooses.
#pragma once
#include "../geo.h"
#include <random>

namespace g09 {
using namespace geo;

// The answers the source gives, in order; the last one repeats.
struct Source { std::vector<unsigned> answers; size_t next = 0; bool used = false; };
Source& source();
inline void script(std::vector<unsigned> a) { source().answers = a, source().next = 0, source().used = false; }

constexpr unsigned long long mod = 2147483647ULL; // of std::minstd_rand0, the default engine
inline unsigned long long power(unsigned long long b, unsigned long long e) { unsigned long long r = 1; for(; e; e >>= 1, b = b * b % mod) if(e & 1) r = r * b % mod; return r; }
// Seeds whose k-th number from the default engine is x; extremes first.
inline const std::vector<unsigned>& answers()
{
  static const std::vector<unsigned> a = [] {
    std::vector<unsigned> o{0, 1, 2, unsigned(RAND_MAX), unsigned(RAND_MAX) - 1, 12345};
    const unsigned long long inv = power(16807, mod - 2), xs[] = {1, 2, mod - 1, mod - 2, mod / 2, mod / 2 + 1, mod / 4, mod / 3, mod - mod / 4};
    for(int k = 1; k <= 6; ++k) for(auto x : xs) o.push_back(unsigned(x * power(inv, unsigned(k)) % mod));
    for(unsigned i = 0; i < (mc::thorough() ? 4000u : 400u); ++i) o.push_back(i * (unsigned(mod) / (mc::thorough() ? 4000u : 400u)) + 17);
    return o;
  }();
  return a;
}
inline unsigned choose_answer() { return answers()[size_t(mc::choose(int(answers().size())))]; }
template<class E> double eps() { return sizeof(E) == 4 ? 1e-5 : 1e-12; }

// Integers of one type, around bounds no other type may stand in for.
template<class T> void integers(unsigned r, const char* what)
{
  using lim = std::numeric_limits<T>;
  const T lo = lim::min(), hi = lim::max(), mid = T(hi / 2 + hi / 8);
  const T is[][2] = {{lo, hi}, {lo, lo}, {hi, hi}, {T(hi - 2), hi}, {lo, T(lo + 2)}, {T(mid + 1), T(mid + 3)}, {T(mid - 1), T(mid - 1)}, {0, hi}, {T(lo / 2 + lo / 8), T(lo / 2 + lo / 8 + 1)}};
  for(const auto& i : is) {
    script({r});
    const T v = random_integer<T>(i[0], i[1]);
    MC_CHECK(v >= i[0] && v <= i[1], what, r << " in [" << i[0] << "," << i[1] << "]: " << v);
    script({r});
    MC_CHECK(random_integer<T>(i[0], i[1]) == v, "equal answers, equal results", r);
    script({r});
    vector<T, compiled<5>> w;
    w.random(i[0], i[1]);
    for(int k = 0; k < 5; ++k) MC_CHECK(w[k] >= i[0] && w[k] <= i[1], "random vector of integers", what << ' ' << r << " in [" << i[0] << "," << i[1] << "]: " << w[k]);
    script({r});
    matrix<T, fixed<2, 3>> m;
    m.random(i[0], i[1]);
    for(int k = 0; k < 6; ++k) MC_CHECK(m(k / 3, k % 3) >= i[0] && m(k / 3, k % 3) <= i[1], "random matrix of integers", what << ' ' << r << " in [" << i[0] << "," << i[1] << "]: " << m(k / 3, k % 3));
  }
}
// Reals of one type: narrow ranges, far ranges, a single value.
template<class T> void reals(unsigned r, const char* what)
{
  using lim = std::numeric_limits<T>;
  const T u = lim::epsilon(), big = lim::max() / 4;
  const T ds[][2] = {{0, lim::min()}, {1, 1 + u}, {1, 1 + 4 * u}, {3 - 8 * u, 3}, {-1 - 4 * u, -1}, {big, big}, {-big, big}, {-lim::min(), lim::min()}, {1, 1}, {0, 0}, {T(-.1), T(-.1)}, {0, big}, {-big, 0}, {lim::denorm_min(), lim::min()}};
  for(const auto& i : ds) {
    script({r});
    const T v = random_real<T>(i[0], i[1]);
    MC_CHECK(v >= i[0] && v <= i[1], what, r << " in [" << i[0] << "," << i[1] << "]: " << v);
    script({r});
    MC_CHECK(random_real<T>(i[0], i[1]) == v, "equal answers, equal results", r);
    script({r});
    vector<T, compiled<3>> w;
    w.random(i[0], i[1]);
    for(int k = 0; k < 3; ++k) MC_CHECK(w[k] >= i[0] && w[k] <= i[1], "random vector of reals", what << ' ' << r << " in [" << i[0] << "," << i[1] << "]: " << w[k]);
  }
}
inline void types()
{
  const unsigned r = choose_answer();
  mc::step(9);
  mc::state(r);
  integers<short>(r, "short"), integers<unsigned short>(r, "unsigned short");
  integers<int>(r, "int"), integers<unsigned>(r, "unsigned");
  integers<long>(r, "long"), integers<unsigned long>(r, "unsigned long");
  integers<long long>(r, "long long"), integers<unsigned long long>(r, "unsigned long long");
  reals<float>(r, "float"), reals<double>(r, "double"), reals<long double>(r, "long double");
}
// Scalars.
inline void scalars()
{
  const unsigned r = choose_answer();
  mc::step(10);
  mc::state(r);
  static const int is[][2] = {{0, 1}, {-3, 3}, {5, 5}, {-2147483647 - 1, 2147483647}, {0, 9}, {-7, -2}};
  for(const auto& i : is) {
    script({r});
    const int v = random_integer(i[0], i[1]);
    MC_CHECK(v >= i[0] && v <= i[1], "random_integer", r << " in [" << i[0] << "," << i[1] << "]: " << v);
    script({r});
    MC_CHECK(random_integer(i[0], i[1]) == v, "equal answers, equal results", r);
  }
  script({r});
  const long l = random_integer<long>(-1, 5000000000L);
  MC_CHECK(l >= -1 && l <= 5000000000L, "random_integer<long>", r << ": " << l);
  script({r});
  const unsigned u = random_integer<unsigned>(4000000000u, 4000000002u);
  MC_CHECK(u >= 4000000000u && u <= 4000000002u, "random_integer<unsigned>", r << ": " << u);
  script({r});
  const short s = random_integer<short>(-5, 5);
  MC_CHECK(s >= -5 && s <= 5, "random_integer<short>", r << ": " << s);
  script({r});
  const int b = random_binary();
  MC_CHECK(b == 0 || b == 1, "random_binary", r << ": " << b);
  script({r});
  const int p = random_polar();
  MC_CHECK(p == -1 || p == 1, "random_polar", r << ": " << p);
  script({r});
  const double w = cml::random_unit();
  MC_CHECK(w >= 0 && w <= 1, "random_unit", r << ": " << w);
  static const double ds[][2] = {{0, 1}, {-1, 1}, {2, 2}, {-1e30, 1e30}, {1, 1 + 1e-6}, {-3.5, -1.25}};
  for(const auto& d : ds) {
    script({r});
    const double x = random_real(d[0], d[1]);
    MC_CHECK(x >= d[0] && x <= d[1], "random_real", r << " in [" << d[0] << "," << d[1] << "]: " << x);
    script({r});
    MC_CHECK(random_real(d[0], d[1]) == x, "equal answers, equal results", r);
    script({r});
    const float lo = float(d[0]), hi = float(d[1]), f = random_real(lo, hi);
    MC_CHECK(f >= lo && f <= hi, "random_real float", r << " in [" << lo << "," << hi << "]: " << f);
  }
}
// Every value is given for some answer, up to both ends.
inline void reach()
{
  const int f = mc::choose(5);
  bool seen[8] = {};
  double lo = 1e9, hi = -1e9;
  mc::step(answers().size());
  for(unsigned r : answers()) {
    script({r});
    if(f == 0) seen[random_integer(-2, 3) + 2] = true;
    if(f == 1) seen[random_binary()] = true;
    if(f == 2) seen[random_polar() + 1] = true;
    if(f == 3) { const double x = random_real(-4., 2.); lo = std::min(lo, (x + 4) / 6), hi = std::max(hi, (x + 4) / 6); }
    if(f == 4) { const double x = cml::random_unit(); lo = std::min(lo, x), hi = std::max(hi, x); }
  }
  mc::state(unsigned(f));
  if(f == 0) for(int i = 0; i < 6; ++i) MC_CHECK(seen[i], "random_integer reaches", i - 2);
  if(f == 1) MC_CHECK(seen[0] && seen[1], "random_binary reaches both", seen[0] << seen[1]);
  if(f == 2) MC_CHECK(seen[0] && seen[2] && !seen[1], "random_polar reaches both", seen[0] << seen[2]);
  if(f >= 3) MC_CHECK(lo < .02 && hi > .98, "reaches both ends", f << ": " << lo << " to " << hi);
}
// Every answer there is.
inline void sweep()
{
  const unsigned hi = unsigned(mc::choose(1 << 11)), part = mc::thorough() ? 1u << 20 : 1u << 7, skip = (1u << 20) / part;
  mc::step(part);
  mc::state(hi);
  for(unsigned i = 0; i < part; ++i) {
    const unsigned r = (hi << 20) + i * skip + (skip > 1 ? (hi * 7919u + i * 104729u) % skip : 0);
    script({r});
    const int v = random_integer(-3, 3);
    if(v < -3 || v > 3) MC_CHECK(false, "random_integer", r << ": " << v);
    script({r});
    const float f = random_real(-1.f, 2.f);
    if(!(f >= -1.f && f <= 2.f)) MC_CHECK(false, "random_real float", r << ": " << f);
    script({r});
    const double d = cml::random_unit();
    if(!(d >= 0 && d <= 1)) MC_CHECK(false, "random_unit", r << ": " << d);
  }
}

// Whole vectors and matrices.
template<class E> std::pair<E, E> bounds(int k)
{
  if(k == 0) return {E(0), E(1)};
  if(k == 1) return {E(-3), E(3)};
  if(k == 2) return {E(5), E(5)};
  return {E(-100), E(-7)};
}
template<class E> void vectors()
{
  const int b = mc::choose(4), kind = mc::choose(5), n = kind == 1 || kind == 3 ? mc::choose(5) : 3;
  const unsigned r = choose_answer();
  const auto lh = bounds<E>(b);
  const E lo = lh.first, hi = lh.second;
  mc::step();
  mc::state(mc::Hash()(b)(kind)(n)(int(r)));
  vec got;
  std::vector<E> buf(size_t(n) + 2, E(77));
  for(int twice = 0; twice < 2; ++twice) {
    script({r, r});
    vec g;
    if(kind == 0) { vector<E, compiled<3>> v; MC_CHECK(&v.random(lo, hi) == &v, "returns the vector", r); g = ref::read(v); }
    if(kind == 1) { vector<E, dynamic<>> v(n); v.random(lo, hi); MC_CHECK(v.size() == n, "size kept", n); g = ref::read(v); }
    if(kind == 2) { vector<E, external<3>> v(&buf[1]); v.random(lo, hi); g = ref::read(v); }
    if(kind == 3) { vector<E, external<>> v(&buf[1], n); v.random(lo, hi); g = ref::read(v); }
    if(kind == 4) { g = ref::read(vector<E, compiled<3>>().random(lo, hi)); }
    for(double x : g) MC_CHECK(x >= double(lo) && x <= double(hi), "random vector", kind << " " << r << " in [" << double(lo) << "," << double(hi) << "]: " << g);
    MC_CHECK(buf[0] == E(77) && buf.back() == E(77), "only its own elements", r);
    if(twice) MC_CHECK(ref::same(g, got), "equal answers, equal results", r << ": " << g << " then " << got);
    got = g;
  }
  // A bound may be an element of the vector itself.
  vector<E, compiled<3>> v;
  v.fill(hi), v[0] = lo;
  script({r});
  v.random(v[0], v[2]);
  for(int i = 0; i < 3; ++i) MC_CHECK(v[i] >= lo && v[i] <= hi, "bounds from the vector itself", r << ": " << ref::read(v));
}
template<class M> struct Made;
template<class E, int R, int C, class B, class L> struct Made<matrix<E, fixed<R, C>, B, L>> { matrix<E, fixed<R, C>, B, L> m; Made(int, int, E*) {} };
template<class E, class B, class L> struct Made<matrix<E, dynamic<>, B, L>> { matrix<E, dynamic<>, B, L> m; Made(int r, int c, E*) : m(r, c) {} };
template<class E, int R, int C, class B, class L> struct Made<matrix<E, external<R, C>, B, L>> { matrix<E, external<R, C>, B, L> m; Made(int, int, E* p) : m(p) {} };
template<class E, class B, class L> struct Made<matrix<E, external<>, B, L>> { matrix<E, external<>, B, L> m; Made(int r, int c, E* p) : m(p, r, c) {} };
template<class M> void matrices_n(int rows, int cols)
{
  using E = value_type_trait_of_t<M>;
  const int b = mc::choose(4);
  const unsigned r = choose_answer();
  const auto lh = bounds<E>(b);
  const E lo = lh.first, hi = lh.second;
  std::vector<E> buf(size_t(rows * cols) + 2, E(77));
  mat got;
  mc::step(2);
  mc::state(mc::Hash()(b)(int(r)));
  for(int twice = 0; twice < 2; ++twice) {
    Made<M> o(rows, cols, &buf[1]);
    o.m.fill(E(99));
    script({r, r, r, r});
    MC_CHECK(&o.m.random(lo, hi) == &o.m, "returns the matrix", r);
    const mat g = ref::readm(o.m);
    MC_CHECK(g.r == rows && g.c == cols, "size kept", g);
    for(double x : g.d) MC_CHECK(x >= double(lo) && x <= double(hi), "random matrix", r << " in [" << double(lo) << "," << double(hi) << "]: " << g);
    MC_CHECK(buf[0] == E(77) && buf.back() == E(77), "only its own elements", r);
    if(twice) MC_CHECK(ref::same(g, got), "equal answers, equal results", r << ": " << g << " then " << got);
    got = g;
  }
  // A bound may be an element of the matrix itself.
  Made<M> o(rows, cols, &buf[1]);
  if(rows * cols == 0) return;
  o.m.fill(hi), o.m(0, 0) = lo;
  script({r});
  o.m.random(o.m(0, 0), o.m(rows - 1, cols - 1));
  for(double x : ref::readm(o.m).d) MC_CHECK((x >= double(lo) && x <= double(hi)) || rows * cols == 1, "bounds from the matrix itself", r << ": " << ref::readm(o.m));
}

// Unit vectors from a generator whose every answer is chosen.
struct Gen
{
  using result_type = uint32_t;
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return 0xffffffffu; }
  std::vector<uint32_t> given;
  size_t next = 0;
  bool replay = false;
  uint32_t tail = 12345;
  result_type operator()()
  {
    if(replay && next < given.size()) return given[next++];
    uint32_t v;
    const size_t k = given.size();
    static const uint32_t six[] = {0, 0x80000000u, 0xffffffffu, 0x40000000u, 0xc0000000u, 1}, three[] = {0x80000000u, 0, 0xa0000000u};
    if(k < 4) v = six[mc::choose(6)];
    else if(k < 8) v = three[mc::choose(3)];
    else v = tail = tail * 1664525u + 1013904223u;
    given.push_back(v), ++next;
    return v;
  }
};
template<class V> struct Unit;
template<class E, int N> struct Unit<vector<E, compiled<N>>> { vector<E, compiled<N>> v; Unit(int, E*) {} };
template<class E> struct Unit<vector<E, dynamic<>>> { vector<E, dynamic<>> v; Unit(int n, E*) : v(n) {} };
template<class E, int N> struct Unit<vector<E, external<N>>> { vector<E, external<N>> v; Unit(int, E* p) : v(p) {} };
template<class E> struct Unit<vector<E, external<>>> { vector<E, external<>> v; Unit(int n, E* p) : v(p, n) {} };
template<class V> void unit_n(int n)
{
  using E = value_type_trait_of_t<V>;
  std::vector<E> buf(size_t(n) + 2, E(77));
  Unit<V> u(n, &buf[1]), w(n, &buf[1]);
  Gen g;
  mc::step();
  cml::random_unit(u.v, g);
  const vec got = ref::read(u.v);
  mc::state(ref::hash(got));
  MC_CHECK(int(got.size()) == n, "size kept", got);
  MC_CHECK(std::fabs(ref::len(got) - 1) <= eps<E>(), "unit length", got);
  MC_CHECK(buf[0] == E(77) && buf.back() == E(77), "only its own elements", got);
  g.replay = true, g.next = 0, g.tail = 12345;
  const size_t asked = g.given.size();
  cml::random_unit(w.v, g);
  MC_CHECK(ref::same(ref::read(w.v), got) && g.given.size() == asked, "equal answers, equal results", got << " then " << ref::read(w.v));
}
// Unit vectors from the built-in source.
template<class V> void unit_default_n(int n)
{
  using E = value_type_trait_of_t<V>;
  std::vector<E> buf(size_t(n) + 2, E(77));
  Unit<V> u(n, &buf[1]), w(n, &buf[1]);
  const unsigned r = choose_answer();
  script({r});
  mc::step();
  cml::random_unit(u.v);
  const vec got = ref::read(u.v);
  mc::state(ref::hash(got));
  MC_CHECK(std::fabs(ref::len(got) - 1) <= eps<E>(), "unit length", r << ": " << got);
  MC_CHECK(buf[0] == E(77) && buf.back() == E(77), "only its own elements", got);
  script({r});
  cml::random_unit(w.v);
  MC_CHECK(ref::same(ref::read(w.v), got), "equal answers, equal results", got << " then " << ref::read(w.v));
}

// Cones. The axis is fixed, or the very vector the source is about to give
// (or its opposite, or close by).
template<class V, class D, class A> void cone_n(int n)
{
  using E = value_type_trait_of_t<V>;
  using F = value_type_trait_of_t<D>;
  static const double as[] = {1e-9, 1e-3, .5, 1, 1.5, pi / 2};
  const double a0 = as[mc::choose(6)];
  A a = a0 == pi / 2 ? constants<A>::pi_over_2() : A(a0);
  while(a > constants<E>::pi_over_2()) a = std::nextafter(a, A(0)); // the largest the rule allows
  const unsigned r = choose_answer();
  const int k = mc::choose(8);
  std::vector<E> bv(size_t(n) + 2, E(77));
  std::vector<F> bd(size_t(n) + 2, F(55));
  Unit<V> v(n, &bv[1]);
  Unit<D> d(n, &bd[1]);
  vec axis(static_cast<size_t>(n));
  if(k < 3) for(int i = 0; i < n; ++i) axis[size_t(i)] = k == 0 ? i == n - 1 : k == 1 ? (i == 0 ? -1 : 0) : 1 + i;
  else {
    Unit<V> ahead(n, &bv[1]);
    script({r, r});
    cml::random_unit(ahead.v);
    axis = ref::read(ahead.v);
    if(k == 4) axis = ref::scale(axis, -1);
    if(k > 4) axis[0] += k == 5 ? 1e-4 : k == 6 ? -1e-7 : 1e-9;
  }
  if(ref::len(axis) == 0) axis[0] = 1;
  const vec ua = ref::unit(axis);
  for(int i = 0; i < n; ++i) d.v[i] = F(ua[size_t(i)]);
  const vec before = ref::read(d.v);
  script({r, r});
  mc::step();
  cml::random_unit(v.v, d.v, a);
  const vec got = ref::read(v.v);
  mc::state(ref::hash(got));
  const double t = 5 * std::max(eps<E>(), std::max(eps<F>(), eps<A>()));
  MC_CHECK(std::fabs(ref::len(got) - 1) <= t, "unit length", "axis " << before << " angle " << double(a) << " source " << r << ": " << got);
  // The sine part is accurate near the axis.
  const double c = ref::dot(got, before), s = ref::len(ref::add(got, before, -c)), ang = std::atan2(s, c);
  MC_CHECK(ang <= double(a) + t, "within the cone", "axis " << before << " angle " << double(a) << " source " << r << ": " << got << " at " << ang);
  MC_CHECK(ref::same(ref::read(d.v), before), "axis untouched", before);
  MC_CHECK(bv[0] == E(77) && bv.back() == E(77) && bd[0] == F(55) && bd.back() == F(55), "only its own elements", got);
  Unit<V> w(n, &bv[1]);
  script({r, r});
  cml::random_unit(w.v, d.v, a);
  MC_CHECK(ref::same(ref::read(w.v), got), "equal answers, equal results", got << " then " << ref::read(w.v));
}
// The whole cone is reached.
template<class E, int N> void cone_reach()
{
  static const double as[] = {.3, 1, pi / 2};
  const double a = as[mc::choose(3)];
  const int k = mc::choose(N);
  vector<E, compiled<N>> d, v;
  d.cardinal(k);
  double most = 0, lo[N] = {}, hi[N] = {};
  mc::step(answers().size());
  mc::state(mc::Hash()(a)(k));
  for(unsigned r : answers()) {
    script({r});
    cml::random_unit(v, d, E(a));
    most = std::max(most, std::acos(std::min(1., double(v[k]))));
    for(int i = 0; i < N; ++i) lo[i] = std::min(lo[i], double(v[i])), hi[i] = std::max(hi[i], double(v[i]));
  }
  MC_CHECK(most > .8 * a, "reaches the rim", "angle " << a << ": " << most);
  for(int i = 0; i < N; ++i) if(i != k) MC_CHECK(lo[i] < -.5 * std::sin(a) && hi[i] > .5 * std::sin(a), "reaches every side", "angle " << a << " coordinate " << i << ": " << lo[i] << " to " << hi[i]);
}
template<class E, int N> void sphere_reach()
{
  vector<E, compiled<N>> v;
  double lo[N] = {}, hi[N] = {};
  for(unsigned r : answers()) {
    script({r});
    cml::random_unit(v);
    for(int i = 0; i < N; ++i) lo[i] = std::min(lo[i], double(v[i])), hi[i] = std::max(hi[i], double(v[i]));
  }
  mc::step(answers().size());
  mc::state(unsigned(N));
  for(int i = 0; i < N; ++i) MC_CHECK(lo[i] < -.6 && hi[i] > .6, "reaches every side", "coordinate " << i << ": " << lo[i] << " to " << hi[i]);
}

template<class F> std::string thrown(F f)
{
  try { f(); }
  catch(const minimum_vector_size_error&) { return "minimum_vector_size_error"; }
  catch(const incompatible_vector_size_error&) { return "incompatible_vector_size_error"; }
  catch(const std::invalid_argument&) { return "invalid_argument"; }
  catch(const std::exception& e) { return std::string("exception ") + e.what(); }
  return "none";
}
template<class E> void rejected()
{
  static const double as[] = {0, -0., -1e-9, -1, 1.6, 3, pi, 7, 1e30, -1e30, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), 1, 1e-3};
  const int k = mc::choose(14), n = mc::choose(4) + 1, m = mc::choose(5), f = mc::choose(4);
  const double a = as[k];
  const bool good = k >= 12;
  script({12345});
  mc::step();
  mc::state(mc::Hash()(k)(n)(m)(f));
  vector<E, dynamic<>> d(n);
  d.zero();
  d[n - 1] = E(1);
  if(f == 0) {
    // A run-time sized vector takes the axis' size.
    vector<E, dynamic<>> v(m);
    for(int i = 0; i < m; ++i) v[i] = E(7);
    const vec before = ref::read(v);
    const std::string got = thrown([&] { cml::random_unit(v, d, E(a)); });
    MC_CHECK(got == (good ? "none" : "invalid_argument"), "angle rule", a << ": " << got);
    if(good) MC_CHECK(v.size() == n, "takes the size of the axis", n << " from " << m << ": " << v.size());
    else MC_CHECK(ref::same(ref::read(v), before), "a rejected call changes nothing", ref::read(v));
  }
  if(f == 1) {
    vector<E, compiled<3>> v(E(7), E(7), E(7));
    const std::string got = thrown([&] { cml::random_unit(v, d, E(a)); });
    MC_CHECK(good ? got == (n == 3 ? "none" : "incompatible_vector_size_error") : n == 3 ? got == "invalid_argument" : got != "none", "angle and size rule", a << " on axis of " << n << ": " << got);
    if(got != "none") MC_CHECK(v[0] == 7 && v[1] == 7 && v[2] == 7, "a rejected call changes nothing", ref::read(v));
  }
  if(f == 2) {
    vector<E, compiled<2>> v(E(7), E(7)), x(E(1), E(0));
    const std::string got = thrown([&] { cml::random_unit(v, x, E(a)); });
    MC_CHECK(got == (good ? "none" : "invalid_argument"), "angle rule 2D", a << ": " << got);
    if(got != "none") MC_CHECK(v[0] == 7 && v[1] == 7, "a rejected call changes nothing", ref::read(v));
  }
  if(f == 3) {
    std::minstd_rand g;
    vector<E, dynamic<>> v(m);
    MC_CHECK(thrown([&] { cml::random_unit(v, g); }) == (m ? "none" : "minimum_vector_size_error"), "empty vector", m);
    MC_CHECK(thrown([&] { cml::random_unit(v); }) == (m ? "none" : "minimum_vector_size_error"), "empty vector", m);
  }
}
} // namespace g09
