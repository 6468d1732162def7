// Polar, cylindrical and spherical coordinates.
#pragma once
#include "../geo.h"

namespace g07 {
using namespace geo;

inline double coordinate(bool more)
{
  static const double c[] = {0, 1, -1, 2, -2, 1e-3, -1e-3, 1e-12, -1e-12, 100, -.7, 3e4, -0., 1e-5};
  return c[mc::choose(more ? 14 : 11)];
}
// sqrt(eps) of the coarsest type in play bounds what counts as on the axis.
template<class... T> double on_axis()
{
  double e = 0;
  for(double x : {std::sqrt(double(std::numeric_limits<T>::epsilon()))...}) e = std::max(e, x);
  return e;
}
template<class... T> double coarse()
{
  double e = 0;
  for(double x : {tol<T>()...}) e = std::max(e, x);
  return e;
}
template<class E> E keep(double d) { return E(d); }
inline double size_of(const vec& v) { double s = 0; for(double d : v) s = std::max(s, std::fabs(d)); return std::max(s, 1e-300); }
inline bool close(const vec& a, const vec& b, double t, double extra)
{
  const double s = std::max(size_of(a), size_of(b));
  for(size_t i = 0; i < a.size(); ++i) if(!(std::fabs(a[i] - b[i]) <= t * s + extra)) return false;
  return true;
}

// Out and back from a Cartesian point.
template<class E, class F> void polar_round()
{
  vec p{double(E(coordinate(true))), double(E(coordinate(true)))};
  const double len = ref::len(p), t = coarse<E, F>(), ax = on_axis<E, F>();
  const auto v = v2<E>(p);
  mc::step(3);
  F r(-7), th(-7);
  cartesian_to_polar(v, r, th);
  mc::state(mc::Hash()(p[0])(p[1]));
  MC_CHECK(ref::near(double(r), len, t) && std::fabs(r - len) <= t * len, "radius", p << ": " << r);
  MC_CHECK(std::fabs(th) <= pi + t, "angle range", p << ": " << th);
  if(len < on_axis<std::common_type_t<E, F>>() * .5) MC_CHECK(th == 0, "angle at the origin", p << ": " << th);
  if(len > 2 * ax) MC_CHECK(ref::near(double(th), std::atan2(p[1], p[0]), t), "angle", p << ": " << th);
  vector<E, compiled<2>> w(E(5), E(5));
  polar_to_cartesian(w, r, th);
  MC_CHECK(close(ref::read(w), p, 10 * t, len <= 2 * ax ? 2 * len : 0), "back from polar", p << ": " << ref::read(w));
  vector<E, compiled<2>> w1(E(5), E(5));
  polar_to_cartesian(r, th, w1);
  MC_CHECK(ref::same(ref::read(w), ref::read(w1)), "argument orders agree", p);
  // A caller's own tolerance.
  F r2(-7), th2(-7);
  cartesian_to_polar(v, r2, th2, F(2));
  MC_CHECK(r2 == r, "radius with tolerance", p << ": " << r2);
  if(len != 2) MC_CHECK(len < 2 ? th2 == 0 : (len > 2 * ax && th2 == th), "angle with tolerance", p << ": " << th2);
  else MC_CHECK(th2 == th, "radius equal to the tolerance", p << ": " << th2);
}
template<class E, class F> void cylinder_round()
{
  const int axis = mc::choose(3);
  vec p;
  for(int i = 0; i < 3; ++i) p.push_back(double(E(coordinate(mc::thorough()))));
  const int j = (axis + 1) % 3, k = (axis + 2) % 3;
  const double x = p[size_t(j)], y = p[size_t(k)], h = p[size_t(axis)], len = std::sqrt(x * x + y * y), t = coarse<E, F>(), ax = on_axis<E, F>();
  const auto v = v3<E>(p);
  mc::step(4);
  F r(-7), th(-7), z(-7);
  cartesian_to_cylindrical(v, axis, r, th, z);
  mc::state(mc::Hash()(axis)(p[0])(p[1])(p[2]));
  MC_CHECK(std::fabs(r - len) <= t * len, "radius", axis << " " << p << ": " << r);
  MC_CHECK(double(z) == double(F(h)), "height", axis << " " << p << ": " << z);
  MC_CHECK(std::fabs(th) <= pi + t, "angle range", axis << " " << p << ": " << th);
  if(len < on_axis<std::common_type_t<E, F>>() * .5) MC_CHECK(th == 0, "angle on the axis", axis << " " << p << ": " << th);
  if(len > 2 * ax) MC_CHECK(ref::near(double(th), std::atan2(y, x), t), "angle", axis << " " << p << ": " << th);
  vector<E, compiled<3>> w(E(5), E(5), E(5)), w1(E(6), E(6), E(6));
  cylindrical_to_cartesian(w, axis, r, th, z);
  MC_CHECK(close(ref::read(w), p, 10 * t, len <= 2 * ax ? 2 * len : 0), "back from cylindrical", axis << " " << p << ": " << ref::read(w));
  cylindrical_to_cartesian(r, th, z, axis, w1);
  MC_CHECK(ref::same(ref::read(w), ref::read(w1)), "argument orders agree", axis << " " << p);
  F r1(-7), th1(-7), z1(-7);
  cartesian_to_cylindrical(v, r1, th1, z1, axis);
  MC_CHECK(r1 == r && z1 == z && (th1 == th || len <= 2 * ax), "argument orders agree", axis << " " << p << ": " << r1 << " " << th1 << " " << z1);
  cartesian_to_cylindrical(v, axis, r1, th1, z1, F(2));
  MC_CHECK(r1 == r && z1 == z, "with tolerance", axis << " " << p << ": " << r1 << " " << z1);
  MC_CHECK(len < 2 ? th1 == 0 : th1 == th, "angle with tolerance", axis << " " << p << ": " << th1);
  th1 = F(-7);
  cartesian_to_cylindrical(v, r1, th1, z1, axis, F(2));
  MC_CHECK(r1 == r && z1 == z && (len < 2 ? th1 == 0 : th1 == th), "angle with tolerance", axis << " " << p << ": " << th1);
}
template<class E, class F> void sphere_round()
{
  const int axis = mc::choose(3);
  const LatitudeType type = mc::choose(2) ? latitude : colatitude;
  vec p;
  for(int i = 0; i < 3; ++i) p.push_back(double(E(coordinate(mc::thorough()))));
  const int j = (axis + 1) % 3, k = (axis + 2) % 3;
  const double x = p[size_t(j)], y = p[size_t(k)], h = p[size_t(axis)], len = std::sqrt(x * x + y * y), rad = ref::len(p), t = coarse<E, F>(), ax = on_axis<E, F>();
  const auto v = v3<E>(p);
  const char* n = type == latitude ? " latitude " : " colatitude ";
  mc::step(4);
  F r(-7), th(-7), ph(-7);
  cartesian_to_spherical(v, axis, type, r, th, ph);
  mc::state(mc::Hash()(axis)(int(type))(p[0])(p[1])(p[2]));
  MC_CHECK(std::fabs(r - rad) <= t * rad, "radius", axis << n << p << ": " << r);
  MC_CHECK(std::fabs(th) <= pi + t, "azimuth range", axis << n << p << ": " << th);
  MC_CHECK(type == latitude ? std::fabs(ph) <= pi / 2 + t : ph >= 0 && ph <= pi + t, "inclination range", axis << n << p << ": " << ph);
  const double small = on_axis<std::common_type_t<E, F>>();
  if(len < small * .5) MC_CHECK(th == 0, "azimuth on the axis", axis << n << p << ": " << th);
  if(len > 2 * ax) MC_CHECK(ref::near(double(th), std::atan2(y, x), t), "azimuth", axis << n << p << ": " << th);
  if(rad < small * .5) MC_CHECK(ph == 0, "inclination at the origin", axis << n << p << ": " << ph);
  if(rad > 2 * ax) {
    const double want = type == latitude ? std::atan2(h, len) : std::atan2(len, h);
    MC_CHECK(ref::near(double(ph), want, t), "inclination", axis << n << p << ": " << ph << " not " << want);
  }
  vector<E, compiled<3>> w(E(5), E(5), E(5)), w1(E(6), E(6), E(6));
  spherical_to_cartesian(w, axis, type, r, th, ph);
  MC_CHECK(close(ref::read(w), p, 10 * t, rad <= 2 * ax ? 2 * rad : len <= 2 * ax ? 2 * len : 0), "back from spherical", axis << n << p << ": " << ref::read(w));
  spherical_to_cartesian(r, th, ph, axis, type, w1);
  MC_CHECK(ref::same(ref::read(w), ref::read(w1)), "argument orders agree", axis << n << p);
  F r1(-7), th1(-7), ph1(-7);
  cartesian_to_spherical(v, r1, th1, ph1, axis, type);
  MC_CHECK(r1 == r && (th1 == th || len <= 2 * ax) && (ph1 == ph || rad <= 2 * ax), "argument orders agree", axis << n << p << ": " << r1 << " " << th1 << " " << ph1);
  for(int f = 0; f < 2; ++f) {
    th1 = ph1 = F(-7);
    if(f) cartesian_to_spherical(v, axis, type, r1, th1, ph1, F(1.5)); else cartesian_to_spherical(v, r1, th1, ph1, axis, type, F(1.5));
    MC_CHECK(r1 == r && (len < 1.5 ? th1 == 0 : th1 == th), "azimuth with tolerance", axis << n << p << ": " << th1);
    MC_CHECK(rad < 1.5 ? ph1 == 0 : ph1 == ph, "inclination with tolerance", axis << n << p << ": " << ph1);
  }
}

// The definitions, on every pair of angles; and back to the same angles.
inline double wrapped(double a) { return std::atan2(std::sin(a), std::cos(a)); }
template<class E, class F> void definitions()
{
  static const double radii[] = {0, .5, 1, 3, 250, -2};
  const int which = mc::choose(3);
  const double r = radii[mc::choose(6)], th = double(F(choose_angle())), t = coarse<E, F>(), s = std::fabs(r);
  mc::step();
  if(which == 0) {
    vector<E, compiled<2>> v(E(9), E(9));
    polar_to_cartesian(v, F(r), F(th));
    const vec want{r * std::cos(th), r * std::sin(th)};
    mc::state(mc::Hash()(which)(r)(th));
    MC_CHECK(close(ref::read(v), want, 10 * t, 0), "polar", r << " " << th << ": " << ref::read(v) << " not " << want);
    return;
  }
  const int axis = mc::choose(3);
  const size_t i = size_t(axis), j = size_t((axis + 1) % 3), k = size_t((axis + 2) % 3);
  vector<E, compiled<3>> v(E(9), E(9), E(9));
  vec want(3);
  if(which == 1) {
    const double h = mc::choose(3) * 2.5 - 1;
    cylindrical_to_cartesian(v, axis, F(r), F(th), F(h));
    want[i] = h, want[j] = r * std::cos(th), want[k] = r * std::sin(th);
    mc::state(mc::Hash()(which)(r)(th)(axis)(h));
    MC_CHECK(close(ref::read(v), want, 10 * t, 0), "cylindrical", axis << " " << r << " " << th << " " << h << ": " << ref::read(v) << " not " << want);
    return;
  }
  const LatitudeType type = mc::choose(2) ? latitude : colatitude;
  static const double ph_[] = {0, 1e-4, .3, pi / 4, 1, pi / 2, 2, 3, pi};
  const double ph = double(F(ph_[mc::choose(9)] - (type == latitude ? pi / 2 : 0)));
  spherical_to_cartesian(v, axis, type, F(r), F(th), F(ph));
  const double up = type == latitude ? std::sin(ph) : std::cos(ph), out = type == latitude ? std::cos(ph) : std::sin(ph);
  want[i] = r * up, want[j] = r * out * std::cos(th), want[k] = r * out * std::sin(th);
  mc::state(mc::Hash()(which)(r)(th)(axis)(int(type))(ph));
  MC_CHECK(close(ref::read(v), want, 10 * t, 0), "spherical", axis << (type == latitude ? " latitude " : " colatitude ") << r << " " << th << " " << ph << ": " << ref::read(v) << " not " << want);
  if(r > 0 && std::fabs(out) > 1e-2) {
    F r1, th1, ph1;
    cartesian_to_spherical(v, axis, type, r1, th1, ph1);
    MC_CHECK(std::fabs(r1 - r) <= 10 * t * s && std::fabs(ph1 - ph) <= 1e3 * t && std::fabs(wrapped(th1 - th)) <= 1e3 * t, "same coordinates again", axis << " " << r << " " << th << " " << ph << ": " << r1 << " " << th1 << " " << ph1);
  }
}

// Vectors stored elsewhere, expressions, and parameters of different types.
template<class E> void kinds()
{
  const int axis = mc::choose(3);
  const LatitudeType type = mc::choose(2) ? latitude : colatitude;
  vec p;
  for(int i = 0; i < 3; ++i) p.push_back(mc::choose(3) - 1);
  const auto v = v3<E>(p);
  E b[3] = {E(p[0]), E(p[1]), E(p[2])}, c[3];
  vector<E, dynamic<>> d(3, &b[0]), dt(3);
  vector<E, external<3>> x(&b[0]), xt(&c[0]);
  vector<const E, external<3>> k(&b[0]);
  vector<E, external<>> y(&b[0], 3), yt(&c[0], 3);
  E r, th, ph;
  cartesian_to_spherical(v, axis, type, r, th, ph);
  mc::step(6);
  mc::state(mc::Hash()(axis)(int(type))(p[0])(p[1])(p[2]));
#define FROM(v) { E r1, th1, ph1; cartesian_to_spherical(v, axis, type, r1, th1, ph1); MC_CHECK(r1 == r && th1 == th && ph1 == ph, "spherical from " #v, p << ": " << r1 << " " << th1 << " " << ph1); \
  E r2, h2, z2, r3, h3, z3; cartesian_to_cylindrical(v3<E>(p), axis, r2, h2, z2); cartesian_to_cylindrical(v, axis, r3, h3, z3); MC_CHECK(r2 == r3 && h2 == h3 && z2 == z3, "cylindrical from " #v, p); }
  FROM(d) FROM(x) FROM(k) FROM(y) FROM(E(.5) * (d + y)) FROM(-(-d))
#undef FROM
  vector<E, compiled<3>> want;
  spherical_to_cartesian(want, axis, type, r, th, ph);
#define TO(v) spherical_to_cartesian(v, axis, type, r, th, ph); MC_CHECK(ref::same(ref::read(v), ref::read(want)), "spherical to " #v, p); \
  cylindrical_to_cartesian(v, axis, r, th, ph); { vector<E, compiled<3>> w; cylindrical_to_cartesian(w, axis, r, th, ph); MC_CHECK(ref::same(ref::read(v), ref::read(w)), "cylindrical to " #v, p); }
  TO(dt) TO(xt) TO(yt)
#undef TO
  // Each parameter in its own type.
  float fr, ft, fp;
  double dr, dth, dph;
  cartesian_to_spherical(v, axis, type, fr, dth, fp);
  cartesian_to_spherical(v, axis, type, dr, ft, dph);
  const double t = 10 * tol<float>();
  for(const vec& g : {vec{fr, dth, fp}, vec{dr, ft, dph}}) MC_CHECK(ref::near(g, vec{double(r), double(th), double(ph)}, t), "mixed result types", p << ": " << g);
  vector<E, compiled<3>> w;
  spherical_to_cartesian(w, axis, type, fr, dth, fp);
  MC_CHECK(ref::near(ref::read(w), p, t), "mixed parameter types", p << ": " << ref::read(w));
  spherical_to_cartesian(w, axis, type, dr, ft, dph);
  MC_CHECK(ref::near(ref::read(w), p, t), "mixed parameter types", p << ": " << ref::read(w));
  // A whole-number radius.
  spherical_to_cartesian(w, axis, colatitude, 2, E(.5), E(.25));
  vector<E, compiled<3>> w2;
  spherical_to_cartesian(w2, axis, colatitude, E(2), E(.5), E(.25));
  MC_CHECK(ref::near(ref::read(w), ref::read(w2), tol<E>()), "whole-number radius", ref::read(w));
}

template<class F> std::string thrown(F f)
{
  try { f(); }
  catch(const vector_size_error&) { return "vector_size_error"; }
  catch(const std::invalid_argument&) { return "invalid_argument"; }
  catch(const std::exception& e) { return std::string("exception ") + e.what(); }
  return "none";
}
template<class E> void rejected()
{
  const int op = mc::choose(10), n = mc::choose(6), axis = op % 5 == 0 ? 0 : mc::choose(9) - 3;
  const LatitudeType type = mc::choose(2) ? latitude : colatitude;
  vector<E, dynamic<>> v(n);
  for(int i = 0; i < n; ++i) v[i] = E(i + 1);
  const vec before = ref::read(v);
  E r(2), t(.5), h(1);
  const bool size = n == (op % 5 == 0 ? 2 : 3), ax = axis >= 0 && axis <= 2;
  const std::string want = size && ax ? "none" : size ? "invalid_argument" : ax ? "vector_size_error" : "any";
  std::string got;
  mc::step();
  if(op == 0) got = thrown([&] { polar_to_cartesian(v, r, t); });
  if(op == 1) got = thrown([&] { cylindrical_to_cartesian(v, axis, r, t, h); });
  if(op == 2) got = thrown([&] { spherical_to_cartesian(v, axis, type, r, t, h); });
  if(op == 3) got = thrown([&] { cylindrical_to_cartesian(r, t, h, axis, v); });
  if(op == 4) got = thrown([&] { spherical_to_cartesian(r, t, h, axis, type, v); });
  if(op == 5) got = thrown([&] { cartesian_to_polar(v, r, t); });
  if(op == 6) got = thrown([&] { cartesian_to_cylindrical(v, axis, r, t, h); });
  if(op == 7) got = thrown([&] { cartesian_to_spherical(v, axis, type, r, t, h); });
  if(op == 8) got = thrown([&] { cartesian_to_cylindrical(v, r, t, h, axis); });
  if(op == 9) got = thrown([&] { cartesian_to_spherical(v, r, t, h, axis, type); });
  mc::state(mc::Hash()(op)(n)(axis)(int(type)));
  MC_CHECK(want == "any" ? got != "none" : got == want, "rejection rule", "op " << op << " size " << n << " axis " << axis << ": " << got << " instead of " << want);
  if(got != "none") MC_CHECK(ref::same(ref::read(v), before) && r == E(2) && t == E(.5) && h == E(1), "a rejected call changes nothing", "op " << op << " size " << n << " axis " << axis);
  else if(op >= 5) MC_CHECK(ref::same(ref::read(v), before), "the point is only read", "op " << op);
}
} // namespace g07
