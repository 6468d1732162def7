#include "args.h"
#ifndef G14_D
#define G14_D double
#endif
namespace { using namespace g14; struct R { R() {
  using DD = G14_D;
  const List l2 = grid(2, angles()), l3 = grid(3, angles());
  pairs1<DD>("polar_to_cartesian", l2, [](const Args& a, auto d, auto t, auto u) {
    using D = decltype(d); using T = decltype(t); using U = decltype(u); Out o;
    vector<D, fixed<2>> v; polar_to_cartesian(v, T(a[0]), U(a[1])); put_v(o, v); return o; });
  triples1<DD>("cylindrical and spherical", l3, [](const Args& a, auto d, auto t, auto u, auto w) {
    using D = decltype(d); using T = decltype(t); using U = decltype(u); using W = decltype(w); Out o;
    vector<D, fixed<3>> v;
    for(int x = 0; x < 3; ++x) {
      cylindrical_to_cartesian(v, x, T(a[0]), U(a[1]), W(a[2])); put_v(o, v);
      spherical_to_cartesian(v, x, latitude, T(a[0]), U(a[1]), W(a[2])); put_v(o, v);
      spherical_to_cartesian(v, x, colatitude, T(a[0]), U(a[1]), W(a[2])); put_v(o, v); }
    return o; });
  each1<DD>("to Cartesian, one type", l3, [](const Args& a, auto d, auto t) {
    using D = decltype(d); using T = decltype(t); Out o;
    vector<D, fixed<2>> p; polar_to_cartesian(T(a[0]), T(a[1]), p); put_v(o, p);
    vector<D, dynamic<>> v(3);
    for(int x = 0; x < 3; ++x) {
      cylindrical_to_cartesian(T(a[0]), T(a[1]), T(a[2]), x, v); put_v(o, v);
      spherical_to_cartesian(T(a[0]), T(a[1]), T(a[2]), x, latitude, v); put_v(o, v);
      spherical_to_cartesian(T(a[0]), T(a[1]), T(a[2]), x, colatitude, v); put_v(o, v); }
    return o; });
  each1<DD>("from Cartesian", grid(3, {-5, -2, -1, 0, 1, 3, 4, 12}), [](const Args& a, auto d, auto t) {
    using D = decltype(d); using T = decltype(t); Out o; D r, th, ph;
    cartesian_to_polar(v2<T>(a, 0), r, th); o.push_back(r); put_angle(o, th);
    cartesian_to_polar(v2<T>(a, 0), r, th, D(0.01)); o.push_back(r); put_angle(o, th);
    for(int x = 0; x < 3; ++x) {
      cartesian_to_cylindrical(v3<T>(a, 0), x, r, th, ph); o.push_back(r); put_angle(o, th); o.push_back(ph);
      cartesian_to_cylindrical(v3<T>(a, 0), r, th, ph, x); o.push_back(r); put_angle(o, th); o.push_back(ph);
      for(LatitudeType lt : {latitude, colatitude}) {
        cartesian_to_spherical(v3<T>(a, 0), x, lt, r, th, ph); o.push_back(r); put_angle(o, th); o.push_back(ph);
        cartesian_to_spherical(v3<T>(a, 0), r, th, ph, x, lt); o.push_back(r); put_angle(o, th); o.push_back(ph); } }
    return o; });
} } r; }
