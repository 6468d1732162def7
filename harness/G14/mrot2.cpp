#include "args.h"
namespace { using namespace g14; struct R { R() {
  auto unit_axis = [](const Args& a) { return a[0] * a[0] + a[1] * a[1] + a[2] * a[2] == 1; };
  auto any_axis = [](const Args& a) { return a[0] || a[1] || a[2]; };
  pairs("matrix_rotation_axis_angle, axis", grid(4, {-2, -1, 0, 1, 2, 3}, unit_axis), [](const Args& a, auto d, auto t, auto u) {
    using D = decltype(d); using T = decltype(t); using U = decltype(u); Out o;
    matrix<D, fixed<3, 3>> m; matrix_rotation_axis_angle(m, v3<T>(a, 0), U(a[3])); put_m(o, m); return o; });
  pairs("matrix_affine_transform, axis", grid(4, {-2, -1, 0, 1, 2}, any_axis), [](const Args& a, auto d, auto t, auto u) {
    using D = decltype(d); using T = decltype(t); using U = decltype(u); Out o;
    matrix<D, fixed<4, 4>> m; auto p = v3<U>(a, 1);
    matrix_affine_transform(m, v3<T>(a, 0), U(a[3]), p, true); put_m(o, m);
    matrix_affine_transform(m, v3<T>(a, 0), T(a[3]), p, true); put_m(o, m);
    if(a[0] * a[0] + a[1] * a[1] + a[2] * a[2] == 1) { matrix_affine_transform(m, v3<T>(a, 0), U(a[3]), p); put_m(o, m); }
    return o; });
} } r; }
