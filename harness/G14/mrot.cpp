#include "args.h"
namespace { using namespace g14; struct R { R() {
  const List one_angle = grid(1, {-100, -45, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 45, 100});
  each("matrix_rotation_2D", one_angle, [](const Args& a, auto d, auto t) {
    using D = decltype(d); using T = decltype(t); Out o;
    matrix<D, fixed<2, 2>> m; matrix_rotation_2D(m, T(a[0])); put_m(o, m);
    matrix<D, fixed<3, 3>, row_basis, row_major> n; matrix_rotation_2D(n, T(a[0])); put_m(o, n); return o; });
  each("matrix_rotation_world_axis", one_angle, [](const Args& a, auto d, auto t) {
    using D = decltype(d); using T = decltype(t); Out o;
    matrix<D, fixed<3, 3>> m; matrix<D, dynamic<>, row_basis> n(4, 4);
    for(int x = 0; x < 3; ++x) { matrix_rotation_world_axis(m, x, T(a[0])); put_m(o, m); }
    matrix_rotation_world_x(m, T(a[0])); put_m(o, m); matrix_rotation_world_y(n, T(a[0])); put_m(o, n);
    matrix_rotation_world_z(m, T(a[0])); put_m(o, m); return o; });
  each("matrix_rotation_axis_angle", one_angle, [](const Args& a, auto d, auto t) {
    using D = decltype(d); using T = decltype(t); Out o;
    matrix<D, fixed<3, 3>> m;
    matrix_rotation_axis_angle(m, vector<D, fixed<3>>(D(0.48), D(0.64), D(0.6)), T(a[0])); put_m(o, m); return o; });
} } r; }
