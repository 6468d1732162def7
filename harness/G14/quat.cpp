#include "args.h"
namespace { using namespace g14; struct R { R() {
  const List one_angle = grid(1, {-100, -45, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 45, 100});
  each("quaternion_rotation_world_axis", one_angle, [](const Args& a, auto d, auto t) {
    using D = decltype(d); using T = decltype(t); Out o;
    quaternion<D> q; quaternion<D, fixed<>, real_first, negative_cross> p;
    for(int x = 0; x < 3; ++x) { quaternion_rotation_world_axis(q, x, T(a[0])); put_q(o, q); }
    quaternion_rotation_world_x(q, T(a[0])); put_q(o, q); quaternion_rotation_world_y(p, T(a[0])); put_q(o, p);
    quaternion_rotation_world_z(q, T(a[0])); put_q(o, q); return o; });
  each("quaternion_rotation_axis_angle", one_angle, [](const Args& a, auto d, auto t) {
    using D = decltype(d); using T = decltype(t); Out o;
    quaternion<D> q;
    quaternion_rotation_axis_angle(q, vector<D, fixed<3>>(D(0.48), D(0.64), D(0.6)), T(a[0])); put_q(o, q); return o; });
  pairs("quaternion_rotation_axis_angle, axis", grid(4, {-2, -1, 0, 1, 2, 3}), [](const Args& a, auto d, auto t, auto u) {
    using D = decltype(d); using T = decltype(t); using U = decltype(u); Out o;
    quaternion<D> q; quaternion_rotation_axis_angle(q, v3<T>(a, 0), U(a[3])); put_q(o, q); return o; });
  // The 24 rotations whose matrices have integer elements:
  const List rots = grid(9, {-1, 0, 1}, [](const Args& a) {
    int d = a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6]);
    if(d != 1) return false;
    for(int i = 0; i < 3; ++i) { int n = 0; for(int j = 0; j < 3; ++j) n += a[3 * i + j] * a[3 * i + j]; if(n != 1) return false; }
    return true; });
  each_signed("rotation matrix of integers", rots, [](const Args& a, auto d, auto t) {
    using D = decltype(d); using T = decltype(t); Out o;
    matrix<T, fixed<3, 3>> m; for(int i = 0; i < 9; ++i) m(i / 3, i % 3) = T(a[i]);
    quaternion<D> q; quaternion_rotation_matrix(q, m); put_q(o, q);
    vector<D, fixed<3>> axis; D angle; matrix_to_axis_angle(m, axis, angle, D(1e-4));
    put_v(o, axis); put_angle(o, angle);
    for(euler_order e : {euler_order_xyz, euler_order_zyx, euler_order_yxz, euler_order_xyx, euler_order_zxz}) {
      D x, y, z; matrix_to_euler(m, x, y, z, e, D(1e-4));
      put_angle(o, x); put_angle(o, y); put_angle(o, z); }
    return o; });
  each_signed("quaternion of integers", grid(4, {-1, 0, 1}, [](const Args& a) { return a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3] == 1; }),
    [](const Args& a, auto d, auto t) {
    using D = decltype(d); using T = decltype(t); Out o;
    auto q = q4<T>(a, 0);
    matrix<D, fixed<3, 3>> m; matrix_rotation_quaternion(m, q); put_m(o, m);
    vector<D, fixed<3>> axis; D angle; quaternion_to_axis_angle(q, axis, angle, D(1e-4));
    put_v(o, axis); put_angle(o, angle);
    D x, y, z; quaternion_to_euler(q, x, y, z, euler_order_xyz, D(1e-4)); put_angle(o, x); put_angle(o, y); put_angle(o, z);
    quaternion_to_euler(q, x, y, z, euler_order_zyz, D(1e-4)); put_angle(o, x); put_angle(o, y); put_angle(o, z);
    return o; });
} } r; }
