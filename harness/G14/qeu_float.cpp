#include "args.h"
namespace { using namespace g14;
const euler_order orders[12] = {euler_order_xyz, euler_order_xzy, euler_order_yzx, euler_order_yxz, euler_order_zxy, euler_order_zyx,
  euler_order_xyx, euler_order_xzx, euler_order_yzy, euler_order_yxy, euler_order_zxz, euler_order_zyz};
struct R { R() {
  triples1<float>("quaternion_rotation_euler", grid(3, {-3, -1, 0, 1, 2, 5}), [](const Args& a, auto d, auto t, auto u, auto w) {
    using D = decltype(d); using T = decltype(t); using U = decltype(u); using W = decltype(w); Out o;
    for(int i = 0; i < 12; ++i) {
#if 0
      matrix<D, fixed<3, 3>> m; matrix_rotation_euler(m, T(a[0]), U(a[1]), W(a[2]), orders[i]); put_m(o, m);
      for(int x = 0; x < 3 && i < 6; ++x) { matrix_rotation_euler_derivatives(m, x, T(a[0]), U(a[1]), W(a[2]), orders[i]); put_m(o, m); }
#else
      quaternion<D> q; quaternion_rotation_euler(q, T(a[0]), U(a[1]), W(a[2]), orders[i]); put_q(o, q);
#endif
    }
    return o; });
  auto fn = [](const Args& a, auto d, auto t) {
    using D = decltype(d); using T = decltype(t); Out o;
    for(int i = 0; i < 12; ++i) {
#if 0
      matrix<D, fixed<4, 4>, row_basis> m; matrix_rotation_euler(m, v3<T>(a, 0), orders[i]); put_m(o, m);
      for(int x = 0; x < 3 && i < 6; ++x) { matrix_rotation_euler_derivatives(m, x, v3<T>(a, 0), orders[i]); put_m(o, m); }
      matrix_rotation_euler(m, T(a[0]), T(a[1]), T(a[2]), orders[i]); put_m(o, m);
#else
      quaternion<D> q; quaternion_rotation_euler(q, v3<T>(a, 0), orders[i]); put_q(o, q);
      quaternion_rotation_euler(q, T(a[0]), T(a[1]), T(a[2]), orders[i]); put_q(o, q);
#endif
    }
    return o; };
  each1<float>("quaternion_rotation_euler, one type", grid(3, {-3, -1, 0, 1, 2, 5}), fn);
} } r; }
