#include "args.h"
namespace { using namespace g14; struct R { R() {
  const List three = grid(3, {-2, -1, 1, 3, 100});
  each("scale and translation, one type", three, [](const Args& a, auto d, auto t) {
    using D = decltype(d); using T = decltype(t); Out o; matrix<D, fixed<4, 4>> m; matrix<D, fixed<3, 3>, row_basis> n;
    matrix_scale(m, T(a[0]), T(a[1]), T(a[2])); put_m(o, m); matrix_inverse_scale(m, T(a[0]), T(a[1]), T(a[2])); put_m(o, m);
    matrix_scale(m, v3<T>(a, 0)); put_m(o, m); matrix_inverse_scale(m, v3<T>(a, 0)); put_m(o, m);
    matrix_uniform_scale(m, T(a[0])); put_m(o, m);
    matrix_translation(m, T(a[0]), T(a[1]), T(a[2])); put_m(o, m); matrix_translation(m, v3<T>(a, 0)); put_m(o, m);
    matrix_scale_2D(n, T(a[0]), T(a[1])); put_m(o, n); matrix_inverse_scale_2D(n, T(a[0]), T(a[1])); put_m(o, n);
    matrix_scale_2D(n, v2<T>(a, 0)); put_m(o, n); matrix_inverse_scale_2D(n, v2<T>(a, 0)); put_m(o, n);
    matrix_uniform_scale_2D(n, T(a[0])); put_m(o, n);
    matrix_translation_2D(n, T(a[0]), T(a[1])); put_m(o, n); matrix_translation_2D(n, v2<T>(a, 0)); put_m(o, n);
    matrix_set_translation(m, T(a[1]), T(a[2]), T(a[0])); put_m(o, m);
    matrix<D, fixed<2, 2>> k; matrix_skew_symmetric_2D(k, T(a[0])); put_m(o, k);
    return o; });
  triples("scale and translation", three, [](const Args& a, auto d, auto t, auto u, auto w) {
    using D = decltype(d); using T = decltype(t); using U = decltype(u); using W = decltype(w); Out o; matrix<D, fixed<4, 4>> m; matrix<D, fixed<3, 3>, row_basis> n;
    matrix_scale(m, T(a[0]), U(a[1]), W(a[2])); put_m(o, m); matrix_inverse_scale(m, T(a[0]), U(a[1]), W(a[2])); put_m(o, m);
    matrix_translation(m, T(a[0]), U(a[1]), W(a[2])); put_m(o, m);
    matrix_scale_2D(n, T(a[0]), W(a[1])); put_m(o, n); matrix_inverse_scale_2D(n, T(a[0]), W(a[1])); put_m(o, n);
    matrix_translation_2D(n, T(a[0]), U(a[1])); put_m(o, n);
    return o; });
  auto apart = [](const Args& a) { // the view direction is not parallel to the reference
    int x = a[3] - a[0], y = a[4] - a[1], z = a[5] - a[2];
    return x || z ? true : (void(y), false); };
  const List six = grid(6, {-2, 0, 3}, apart);
  triples("look at, aim at, align", six, [](const Args& a, auto d, auto t, auto u, auto w) {
    using D = decltype(d); using T = decltype(t); using U = decltype(u); using W = decltype(w); Out o; matrix<D, fixed<4, 4>> m;
    auto up = v3<W>(Args{0, 1, 0}, 0);
    matrix_look_at_LH(m, v3<T>(a, 0), v3<U>(a, 3), up); put_m(o, m);
    matrix_look_at_RH(m, v3<T>(a, 0), v3<U>(a, 3), up); put_m(o, m);
    matrix_rotation_aim_at(m, v3<T>(a, 0), v3<U>(a, 3), up); put_m(o, m);
    quaternion<D> q; quaternion_rotation_aim_at(q, v3<T>(a, 0), v3<U>(a, 3), up); put_q(o, q);
    if(a[0] || a[2]) {
      matrix_rotation_align(m, v3<T>(a, 0), up); put_m(o, m);
      matrix_rotation_align(m, v3<T>(a, 0), up, true, axis_order_xyz); put_m(o, m);
      quaternion_rotation_align(q, v3<T>(a, 0), up); put_q(o, q);
      vector<D, fixed<3>> x, y, z; orthonormal_basis(v3<T>(a, 0), up, x, y, z); put_v(o, x); put_v(o, y); put_v(o, z);
    }
    if(a[0] || a[1]) {
      matrix_rotation_align_2D(m, v2<T>(a, 0)); put_m(o, m);
      vector<D, fixed<2>> x, y; orthonormal_basis_2D(v2<T>(a, 0), x, y); put_v(o, x); put_v(o, y); }
    matrix_skew_symmetric(m, v3<T>(a, 0)); put_m(o, m);
    return o; });
  each_signed("random_unit, cone angle", List{{1}}, [](const Args& a, auto d, auto t) {
    using D = decltype(d); using T = decltype(t); Out o;
    // The cone has the half-angle given: no vector is outside it, and one of
    // many is beyond half of it.
    long double far = 0;
    vector<D, fixed<2>> n, e(D(1), D(0)); vector<D, fixed<3>> n3, e3(D(0), D(0), D(1));
    for(int s = 0; s < 200; ++s) { std::srand(s * 7919 + 1); random_unit(n, e, T(a[0]));
      const long double x = std::fabs(std::atan2((long double)(n[1]), (long double)(n[0]))); if(x > far) far = x; }
    o.push_back(far > 0.5L && far < 1.0001L);
    far = 0;
    for(int s = 0; s < 200; ++s) { std::srand(s * 7919 + 1); random_unit(n3, e3, T(a[0]));
      const long double x = std::atan2(std::hypot((long double)(n3[0]), (long double)(n3[1])), (long double)(n3[2])); if(x > far) far = x; }
    o.push_back(far > 0.5L && far < 1.0001L);
    return o; });
} } r; }
