#include "args.h"
#ifndef G14_D
#define G14_D double
#endif
namespace { using namespace g14; struct R { R() {
  using DD = G14_D;
  auto lrbt = [](const Args& a) { return a[0] != a[1] && a[2] != a[3] && a[4] != a[5]; };
  const List box = grid(6, {-3, 0, 1, 4, 100}, lrbt);
  auto whnf = [](const Args& a) { return a[0] > 0 && a[1] > 0 && a[2] != a[3]; };
  const List size = grid(4, {-2, 0, 1, 2, 3, 7, 100}, whnf);
  const List fov = grid(4, {1, 2, 3, 7, 100}, [](const Args& a) { return a[0] < 4 && a[2] != a[3]; });
  each1<DD>("orthographic, bounds", box, [](const Args& a, auto d, auto t) {
    using D = decltype(d); using T = decltype(t); Out o; matrix<D, fixed<4, 4>> m;
    for(ZClip z : {z_clip_neg_one, z_clip_zero}) {
      matrix_orthographic_LH(m, T(a[0]), T(a[1]), T(a[2]), T(a[3]), T(a[4]), T(a[5]), z); put_m(o, m);
      matrix_orthographic_RH(m, T(a[0]), T(a[1]), T(a[2]), T(a[3]), T(a[4]), T(a[5]), z); put_m(o, m); }
    return o; });
  each1<DD>("perspective, bounds", box, [](const Args& a, auto d, auto t) {
    using D = decltype(d); using T = decltype(t); Out o; matrix<D, fixed<4, 4>, row_basis> m;
    for(ZClip z : {z_clip_neg_one, z_clip_zero}) {
      matrix_perspective_LH(m, T(a[0]), T(a[1]), T(a[2]), T(a[3]), T(a[4]), T(a[5]), z); put_m(o, m);
      matrix_perspective_RH(m, T(a[0]), T(a[1]), T(a[2]), T(a[3]), T(a[4]), T(a[5]), z); put_m(o, m); }
    return o; });
  each1<DD>("projections, size", size, [](const Args& a, auto d, auto t) {
    using D = decltype(d); using T = decltype(t); Out o; matrix<D, dynamic<>> m(4, 4);
    for(ZClip z : {z_clip_neg_one, z_clip_zero}) {
      matrix_orthographic_LH(m, T(a[0]), T(a[1]), T(a[2]), T(a[3]), z); put_m(o, m);
      matrix_orthographic_RH(m, T(a[0]), T(a[1]), T(a[2]), T(a[3]), z); put_m(o, m);
      matrix_perspective_LH(m, T(a[0]), T(a[1]), T(a[2]), T(a[3]), z); put_m(o, m);
      matrix_perspective_RH(m, T(a[0]), T(a[1]), T(a[2]), T(a[3]), z); put_m(o, m); }
    return o; });
  each1<DD>("projections, field of view", fov, [](const Args& a, auto d, auto t) {
    using D = decltype(d); using T = decltype(t); Out o; matrix<D, fixed<4, 4>, row_basis, row_major> m;
    for(ZClip z : {z_clip_neg_one, z_clip_zero}) {
      matrix_perspective_xfov_LH(m, T(a[0]), T(a[1]), T(a[2]), T(a[3]), z); put_m(o, m);
      matrix_perspective_xfov_RH(m, T(a[0]), T(a[1]), T(a[2]), T(a[3]), z); put_m(o, m);
      matrix_perspective_yfov_LH(m, T(a[0]), T(a[1]), T(a[2]), T(a[3]), z); put_m(o, m);
      matrix_perspective_yfov_RH(m, T(a[0]), T(a[1]), T(a[2]), T(a[3]), z); put_m(o, m); }
    return o; });
} } r; }
