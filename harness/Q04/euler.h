// Euler angles in all twelve orders.
#pragma once
#include "../geo.h"

namespace q04 {
using namespace geo;

struct Order { euler_order order; const char* name; };
inline const std::vector<Order>& orders()
{
  static const std::vector<Order> o{{euler_order_xyz, "xyz"}, {euler_order_xyx, "xyx"}, {euler_order_xzy, "xzy"}, {euler_order_xzx, "xzx"},
    {euler_order_yzx, "yzx"}, {euler_order_yzy, "yzy"}, {euler_order_yxz, "yxz"}, {euler_order_yxy, "yxy"},
    {euler_order_zxy, "zxy"}, {euler_order_zxz, "zxz"}, {euler_order_zyx, "zyx"}, {euler_order_zyz, "zyz"}};
  return o;
}
inline vec axis_of(char c) { return {double(c == 'x'), double(c == 'y'), double(c == 'z')}; }
// d/da of the turn by a about axis u.
inline mat turn_derivative(const vec& u, double a)
{
  mat K(3, 3);
  K.d = {0, -u[2], u[1], u[2], 0, -u[0], -u[1], u[0], 0};
  return ref::mul(K, ref::rodrigues(u, a));
}
// The turn about the first named axis is applied first.
inline mat compose(const Order& o, const double a[3], int derive = -1)
{
  mat R = mat::identity(3);
  for(int i = 0; i < 3; ++i) {
    const vec u = axis_of(o.name[i]);
    R = ref::mul(i == derive ? turn_derivative(u, a[i]) : ref::rodrigues(u, a[i]), R);
  }
  return R;
}
inline double outer_angle()
{
  static const double a[] = {0, .5, -1, pi / 2, 2.5, pi, -pi / 2, 1e-5, -pi, 4};
  return a[mc::choose(mc::thorough() ? 10 : 8)];
}
inline double middle_angle()
{
  static const double a[] = {0, .7, -.7, pi / 2, -pi / 2, pi, 2.2, -2.2, pi / 2 - 1e-9, pi / 2 - 1e-6, pi / 2 - 1e-4, pi / 2 - 1e-2, -pi / 2 + 1e-4, -pi / 2 + 1e-7,
    pi / 2 + 1e-3, 1e-9, 1e-6, 1e-4, -1e-4, pi - 1e-4, pi - 1e-7, -pi + 1e-3, pi / 2 - 1e-14, 1e-14};
  return a[mc::choose(24)];
}

template<class Q, class M> void round_trip_n(int n)
{
  using E = value_type_trait_of_t<Q>;
  const double t = tol<E>();
  const Order& o = orders()[size_t(mc::choose(12))];
  const double a[3] = {outer_angle(), middle_angle(), outer_angle()};
  const mat R = compose(o, a), F = embed(R, n);
  auto where = [&](const char* s) { return std::string(s) + " " + o.name; };
  lin::Obj<M> m(n), m2(n);
  Q q, q2;
  vector<E, compiled<3>> ev;
  ev.set(E(a[0]), E(a[1]), E(a[2]));
  mc::step(4);
  matrix_rotation_euler(m.m, E(a[0]), E(a[1]), E(a[2]), o.order);
  const mat got = colmap(m.m);
  mc::state(ref::hash(got));
  MC_CHECK(ref::near(got, F, t), where("matrix"), a[0] << " " << a[1] << " " << a[2] << ": " << got << " not " << F);
  matrix_rotation_euler(m2.m, ev, o.order);
  MC_CHECK(ref::near(colmap(m2.m), F, t), where("matrix from vector"), ref::read(ev) << ": " << colmap(m2.m));
  quaternion_rotation_euler(q, E(a[0]), E(a[1]), E(a[2]), o.order);
  MC_CHECK(ref::near(rotation(rq::read(q)), R, t) && ref::near(rq::norm(rq::read(q)), 1, t), where("quaternion"), a[0] << " " << a[1] << " " << a[2] << ": " << rq::read(q));
  quaternion_rotation_euler(q2, ev, o.order);
  MC_CHECK(rq::near(rq::read(q2), rq::read(q), t), where("quaternion from vector"), ref::read(ev));

  // Extract and rebuild.
  auto back = [&](double x, double y, double z, const char* s) {
    const double b[3] = {x, y, z};
    const mat Rb = compose(o, b);
    mc::step();
    MC_CHECK(ref::near(Rb, R, t), where(s), a[0] << " " << a[1] << " " << a[2] << " comes back as " << x << " " << y << " " << z << ", another rotation");
  };
  E x, y, z;
  matrix_to_euler(m.m, x, y, z, o.order);
  back(x, y, z, "matrix_to_euler");
  const vector<E, compiled<3>> w = matrix_to_euler(m.m, o.order);
  back(w[0], w[1], w[2], "matrix_to_euler vector");
  const auto wd = matrix_to_euler<vector<double, dynamic<>>>(m.m, o.order);
  back(wd[0], wd[1], wd[2], "matrix_to_euler dynamic vector");
  quaternion_to_euler(q, x, y, z, o.order);
  back(x, y, z, "quaternion_to_euler");
  const vector<E, compiled<3>> wq = quaternion_to_euler(q, o.order);
  back(wq[0], wq[1], wq[2], "quaternion_to_euler vector");
  const auto wqd = quaternion_to_euler<vector<double, dynamic<>>>(-q, o.order);
  back(wqd[0], wqd[1], wqd[2], "quaternion_to_euler dynamic vector");
}
template<class Q, class M> void round_trip3() { round_trip_n<Q, M>(3); }
template<class Q, class M> void round_trip4() { round_trip_n<Q, M>(4); }

template<class E, class M> void derivatives_n(int n)
{
  const double t = tol<E>();
  const Order& o = orders()[size_t(mc::choose(12))];
  const bool repeat = o.name[0] == o.name[2];
  const int ax = mc::choose(5) - 1;
  double a[3] = {.3, .4, .5};
  if(!repeat && ax >= 0 && ax < 3) a[0] = outer_angle(), a[1] = middle_angle(), a[2] = outer_angle();
  const int form = mc::choose(2);
  lin::Obj<M> m(n);
  vector<E, compiled<3>> ev;
  ev.set(E(a[0]), E(a[1]), E(a[2]));
  mc::step();
  std::string got = "none";
  try {
    if(form == 0) matrix_rotation_euler_derivatives(m.m, ax, E(a[0]), E(a[1]), E(a[2]), o.order);
    else matrix_rotation_euler_derivatives(m.m, ax, ev, o.order);
  }
  catch(const std::invalid_argument&) { got = "invalid_argument"; }
  const std::string want = repeat || ax < 0 || ax > 2 ? "invalid_argument" : "none";
  MC_CHECK(got == want, std::string("rejects ") + o.name, "axis " << ax << ": " << got << " instead of " << want);
  if(want != "none") { mc::state(uint64_t(ax + 10)); return; }
  const mat D = compose(o, a, ax), have = part(colmap(m.m), 0, 0, 3, 3);
  mc::state(ref::hash(have));
  MC_CHECK(ref::near(have, D, t), std::string("derivative ") + o.name, "by angle " << ax << " at " << a[0] << " " << a[1] << " " << a[2] << ": " << have << " not " << D);
}
template<class E, class M> void derivatives3() { derivatives_n<E, M>(3); }
template<class E, class M> void derivatives4() { derivatives_n<E, M>(4); }

// Rotations that were not built from angles: every order extracts any rotation.
template<class Q, class M> void foreign()
{
  using E = value_type_trait_of_t<Q>;
  const vec u = choose_unit();
  const double ang = choose_angle();
  const mat R = ref::rodrigues(u, ang);
  M m;
  m.identity();
  setmap(m, embed(R, m.rows()));
  Q q;
  quaternion_rotation_axis_angle(q, v3<E>(u), E(ang));
  for(const Order& o : orders()) {
    mc::step(2);
    const auto w = matrix_to_euler(m, o.order);
    const double b[3] = {double(w[0]), double(w[1]), double(w[2])};
    const mat Rb = compose(o, b);
    mc::state(ref::hash(Rb));
    MC_CHECK(ref::near(Rb, R, tol<E>()), std::string("matrix ") + o.name, "turn " << ang << " about " << u << ": " << ref::read(w) << " gives " << Rb << " not " << R);
    const auto x = quaternion_to_euler(q, o.order);
    const double c[3] = {double(x[0]), double(x[1]), double(x[2])};
    MC_CHECK(ref::near(compose(o, c), R, tol<E>()), std::string("quaternion ") + o.name, "turn " << ang << " about " << u << ": " << ref::read(x));
  }
}

// Angles of other types, and an explicit tolerance.
template<class Q, class M> void mixed()
{
  using E = value_type_trait_of_t<Q>;
  const Order& o = orders()[size_t(mc::choose(12))];
  const double a[3] = {outer_angle(), middle_angle(), outer_angle()};
  const mat R = compose(o, a);
  M m;
  Q q;
  mc::step(4);
  matrix_rotation_euler(m, float(a[0]), double(a[1]), E(a[2]), o.order);
  MC_CHECK(ref::near(part(colmap(m), 0, 0, 3, 3), R, 2e-5), std::string("matrix ") + o.name, a[0] << " " << a[1] << " " << a[2]);
  quaternion_rotation_euler(q, E(a[0]), float(a[1]), double(a[2]), o.order);
  mc::state(rq::read(q).w * 1000 + ref::hash(R));
  MC_CHECK(ref::near(rotation(rq::read(q)), R, 2e-5), std::string("quaternion ") + o.name, a[0] << " " << a[1] << " " << a[2]);
  // Within the tolerance of a pole the answer may be off by the tolerance.
  static const double ts[] = {1e-3, .05};
  const double tl = ts[mc::choose(2)];
  float x;
  double y;
  E z;
  matrix_to_euler(m, x, y, z, o.order, E(tl));
  const double b[3] = {double(x), double(y), double(z)};
  const bool rep = o.name[0] == o.name[2];
  const double pole = std::fabs(rep ? std::sin(a[1]) : std::cos(a[1]));
  const double t = pole > tl * 1.01 ? 2e-5 : 2.5 * tl;
  MC_CHECK(ref::near(compose(o, b), R, t), std::string("tolerance ") + o.name, tl << " at " << a[0] << " " << a[1] << " " << a[2] << ": " << b[0] << " " << b[1] << " " << b[2]);
  const auto w = quaternion_to_euler(q, o.order, E(tl));
  const double c[3] = {double(w[0]), double(w[1]), double(w[2])};
  MC_CHECK(ref::near(compose(o, c), R, t), std::string("quaternion tolerance ") + o.name, tl << " at " << a[0] << " " << a[1] << " " << a[2]);
}
} // namespace q04
