// Quaternion, matrix and axis-angle forms of one rotation.
#pragma once
#include "../geo.h"

namespace q03 {
using namespace geo;

// One rotation carried along a chain of conversions.
template<class Q, class M> struct Carrier
{
  using EQ = value_type_trait_of_t<Q>;
  using EM = value_type_trait_of_t<M>;
  int form; // 0 quaternion, 1 matrix, 2 axis and angle
  Q q;
  lin::Obj<M> m;
  vector<EQ, compiled<3>> axis;
  EQ angle;
  Carrier(int n) : m(n) {}
  mat map() const
  {
    if(form == 0) return rotation(rq::read(q));
    if(form == 1) { const mat a = colmap(m.m); return part(a, 0, 0, 3, 3); }
    const vec u = ref::read(axis);
    return ref::len(u) == 0 ? mat::identity(3) : ref::rodrigues(ref::unit(u), double(angle));
  }
};
template<class Q, class M> void chain_n(int n)
{
  using EQ = value_type_trait_of_t<Q>;
  using EM = value_type_trait_of_t<M>;
  const double t = std::max(tol<EQ>(), tol<EM>());
  const vec u = choose_unit();
  const double a = choose_angle();
  const mat R = ref::rodrigues(u, a);
  Carrier<Q, M> c(n);
  c.form = mc::choose(3);
  const auto ax = v3<EQ>(u);
  if(c.form == 0) quaternion_rotation_axis_angle(c.q, ax, EQ(a));
  else if(c.form == 1) matrix_rotation_axis_angle(c.m.m, ax, EQ(a));
  else c.axis = ax, c.angle = EQ(a);
  const char* names[] = {"quaternion", "matrix", "axis-angle"};
  std::string path = names[c.form];
  const int depth = mc::thorough() ? 4 : 3;
  for(int k = 0;; ++k) {
    mc::step();
    const mat got = c.map();
    mc::state(mc::Hash()(c.form).raw(ref::hash(got)));
    MC_CHECK(ref::near(got, R, t), "rotation", path << " of turn " << a << " about " << u << " is " << got << ", not " << R);
    if(c.form == 0) MC_CHECK(ref::near(rq::norm(rq::read(c.q)), 1, t), "unit", path << ": |q|^2 of turn " << a << " about " << u);
    if(c.form == 1 && n == 4) {
      const mat f = colmap(c.m.m);
      MC_CHECK(ref::near(f, embed(got, 4), 0), "rest of the 4x4", path << " of turn " << a << " about " << u << ": " << f);
    }
    if(c.form == 2 && k > 0) {
      const double l = ref::len(ref::read(c.axis));
      MC_CHECK(ref::near(l, 1, t) || (l == 0 && c.angle == 0), "axis", path << " axis " << ref::read(c.axis) << " angle " << c.angle);
      MC_CHECK(c.angle >= 0 && c.angle <= 2 * pi + t, "angle range", path << " angle " << c.angle);
    }
    if(k == depth) break;
    // To any other form; to axis-angle by either interface.
    int to = mc::choose(2);
    to = to == 0 ? (c.form + 1) % 3 : (c.form + 2) % 3;
    if(c.form == 2) {
      if(to == 0) quaternion_rotation_axis_angle(c.q, c.axis, c.angle);
      else matrix_rotation_axis_angle(c.m.m, c.axis, c.angle);
    }
    else if(to == 2) {
      const int how = mc::choose(3);
      const EQ tight = std::numeric_limits<EQ>::epsilon();
      if(c.form == 0) {
        if(how == 0) quaternion_to_axis_angle(c.q, c.axis, c.angle);
        else if(how == 1) quaternion_to_axis_angle(c.q, c.axis, c.angle, tight);
        else std::tie(c.axis, c.angle) = quaternion_to_axis_angle(c.q);
      }
      else if(how == 0) matrix_to_axis_angle(c.m.m, c.axis, c.angle);
      else if(how == 1) matrix_to_axis_angle(c.m.m, c.axis, c.angle, tight);
      else { const auto r = matrix_to_axis_angle(c.m.m); c.axis = std::get<0>(r), c.angle = EQ(std::get<1>(r)); }
    }
    else if(to == 0) quaternion_rotation_matrix(c.q, c.m.m);
    else matrix_rotation_quaternion(c.m.m, c.q);
    c.form = to;
    path += std::string(" > ") + names[to];
    MC_TRACE(path);
  }
}
template<class Q, class M> void chain3() { chain_n<Q, M>(3); }
template<class Q, class M> void chain4() { chain_n<Q, M>(4); }

// Composition, inversion and action on vectors agree in every form.
template<class Q, class M> void pairs()
{
  using E = value_type_trait_of_t<Q>;
  using V = vector<E, compiled<3>>;
  const double t = 3 * tol<E>();
  vec u[2];
  double a[2];
  const auto& dirs = directions();
  static const double as[] = {0, .5, -2, pi / 2, pi, 4};
  mat R[2];
  Q q[2];
  M m[2];
  for(int i = 0; i < 2; ++i) {
    u[i] = ref::unit(i || mc::thorough() ? choose_dir() : dirs[size_t(13 + mc::choose(int(dirs.size()) - 13))]);
    a[i] = as[mc::choose(6)];
    R[i] = ref::rodrigues(u[i], a[i]);
    quaternion_rotation_axis_angle(q[i], v3<E>(u[i]), E(a[i]));
    matrix_rotation_axis_angle(m[i], v3<E>(u[i]), E(a[i]));
  }
  const mat want = ref::mul(R[0], R[1]); // R[1] first
  mc::step(6);
  mc::state(ref::hash(want));
  // In the positive product q0*q1 applies q1 first; the negative one reverses.
  const Q qc = rq::positive<Q>() ? Q(q[0] * q[1]) : Q(q[1] * q[0]);
  MC_CHECK(ref::near(rotation(rq::read(qc)), want, t), "quaternion composition", u[0] << " " << a[0] << " after " << u[1] << " " << a[1]);
  const M mm = is_row<M>() ? M(m[1] * m[0]) : M(m[0] * m[1]);
  MC_CHECK(ref::near(part(colmap(mm), 0, 0, 3, 3), want, t), "matrix composition", u[0] << " " << a[0] << " after " << u[1] << " " << a[1]);
  M mq;
  matrix_rotation_quaternion(mq, qc);
  MC_CHECK(ref::near(colmap(mq), colmap(mm), t), "composition in two forms", u[0] << " " << a[0] << " after " << u[1] << " " << a[1]);
  // From the expressions themselves.
  Q back;
  if(is_row<M>()) quaternion_rotation_matrix(back, m[1] * m[0]); else quaternion_rotation_matrix(back, m[0] * m[1]);
  MC_CHECK(ref::near(rotation(rq::read(back)), want, t), "from a product expression", u[0] << " " << a[0] << " after " << u[1] << " " << a[1]);
  if(rq::positive<Q>()) matrix_rotation_quaternion(mq, q[0] * q[1]); else matrix_rotation_quaternion(mq, q[1] * q[0]);
  MC_CHECK(ref::near(part(colmap(mq), 0, 0, 3, 3), want, t), "from a quaternion product expression", u[0] << " " << a[0]);

  // Inversion.
  const mat Rt = ref::transpose(R[0]);
  MC_CHECK(ref::near(rotation(rq::read(cml::inverse(q[0]))), Rt, t), "inverse(q)", u[0] << " " << a[0]);
  MC_CHECK(ref::near(rotation(rq::read(cml::conjugate(q[0]))), Rt, t), "conjugate(q)", u[0] << " " << a[0]);
  MC_CHECK(ref::near(part(colmap(M(cml::inverse(m[0]))), 0, 0, 3, 3), Rt, t), "inverse(m)", u[0] << " " << a[0]);
  MC_CHECK(ref::near(part(colmap(M(cml::transpose(m[0]))), 0, 0, 3, 3), Rt, t), "transpose(m)", u[0] << " " << a[0]);
  matrix_rotation_quaternion(mq, cml::inverse(q[0]));
  MC_CHECK(ref::near(part(colmap(mq), 0, 0, 3, 3), Rt, t), "matrix of inverse(q)", u[0] << " " << a[0]);
  Q neg;
  matrix_rotation_axis_angle(mq, v3<E>(u[0]), E(-a[0]));
  quaternion_rotation_matrix(neg, mq);
  MC_CHECK(ref::near(rotation(rq::read(neg)), Rt, t), "turn by the negated angle", u[0] << " " << a[0]);
  matrix_rotation_quaternion(mq, -q[0]);
  MC_CHECK(ref::near(part(colmap(mq), 0, 0, 3, 3), R[0], t), "negated quaternion", u[0] << " " << a[0]);

  // Rotating a vector (u[1] scaled and unscaled as the vector).
  const vec v = ref::scale(u[1], a[1] + 1), Rv = ref::mul(R[0], v);
  const V lv = v3<E>(v);
  const V rv = rotate_vector(lv, v3<E>(u[0]), E(a[0]));
  MC_CHECK(ref::near(ref::read(rv), Rv, 10 * t), "rotate_vector", v << " about " << u[0] << " by " << a[0] << " gives " << ref::read(rv) << " not " << Rv);
  const Q p(lv, E(0));
  const Q qp = rq::positive<Q>() ? Q(q[0] * p * cml::conjugate(q[0])) : Q(cml::conjugate(q[0]) * p * q[0]);
  MC_CHECK(ref::near(ref::read(qp.imaginary()), Rv, 10 * t) && ref::near(double(qp.real()), 0, 10 * t), "sandwich", v << " about " << u[0] << " by " << a[0]);
  M m0 = m[0];
  const V tv = transform_vector(m0, lv);
  MC_CHECK(ref::near(ref::read(tv), Rv, 10 * t), "transform_vector", v << " about " << u[0] << " by " << a[0]);
}

// World-axis builders.
template<class Q> void world()
{
  using E = value_type_trait_of_t<Q>;
  const int ax = mc::choose(5) - 1;
  const double a = choose_angle();
  Q q = rq::make<Q>({.1, .2, .3, .4}), q2 = q;
  mc::step(2);
  if(ax < 0 || ax > 2) {
    bool threw = false;
    try { quaternion_rotation_world_axis(q, ax, E(a)); } catch(const std::invalid_argument&) { threw = true; }
    MC_CHECK(threw, "invalid axis", "axis " << ax << " not rejected");
    MC_CHECK(rq::same(rq::read(q), rq::read(q2)), "invalid axis keeps the quaternion", "axis " << ax);
    return;
  }
  quaternion_rotation_world_axis(q, ax, E(a));
  const mat R = ref::rodrigues({double(ax == 0), double(ax == 1), double(ax == 2)}, a);
  mc::state(ref::hash(R));
  MC_CHECK(ref::near(rotation(rq::read(q)), R, tol<E>()), "world axis", "axis " << ax << " by " << a << ": " << rq::read(q));
  if(ax == 0) quaternion_rotation_world_x(q2, E(a)); else if(ax == 1) quaternion_rotation_world_y(q2, E(a)); else quaternion_rotation_world_z(q2, E(a));
  MC_CHECK(rq::near(rq::read(q), rq::read(q2), tol<E>()), "named world axis", "axis " << ax << " by " << a << ": " << rq::read(q2));
}

// The tolerance decides only which rotations count as none.
template<class Q, class M> void tolerance()
{
  using E = value_type_trait_of_t<Q>;
  const vec u = choose_unit();
  static const double as[] = {1e-3, .02, .05, .5, 2, pi - .02, pi - 1e-3, pi};
  const double a = as[mc::choose(8)];
  static const double ts[] = {1e-2, .2};
  const double tl = ts[mc::choose(2)];
  Q q;
  M m;
  quaternion_rotation_axis_angle(q, v3<E>(u), E(a));
  matrix_rotation_axis_angle(m, v3<E>(u), E(a));
  vector<E, compiled<3>> ax;
  E an;
  mc::step(4);
  auto check = [&](double measure, const char* what) {
    mc::state(mc::Hash()(double(an))(double(ax[0])));
    if(measure < tl * .9 && a < 1) MC_CHECK(ref::len(ref::read(ax)) == 0 && an == 0, std::string("no rotation ") + what, a << " tolerance " << tl << ": " << ref::read(ax) << " " << an);
    else if(measure > tl * 1.1 && a < 2.5) MC_CHECK(ref::near(ref::read(ax), u, 1e-4) && ref::near(an, a, 1e-4), std::string("rotation ") + what, u << " " << a << " tolerance " << tl << ": " << ref::read(ax) << " " << an);
    else if(a > 2.5) {
      // A near-half turn may be rounded to the half turn, within the tolerance.
      const mat got = ref::rodrigues(ref::unit(ref::read(ax)), double(an));
      MC_CHECK(ref::near(got, ref::rodrigues(u, a), tl), std::string("near half turn ") + what, u << " " << a << " tolerance " << tl << ": " << ref::read(ax) << " " << an);
    }
  };
  quaternion_to_axis_angle(q, ax, an, E(tl));
  check(std::fabs(std::sin(a / 2)), "quaternion");
  std::tie(ax, an) = quaternion_to_axis_angle(q, E(tl));
  check(std::fabs(std::sin(a / 2)), "quaternion tuple");
  matrix_to_axis_angle(m, ax, an, E(tl));
  check(2 * std::fabs(std::sin(a)), "matrix");
  std::tie(ax, an) = matrix_to_axis_angle(m, E(tl));
  check(2 * std::fabs(std::sin(a)), "matrix tuple");
}
} // namespace q03
