// Orthonormal frames along given directions.
#pragma once
#include "../geo.h"

namespace g02 {
using namespace geo;

struct Order { axis_order order; const char* name; int i, j; };
inline const Order& choose_order()
{
  static const Order o[] = {{axis_order_xyz, "xyz", 0, 1}, {axis_order_xzy, "xzy", 0, 2}, {axis_order_yzx, "yzx", 1, 2},
    {axis_order_yxz, "yxz", 1, 0}, {axis_order_zxy, "zxy", 2, 0}, {axis_order_zyx, "zyx", 2, 1}};
  return o[mc::choose(6)];
}
inline const std::vector<vec>& dirs()
{
  static const std::vector<vec> d = [] {
    std::vector<vec> o = directions();
    o.push_back({0, 1e-3, 1}), o.push_back({1, 1.001, 1}), o.push_back({2, 0, -1});
    return o;
  }();
  return d;
}
inline vec dir() { return dirs()[size_t(mc::choose(int(dirs().size())))]; }
// Axis i along `align`, axis j in the plane of align and reference and toward
// the reference, determinant +1; columns are the axes.
inline bool frame_ok(const mat& R, const Order& o, const vec& align, const vec& reference, double t, std::string& why)
{
  std::ostringstream os;
  os.precision(17);
  const vec a = ref::unit(align), r = ref::unit(reference), n = ref::unit(ref::cross(a, r));
  vec ax[3];
  for(int i = 0; i < 3; ++i) for(int k = 0; k < 3; ++k) ax[i].push_back(R(k, i));
  if(!rigid(R, t)) os << "not a rotation; ";
  if(!ref::near(ax[o.i], a, t)) os << "axis " << o.i << " not along " << a << "; ";
  if(!(ref::dot(ax[o.j], r) > 0)) os << "axis " << o.j << " not toward " << r << "; ";
  if(std::fabs(ref::dot(ax[o.j], n)) > t) os << "axis " << o.j << " not in the plane of " << a << " and " << r << "; ";
  why = os.str();
  if(!why.empty()) { os << R; why = os.str(); }
  return why.empty();
}
template<class A, class B> mat columns(const A& x, const A& y, const B& z)
{
  const vec c[3] = {ref::read(x), ref::read(y), ref::read(z)};
  mat R(3, 3);
  for(int i = 0; i < 3; ++i) for(int k = 0; k < 3; ++k) R(k, i) = c[i].size() == 3 ? c[i][size_t(k)] : NAN;
  return R;
}
inline double condition(const vec& a, const vec& b) { return 1 / ref::len(ref::cross(ref::unit(a), ref::unit(b))); }
template<class E> vec stored(const vec& v) { vec o; for(double d : v) o.push_back(double(E(d))); return o; }

// Matrix, quaternion and vector forms for every pair of directions.
template<class Q, class M> void frames_n(int n)
{
  using E = value_type_trait_of_t<Q>;
  using V = vector<E, compiled<3>>;
  const vec a0 = stored<E>(dir()), r = stored<E>(dir());
  if(ref::len(ref::cross(a0, r)) < 1e-9) { mc::state(1); return; }
  const Order& o = choose_order();
  const bool norm = mc::choose(2);
  vec a = a0;
  if(!norm) a = ref::unit(a); // already a unit vector
  const double t = 4 * tol<E>() * condition(a, r);
  const V al = v3<E>(a), rl = v3<E>(r);
  std::string why;
  mc::step(5);
  V x, y, z;
  orthonormal_basis(al, rl, x, y, z, norm, o.order);
  const mat R = columns(x, y, z);
  mc::state(ref::hash(R));
  auto where = [&](const char* s) { return std::string(s) + " " + o.name; };
  MC_CHECK(frame_ok(R, o, a, r, t, why), where("orthonormal_basis"), a << " toward " << r << ": " << why);
  lin::Obj<M> m(n);
  matrix_rotation_align(m.m, al, rl, norm, o.order);
  MC_CHECK(ref::near(colmap(m.m), embed(R, n), t), where("matrix_rotation_align"), a << " toward " << r << ": " << colmap(m.m) << " not " << R);
  Q q;
  quaternion_rotation_align(q, al, rl, norm, o.order);
  MC_CHECK(ref::near(rotation(rq::read(q)), R, 4 * t), where("quaternion_rotation_align"), a << " toward " << r << ": " << rq::read(q) << " not " << R);
  const V pos = v3<E>({4, -2, 1});
  const V target = pos + al;
  const vec d = ref::read(V(target - pos));
  matrix_rotation_aim_at(m.m, pos, target, rl, o.order);
  MC_CHECK(frame_ok(part(colmap(m.m), 0, 0, 3, 3), o, d, r, t, why), where("matrix_rotation_aim_at"), a << " toward " << r << ": " << why);
  MC_CHECK(ref::near(colmap(m.m), embed(part(colmap(m.m), 0, 0, 3, 3), n), 0), where("rest of the matrix"), colmap(m.m));
  quaternion_rotation_aim_at(q, pos, target, rl, o.order);
  MC_CHECK(frame_ok(rotation(rq::read(q)), o, d, r, 4 * t, why), where("quaternion_rotation_aim_at"), a << " toward " << r << ": " << why);
  if(norm && o.order == axis_order_zyx) {
    // The defaults.
    V x2, y2, z2;
    orthonormal_basis(al, rl, x2, y2, z2);
    MC_CHECK(ref::near(columns(x2, y2, z2), R, t), "orthonormal_basis defaults", a << " toward " << r);
    matrix_rotation_align(m.m, al, rl);
    MC_CHECK(ref::near(part(colmap(m.m), 0, 0, 3, 3), R, t), "matrix_rotation_align defaults", a << " toward " << r);
    quaternion_rotation_align(q, al, rl);
    MC_CHECK(ref::near(rotation(rq::read(q)), R, 4 * t), "quaternion_rotation_align defaults", a << " toward " << r);
    matrix_rotation_aim_at(m.m, pos, target, rl);
    MC_CHECK(frame_ok(part(colmap(m.m), 0, 0, 3, 3), o, d, r, t, why), "matrix_rotation_aim_at defaults", a << " toward " << r << ": " << why);
    quaternion_rotation_aim_at(q, pos, target, rl);
    MC_CHECK(frame_ok(rotation(rq::read(q)), o, d, r, 4 * t, why), "quaternion_rotation_aim_at defaults", a << " toward " << r << ": " << why);
  }
}
template<class Q, class M> void frames3() { frames_n<Q, M>(3); }
template<class Q, class M> void frames4() { frames_n<Q, M>(4); }
} // namespace g02
