// Projections and their view volumes.
#pragma once
#include "geo.h"

namespace proj {
using namespace geo;

struct Volume
{
  double l, r, b, t, n, f;
  bool persp, right;
  bool zero; // depth convention 0..1
};
inline std::ostream& operator<<(std::ostream& os, const Volume& v)
{
  return os << (v.persp ? "perspective " : "orthographic ") << (v.right ? "RH " : "LH ") << (v.zero ? "0..1 " : "-1..1 ") << "[" << v.l << "," << v.r << "]x[" << v.b << "," << v.t << "] near " << v.n << " far " << v.f;
}
// The point of the view volume with clip coordinates (x,y in -1..1) at depth
// fraction d (0 near, 1 far), d linear in the distance.
inline vec at(const Volume& v, double x, double y, double d)
{
  const double z = v.n + d * (v.f - v.n), s = v.persp ? z / v.n : 1;
  const double X = (v.l + v.r) / 2 + x * (v.r - v.l) / 2, Y = (v.b + v.t) / 2 + y * (v.t - v.b) / 2;
  return {s * X, s * Y, v.right ? -z : z};
}
// Clip depth of a point at depth fraction d.
inline double clip_depth(const Volume& v, double d)
{
  double u = d;
  if(v.persp) {
    const double z = v.n + d * (v.f - v.n);
    u = v.f * (z - v.n) / (z * (v.f - v.n));
  }
  return v.zero ? u : 2 * u - 1;
}
inline Volume choose_volume(bool persp, bool right, bool zero)
{
  static const double w[][2] = {{-1, 1}, {-2, 3}, {1, 4}, {-5, -.5}, {0, 1}, {-320, 320}};
  static const double nf[][2] = {{1, 10}, {.5, 2}, {.1, 1000}, {3, 4}, {10, 1}};
  static const double onf[][2] = {{1, 10}, {0, 1}, {-5, 5}, {-1, -9}, {.1, 1000}};
  Volume v;
  v.persp = persp, v.right = right, v.zero = zero;
  const int i = mc::choose(6), j = mc::choose(6), k = mc::choose(5);
  v.l = w[i][0], v.r = w[i][1], v.b = w[j][0] * 1.5, v.t = w[j][1] * 1.5;
  v.n = persp ? nf[k][0] : onf[k][0], v.f = persp ? nf[k][1] : onf[k][1];
  return v;
}
template<class M, class E> void build(M& m, const Volume& v)
{
  const auto h = v.right ? right_handed : left_handed;
  const auto z = v.zero ? z_clip_zero : z_clip_neg_one;
  if(v.persp) matrix_perspective(m, E(v.l), E(v.r), E(v.b), E(v.t), E(v.n), E(v.f), h, z);
  else matrix_orthographic(m, E(v.l), E(v.r), E(v.b), E(v.t), E(v.n), E(v.f), h, z);
}
// How much the inputs' rounding is magnified.
inline double condition(const Volume& v)
{
  auto q = [](double a, double b) { return (std::fabs(a) + std::fabs(b)) / std::fabs(b - a); };
  return (1 + q(v.l, v.r) + q(v.b, v.t) + q(v.n, v.f)) * (v.persp ? std::max(v.n, v.f) / std::min(v.n, v.f) : 1);
}
} // namespace proj
