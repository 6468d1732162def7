// Rotations and maps as plain column-acting matrices, and grids of them.
#pragma once
#include "all.h"
#include "ref.h"
#include "linalg.h"
#include "quat.h"

namespace geo {
using namespace cml;
using ref::vec;
using ref::mat;
using ref::operator<<;

constexpr double pi = 3.14159265358979323846;
template<class E> constexpr double tol() { return sizeof(E) == 4 ? 2e-5 : 1e-11; }
template<class M> constexpr bool is_row() { return std::is_same<basis_tag_trait_of_t<M>, row_basis>::value; }

// The map a matrix stands for, acting on column vectors.
template<class M> mat colmap(const M& m)
{
  const mat o = ref::readm(m);
  return is_row<M>() ? ref::transpose(o) : o;
}
inline mat part(const mat& a, int r0, int c0, int r, int c)
{
  mat o(r, c);
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) o(i, j) = a(r0 + i, c0 + j);
  return o;
}
// R in the upper left corner of an n x n identity.
inline mat embed(const mat& R, int n)
{
  mat o = mat::identity(n);
  for(int i = 0; i < R.r; ++i) for(int j = 0; j < R.c; ++j) o(i, j) = R(i, j);
  return o;
}
// Set m to the map a (column-acting).
template<class M> void setmap(M& m, const mat& a) { lin::put(m, is_row<M>() ? ref::transpose(a) : a); }

// The 26 neighbours of the origin and some asymmetric directions (not unit).
inline const std::vector<vec>& directions()
{
  static const std::vector<vec> d = [] {
    std::vector<vec> o;
    for(int x = -1; x < 2; ++x) for(int y = -1; y < 2; ++y) for(int z = -1; z < 2; ++z) if(x || y || z) o.push_back({double(x), double(y), double(z)});
    for(const vec& v : {vec{1, 2, 3}, vec{-2, 1, .5}, vec{3, -1, -2}, vec{1, 2, 1}, vec{-1, -2, 1}, vec{.1, 2, -.3}}) o.push_back(v);
    return o;
  }();
  return d;
}
inline vec choose_dir() { return directions()[size_t(mc::choose(int(directions().size())))]; }
inline vec choose_unit() { return ref::unit(choose_dir()); }

inline const std::vector<double>& angles()
{
  static const std::vector<double> a = [] {
    std::vector<double> o{0, 1e-9, 1e-4, .5, pi / 2, 2, 2 * pi / 3, 3, pi - 1e-2, pi - 1e-4, pi - 1e-6, pi - 1e-9, pi};
    const size_t n = o.size();
    for(size_t i = 1; i < n; ++i) o.push_back(-o[i]);
    for(double x : {pi + 1e-6, pi + .5, 4., 5., 2 * pi - 1e-6, 2 * pi, 7., -2 * pi + 1e-4}) o.push_back(x);
    return o;
  }();
  return a;
}
inline double choose_angle() { return angles()[size_t(mc::choose(int(angles().size())))]; }

template<class E> vector<E, compiled<3>> v3(const vec& v) { vector<E, compiled<3>> o; o.set(E(v[0]), E(v[1]), E(v[2])); return o; }
template<class E> vector<E, compiled<2>> v2(const vec& v) { vector<E, compiled<2>> o; o.set(E(v[0]), E(v[1])); return o; }

// Active rotation of column vectors by the quaternion a Hamiltonian (w,x,y,z) stands for.
inline mat rotation(const rq::Q& q)
{
  const double n = rq::norm(q);
  mat m(3, 3);
  for(int j = 0; j < 3; ++j) {
    rq::Q p{0, double(j == 0), double(j == 1), double(j == 2)};
    p = (1 / n) * rq::hamilton(rq::hamilton(q, p), rq::conj(q));
    for(int i = 0; i < 3; ++i) m(i, j) = p[i + 1];
  }
  return m;
}
inline bool rigid(const mat& a, double t)
{
  return ref::near(ref::mul(ref::transpose(a), a), mat::identity(a.r), t) && ref::near(ref::det(a), 1, t);
}
} // namespace geo
