#include "args.h"
// Functions whose result type follows from the operands: with one operand in
// floating point, the others may be of any type. The operand of the
// destination's type holds fractions, which no intermediate may lose.
namespace { using namespace g14;
template<class D, class A> constexpr bool real() { return std::is_floating_point<D>::value || std::is_floating_point<A>::value; }
struct R { R() {
  const List six = grid(6, {-2, 0, 1, 3}, [](const Args& a) { return (a[0] || a[1] || a[2]) && (a[3] || a[4] || a[5]); });
  auto two = [](const Args& a, auto d, auto t) { // the first operand is of the destination's type
    using D = decltype(d); using T = decltype(t); Out o;
    vector<D, fixed<3>> x = v3<D>(a, 0) * D(.375); auto y = v3<T>(a, 3);
    o.push_back(dot(x, y)); o.push_back(dot(y, x)); put_v(o, vector<D, fixed<3>>(cross(x, y))); put_v(o, vector<D, fixed<3>>(cross(y, x)));
    put_v(o, project_to_vector(x, y)); put_v(o, project_to_vector(y, x));
    put_v(o, project_to_hplane(x, y)); put_v(o, project_to_hplane(y, x));
    o.push_back(manhattan_distance(x, y)); o.push_back(manhattan_distance(y, x));
    o.push_back(unsigned_angle(x, y)); o.push_back(unsigned_angle(y, x));
    vector<D, fixed<2>> p = v2<D>(a, 0) * D(.375); auto r = v2<T>(a, 3);
    o.push_back(perp_dot(p, r)); o.push_back(perp_dot(r, p));
    o.push_back(unsigned_angle_2D(p, r)); o.push_back(unsigned_angle_2D(r, p));
    o.push_back(signed_angle_2D(p, r)); o.push_back(signed_angle_2D(r, p));
    put_v(o, rotate_vector(x, y, D(1))); put_v(o, rotate_vector(y, x, D(1)));
    put_v(o, rotate_vector(x, y, T(1))); put_v(o, rotate_vector(y, x, T(2)));
    put_v(o, vector<D, fixed<3>>(x + y)); put_v(o, vector<D, fixed<3>>(y - x));
    put_v(o, vector<D, fixed<3>>(hadamard(x, y))); put_m(o, matrix<D, fixed<3, 3>>(outer(x, y)));
    put_v(o, vector<D, fixed<3>>(x * T(a[3]))); put_v(o, vector<D, fixed<3>>(y * x[0]));
    if(a[4]) put_v(o, vector<D, fixed<3>>(x / T(a[4])));
    if(a[1]) put_v(o, vector<D, fixed<3>>(y / x[1]));
    return o; };
  signed1<float>("two vectors", six, two); signed1<double>("two vectors", six, two);
  const List nine = grid(9, {-1, 0, 2}, [](const Args& a) {
    int k = 0; for(int v : a) k += v != 0;
    return k >= 6 && (a[0] || a[1] || a[2]) && (a[3] || a[4] || a[5]) && (a[6] || a[7] || a[8]); });
  pairs("three vectors", nine, [](const Args& a, auto d, auto t, auto u) {
    using D = decltype(d); using T = decltype(t); using U = decltype(u); Out o;
    vector<D, fixed<3>> x = v3<D>(a, 0) * D(.375); auto y = v3<T>(a, 3); auto z = v3<U>(a, 6);
    o.push_back(triple_product(x, y, z)); o.push_back(triple_product(y, z, x)); o.push_back(triple_product(z, x, y));
    o.push_back(signed_angle(x, y, z)); o.push_back(signed_angle(y, x, z)); o.push_back(signed_angle(y, z, x)); o.push_back(signed_angle(z, y, x));
    return o; });
  pairs("vector through a matrix", nine, [](const Args& a, auto d, auto t, auto u) {
    using D = decltype(d); using T = decltype(t); using U = decltype(u); Out o;
    matrix<T, fixed<4, 4>> m; m.identity();
    m.set_basis_element(0, 0, T(a[0])); m.set_basis_element(1, 1, T(a[1])); m.set_basis_element(0, 1, T(a[2]));
    m.set_basis_element(3, 0, T(a[3])); m.set_basis_element(3, 1, T(a[4])); m.set_basis_element(3, 2, T(a[5]));
    matrix<D, fixed<4, 4>> k; k.identity(); k.set_basis_element(2, 1, D(a[3]));
    auto v = v3<U>(a, 6); vector<D, fixed<3>> x = v3<D>(a, 6) * D(.375);
    put_v(o, vector<D, fixed<3>>(transform_vector(m, x))); put_v(o, vector<D, fixed<3>>(transform_point(m, x)));
    put_v(o, vector<D, fixed<3>>(transform_vector(k, v))); put_v(o, vector<D, fixed<3>>(transform_point(k, v)));
    k.set_basis_element(2, 1, D(a[3]) + D(.625)); // (a transformed vector has the vector's type)
    put_m(o, matrix<D, fixed<4, 4>>(k * m)); put_m(o, matrix<D, fixed<4, 4>>(m + k)); put_m(o, matrix<D, fixed<4, 4>>(m * U(a[6])));
    return o; });
  pairs("quaternions", grid(8, {-1, 0, 2}, [](const Args& a) { return a[0] && a[5] && a[7]; }), [](const Args& a, auto d, auto t, auto u) {
    using D = decltype(d); using T = decltype(t); using U = decltype(u); Out o;
    auto p = q4<T>(a, 0); auto q = q4<U>(a, 4); quaternion<D> k = q4<D>(a, 4) * D(.375);
    put_q(o, quaternion<D>(p * q)); put_q(o, quaternion<D>(p + k)); put_q(o, quaternion<D>(k * p)); put_q(o, quaternion<D>(k - q));
    o.push_back(dot(p, k)); put_q(o, quaternion<D>(k * U(a[0]))); put_q(o, quaternion<D>(k / T(a[0])));
    put_q(o, quaternion<D>(conjugate(q) * k)); put_q(o, quaternion<D>(inverse(k) * p));
    return o; });
} } r; }
