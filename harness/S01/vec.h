#include "inputs.h"
#include <cml/util/vector_hash.h>
namespace {
using namespace cml;
using sx::own; using sx::put; using sx::text;

template<class K> void vec_ops()
{
  OP("copy", auto v = own(x.a3); put(o, v));
  OP("assign", auto v = own(x.a3); v = x.b3; put(o, v));
  OP("assign_expr", auto v = own(x.a3); v = x.b3 + x.c3 * 2.; put(o, v));
  OP("assign_list", auto v = own(x.a3); v = {1., 2., 3.}; put(o, v));
  OP("set", auto v = own(x.a3); v.set(x.x, x.y, x.z); put(o, v));
  OP("put", auto v = own(x.a4); v.put(2, 5.); put(o, v); o(v[2]));
  OP("ctor_concat", vector<double, compiled<4>> v(x.a3, 7.); put(o, v));
  OP("ctor_concat_dynamic", vector<double, dynamic<>> v(x.a3, 7., 8.); put(o, v));
  OP("ctor_pointer", double b[3] = {1, 2, 3}; vector<double, compiled<3>> v(&b[0]); put(o, v));
  OP("add", auto v = own(x.a3 + x.b3); put(o, v));
  OP("sub", auto v = own(x.a3 - x.b3); put(o, v));
  OP("neg", put(o, -x.a3); put(o, +x.a3));
  OP("scale", put(o, x.a3 * 3.); put(o, 3. * x.a3); put(o, x.a3 / 3.));
  OP("deep_expr", put(o, ((x.a3 + x.b3) * 2. - x.c3 / 3.) * dot(x.a3, x.b3) - cross(x.a3, x.b3)));
  OP("add_assign", auto v = own(x.a4); v += x.b4; put(o, v));
  OP("sub_assign", auto v = own(x.a4); v -= x.b4; put(o, v));
  OP("scale_assign", auto v = own(x.a4); v *= 2.; v /= 3.; put(o, v));
  OP("dot", o(dot(x.a2, x.b2)); o(dot(x.a3, x.b3)); o(dot(x.a4, x.b4)));
  OP("cross", put(o, cross(x.a3, x.b3)));
  OP("cross_own", auto v = own(cross(x.a3, x.b3)); put(o, v));
  OP("perp_dot", o(perp_dot(x.a2, x.b2)));
  OP("triple", o(triple_product(x.a3, x.b3, x.c3)));
  OP("outer", put(o, outer(x.a3, x.b3)));
  OP("outer_rect", put(o, outer(x.a2, x.b4)));
  OP("hadamard", put(o, hadamard(x.a3, x.b3)));
  OP("length", o(length(x.a3)); o(length_squared(x.a3)); o(x.a4.length()); o(x.a4.length_squared()));
  OP("normalize", put(o, normalize(x.a3)); put(o, x.a4.normalize()));
  OP("normalize_own", auto v = own(x.a3); v.normalize(); put(o, v));
  OP("zero", auto v = own(x.a3); v.zero(); put(o, v));
  OP("cardinal", auto v = own(x.a3); v.cardinal(1); put(o, v));
  OP("minimize", auto v = own(x.a3); v.minimize(x.b3); put(o, v));
  OP("maximize", auto v = own(x.a3); v.maximize(x.b3); put(o, v));
  OP("subvector", put(o, subvector(x.a4, 1)); put(o, x.a3.subvector(0)));
  OP("compare", o(x.a3 < x.b3); o(x.a3 <= x.b3); o(x.a3 > x.b3); o(x.a3 >= x.b3); o(x.a3 == x.b3); o(x.a3 != x.b3); o(x.a3 == x.a3));
  OP("read", for(int i = 0; i < 4; ++i) { o(x.a4[i]); o(x.a4.get(i)); } o(x.a4.size()); o(*(x.a4.begin() + 1)); o(x.a4.data()[2]));
  OP("print", put(o, text(x.a3)); put(o, text(x.a4)));
  OP("print_expr", put(o, text(x.a3 + x.b3)));
  OP("hash", std::hash<vector<double, compiled<3>>> h; vector<double, compiled<3>> v(x.a3); const size_t k = h(v); o(double(k >> 32)); o(double(uint32_t(k))));
  OP("unpack_mixed", vector<float, compiled<3>> v(x.a3); put(o, v); put(o, v + x.a3));
  OP("dynamic_growth", vector<double, dynamic<>> v; v.resize(2); v[0] = x.x; v[1] = x.y; v = x.a4; put(o, v); v.resize(1); o(v.size()));
  OP("dynamic_move", vector<double, dynamic<>> v(x.a4); vector<double, dynamic<>> w(std::move(v)); put(o, w); v = x.a3; put(o, v));
  OP("external_write", double b[3] = {0, 0, 0}; vector<double, external<3>> v(b); v = x.a3 + x.b3; o(b[0]); o(b[1]); o(b[2]));
  OP("size_error", vector<double, dynamic<>> v(x.a4); vector<double, dynamic<>> w(x.a2); o(dot(v, w)));
  OP("size_error_add", vector<double, dynamic<>> v(x.a4); vector<double, dynamic<>> w(x.a2); v += w; put(o, v));
  OPR("random", auto v = own(x.a3); v.random(0., 1.); o(v.size()));

  OP("signed_angle", o(signed_angle(x.a3, x.b3, x.c3)));
  OP("unsigned_angle", o(unsigned_angle(x.a3, x.b3)); o(unsigned_angle_2D(x.a2, x.b2)));
  OP("project", put(o, project_to_vector(x.a3, x.b3)); put(o, project_to_hplane(x.a3, normalize(x.b3))));
  OP("perp", put(o, perp(x.a2)));
  OP("manhattan", o(manhattan_distance(x.a3, x.b3)));
  OP("rotate_vector", put(o, rotate_vector(x.a3, normalize(x.b3), x.x)));
  OP("orthonormal", auto a = own(x.a3); auto b = own(x.a3); auto c = own(x.a3); orthonormal_basis(x.b3, x.c3, a, b, c, true, axis_order_xyz); put(o, a); put(o, b); put(o, c));
  OP("orthonormal_orders",
    for(axis_order k : {axis_order_xyz, axis_order_xzy, axis_order_yzx, axis_order_yxz, axis_order_zxy, axis_order_zyx}) {
      auto a = own(x.a3); auto b = own(x.a3); auto c = own(x.a3); orthonormal_basis(x.b3, x.c3, a, b, c, true, k); put(o, a); put(o, b); put(o, c);
    });
  OP("orthonormal_2D", auto a = own(x.a2); auto b = own(x.a2); orthonormal_basis_2D(x.b2, a, b, true, axis_order_yx); put(o, a); put(o, b));
  OP("transform_point", put(o, transform_point(x.w44, x.a3)); put(o, transform_vector(x.w44, x.a3)));
  OP("transform_4D", put(o, transform_point_4D(x.w44, x.a3)); put(o, transform_vector_4D(x.w44, x.a4)));
  OP("transform_2D", put(o, transform_point_2D(x.m33, x.a2)); put(o, transform_vector_2D(x.m33, x.a2)));
  OP("axes", put(o, x_axis_3D()); put(o, y_axis_3D()); put(o, z_axis_3D()); put(o, axis_3D(1)); put(o, x_axis_2D()); put(o, y_axis_2D()); put(o, axis_2D(1)); put(o, zero_3D()); put(o, zero_2D()); put(o, zero_4D()); put(o, axis<3>(2)));
  OP("polar", auto v = own(x.a2); polar_to_cartesian(v, 2., x.x); put(o, v); double r; double t; cartesian_to_polar(x.a2, r, t); o(r); o(t));
  OP("cylindrical", auto v = own(x.a3); for(int k = 0; k < 3; ++k) { cylindrical_to_cartesian(v, k, 2., x.x, x.z); put(o, v); double r; double t; double h; cartesian_to_cylindrical(x.a3, k, r, t, h); o(r); o(t); o(h); });
  OP("spherical", auto v = own(x.a3); for(int k = 0; k < 3; ++k) for(auto ty : {colatitude, latitude}) { spherical_to_cartesian(v, k, ty, 2., x.x, x.y); put(o, v); double r; double t; double h; cartesian_to_spherical(x.a3, k, ty, r, t, h); o(r); o(t); o(h); });
  OPR("random_unit", auto v = own(x.a3); random_unit(v); o(v.size()));
  OP("random_unit_gen", auto v = own(x.a3); std::mt19937 g(7u); random_unit(v, g); put(o, v));
  OPR("random_cone", auto v = own(x.a3); random_unit(v, normalize(x.b3), .3); o(v.size()));
  OP("cone_error", auto v = own(x.a3); random_unit(v, normalize(x.b3), -3.); o(v.size()));
}
} // namespace
