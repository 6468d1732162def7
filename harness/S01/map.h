#include "inputs.h"
namespace {
using namespace cml;
using sx::own; using sx::put; using sx::text;
constexpr euler_order orders[] = {euler_order_xyz, euler_order_xyx, euler_order_xzy, euler_order_xzx, euler_order_yzx, euler_order_yzy, euler_order_yxz, euler_order_yxy, euler_order_zxy, euler_order_zxz, euler_order_zyx, euler_order_zyz};
constexpr axis_order aorders[] = {axis_order_xyz, axis_order_xzy, axis_order_yzx, axis_order_yxz, axis_order_zxy, axis_order_zyx};

template<class K> void map_ops()
{
  OP("r_rot_world", auto m = own(x.w33); matrix_rotation_world_x(m, x.x); put(o, m); matrix_rotation_world_y(m, x.y); put(o, m); matrix_rotation_world_z(m, x.z); put(o, m); matrix_rotation_world_axis(m, 1, x.z); put(o, m));
  OP("r_rot_2D", auto m = own(x.m22); matrix_rotation_2D(m, x.x); put(o, m); matrix_rotation_align_2D(m, x.a2, true, axis_order_yx); put(o, m));
  OP("r_rot_axis_angle", auto m = own(x.m44); matrix_rotation_axis_angle(m, normalize(x.a3), x.z); put(o, m));
  OP("r_rot_euler", auto m = own(x.w33); for(auto k : orders) { matrix_rotation_euler(m, x.x, x.y, x.z, k); put(o, m); } matrix_rotation_euler(m, x.a3, euler_order_zyx); put(o, m));
  OP("r_rot_euler_derivatives", auto m = own(x.w33); for(int a = 0; a < 3; ++a) for(auto k : {euler_order_xyz, euler_order_zyx}) { matrix_rotation_euler_derivatives(m, a, x.x, x.y, x.z, k); put(o, m); } matrix_rotation_euler_derivatives(m, 1, x.a3, euler_order_yxz); put(o, m));
  OP("r_rot_euler_derivatives_error", auto m = own(x.w33); matrix_rotation_euler_derivatives(m, 5, x.x, x.y, x.z, euler_order_xyz); put(o, m));
  OP("r_rot_euler_derivatives_repeat", auto m = own(x.w33); matrix_rotation_euler_derivatives(m, 1, x.x, x.y, x.z, euler_order_xyx); put(o, m));
  OP("r_rot_quaternion", auto m = own(x.w33); matrix_rotation_quaternion(m, normalize(x.q)); put(o, m); auto k = own(x.m44); matrix_rotation_quaternion(k, normalize(x.s)); put(o, k));
  OP("r_rot_align", auto m = own(x.w33); for(auto k : aorders) { matrix_rotation_align(m, x.a3, x.b3, true, k); put(o, m); });
  OP("r_rot_aim_at", auto m = own(x.w33); matrix_rotation_aim_at(m, x.a3, x.b3, x.c3, axis_order_xyz); put(o, m));
  OP("r_to_axis_angle", auto v = own(x.a3); double a; matrix_to_axis_angle(x.rot, v, a); put(o, v); o(a); matrix_to_axis_angle(x.w33, v, a); put(o, v); o(a); auto t = matrix_to_axis_angle(x.rot); put(o, std::get<0>(t)); o(std::get<1>(t)));
  OP("r_to_euler", for(auto k : orders) { double a; double b; double c; matrix_to_euler(x.rot, a, b, c, k); o(a); o(b); o(c); put(o, matrix_to_euler(x.w33, k)); });
  OP("r_quat_basis", put(o, quaternion_get_x_basis_vector(normalize(x.q))); put(o, quaternion_get_y_basis_vector(normalize(x.q))); put(o, quaternion_get_basis_vector(normalize(x.s), 2)); auto a = own(x.a3); auto b = own(x.a3); auto c = own(x.a3); quaternion_get_basis_vectors(normalize(x.q), a, b, c); put(o, a); put(o, b); put(o, c));
  OP("r_quat_world", auto q = own(x.q); quaternion_rotation_world_x(q, x.x); put(o, q); quaternion_rotation_world_y(q, x.y); put(o, q); quaternion_rotation_world_z(q, x.z); put(o, q); quaternion_rotation_world_axis(q, 2, x.x); put(o, q));
  OP("r_quat_axis_angle", auto q = own(x.s); quaternion_rotation_axis_angle(q, normalize(x.a3), x.z); put(o, q));
  OP("r_quat_matrix", auto q = own(x.q); quaternion_rotation_matrix(q, x.rot); put(o, q); auto r = own(x.s); quaternion_rotation_matrix(r, x.w33); put(o, r));
  OP("r_quat_euler", auto q = own(x.q); for(auto k : orders) { quaternion_rotation_euler(q, x.x, x.y, x.z, k); put(o, q); } quaternion_rotation_euler(q, x.a3, euler_order_zyx); put(o, q));
  OP("r_quat_align", auto q = own(x.q); for(auto k : aorders) { quaternion_rotation_align(q, x.a3, x.b3, true, k); put(o, q); });
  OP("r_quat_aim_at", auto q = own(x.s); quaternion_rotation_aim_at(q, x.a3, x.b3, x.c3, axis_order_zyx); put(o, q));
  OP("r_quat_to_axis_angle", auto v = own(x.a3); double a; quaternion_to_axis_angle(normalize(x.q), v, a); put(o, v); o(a); auto t = quaternion_to_axis_angle(normalize(x.s)); put(o, std::get<0>(t)); o(std::get<1>(t)));
  OP("r_quat_to_euler", for(auto k : orders) { double a; double b; double c; quaternion_to_euler(normalize(x.q), a, b, c, k); o(a); o(b); o(c); put(o, quaternion_to_euler(normalize(x.s), k)); });
  OP("r_ortho", auto m = own(x.p44); for(auto h : {left_handed, right_handed}) for(auto z : {z_clip_zero, z_clip_neg_one}) { matrix_orthographic(m, -1., 2., -3., 4., 1., 9., h, z); put(o, m); matrix_orthographic(m, 3., 2., 1., 9., h, z); put(o, m); });
  OP("r_persp", auto m = own(x.p44); for(auto h : {left_handed, right_handed}) for(auto z : {z_clip_zero, z_clip_neg_one}) { matrix_perspective(m, -1., 2., -3., 4., 1., 9., h, z); put(o, m); matrix_perspective(m, 3., 2., 1., 9., h, z); put(o, m); });
  OP("r_persp_fov", auto m = own(x.p44); for(auto h : {left_handed, right_handed}) { matrix_perspective_xfov(m, .9, 1.5, 1., 9., h, z_clip_zero); put(o, m); matrix_perspective_yfov(m, .9, 1.5, 1., 9., h, z_clip_neg_one); put(o, m); });
  OP("r_proj_named", auto m = own(x.w44); matrix_orthographic_LH(m, 3., 2., 1., 9., z_clip_zero); put(o, m); matrix_orthographic_RH(m, 3., 2., 1., 9., z_clip_zero); put(o, m); matrix_perspective_LH(m, 3., 2., 1., 9., z_clip_zero); put(o, m); matrix_perspective_RH(m, 3., 2., 1., 9., z_clip_zero); put(o, m); matrix_perspective_xfov_RH(m, .9, 1.5, 1., 9., z_clip_zero); matrix_perspective_yfov_LH(m, .9, 1.5, 1., 9., z_clip_zero); put(o, m));
  OP("r_frustum", double p[6][4]; extract_frustum_planes(x.p44, p, z_clip_zero, true); for(auto& r : p) for(double d : r) o(d); extract_frustum_planes(x.w44, x.w44, p, z_clip_neg_one, false); for(auto& r : p) for(double d : r) o(d));
  OP("r_near_plane", double p[4]; extract_near_frustum_plane(x.p44, p, z_clip_zero); for(double d : p) o(d));
}
} // namespace
