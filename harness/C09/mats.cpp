#include "compile.h"
namespace {
using namespace c09;
using Shape = std::function<bool(bool, int, int)>; // row basis?, rows, columns
Shape lin(int n) { return [=](bool, int r, int c) { return r >= n && c >= n; }; }
Shape aff(int n) { return [=](bool row, int r, int c) { return row ? (r >= n + 1 && c >= n) : (c >= n + 1 && r >= n); }; }
Shape exact(int n) { return [=](bool, int r, int c) { return r == n && c == n; }; }
Shape square() { return [](bool, int r, int c) { return r == c; }; }
Shape affine() { return [](bool row, int r, int c) { const int m = row ? r : c, n = row ? c : r; return m == n || m == n + 1; }; }
const int S = 5;

string basis(int b) { return b == 0 ? ", row_basis, row_major" : b == 1 ? ", col_basis, col_major" : b == 2 ? ", col_basis, row_major" : ", row_basis, col_major"; }
bool isrow(int b) { return b == 0 || b == 3; }

// One matrix m of every shape, basis and kind, then (with arguments) every size of the vectors v0, v1, v2.
void m(const string& name, Shape ok, const string& code, int nv = 0, int lo = 0, int hi = 0)
{
  mc::add("one matrix: " + name, [=] {
    const int k = mc::choose(mc::thorough() ? 2 : 1), b = mc::choose(mc::thorough() ? 4 : 2), r = 1 + mc::choose(S), c = 1 + mc::choose(S);
    if(!mc::thorough() && std::abs(r - c) > 2) return;
    string d = decl(mat(k, r, c, basis(b)), "m");
    for(int i = 0; i < nv; ++i) d += decl(vec(0, lo), "v" + num(i));
    verdict("shape", d + body(code), ok(isrow(b), r, c));
  });
  if(nv) mc::add("vectors of: " + name, [=] {
    const bool few = nv > 1 && !mc::thorough();
    const int b = few ? 0 : mc::choose(2);
    string d = decl(mat(0, 4, 4, basis(b)), "m");
    bool good = true;
    for(int i = 0; i < nv; ++i) {
      const int n = few ? lo - 1 + mc::choose(3) : 1 + mc::choose(S), k = nv == 1 ? mc::choose(2) : 0;
      good = good && lo <= n && n <= hi;
      d += decl(vec(k, n), "v" + num(i));
    }
    verdict("size", d + body(code), good);
  });
}
// Two matrices a and b.
void mm(const string& name, std::function<bool(int, int, int, int)> ok, const string& code)
{
  mc::add("two matrices: " + name, [=] {
    static const int K[][2] = {{0, 0}, {0, 1}, {1, 0}};
    const auto& k = K[mc::thorough() ? mc::choose(3) : 0];
    const int n = mc::thorough() ? 4 : 3, r = 1 + mc::choose(n), c = 1 + mc::choose(n), p = 1 + mc::choose(n), q = 1 + mc::choose(n);
    verdict("shapes", decl(mat(k[0], r, c), "a") + decl(mat(k[1], p, q), "b") + body(code), ok(r, c, p, q));
  });
}
// One fixed and one run-time-sized matrix: left to run time.
void dyn(const string& name, const string& code)
{
  mc::add("with a dynamic matrix: " + name, [=] {
    const int side = mc::choose(2), r = 1 + mc::choose(3), c = 1 + mc::choose(3);
    verdict("dynamic", decl(side ? mat(2, 0, 0) : mat(0, r, c), "a") + decl(side ? mat(0, r, c) : mat(2, 0, 0), "b") + body(code), true);
  });
}
// A matrix a and a vector v.
void mv(const string& name, std::function<bool(int, int, int)> ok, const string& code)
{
  mc::add("matrix and vector: " + name, [=] {
    const int k = mc::choose(mc::thorough() ? 2 : 1), kv = mc::choose(2), r = 1 + mc::choose(4), c = 1 + mc::choose(4), n = 1 + mc::choose(4);
    verdict("sizes", decl(mat(k, r, c), "a") + decl(vec(kv, n), "v") + body(code), ok(r, c, n));
  });
}
// A number of elements e.
void count(const string& name, std::function<string(int)> code, std::function<bool(int, int)> ok)
{
  mc::add("matrix elements: " + name, [=] {
    const int k = mc::choose(2), r = 1 + mc::choose(3), c = 1 + mc::choose(3), n = 1 + mc::choose(10);
    verdict("elements", "using T = " + mat(0, r, c) + "; " + decl(mat(k, r, c), "a") + body(code(n)), ok(r * c, n));
  });
}
bool same(int r, int c, int p, int q) { return r == p && c == q; }
bool eq(int a, int b) { return a == b; }

struct R { R() {
  const Shape l2 = lin(2), l3 = lin(3), l4 = lin(4), a2 = aff(2), a3 = aff(3);
  const string use = "(void) r;";
  m("matrix_translation_2D(m,x,y)", a2, "matrix_translation_2D(m, 1., 2.);");
  m("matrix_translation_2D(m,v)", a2, "matrix_translation_2D(m, v0);", 1, 2, 2);
  m("matrix_translation(m,x,y)", a3, "matrix_translation(m, 1., 2.);");
  m("matrix_translation(m,x,y,z)", a3, "matrix_translation(m, 1., 2., 3.);");
  m("matrix_translation(m,v)", a3, "matrix_translation(m, v0);", 1, 2, 3);
  m("matrix_set_translation_2D(m,x,y)", a2, "matrix_set_translation_2D(m, 1., 2.);");
  m("matrix_set_translation_2D(m,v)", a2, "matrix_set_translation_2D(m, v0);", 1, 2, 2);
  m("matrix_set_translation(m,x,y)", a3, "matrix_set_translation(m, 1., 2.);");
  m("matrix_set_translation(m,x,y,z)", a3, "matrix_set_translation(m, 1., 2., 3.);");
  m("matrix_set_translation(m,v)", a3, "matrix_set_translation(m, v0);", 1, 2, 3);
  m("matrix_scale_2D(m,x,y)", a2, "matrix_scale_2D(m, 1., 2.);");
  m("matrix_scale_2D(m,v)", a2, "matrix_scale_2D(m, v0);", 1, 2, 2);
  m("matrix_uniform_scale_2D", a2, "matrix_uniform_scale_2D(m, 2.);");
  m("matrix_inverse_scale_2D(m,x,y)", a2, "matrix_inverse_scale_2D(m, 1., 2.);");
  m("matrix_inverse_scale_2D(m,v)", a2, "matrix_inverse_scale_2D(m, v0);", 1, 2, 2);
  m("matrix_scale(m,x,y,z)", a3, "matrix_scale(m, 1., 2., 3.);");
  m("matrix_scale(m,v)", a3, "matrix_scale(m, v0);", 1, 3, 3);
  m("matrix_uniform_scale", a3, "matrix_uniform_scale(m, 2.);");
  m("matrix_inverse_scale(m,x,y,z)", a3, "matrix_inverse_scale(m, 1., 2., 3.);");
  m("matrix_inverse_scale(m,v)", a3, "matrix_inverse_scale(m, v0);", 1, 3, 3);
  m("matrix_rotation_2D", l2, "matrix_rotation_2D(m, 1.);");
  m("matrix_rotation_align_2D", l2, "matrix_rotation_align_2D(m, v0);", 1, 2, 2);
  m("matrix_rotation_world_axis", l3, "matrix_rotation_world_axis(m, 1, 1.);");
  m("matrix_rotation_world_x", l3, "matrix_rotation_world_x(m, 1.);");
  m("matrix_rotation_world_y", l3, "matrix_rotation_world_y(m, 1.);");
  m("matrix_rotation_world_z", l3, "matrix_rotation_world_z(m, 1.);");
  m("matrix_rotation_axis_angle", l3, "matrix_rotation_axis_angle(m, v0, 1.);", 1, 3, 3);
  m("matrix_rotation_euler(m,a,b,c)", l3, "matrix_rotation_euler(m, .1, .2, .3, euler_order_xyz);");
  m("matrix_rotation_euler(m,v)", l3, "matrix_rotation_euler(m, v0, euler_order_zxz);", 1, 3, 3);
  m("matrix_rotation_euler_derivatives(m,a,b,c)", l3, "matrix_rotation_euler_derivatives(m, 1, .1, .2, .3, euler_order_xyz);");
  m("matrix_rotation_euler_derivatives(m,v)", l3, "matrix_rotation_euler_derivatives(m, 1, v0, euler_order_xyz);", 1, 3, 3);
  m("matrix_rotation_quaternion", l3, "extern quaterniond q; matrix_rotation_quaternion(m, q);");
  m("matrix_rotation_align", l3, "matrix_rotation_align(m, v0, v1);", 2, 3, 3);
  m("matrix_rotation_aim_at", l3, "matrix_rotation_aim_at(m, v0, v1, v2);", 3, 3, 3);
  m("matrix_look_at", a3, "matrix_look_at(m, v0, v1, v2, left_handed);", 3, 3, 3);
  m("matrix_look_at_RH", a3, "matrix_look_at_RH(m, v0, v1, v2);", 3, 3, 3);
  m("matrix_affine_transform(m,axis,angle,t): axis", a3, "extern vector3d t; matrix_affine_transform(m, v0, 1., t);", 1, 3, 3);
  m("matrix_affine_transform(m,axis,angle,t): t", a3, "extern vector3d t; matrix_affine_transform(m, t, 1., v0, true);", 1, 2, 3);
  m("matrix_affine_transform(m,l,t)", a3, "extern matrix33d l; matrix_affine_transform(m, l, v0);", 1, 2, 3);
  m("matrix_linear_transform", l3, "extern matrix33d l; matrix_linear_transform(m, l);");
  m("matrix_orthographic", l4, "matrix_orthographic(m, 1., 2., 3., 4., 5., 6., left_handed, z_clip_zero);");
  m("matrix_perspective", l4, "matrix_perspective(m, 1., 2., 3., 4., 5., 6., left_handed, z_clip_zero);");
  m("matrix_perspective_xfov", l4, "matrix_perspective_xfov(m, 1., 2., 5., 6., right_handed, z_clip_zero);");
  m("matrix_skew_symmetric", l3, "matrix_skew_symmetric(m, v0);", 1, 3, 3);
  m("matrix_skew_symmetric_2D", l2, "matrix_skew_symmetric_2D(m, 2.);");
  m("matrix_set_basis_vector_2D", l2, "matrix_set_basis_vector_2D(m, 1, v0);", 1, 2, 2);
  m("matrix_set_x_basis_vector_2D", l2, "matrix_set_x_basis_vector_2D(m, v0);", 1, 2, 2);
  m("matrix_set_transposed_basis_vector_2D", l2, "matrix_set_transposed_basis_vector_2D(m, 0, v0);", 1, 2, 2);
  m("matrix_set_transposed_y_basis_vector_2D", l2, "matrix_set_transposed_y_basis_vector_2D(m, v0);", 1, 2, 2);
  m("matrix_set_basis_vectors_2D", l2, "matrix_set_basis_vectors_2D(m, v0, v1);", 2, 2, 2);
  m("matrix_set_transposed_basis_vectors_2D", l2, "matrix_set_transposed_basis_vectors_2D(m, v0, v1);", 2, 2, 2);
  m("matrix_get_basis_vector_2D", l2, "matrix_get_basis_vector_2D(m, 1);");
  m("matrix_get_transposed_basis_vector_2D", l2, "matrix_get_transposed_basis_vector_2D(m, 1);");
  m("matrix_get_basis_vectors_2D", l2, "matrix_get_basis_vectors_2D(m, v0, v1);", 2, 2, 2);
  m("matrix_get_transposed_basis_vectors_2D", l2, "matrix_get_transposed_basis_vectors_2D(m, v0, v1);", 2, 2, 2);
  m("matrix_set_basis_vector", l3, "matrix_set_basis_vector(m, 2, v0);", 1, 3, 3);
  m("matrix_set_z_basis_vector", l3, "matrix_set_z_basis_vector(m, v0);", 1, 3, 3);
  m("matrix_set_transposed_basis_vector", l3, "matrix_set_transposed_basis_vector(m, 0, v0);", 1, 3, 3);
  m("matrix_set_transposed_z_basis_vector", l3, "matrix_set_transposed_z_basis_vector(m, v0);", 1, 3, 3);
  m("matrix_set_basis_vectors", l3, "matrix_set_basis_vectors(m, v0, v1, v2);", 3, 3, 3);
  m("matrix_set_transposed_basis_vectors", l3, "matrix_set_transposed_basis_vectors(m, v0, v1, v2);", 3, 3, 3);
  m("matrix_get_basis_vector", l3, "matrix_get_basis_vector(m, 2);");
  m("matrix_get_transposed_basis_vector", l3, "matrix_get_transposed_basis_vector(m, 2);");
  m("matrix_get_basis_vectors", l3, "matrix_get_basis_vectors(m, v0, v1, v2);", 3, 3, 3);
  m("matrix_get_transposed_basis_vectors", l3, "matrix_get_transposed_basis_vectors(m, v0, v1, v2);", 3, 3, 3);
  m("matrix_get_translation_2D(m,x,y)", a2, "double p, q; matrix_get_translation_2D(m, p, q);");
  m("matrix_get_translation_2D(m)", a2, "matrix_get_translation_2D(m);");
  m("matrix_get_translation(m,x,y,z)", a3, "double p, q, s; matrix_get_translation(m, p, q, s);");
  m("matrix_get_translation(m)", a3, "matrix_get_translation(m);");
  m("trace_2x2", l2, "trace_2x2(m);");
  m("trace_3x3", l3, "trace_3x3(m);");
  m("matrix_invert_RT_only_2D", a2, "matrix_invert_RT_only_2D(m);");
  m("matrix_invert_RT_only", a3, "matrix_invert_RT_only(m);");
  m("matrix_invert_RT", affine(), "matrix_invert_RT(m);");
  m("matrix_concat(m,m)", square(), "matrix_concat(m, m);");
  m("transform_vector_2D", l2, "transform_vector_2D(m, v0);", 1, 2, 2);
  m("transform_point_2D", a2, "transform_point_2D(m, v0);", 1, 2, 2);
  m("transform_vector", l3, "transform_vector(m, v0);", 1, 3, 3);
  m("transform_point", a3, "transform_point(m, v0);", 1, 3, 3);
  m("transform_vector_4D", exact(4), "transform_vector_4D(m, v0);", 1, 4, 4);
  m("transform_point_4D", exact(4), "transform_point_4D(m, v0);", 1, 3, 3);
  m("extract_frustum_planes(m)", l4, "double p[6][4]; extract_frustum_planes(m, p, z_clip_zero, false);");
  m("extract_near_frustum_plane", l4, "double p[4]; extract_near_frustum_plane(m, p, z_clip_neg_one);");
  m("matrix_to_axis_angle(m,v,a)", l3, "double t; matrix_to_axis_angle(m, v0, t);", 1, 3, 3);
  m("matrix_to_axis_angle(m)", l3, "matrix_to_axis_angle(m);");
  m("matrix_to_euler(m,a,b,c)", l3, "double p, q, s; matrix_to_euler(m, p, q, s, euler_order_xyz);");
  m("matrix_to_euler(m)", l3, "matrix_to_euler(m, euler_order_zyz);");
  m("quaternion_rotation_matrix", l3, "extern quaterniond q; quaternion_rotation_matrix(q, m);");
  m("determinant", square(), "auto r = determinant(m); " + use);
  m("inverse", square(), "auto r = inverse(m); " + use);
  m("invert", square(), "m.inverse();");
  m("trace", square(), "auto r = trace(m); " + use);
  m("lu", square(), "auto r = lu(m); " + use);
  m("lu_pivot", square(), "auto r = lu_pivot(m); " + use);
  m("transpose", [](bool, int, int) { return true; }, "auto r = transpose(m); " + use);
  m("transpose in place", square(), "m.transpose();");
  m("identity", [](bool, int, int) { return true; }, "m.identity();");
  m("resize", [](bool, int, int) { return false; }, "m.resize(2, 2);");
  m("hadamard with itself", [](bool, int, int) { return true; }, "auto r = hadamard(m, m); " + use);

  mm("+", same, "auto r = a + b; " + use);
  mm("-", same, "auto r = a - b; " + use);
  mm("hadamard", same, "auto r = hadamard(a, b); " + use);
  mm("+=", same, "a += b;");
  mm("-=", same, "a -= b;");
  mm("=", same, "a = b;");
  mm("= sum", same, "a = b + b;");
  mm("= transpose", [](int r, int c, int p, int q) { return r == q && c == p; }, "a = transpose(b);");
  mm("construct", same, "matrix<double, fixed<decltype(a)::array_rows, decltype(a)::array_cols>> t(b);");
  mm("product", [](int, int c, int p, int) { return c == p; }, "auto r = a * b; " + use);
  mm("product assigned", [](int r, int c, int p, int q) { return r == p && c == q && p == q; }, "a = b * b;");
  mm("product with a sum", [](int, int c, int p, int) { return c == p; }, "auto r = (a + a) * (b - b); " + use);
  mm("==", [](int, int, int, int) { return true; }, "bool r = a == b; " + use);
  mm("sum with a product", [](int r, int c, int p, int q) { return c == p && q == c; }, "auto r = a + a * b; " + use);
  dyn("+", "auto r = a + b; " + use);
  dyn("-=", "a -= b;");
  dyn("=", "a = b;");
  dyn("product", "auto r = a * b; " + use);
  dyn("hadamard", "auto r = hadamard(a, b); " + use);

  mv("matrix * vector", [](int, int c, int n) { return n == c; }, "auto r = a * v; " + use);
  mv("vector * matrix", [](int r, int, int n) { return n == r; }, "auto r = v * a; " + use);
  mv("set_row", [](int, int c, int n) { return n == c; }, "a.set_row(0, v);");
  mv("set_col", [](int r, int, int n) { return n == r; }, "a.set_col(0, v);");
  mv("row =", [](int, int c, int n) { return n == c; }, "v = row(a, 0);");
  mv("col =", [](int r, int, int n) { return n == r; }, "v = col(a, 0);");
  mv("row + vector", [](int, int c, int n) { return n == c; }, "auto r = row(a, 0) + v; " + use);
  mv("dot with column", [](int r, int, int n) { return n == r; }, "auto r = dot(v, col(a, 0)); " + use);
  mv("assign outer", [](int r, int c, int n) { return r == n && c == n; }, "a = outer(v, v);");
  mv("lu_solve", [](int r, int c, int n) { return r == c && n == r; }, "auto r = lu_solve(a, v); " + use);
  mv("lu_solve pivot", [](int r, int c, int n) { return r == c && n == r; }, "auto p = lu_pivot(a); auto r = lu_solve(p, v); " + use);

  count("construct", [](int n) { return "T t(" + list(n) + "); (void) t;"; }, eq);
  count("array", [](int n) { return "extern double e[" + num(n) + "]; a = e;"; }, eq);
  count("construct from array", [](int n) { return "extern double e[" + num(n) + "]; T t(e); (void) t;"; }, eq);
  mc::add("matrix elements: nested array", [] {
    const int k = mc::choose(2), r = 1 + mc::choose(3), c = 1 + mc::choose(3), p = 1 + mc::choose(3), q = 1 + mc::choose(3);
    verdict("elements", decl(mat(k, r, c), "a") + body("extern double e[" + num(p) + "][" + num(q) + "]; a = e;"), r == p && c == q);
  });
  mc::add("matrix elements: construct from nested array", [] {
    const int r = 1 + mc::choose(3), c = 1 + mc::choose(3), p = 1 + mc::choose(3), q = 1 + mc::choose(3);
    verdict("elements", "using T = " + mat(0, r, c) + "; " + body("extern double e[" + num(p) + "][" + num(q) + "]; T t(e); (void) t;"), r == p && c == q);
  });
} } r;
}
