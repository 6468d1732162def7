#include "compile.h"
namespace {
using namespace c09;
const char* ORDER[] = {"imaginary_first", "real_first"};
const char* CROSS[] = {"positive_cross", "negative_cross"};
string quat(int kind, int order, int cross)
{
  return string("quaternion<") + (kind ? "float" : "double") + ", fixed<>, " + ORDER[order] + ", " + CROSS[cross] + ">";
}
// Two quaternions of every order and product direction.
void two(const string& name, const string& code, std::function<bool(bool order, bool cross)> ok)
{
  mc::add("two quaternions: " + name, [=] {
    const int k = mc::choose(2), l = mc::choose(2), o = mc::choose(2), p = mc::choose(2), x = mc::choose(2), y = mc::choose(2);
    verdict("orders", decl(quat(k, o, x), "a") + decl(quat(l, p, y), "b") + body(code), ok(o == p, x == y));
  });
}
// A quaternion and vectors of every size.
void vecs(const string& name, const string& code, int nv, int n)
{
  mc::add("quaternion and vectors: " + name, [=] {
    const int o = mc::choose(2), x = mc::choose(2);
    string d = decl(quat(0, o, x), "q");
    bool good = true;
    for(int i = 0; i < nv; ++i) {
      const int s = nv == 1 ? 1 + mc::choose(5) : n - 1 + mc::choose(3);
      good = good && s == n;
      d += decl(vec(nv == 1 ? mc::choose(2) : 0, s), "v" + num(i));
    }
    verdict("size", d + body(code), good);
  });
}
// Bases of the two matrices of a concatenation.
const char* BASES[] = {"row_basis", "col_basis"};

// Calls on something that may not be written.
void constant(const string& name, const string& code)
{
  mc::add("const object: " + name, [=] {
    static const string T[] = {"vector<double, fixed<3>>", "vector<double, dynamic<>>", "vector<double, external<3>>", "vector<const double, external<3>>"};
    const int t = mc::choose(4);
    const bool c = mc::choose(2);
    // The elements of external memory belong to the memory, not the object.
    if(c && t == 2) return;
    verdict("const", "extern " + string(c ? "const " : "") + T[t] + " a; extern vector3d b; " + body(code), !c && t != 3);
  });
}
void constmat(const string& name, const string& code)
{
  mc::add("const matrix: " + name, [=] {
    static const string T[] = {"matrix<double, fixed<3, 3>>", "matrix<double, dynamic<>>", "matrix<double, external<3, 3>>", "matrix<const double, external<3, 3>>"};
    const int t = mc::choose(4);
    const bool c = mc::choose(2);
    if(c && t == 2) return;
    verdict("const", "extern " + string(c ? "const " : "") + T[t] + " a; extern matrix33d b; extern vector3d v; " + body(code), !c && t != 3);
  });
}
void constquat(const string& name, const string& code)
{
  mc::add("const quaternion: " + name, [=] {
    const int o = mc::choose(2), x = mc::choose(2), c = mc::choose(2);
    verdict("const", "extern " + string(c ? "const " : "") + quat(0, o, x) + " a; extern " + quat(0, o, x) + " b; " + body(code), !c);
  });
}
// Element types a function works with.
void element(const string& name, const string& type, const string& code)
{
  mc::add("element type: " + name, [=] {
    static const string E[] = {"float", "double", "long double", "int", "unsigned", "short"};
    const int e = mc::choose(6);
    string t = type;
    for(size_t at; (at = t.find("$")) != string::npos;) t.replace(at, 1, E[e]);
    verdict("element", decl(t, "a") + body(code), e < 3);
  });
}

struct R { R() {
  const string use = "(void) r;";
  two("+", "auto r = a + b; " + use, [](bool o, bool c) { return o && c; });
  two("-", "auto r = a - b; " + use, [](bool o, bool c) { return o && c; });
  two("*", "auto r = a * b; " + use, [](bool o, bool c) { return o && c; });
  two("*=", "a *= b;", [](bool o, bool c) { return o && c; });
  two("+=", "a += b;", [](bool, bool) { return true; });
  two("=", "a = b;", [](bool, bool) { return true; });
  two("==", "bool r = a == b; " + use, [](bool o, bool) { return o; });
  two("<", "bool r = a < b; " + use, [](bool o, bool) { return o; });
  two("sum of products", "auto r = a * a + b * b; " + use, [](bool o, bool c) { return o && c; });
  two("product of conjugate", "auto r = conjugate(a) * b; " + use, [](bool o, bool c) { return o && c; });
  two("product of scaled", "auto r = (2. * a) * (-b); " + use, [](bool o, bool c) { return o && c; });
  two("construct", "std::decay_t<decltype(a)> t(b);", [](bool, bool) { return true; });
  two("dot", "auto r = dot(a, b); " + use, [](bool o, bool) { return o; });

  vecs("construct", "std::decay_t<decltype(q)> t(v0, 1.);", 1, 3);
  vecs("set", "q.set(v0, 1.);", 1, 3);
  vecs("quaternion_rotation_axis_angle", "quaternion_rotation_axis_angle(q, v0, 1.);", 1, 3);
  vecs("quaternion_rotation_euler", "quaternion_rotation_euler(q, v0, euler_order_xyz);", 1, 3);
  vecs("quaternion_rotation_align", "quaternion_rotation_align(q, v0, v1);", 2, 3);
  vecs("quaternion_rotation_aim_at", "quaternion_rotation_aim_at(q, v0, v1, v2);", 3, 3);
  vecs("quaternion_to_axis_angle", "double t; quaternion_to_axis_angle(q, v0, t);", 1, 3);
  vecs("quaternion_get_basis_vectors", "quaternion_get_basis_vectors(q, v0, v1, v2);", 3, 3);

  mc::add("bases: matrix_concat", [] {
    const int k = mc::choose(2), a = mc::choose(2), b = mc::choose(2), n = 2 + mc::choose(3);
    const bool ok = a == b;
    verdict("bases", decl(mat(k, n, n, string(", ") + BASES[a]), "a") + decl(mat(0, n, n, string(", ") + BASES[b]), "b") + body("auto r = matrix_concat(a, b); (void) r;"), ok);
  });
  mc::add("count: quaternion elements", [] {
    const int o = mc::choose(2), x = mc::choose(2), n = 1 + mc::choose(6), how = mc::choose(2);
    const string q = quat(0, o, x);
    const string code = how == 0 ? q + " t(" + list(n) + ");" : "extern double e[" + num(n) + "]; " + q + " t(e);";
    verdict("elements", body(code), n == 4);
  });

  constant("[]=", "a[0] = 1.;");
  constant("+=", "a += b;");
  constant("*=", "a *= 2.;");
  constant("=", "a = b;");
  constant("zero", "a.zero();");
  constant("set", "a.set(1., 2., 3.);");
  constant("cardinal", "a.cardinal(0);");
  constant("minimize", "a.minimize(b);");
  constmat("()=", "a(0, 0) = 1.;");
  constmat("-=", "a -= b;");
  constmat("=", "a = b;");
  constmat("identity", "a.identity();");
  constmat("transpose", "a.transpose();");
  constmat("inverse", "a.inverse();");
  constmat("set_row", "a.set_row(0, v);");
  constmat("matrix_rotation_world_x", "matrix_rotation_world_x(a, 1.);");
  constquat("[]=", "a[0] = 1.;");
  constquat("+=", "a += b;");
  constquat("*=", "a *= b;");
  constquat("=", "a = b;");
  constquat("identity", "a.identity();");

  element("random_unit", "vector<$, fixed<3>>", "random_unit(a);");
  element("random_unit in a cone", "vector<$, fixed<3>>", "random_unit(a, vector3d(1., 0., 0.), 1.);");
} } r;
}
