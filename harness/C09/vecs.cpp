#include "compile.h"
namespace {
using namespace c09;
using Pred = std::function<bool(int, int)>;
const int S = 5; // sizes 1..5

// Two vectors; at least one of them of a fixed size.
void two(const string& name, const string& code, Pred ok)
{
  mc::add("two vectors: " + name, [=] {
    static const int K[][2] = {{0, 0}, {3, 1}, {0, 2}, {2, 0}, {1, 0}, {0, 1}};
    const auto& k = K[mc::choose(mc::thorough() ? 6 : 4)];
    const bool dyn = k[0] == 2 || k[1] == 2;
    const int s = mc::thorough() ? S : 4;
    const int n = k[0] == 2 ? 1 : 1 + mc::choose(s), m = k[1] == 2 ? 1 : 1 + mc::choose(s);
    // A run-time size leaves the check to run time, except for a fixed size that can never fit.
    bool good = ok(n, m);
    if(dyn) {
      good = false;
      for(int i = 1; i <= S; ++i) good = good || (k[0] == 2 ? ok(i, m) : ok(n, i));
    }
    verdict("vectors", decl(vec(k[0], n), "a") + decl(vec(k[1], m), "b") + body(code), good);
  });
}
void one(const string& name, const string& code, std::function<bool(int)> ok, bool writes = false)
{
  mc::add("one vector: " + name, [=] {
    const int k = mc::choose(2), n = 1 + mc::choose(S);
    verdict("vector", decl(vec(k, n), "a") + body(code), ok(n));
    // The same over an expression.
    if(!writes && n > 0) verdict("expression", decl(vec(k, n), "b") + "auto f() { auto a = b + b; " + code + " return 0; }", ok(n));
  });
}
void count(const string& name, std::function<string(int)> code, std::function<bool(int, int)> ok)
{
  mc::add("elements: " + name, [=] {
    const int k = mc::choose(2), n = 1 + mc::choose(4), m = 1 + mc::choose(5);
    verdict("elements", (k ? decl(vec(1, n), "a") : decl(vec(0, n), "a")) + "using T = " + vec(0, n) + "; " + body(code(m)), ok(n, m));
  });
}
bool same(int a, int b) { return a == b; }
bool any(int, int) { return true; }

struct R { R() {
  two("+", "auto r = a + b; (void) r;", same);
  two("-", "auto r = a - b; (void) r;", same);
  two("hadamard", "auto r = hadamard(a, b); (void) r;", same);
  two("dot", "auto r = dot(a, b); (void) r;", same);
  two("outer", "auto r = outer(a, b); (void) r;", any);
  two("+=", "a += b;", same);
  two("-=", "a -= b;", same);
  two("=", "a = b;", [](int n, int m) { return n == m; });
  two("= expression", "a = b + b;", same);
  two("= scaled", "a = 2. * b;", same);
  two("minimize", "a.minimize(b);", same);
  two("maximize", "a.maximize(b);", same);
  two("==", "bool r = a == b; (void) r;", any);
  two("<", "bool r = a < b; (void) r;", any);
  two("manhattan_distance", "auto r = manhattan_distance(a, b); (void) r;", same);
  two("project_to_vector", "auto r = project_to_vector(a, b); (void) r;", same);
  two("project_to_hplane", "auto r = project_to_hplane(a, b); (void) r;", same);
  two("cross", "auto r = cross(a, b); (void) r;", [](int n, int m) { return n == 3 && m == 3; });
  two("perp_dot", "auto r = perp_dot(a, b); (void) r;", [](int n, int m) { return n == 2 && m == 2; });
  two("unsigned_angle", "auto r = unsigned_angle(a, b); (void) r;", [](int n, int m) { return n == 3 && m == 3; });
  two("signed_angle_2D", "auto r = signed_angle_2D(a, b); (void) r;", [](int n, int m) { return n == 2 && m == 2; });
  two("triple_product", "auto r = triple_product(a, b, a); (void) r;", [](int n, int m) { return n == 3 && m == 3; });
  two("signed_angle", "auto r = signed_angle(a, b, b); (void) r;", [](int n, int m) { return n == 3 && m == 3; });
  two("rotate_vector", "auto r = rotate_vector(a, b, 1.); (void) r;", [](int n, int m) { return n == 3 && m == 3; });
  two("sum of three", "auto r = a + b + a; (void) r;", same);
  two("sum in a product", "auto r = dot(a - b, b); (void) r;", same);

  one("length", "auto r = a.length(); (void) r;", [](int) { return true; });
  one("perp", "auto r = perp(a); (void) r;", [](int n) { return n == 2; });
  one("cartesian_to_polar", "double r, t; cartesian_to_polar(a, r, t);", [](int n) { return n == 2; });
  one("polar_to_cartesian", "polar_to_cartesian(a, 1., 2.);", [](int n) { return n == 2; }, true);
  one("cartesian_to_cylindrical", "double r, t, h; cartesian_to_cylindrical(a, 0, r, t, h);", [](int n) { return n == 3; });
  one("cylindrical_to_cartesian", "cylindrical_to_cartesian(a, 0, 1., 2., 3.);", [](int n) { return n == 3; }, true);
  one("cartesian_to_spherical", "double r, t, h; cartesian_to_spherical(a, 0, latitude, r, t, h);", [](int n) { return n == 3; });
  one("spherical_to_cartesian", "spherical_to_cartesian(a, 0, latitude, 1., 2., 3.);", [](int n) { return n == 3; }, true);
  one("orthonormal_basis", "vector3d x, y, z; orthonormal_basis(a, a, x, y, z);", [](int n) { return n == 3; });
  one("orthonormal_basis_2D", "vector2d x, y; orthonormal_basis_2D(a, x, y);", [](int n) { return n == 2; });
  one("resize", "a.resize(3);", [](int) { return false; }, true);
  one("normalize", "a.normalize();", [](int) { return true; }, true);
  one("random_unit in a cone", "random_unit(a, a, 1.);", [](int) { return true; }, true);

  count("set", [](int m) { return "a.set(" + list(m) + ");"; }, same);
  count("construct", [](int m) { return "T t(" + list(m) + "); (void) t;"; }, same);
  count("array", [](int m) { return "extern double e[" + num(m) + "]; a = e;"; }, same);
  count("construct from array", [](int m) { return "extern double e[" + num(m) + "]; T t(e); (void) t;"; }, same);
  count("construct from vector", [](int m) { return "extern " + vec(0, m) + " e; T t(e); (void) t;"; }, same);
  count("construct from sum", [](int m) { return "extern " + vec(0, m) + " e; T t(e + e); (void) t;"; }, same);
  count("construct from external", [](int m) { return "extern " + vec(1, m) + " e; T t(e); (void) t;"; }, same);
  count("construct from dynamic", [](int) { return "extern " + vec(2, 0) + " e; T t(e); (void) t;"; }, any);
  count("vector and element", [](int m) { return "extern " + vec(0, m) + " e; T t(e, 1.); (void) t;"; }, [](int n, int m) { return n == m + 1; });
  count("vector and two elements", [](int m) { return "extern " + vec(0, m) + " e; T t(e, 1., 2.); (void) t;"; }, [](int n, int m) { return n == m + 2; });
} } r;
}
