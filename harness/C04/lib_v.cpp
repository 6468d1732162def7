// C04: the geometry library's functions of vectors and quaternions.
#include "lib.h"

namespace {
template<int K> struct Vecs
{
  int sel, at = 0;
  // K arguments of size s (or, with s < 0, a predicate).
  template<class P, class F> void go(const char* op, P pred, F f)
  {
    if(at++ != sel) return;
    std::unique_ptr<Dyn> v[K];
    int n[K];
    for(int i = 0; i < K; ++i) {
      n[i] = mc::choose(VS);
      v[i].reset(new Dyn(n[i]));
      if(n[i] > i) v[i]->v[i] += 10;
    }
    const int got = run([&] { f(v); });
    expect(op, got, pred(n) ? OK : ANYV);
    for(int i = 0; i < K; ++i) {
      if(n[i] > i) v[i]->v[i] -= 10;
      unchanged(op, v[i]->v, n[i], "vector");
    }
    mc::state(mc::Hash()(got)(sel)(n[0])(n[K - 1]));
  }
};
template<int K> struct Outs
{
  int sel, at = 0;
  template<class P, class F> void go(const char* op, P pred, F f)
  {
    if(at++ != sel) return;
    std::unique_ptr<Ext> v[K];
    int n[K];
    for(int i = 0; i < K; ++i) { n[i] = mc::choose(VS); v[i].reset(new Ext(n[i])); }
    const int got = run([&] { f(v); });
    expect(op, got, pred(n) ? OK : ANYV);
    if(got != OK) for(int i = 0; i < K; ++i) unchanged(op, v[i]->v, n[i], "vector");
    mc::state(mc::Hash()(got)(sel)(n[0])(n[K - 1]));
  }
};

bool is3(const int* n) { return n[0] == 3; }
bool is33(const int* n) { return n[0] == 3 && n[1] == 3; }
bool is333(const int* n) { return n[0] == 3 && n[1] == 3 && n[2] == 3; }
bool is2(const int* n) { return n[0] == 2; }
bool is22(const int* n) { return n[0] == 2 && n[1] == 2; }
bool same(const int* n) { return n[0] == n[1] && n[0] > 0; }

struct Q
{
  cml::quaterniond q;
  Q() : q(1, 2, 3, 4) {}
  template<class F> void on(const char* op, F f)
  {
    try { f(q); }
    catch(...) { MC_CHECK(q[0] == 1 && q[1] == 2 && q[2] == 3 && q[3] == 4, std::string(op) + ":operand-changed", q[0] << "," << q[1] << "," << q[2] << "," << q[3]); throw; }
  }
};

void one()
{
  using namespace cml;
  Vecs<1> x;
  x.sel = mc::choose(10);
  x.go("quaternion_rotation_axis_angle", is3, [](auto& v) { Q().on("quaternion_rotation_axis_angle", [&](auto& q) { quaternion_rotation_axis_angle(q, v[0]->v, 1.); }); });
  x.go("quaternion_rotation_euler", is3, [](auto& v) { Q().on("quaternion_rotation_euler", [&](auto& q) { quaternion_rotation_euler(q, v[0]->v, euler_order_xyz); }); });
  x.go("quaternion(v,e)", is3, [](auto& v) { quaterniond q(v[0]->v, 1.); });
  x.go("quaternion(e,v)", is3, [](auto& v) { quaternion<double, fixed<>, real_first> q(1., v[0]->v); });
  x.go("q.set(v,e)", is3, [](auto& v) { Q().on("q.set(v,e)", [&](auto& q) { q.set(v[0]->v, 1.); }); });
  x.go("perp", is2, [](auto& v) { perp(v[0]->v); });
  x.go("cartesian_to_polar", is2, [](auto& v) { double a, b; cartesian_to_polar(v[0]->v, a, b); });
  x.go("cartesian_to_cylindrical", is3, [](auto& v) { double a, b, c; cartesian_to_cylindrical(v[0]->v, 1, a, b, c); });
  x.go("cartesian_to_spherical", is3, [](auto& v) { double a, b, c; cartesian_to_spherical(v[0]->v, 1, latitude, a, b, c); });
  x.go("random_unit(resizable)", [](const int* n) { return n[0] >= 1; }, [](auto& v) { V t(v[0]->v); random_unit(t); });
}

void two()
{
  using namespace cml;
  Vecs<2> x;
  x.sel = mc::choose(8);
  x.go("rotate_vector", is33, [](auto& v) { rotate_vector(v[0]->v, v[1]->v, 1.); });
  x.go("quaternion_rotation_align", is33, [](auto& v) { Q().on("quaternion_rotation_align", [&](auto& q) { quaternion_rotation_align(q, v[0]->v, v[1]->v); }); });
  x.go("unsigned_angle_2D", is22, [](auto& v) { unsigned_angle_2D(v[0]->v, v[1]->v); });
  x.go("unsigned_angle", is33, [](auto& v) { unsigned_angle(v[0]->v, v[1]->v); });
  x.go("project_to_vector", same, [](auto& v) { project_to_vector(v[0]->v, v[1]->v); });
  x.go("project_to_hplane", same, [](auto& v) { project_to_hplane(v[0]->v, v[1]->v); });
  x.go("manhattan_distance", same, [](auto& v) { manhattan_distance(v[0]->v, v[1]->v); });
  x.go("orthonormal_basis", is33, [](auto& v) { V a, b, c; orthonormal_basis(v[0]->v, v[1]->v, a, b, c); MC_CHECK(a.size() == 3 && b.size() == 3 && c.size() == 3, "orthonormal_basis:size", a.size()); });
}

void three()
{
  using namespace cml;
  Vecs<3> x;
  x.sel = mc::choose(3);
  x.go("signed_angle", is333, [](auto& v) { signed_angle(v[0]->v, v[1]->v, v[2]->v); });
  x.go("quaternion_rotation_aim_at", is333, [](auto& v) { Q().on("quaternion_rotation_aim_at", [&](auto& q) { quaternion_rotation_aim_at(q, v[0]->v, v[1]->v, v[2]->v); }); });
  x.go("triple_product", is333, [](auto& v) { triple_product(v[0]->v, v[1]->v, v[2]->v); });
}

void outs()
{
  using namespace cml;
  const int k = mc::choose(3);
  if(k == 0) {
    Outs<1> x;
    x.sel = mc::choose(6);
    x.go("polar_to_cartesian", is2, [](auto& v) { polar_to_cartesian(v[0]->v, 1., 1.); });
    x.go("cylindrical_to_cartesian", is3, [](auto& v) { cylindrical_to_cartesian(v[0]->v, 1, 1., 1., 1.); });
    x.go("spherical_to_cartesian", is3, [](auto& v) { spherical_to_cartesian(v[0]->v, 1, latitude, 1., 1., 1.); });
    x.go("quaternion_to_axis_angle", is3, [](auto& v) { quaterniond q(.5, .5, .5, .5); double a; quaternion_to_axis_angle(q, v[0]->v, a); });
    x.go("random_unit(n)", [](const int* n) { return n[0] >= 1; }, [](auto& v) { random_unit(v[0]->v); });
    x.go("quaternion_get_basis_vectors", is3, [](auto& v) { quaterniond q(.5, .5, .5, .5); vector3d a, b; quaternion_get_basis_vectors(q, v[0]->v, a, b); });
  } else if(k == 1) {
    Outs<2> x;
    x.sel = mc::choose(2);
    x.go("orthonormal_basis_2D", is22, [](auto& v) { orthonormal_basis_2D(vector2d(3, 4), v[0]->v, v[1]->v); });
    x.go("random_unit(n,d,a)", [](const int* n) { return n[0] == n[1] && n[0] >= 2; }, [](auto& v) {
      Ext d(v[1]->v.size());
      if(d.v.size()) d.v.cardinal(0);
      if(v[0]->v.size() == 1 && d.v.size() == 1) throw cml::minimum_vector_size_error(); // a cone needs a second dimension
      random_unit(v[0]->v, d.v, 1.);
    });
  } else {
    Outs<3> x;
    x.sel = mc::choose(1);
    x.go("orthonormal_basis(fixed size)", is333, [](auto& v) { orthonormal_basis(vector3d(3, 4, 5), vector3d(0, 1, 0), v[0]->v, v[1]->v, v[2]->v); });
  }
}

struct Reg
{
  Reg()
  {
    mc::add("functions of one vector", one);
    mc::add("functions of two vectors", two);
    mc::add("functions of three vectors", three);
    mc::add("functions writing vectors", outs);
  }
} reg;
} // namespace
