#pragma once
// C04: vector operations over every pair (triple) of run-time sizes.
#include "sizes.h"

namespace {
using namespace sz;
using V = cml::vectord;

#ifdef MC_THOROUGH
constexpr int MAX = 9;
#else
constexpr int MAX = 6; // sizes 0..5
#endif

// FL/FR: static size or -1.
template<class L, class R, int FL, int FR, bool LW> void pair()
{
  const int n = FL >= 0 ? FL : pick(MAX), m = FR >= 0 ? FR : pick(MAX);
  constexpr bool fixed = FL >= 0 && FR >= 0;
  const int inc = n == m ? OK : VINC;
  const int sel = mc::choose(36);
  int at = 0;
  auto go = [&](const char* op, int mask, bool lhs_written, auto f) {
    if(at++ != sel) return;
    L l(n);
    R r(m);
    const int got = run([&] { f(l.v, r.v); });
    expect(op, got, mask);
    unchanged(op, r.v, m, "right");
    if(got != OK || !lhs_written) unchanged(op, l.v, n, "left");
    mc::state(mc::Hash()(n)(m)(got)(int(mc::hash_str(op))));
  };
  V out;
  go("a+b", inc, false, [](auto& a, auto& b) { V x(a + b); });
  go("a-b", inc, false, [](auto& a, auto& b) { V x(a - b); });
  go("b-a", inc, false, [](auto& a, auto& b) { V x(b - a); });
  go("(a+b) temporaries", inc, false, [](auto& a, auto& b) { V x((2. * a) + (b * 3.)); });
  go("hadamard(a,b)", inc, false, [](auto& a, auto& b) { V x(cml::hadamard(a, b)); });
  go("node not read", inc, false, [](auto& a, auto& b) { auto e = a + b; (void) e; });
  go("dot(a,b)", n < 1 || m < 1 ? (n == m ? VMIN : VMIN | VINC) : inc, false, [](auto& a, auto& b) { volatile double d = cml::dot(a, b); (void) d; });
  go("manhattan(a,b)", n < 1 || m < 1 ? (n == m ? VMIN : VMIN | VINC) : inc, false, [](auto& a, auto& b) { volatile double d = cml::manhattan_distance(a, b); (void) d; });
  go("a==b", OK, false, [&](auto& a, auto& b) { MC_CHECK((a == b) == (n == m), "a==b", "equality of sizes " << n << "," << m); });
  go("a!=b", OK, false, [&](auto& a, auto& b) { MC_CHECK((a != b) == (n != m), "a!=b", "inequality of sizes " << n << "," << m); });
  go("a<b", OK, false, [&](auto& a, auto& b) { MC_CHECK((a < b) == (n < m), "a<b", "order of sizes " << n << "," << m); });
  go("a>=b", OK, false, [&](auto& a, auto& b) { MC_CHECK((a >= b) == (n >= m), "a>=b", "order of sizes " << n << "," << m); });
  if constexpr(!fixed) {
    // A static size other than 3 (2) is rejected by the compiler.
    if constexpr((FL < 0 || FL == 3) && (FR < 0 || FR == 3)) {
      const int s3 = n == 3 && m == 3 ? OK : VSIZE;
      go("cross(a,b)", s3, false, [](auto& a, auto& b) { V x(cml::cross(a, b)); });
      go("cross(b,a)", s3, false, [](auto& a, auto& b) { V x(cml::cross(b, a)); });
      go("cross(a,copy of b)", s3, false, [](auto& a, auto& b) { V x(cml::cross(a, V(b))); });
      go("cross(copy of a,b)", s3, false, [](auto& a, auto& b) { V x(cml::cross(V(a), b)); });
      go("cross(a+a,b)", s3, false, [](auto& a, auto& b) { V x(cml::cross(a + a, b)); });
    }
    if constexpr((FL < 0 || FL == 2) && (FR < 0 || FR == 2))
      go("perp_dot(a,b)", n == 2 && m == 2 ? OK : VSIZE, false, [](auto& a, auto& b) { volatile double d = cml::perp_dot(a, b); (void) d; });
    go("outer(a,b)", OK, false, [&](auto& a, auto& b) { cml::matrixd x; x = cml::outer(a, b); MC_CHECK(x.rows() == n && x.cols() == m, "outer(a,b)", "shape " << x.rows() << "x" << x.cols()); });
  }
  // Projections need dot products; sizes must agree and be nonzero.
  const int prj = n == m && n > 0 ? OK : (VINC | VMIN);
  go("project_to_vector", prj, false, [](auto& a, auto& b) { V x(cml::project_to_vector(a, b)); });
  go("project_to_hplane", prj, false, [](auto& a, auto& b) { V x(cml::project_to_hplane(a, b)); });
  if constexpr(LW) {
    go("a+=b", inc, true, [](auto& a, auto& b) { a += b; });
    go("a-=b", inc, true, [](auto& a, auto& b) { a -= b; });
    go("a+=b*2", inc, true, [](auto& a, auto& b) { a += b * 2.; });
    go("minimize", inc, true, [](auto& a, auto& b) { a.minimize(b); });
    go("maximize", inc, true, [](auto& a, auto& b) { a.maximize(b); });
    // Assignment: resizable vectors resize, the others reject.
    constexpr bool resizable = std::is_same<L, Dyn>::value;
    go("a=b", resizable ? OK : inc, true, [&](auto& a, auto& b) {
      a = b;
      MC_CHECK(a.size() == m, "a=b", "size " << a.size() << " after assignment");
      for(int i = 0; i < m; ++i) MC_CHECK(a[i] == i + 1, "a=b", "element " << i);
    });
    go("a=b*2", resizable ? OK : inc, true, [&](auto& a, auto& b) {
      a = b * 2.;
      MC_CHECK(a.size() == m, "a=b*2", "size " << a.size() << " after assignment");
      for(int i = 0; i < m; ++i) MC_CHECK(a[i] == 2 * (i + 1), "a=b*2", "element " << i);
    });
    // a = x op y with disagreeing operands changes nothing.
    go("a=b+c mismatched", VINC, true, [&](auto& a, auto& b) { V c(m + 1); c.zero(); a = b + c; });
  }
}

} // namespace
