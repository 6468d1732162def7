#include "vec.h"

namespace {
// Assignments from counted sources.
template<class L, int FL> void counted()
{
  const int n = FL >= 0 ? FL : pick(MAX), form = mc::choose(10);
  constexpr bool resizable = std::is_same<L, Dyn>::value;
  L l(n);
  const double a1[1] = {5}, a3[3] = {5, 6, 7};
  const std::initializer_list<double> i0 = {}, i2 = {5, 6}, i4 = {5, 6, 7, 8};
  static const int counts[10] = {1, 3, 0, 2, 4, 1, 2, 3, 3, 4};
  const int k = counts[form];
  // A static size is checked against a static count by the compiler.
  const int mask = resizable || k == n ? OK : (VINC | VSIZE);
  const char* op = "";
  bool did = true;
  const int got = run([&] {
    auto& a = l.v;
    switch(form) {
      case 0: op = "=array1"; if constexpr(FL < 0) a = a1; else did = false; break;
      case 1: op = "=array3"; if constexpr(FL < 0 || FL == 3) a = a3; else did = false; break;
      case 2: op = "=list0"; a = i0; break;
      case 3: op = "=list2"; a = i2; break;
      case 4: op = "=list4"; a = i4; break;
      case 5: op = "set1"; if constexpr(FL < 0) a.set(5.); else did = false; break;
      case 6: op = "set2"; if constexpr(FL < 0) a.set(5., 6.); else did = false; break;
      case 7: op = "set3"; if constexpr(FL < 0 || FL == 3) a.set(5., 6., 7.); else did = false; break;
      case 8: op = "=fixed3"; if constexpr(FL < 0 || FL == 3) a = cml::vector3d(5., 6., 7.); else did = false; break;
      case 9: op = "=fixed4"; if constexpr(FL < 0) a = cml::vector4d(5., 6., 7., 8.); else did = false; break;
    }
  });
  if(!did) return;
  expect(op, got, mask);
  if(got != OK) unchanged(op, l.v, n, "left");
  else {
    MC_CHECK(l.v.size() == k, op, "size " << l.v.size());
    for(int i = 0; i < k; ++i) MC_CHECK(l.v[i] == 5 + i, op, "element " << i << " is " << l.v[i]);
  }
  mc::state(mc::Hash()(n)(form)(got));
}

void triples()
{
  const int a = pick(MAX), b = pick(MAX), c = pick(MAX), op = mc::choose(8);
  Dyn A(a); Ext B(b); Dyn C(c);
  int got, want;
  const char* nm;
  const bool all3 = a == 3 && b == 3 && c == 3, same = a == b && b == c;
  switch(op) {
    case 0: nm = "triple_product"; want = all3 ? OK : VSIZE; got = run([&] { volatile double d = cml::triple_product(A.v, B.v, C.v); (void) d; }); break;
    case 1: nm = "a+b+c"; want = same ? OK : VINC; got = run([&] { V x(A.v + B.v + C.v); }); break;
    case 2: nm = "a-(b+c)"; want = same ? OK : VINC; got = run([&] { V x(A.v - (B.v + C.v)); }); break;
    case 3: nm = "cross(cross(a,b),c)"; want = all3 ? OK : VSIZE; got = run([&] { V x(cml::cross(cml::cross(A.v, B.v), C.v)); }); break;
    case 4: nm = "cross(a,b)+c"; want = all3 ? OK : (VSIZE | VINC); got = run([&] { V x(cml::cross(A.v, B.v) + C.v); }); break;
    case 5: nm = "b=a+c"; want = same ? OK : VINC; got = run([&] { B.v = A.v + C.v; }); break;
    case 6: nm = "b+=a-c"; want = same ? OK : VINC; got = run([&] { B.v += A.v - C.v; }); break;
    default: nm = "dot(a,b+c)"; want = same && a > 0 ? OK : (VINC | VMIN); got = run([&] { volatile double d = cml::dot(A.v, B.v + C.v); (void) d; }); break;
  }
  expect(nm, got, want);
  unchanged(nm, A.v, a, "first");
  if(got != OK || (op != 5 && op != 6)) unchanged(nm, B.v, b, "second");
  unchanged(nm, C.v, c, "third");
  mc::state(mc::Hash()(a)(b)(c)(op)(got));
}

void unary()
{
  const int n = pick(MAX), kind = mc::choose(2), op = mc::choose(8);
  Dyn D(n); Ext X(n);
  int got = OK, want = OK;
  const char* nm = "";
  auto f = [&](auto& v) {
    switch(op) {
      case 0: nm = "length"; want = n < 1 ? VMIN : OK; got = run([&] { volatile double d = v.length(); (void) d; }); break;
      case 1: nm = "length_squared"; want = n < 1 ? VMIN : OK; got = run([&] { volatile double d = v.length_squared(); (void) d; }); break;
      case 2: nm = "normalize(v)"; want = n < 1 ? VMIN : OK; got = run([&] { V x(cml::normalize(v)); }); break;
      case 3: nm = "v.normalize()"; want = n < 1 ? VMIN : OK; got = run([&] { auto c = v; V x(n); x = c; x.normalize(); }); break;
      case 4: nm = "perp"; want = n == 2 ? OK : VSIZE; got = run([&] { V x(cml::perp(v)); }); break;
      case 5: nm = "-v"; got = run([&] { V x(-v); }); break;
      case 6: nm = "v*2/3"; got = run([&] { V x(v * 2. / 3.); }); break;
      case 7: nm = "zero/fill"; got = run([&] { V x(n); x = v; x.fill(2.).zero(); }); break;
    }
    expect(nm, got, want);
    unchanged(nm, v, n, "only");
  };
  if(kind) f(X.v); else f(D.v);
  mc::state(mc::Hash()(n)(op)(got));
}

struct Reg
{
  Reg()
  {
    mc::add("counted dynamic", counted<Dyn, -1>);
    mc::add("large counted dynamic", large(counted<Dyn, -1>));
    mc::add("counted external", counted<Ext, -1>);
    mc::add("large counted external", large(counted<Ext, -1>));
    mc::add("counted fixed3", counted<Fix<3>, 3>);
    mc::add("large counted fixed3", large(counted<Fix<3>, 3>));
    mc::add("triples", triples);
    mc::add("large triples", large(triples));
    mc::add("unary", unary);
    mc::add("large unary", large(unary));
  }
} reg;
} // namespace
