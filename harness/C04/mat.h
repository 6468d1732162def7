#pragma once
// C04: matrix operations over every pair of run-time shapes.
#include "sizes.h"
#include "alloc.h"

namespace {
using namespace sz;
using M = cml::matrixd;
using V = cml::vectord;

#ifdef MC_THOROUGH
constexpr int MX = 5;
#else
constexpr int MX = 4; // shapes 0..3 x 0..3
#endif

template<class T> struct is_dyn : std::false_type {};
template<class B, class L> struct is_dyn<MDyn<B, L>> : std::true_type {};

// FR, FC, GR, GC: static shapes or -1.
template<class L, class R, int FR, int FC, int GR, int GC> void mpair()
{
  const int r = FR >= 0 ? FR : pick(MX), c = FC >= 0 ? FC : pick(MX);
  const int s = GR >= 0 ? GR : pick(MX), t = GC >= 0 ? GC : pick(MX);
  const int sel = mc::choose(24);
  int at = 0;
  const int same = r == s && c == t ? OK : MINC;
  auto go = [&](const char* op, int mask, bool written, auto f) {
    if(at++ != sel) return;
    L a(r, c);
    R b(s, t);
    const int got = run([&] { f(a.m, b.m); });
    expect(op, got, mask);
    unchanged(op, b.m, s, t, "right");
    if(got != OK || !written) unchanged(op, a.m, r, c, "left");
    mc::state(mc::Hash()(r)(c)(s)(t)(got)(sel));
  };
  go("A+B", same, false, [](auto& a, auto& b) { M x(a + b); });
  go("A-B", same, false, [](auto& a, auto& b) { M x(a - b); });
  go("B-A", same, false, [](auto& a, auto& b) { M x(b - a); });
  go("2A+3B", same, false, [](auto& a, auto& b) { M x(2. * a + b * 3.); });
  go("hadamard", same, false, [](auto& a, auto& b) { M x(cml::hadamard(a, b)); });
  go("A+T(B)", r == t && c == s ? OK : MINC, false, [](auto& a, auto& b) { M x(a + cml::transpose(b)); });
  // The product of two layouts has none and is rejected by the compiler.
  constexpr bool mul = std::is_same<typename decltype(L::m)::layout_tag, typename decltype(R::m)::layout_tag>::value;
  if constexpr(mul) {
  go("A*B", c == s ? OK : MINNER, false, [&](auto& a, auto& b) { M x(a * b); MC_CHECK(x.rows() == r && x.cols() == t, "A*B", x.rows() << "x" << x.cols()); });
  go("A*T(B)", c == t ? OK : MINNER, false, [](auto& a, auto& b) { M x(a * cml::transpose(b)); });
  go("(A+A)*(B-B)", c == s ? OK : MINNER, false, [](auto& a, auto& b) { M x((a + a) * (b - b)); });
  }
  go("A==B", OK, false, [&](auto& a, auto& b) { MC_CHECK((a == b) == (same == OK), "A==B", r << c << s << t); });
  go("A!=B", OK, false, [&](auto& a, auto& b) { MC_CHECK((a != b) == (same != OK), "A!=B", r << c << s << t); });
  go("A+=B", same, true, [](auto& a, auto& b) { a += b; });
  go("A-=B", same, true, [](auto& a, auto& b) { a -= b; });
  constexpr bool resizes = is_dyn<L>::value;
  // A dynamic external matrix may be reshaped to another shape of the same count.
  const bool ext = !resizes && FR < 0;
  const int asg = resizes ? OK : (ext ? (r * c == s * t ? OK : MSIZE | MINC) : (same == OK ? OK : MINC | MSIZE));
  go("A=B", asg, true, [&](auto& a, auto& b) {
    a = b;
    MC_CHECK(a.rows() == s && a.cols() == t, "A=B", a.rows() << "x" << a.cols());
    for(int i = 0; i < s; ++i) for(int j = 0; j < t; ++j) MC_CHECK(a(i, j) == b(i, j), "A=B", "element " << i << "," << j);
  });
  go("A=B*2", asg, true, [&](auto& a, auto& b) {
    a = b * 2.;
    for(int i = 0; i < s; ++i) for(int j = 0; j < t; ++j) MC_CHECK(a(i, j) == 2 * b(i, j), "A=B*2", "element " << i << "," << j);
  });
  go("A=B+C mismatched", MINC, true, [&](auto& a, auto& b) { M C(s + 1, t); C.zero(); a = b + C; });
  if constexpr(GR < 0)
  go("A=B*C mismatched", MINNER, true, [&](auto& a, auto& b) { std::decay_t<decltype(b * b)> C(t + 1, 2); C.zero(); a = b * C; });
  go("set_row(row of B)", r == 0 || s == 0 ? OK : (c == t ? OK : MCOL), true, [&](auto& a, auto& b) { if(r && s) a.set_row(0, cml::row(b, 0)); });
  go("set_col(col of B)", c == 0 || t == 0 ? OK : (r == s ? OK : MROW), true, [&](auto& a, auto& b) { if(c && t) a.set_col(0, cml::col(b, 0)); });
  go("A*col(B)", t == 0 ? OK : (c == s ? OK : MINNER), false, [&](auto& a, auto& b) { if(t) V x(a * cml::col(b, 0)); });
  go("row(B)*A", s == 0 ? OK : (t == r ? OK : MINNER), false, [&](auto& a, auto& b) { if(s) V x(cml::row(b, 0) * a); });
  go("row(A)+row(B)", r == 0 || s == 0 ? OK : (c == t ? OK : VINC), false, [&](auto& a, auto& b) { if(r && s) V x(cml::row(a, 0) + cml::row(b, 0)); });
  go("dot(row(A),col(B))", r == 0 || t == 0 ? OK : (c == 0 || s == 0 ? (VMIN | VINC) : c == s ? OK : VINC), false,
    [&](auto& a, auto& b) { if(r && t) { volatile double d = cml::dot(cml::row(a, 0), cml::col(b, 0)); (void) d; } });
}

template<class L, int FR, int FC> void munary()
{
  const int r = FR >= 0 ? FR : pick(MX + 2), c = FC >= 0 ? FC : pick(MX + 2);
  const int sel = mc::choose(20);
  int at = 0;
  const bool sqr = r == c;
  const int sq = sqr ? OK : MSQ;
  auto go = [&](const char* op, int mask, bool written, auto f) {
    if(at++ != sel) return;
    L a(r, c);
    const int got = run([&] { f(a.m); });
    expect(op, got, mask);
    if(got != OK || !written) unchanged(op, a.m, r, c, "only");
    mc::state(mc::Hash()(r)(c)(got)(sel));
  };
  go("determinant(A)", sq, false, [](auto& a) { volatile double d = cml::determinant(a); (void) d; });
  go("A.determinant()", sq, false, [](auto& a) { volatile double d = a.determinant(); (void) d; });
  go("trace(A)", sq, false, [](auto& a) { volatile double d = cml::trace(a); (void) d; });
  go("A.trace()", sq, false, [](auto& a) { volatile double d = a.trace(); (void) d; });
  go("inverse(A)", sq, false, [](auto& a) { M x(cml::inverse(a)); });
  go("A.inverse()", sq, true, [](auto& a) { a.inverse(); });
  go("lu(A)", sq, false, [](auto& a) { M x(cml::lu(a)); });
  go("lu_pivot(A)", sq, false, [](auto& a) { auto p = cml::lu_pivot(a); (void) p; });
  if constexpr(is_dyn<L>::value)
    go("A.transpose()", OK, true, [&](auto& a) { a.transpose(); MC_CHECK(a.rows() == c && a.cols() == r, "A.transpose()", a.rows() << "x" << a.cols()); });
  go("A.identity()", OK, true, [](auto& a) { a.identity(); });
  go("A.zero()", OK, true, [](auto& a) { a.zero(); });
  go("-A*2", OK, false, [](auto& a) { M x(-a * 2.); });
  // Linear systems need a square matrix and a matching right-hand side.
  for(int n = 0; n < 4; ++n) {
    go("lu_solve(A,b)", sqr ? (r == n ? OK : MINNER) : (MSQ | MINNER), false, [n](auto& a) { V b(n); b.fill(1); V x(cml::lu_solve(a, b)); });
  }
}

// Construction and assignment from counted sources.
template<class B, class L> void counted()
{
  using A = h::CountAlloc<double>;
  using MM = cml::matrix<double, cml::dynamic<A>, B, L>;
  const int r = mc::choose(4), c = mc::choose(4), form = mc::choose(11);
  auto& st = h::alloc_state();
  st.reset();
  static const int counts[] = {1, 2, 4, 6, 4, 6, 3, 4, 6, 2, 6};
  const int k = counts[form];
  const int mask = r * c == k ? OK : (MINC | MSIZE);
  const double e4[4] = {5, 6, 7, 8}, e6[6] = {5, 6, 7, 8, 9, 10};
  const char* op = "";
  {
    MM m(r, c);
    MatInit<void>::set(m);
    bool built = false;
    const int got = run([&] {
      switch(form) {
        case 0: { op = "ctor(r,c,1 element)"; built = true; MM x(r, c, 5.); break; }
        case 1: { op = "ctor(r,c,2 elements)"; built = true; MM x(r, c, 5., 6.); break; }
        case 2: { op = "ctor(r,c,4 elements)"; built = true; MM x(r, c, 5., 6., 7., 8.); break; }
        case 3: { op = "ctor(r,c,6 elements)"; built = true; MM x(r, c, 5., 6., 7., 8., 9., 10.); break; }
        case 4: { op = "ctor(r,c,array4)"; built = true; MM x(r, c, e4); break; }
        case 5: { op = "ctor(r,c,array6)"; built = true; MM x(r, c, e6); break; }
        case 6: { op = "ctor(r,c,3 elements)"; built = true; MM x(r, c, 5., 6., 7.); break; }
        case 7: op = "=array4"; m = e4; break;
        case 8: op = "=array6"; m = e6; break;
        case 9: op = "=list2"; m = {5., 6.}; break;
        case 10: op = "=list6"; m = {5., 6., 7., 8., 9., 10.}; break;
      }
    });
    expect(op, got, mask);
    if(got != OK || built) unchanged(op, m, r, c, "left");
    MC_CHECK(st.live.size() <= 1, std::string(op) + ":leak", op << " left " << st.live.size() - 1 << " extra blocks allocated");
  }
  MC_CHECK(st.live.empty() && st.bad.empty(), std::string(op) + ":leak", op << " leaks " << st.live.size() << " blocks " << st.bad);
  mc::state(mc::Hash()(r)(c)(form));
}

// The shape of a dynamic external matrix.
void external_resize()
{
  const int r = mc::choose(4), c = mc::choose(4), s = mc::choose(5), t = mc::choose(5);
  MExt<cml::row_basis, cml::row_major> x(r, c);
  const int got = run([&] { x.m.resize(s, t); });
  expect("external resize", got, r * c == s * t ? OK : MSIZE);
  if(got != OK) unchanged("external resize", x.m, r, c, "only");
  else MC_CHECK(x.m.rows() == s && x.m.cols() == t, "external resize", x.m.rows() << "x" << x.m.cols());
  mc::state(mc::Hash()(r)(c)(s)(t));
}

void vec_mat()
{
  const int r = pick(MX), c = pick(MX), n = pick(MX + 1), op = mc::choose(6);
  MDyn<cml::col_basis, cml::row_major> a(r, c);
  Ext v(n);
  int got, want;
  const char* nm;
  switch(op) {
    case 0: nm = "A*v"; want = c == n ? OK : MINNER; got = run([&] { V x(a.m * v.v); MC_CHECK(x.size() == r, nm, "size " << x.size()); }); break;
    case 1: nm = "v*A"; want = r == n ? OK : MINNER; got = run([&] { V x(v.v * a.m); MC_CHECK(x.size() == c, nm, "size " << x.size()); }); break;
    case 2: nm = "T(A)*(v+v)"; want = r == n ? OK : MINNER; got = run([&] { V x(cml::transpose(a.m) * (v.v + v.v)); }); break;
    case 3: nm = "v=A*v"; want = c == n ? (r == n ? OK : VINC) : MINNER; got = run([&] { v.v = a.m * v.v; }); break;
    case 4: nm = "v+=v*A"; want = r == n ? (c == n ? OK : VINC) : MINNER; got = run([&] { v.v += v.v * a.m; }); break;
    default: nm = "outer(v,v)+A"; want = r == n && c == n ? OK : MINC; got = run([&] { M x(cml::outer(v.v, v.v) + a.m); }); break;
  }
  expect(nm, got, want);
  unchanged(nm, a.m, r, c, "matrix");
  if(got != OK || (op != 3 && op != 4)) unchanged(nm, v.v, n, "vector");
  mc::state(mc::Hash()(r)(c)(n)(op)(got));
}
} // namespace
