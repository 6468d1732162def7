// C04: linear systems (every shape of the matrix, the right-hand side and the result), functions of two matrices, lists
// assigned to quaternions, and functions with several results.
#include "sizes.h"

namespace {
using namespace sz;
using namespace cml;
using V = vectord;
constexpr int DIM = 5; // 0..4

template<class M> void regular(M& m)
{
  for(int i = 0; i < m.rows(); ++i) for(int j = 0; j < m.cols(); ++j) m(i, j) = cell(i, j) + 100 * (i == (j + 1) % m.rows());
}
template<class M> void same_matrix(const char* op, const M& m, const M& before, const char* which)
{
  MC_CHECK(m.rows() == before.rows() && m.cols() == before.cols() && m == before, std::string(op) + ":operand-changed", op << ": the " << which << " operand changed");
}

// A: LU factors, b and x of independent sizes.
template<class B, class L, class VX, class VB, int FX, int FB> void systems()
{
  using M = matrix<double, dynamic<>, B, L>;
  const int op = mc::choose(4), r = pick(DIM), c = op & 2 ? r : pick(DIM), n = FB >= 0 ? FB : pick(DIM), k = FX >= 0 ? FX : op & 1 ? pick(DIM) : n;
  M a(r, c); regular(a);
  VX x(k); VB b(n);
  auto go = [&](const char* name, int mask, bool square, auto f, auto&& operand) {
    const auto before = operand;
    const int got = run(f);
    expect(name, got, mask);
    same_matrix(name, operand, before, "matrix");
    unchanged(name, b.v, n, "right-hand side");
    if(got != OK || !(op & 1)) unchanged(name, x.v, k, "result");
    (void) square;
    mc::state(mc::Hash()(op)(r)(c)(n)(k)(got));
  };
  const bool ok = r == c && n == r && (op & 1 ? k == r : true);
  const int bad = r == c ? MINNER : MSQ | MINNER;
  if(op == 0) go("lu_solve(A,b)", ok ? OK : bad, true, [&] { V y(lu_solve(a, b.v)); MC_CHECK(y.size() == n, "lu_solve(A,b)", y.size()); }, a);
  else if(op == 1) go("lu_solve(A,x,b)", ok ? OK : bad, true, [&] { lu_solve(a, x.v, b.v); }, a);
  else {
    auto p = lu_pivot(a);
    MC_CHECK(p.sign != 0, "lu_pivot", r);
    if(op == 2) go("lu_solve(P,b)", ok ? OK : bad, true, [&] { V y(lu_solve(p, b.v)); MC_CHECK(y.size() == n, "lu_solve(P,b)", y.size()); }, p.lu);
    else go("lu_solve(P,x,b)", ok ? OK : bad, true, [&] { lu_solve(p, x.v, b.v); }, p.lu);
  }
}
// A fixed-size factorisation with run-time sized vectors.
template<class VX, class VB> void fixed_systems()
{
  using M = matrix<double, fixed<3, 3>>;
  const int op = mc::choose(4), n = pick(DIM + 1), k = op & 1 ? pick(DIM + 1) : n;
  M a; regular(a); const M before = a;
  VX x(k); VB b(n);
  const auto p = lu_pivot(a);
  const bool ok = n == 3 && k == 3;
  static const char* names[] = {"lu_solve(fixed A,b)", "lu_solve(fixed A,x,b)", "lu_solve(fixed P,b)", "lu_solve(fixed P,x,b)"};
  const int got = run([&] {
    switch(op) { case 0: { V y(lu_solve(a, b.v)); break; } case 1: lu_solve(a, x.v, b.v); break; case 2: { V y(lu_solve(p, b.v)); break; } default: lu_solve(p, x.v, b.v); }
  });
  expect(names[op], got, ok ? OK : MINNER);
  same_matrix(names[op], a, before, "matrix");
  unchanged(names[op], b.v, n, "right-hand side");
  if(got != OK || !(op & 1)) unchanged(names[op], x.v, k, "result");
  mc::state(mc::Hash()(op)(n)(k)(got));
}
template<class B, class L> void pivot_in_place()
{
  using M = matrix<double, dynamic<>, B, L>;
  const int r = pick(DIM), c = pick(DIM);
  M a(r, c); regular(a);
  lu_pivot_result<M> p(a); p.sign = 9;
  const int got = run([&] { lu_pivot(p); });
  expect("lu_pivot(P)", got, r == c ? OK : MSQ);
  if(got != OK) { same_matrix("lu_pivot(P)", p.lu, a, "factor"); MC_CHECK(p.sign == 9, "lu_pivot(P):operand-changed", p.sign); }
  mc::state(mc::Hash()(r)(c)(got));
}

// B: lists.
template<class Q> void quaternion_lists()
{
  const int n = mc::choose(7), op = mc::choose(4);
  Q q; for(int i = 0; i < 4; ++i) q[i] = i + 1;
  const double e[4] = {21, 22, 23, 24};
  static const char* names[] = {"q={list}", "temporary q={list}", "quaternion({list})", "q={int list}"};
  Q t = q;
  const int got = run([&] {
    using D = std::initializer_list<double>; using I = std::initializer_list<int>;
    auto put = [&](auto l) { if(op == 0 || op == 3) q = l; else if(op == 1) t = (Q(q) = l); else { Q x(l); t = x; } };
    if(op == 3) switch(n) { case 0: put(I{}); break; case 1: put(I{21}); break; case 2: put(I{21, 22}); break; case 3: put(I{21, 22, 23}); break; case 4: put(I{21, 22, 23, 24}); break; case 5: put(I{21, 22, 23, 24, 25}); break; default: put(I{21, 22, 23, 24, 25, 26}); }
    else switch(n) { case 0: put(D{}); break; case 1: put(D{21}); break; case 2: put(D{21, 22}); break; case 3: put(D{21, 22, 23}); break; case 4: put(D{21, 22, 23, 24}); break; case 5: put(D{21, 22, 23, 24, 25}); break; default: put(D{21, 22, 23, 24, 25, 26}); }
  });
  if(n == 4) MC_CHECK(got == OK, std::string(names[op]) + ":spurious-error", name(got));
  else MC_CHECK(got != OK, std::string(names[op]) + ":missing-error", n << " elements accepted");
  const bool w = got == OK && (op == 0 || op == 3);
  for(int i = 0; i < 4; ++i) {
    MC_CHECK(q[i] == (w ? e[i] : i + 1), std::string(names[op]) + ":operand-changed", "coefficient " << i << " is " << q[i]);
    if(got == OK && !w) MC_CHECK(t[i] == e[i], names[op], "coefficient " << i << " is " << t[i]);
  }
  mc::state(mc::Hash()(n)(op)(got));
}

// C: several results of independent sizes.
void results()
{
  const int op = mc::choose(4), K = op == 0 || op == 2 ? 3 : op == 1 ? 3 : 2;
  const int n[3] = {mc::choose(5), mc::choose(5), K == 3 ? mc::choose(5) : 3};
  Ext x(n[0]), y(n[1]), z(n[2]);
  static const char* names[] = {"quaternion_get_basis_vectors", "matrix_get_basis_vectors", "matrix_get_transposed_basis_vectors", "matrix_get_basis_vectors_2D"};
  const bool ok = op == 3 ? n[0] == 2 && n[1] == 2 : n[0] == 3 && n[1] == 3 && n[2] == 3;
  const int got = run([&] {
    quaterniond q(.5, .5, .5, .5); matrix33d m; m.identity();
    switch(op) {
    case 0: quaternion_get_basis_vectors(q, x.v, y.v, z.v); break;
    case 1: matrix_get_basis_vectors(m, x.v, y.v, z.v); break;
    case 2: matrix_get_transposed_basis_vectors(m, x.v, y.v, z.v); break;
    case 3: matrix_get_basis_vectors_2D(m, x.v, y.v); break;
    }
  });
  expect(names[op], got, ok ? OK : VINC | VMIN | VSIZE | VRANGE);
  if(got != OK) { unchanged(names[op], x.v, n[0], "first"); unchanged(names[op], y.v, n[1], "second"); unchanged(names[op], z.v, n[2], "third"); }
  mc::state(mc::Hash()(op)(n[0])(n[1])(n[2]));
}

// D: two matrices of independent shapes.
template<class B, class L> void two_matrices()
{
  using M = matrix<double, dynamic<>, B, L>;
  const bool row = std::is_same<B, row_basis>::value;
  const int op = mc::choose(4), r = mc::choose(6), c = mc::choose(6), s = mc::choose(6), t = mc::choose(6);
  M a(r, c), b(s, t); MatInit<void>::set(a); MatInit<void>::set(b);
  auto l3 = [](int p, int q) { return p >= 3 && q >= 3; };
  const bool a3 = row ? r >= 4 && c >= 3 : c >= 4 && r >= 3;
  static const char* names[] = {"matrix_concat", "matrix_linear_transform", "matrix_affine_transform", "extract_frustum_planes(mv,p)"};
  const bool square = r == c && s == t, ok = op == 0 ? square && r == s : op == 1 ? l3(r, c) && l3(s, t) : op == 2 ? a3 && l3(s, t) : square && r == s && r >= 4;
  double p[6][4]; for(auto& q : p) for(double& e : q) e = -77;
  const int got = run([&] {
    switch(op) {
    case 0: { M o(matrix_concat(a, b)); MC_CHECK(o.rows() == r && o.cols() == r, "matrix_concat", o.rows()); break; }
    case 1: matrix_linear_transform(a, b); break;
    case 2: matrix_affine_transform(a, b, vector3d(1., 2., 3.)); break;
    case 3: extract_frustum_planes(a, b, p, z_clip_zero, false); break;
    }
  });
  expect(names[op], got, ok ? OK : op == 0 ? MSQ | MINNER : op == 3 ? MSQ | MINNER | MMIN | MSIZE : MMIN | AFF);
  // The documented error of an operand that is not square takes precedence.
  if(op == 0 && !square) MC_CHECK(got == MSQ, "matrix_concat:wrong-error", r << "x" << c << " and " << s << "x" << t << ": " << name(got));
  if(got != OK || op == 0 || op == 3) unchanged(names[op], a, r, c, "first");
  unchanged(names[op], b, s, t, "second");
  if(got != OK) for(auto& q : p) for(double e : q) MC_CHECK(e == -77, std::string(names[op]) + ":operand-changed", "planes written");
  mc::state(mc::Hash()(op)(r)(c)(s)(t));
}

struct Reg
{
  Reg()
  {
    using RB = row_basis; using CB = col_basis; using RM = row_major; using CM = col_major;
    mc::add("systems dynamic row", systems<RB, RM, Dyn, Dyn, -1, -1>); mc::add("systems dynamic col", systems<CB, CM, Ext, Dyn, -1, -1>);
    mc::add("systems external", systems<CB, RM, Dyn, Ext, -1, -1>); mc::add("systems const external", systems<RB, CM, Ext, Ext, -1, -1>);
    mc::add("systems fixed result", systems<CB, RM, Fix<3>, Dyn, 3, -1>); mc::add("systems fixed side", systems<RB, CM, Dyn, Fix<3>, -1, 3>); mc::add("systems fixed vectors", systems<CB, CM, Fix<2>, Fix<2>, 2, 2>);
    mc::add("fixed systems", fixed_systems<Dyn, Ext>); mc::add("fixed systems external", fixed_systems<Ext, Dyn>);
    mc::add("large systems dynamic", large(systems<CB, RM, Dyn, Dyn, -1, -1>));
    mc::add("pivot in place row", pivot_in_place<RB, RM>); mc::add("pivot in place col", pivot_in_place<CB, CM>);
    mc::add("quaternion lists imaginary first", quaternion_lists<quaternion<double, fixed<>, imaginary_first>>);
    mc::add("quaternion lists real first", quaternion_lists<quaternion<float, fixed<>, real_first>>);
    mc::add("several results", results);
    mc::add("two matrices row", two_matrices<RB, RM>); mc::add("two matrices col", two_matrices<CB, CM>); mc::add("two matrices col row", two_matrices<CB, RM>);
  }
} reg;
} // namespace
