// C04: the size-checking functions themselves (public, and the guard behind every other size error).
#include "sizes.h"

namespace {
using namespace sz;
using namespace cml;

template<int N, class V> int constant_checks(const V& v, int op, int n)
{
  if(n == N) return run([&] { if(op == 0) check_size(v, int_c<N>()); else if(op == 1) check_minimum_size(v, int_c<N>()); else check_size_range(v, int_c<N>(), int_c<N + 2>()); });
  if constexpr(N > 0) return constant_checks<N - 1>(v, op, n); else return OTHER;
}
template<class S> void vector_checks()
{
  const int k = mc::choose(7), op = mc::choose(9), n = mc::choose(7);
  S s(k); auto& v = s.v; const int size = v.size();
  const auto twice = v + v;
  int got = OTHER, want = OK;
  switch(op) {
  case 0: case 1: case 2: got = constant_checks<6>(v, op, n); want = op == 0 ? (size == n ? OK : VSIZE) : op == 1 ? (size >= n ? OK : VMIN) : size >= n && size <= n + 2 ? OK : VRANGE; break;
  case 3: got = run([&] { check_size(v, n); }); want = size == n ? OK : VSIZE; break;
  case 4: got = run([&] { check_minimum_size(v, n); }); want = size >= n ? OK : VMIN; break;
  case 5: { const int h = n + mc::choose(3); got = run([&] { check_size_range(v, n, h); }); want = size >= n && size <= h ? OK : VRANGE; break; }
  case 6: { Dyn d(n); got = run([&] { check_same_size(v, d.v); }); want = size == n ? OK : VINC; if(got == want) got = run([&] { check_same_size(d.v, v); }); break; }
  case 7: { std::vector<double> d(size_t(n), 1.); got = run([&] { check_same_size(v, d); }); want = size == n ? OK : VINC; break; }
  case 8: { Ext d(n); got = run([&] { check_same_size(twice, d.v * 2.); }); want = size == n ? OK : VINC; break; }
  }
  static const char* names[] = {"check_size(v,c)", "check_minimum_size(v,c)", "check_size_range(v,c,c)", "check_size(v,n)", "check_minimum_size(v,n)", "check_size_range(v,n,m)", "check_same_size(v,w)", "check_same_size(v,std::vector)", "check_same_size(expr,expr)"};
  expect(names[op], got, want);
  unchanged(names[op], v, size, "left");
  mc::state(mc::Hash()(k)(op)(n));
}
void array_checks()
{
  const int k = mc::choose(7), op = mc::choose(4);
  Dyn v(k);
  const double a1[1] = {1}, a3[3] = {1, 2, 3}; const float a4[4] = {1, 2, 3, 4}; const int a6[6] = {1, 2, 3, 4, 5, 6};
  const int got = run([&] { if(op == 0) check_same_size(v.v, a1); else if(op == 1) check_same_size(v.v, a3); else if(op == 2) check_same_size(v.v, a4); else check_same_size(v.v, a6); });
  const int n[] = {1, 3, 4, 6};
  expect("check_same_size(v,array)", got, k == n[op] ? OK : VINC);
  mc::state(mc::Hash()(k)(op));
}

template<int R, int C, class M> int constant_shapes(const M& m, int op, int r, int c)
{
  if(r == R && c == C) return run([&] { if(op == 0) check_size(m, int_c<R>(), int_c<C>()); else check_minimum_size(m, int_c<R>(), int_c<C>()); });
  if constexpr(C > 0) return constant_shapes<R, C - 1>(m, op, r, c);
  else if constexpr(R > 0) return constant_shapes<R - 1, 4>(m, op, r, c);
  else return OTHER;
}
template<class S, int FR, int FC> void matrix_checks()
{
  const int r = FR >= 0 ? FR : mc::choose(5), c = FC >= 0 ? FC : mc::choose(5), op = mc::choose(24), p = mc::choose(5), q = mc::choose(5);
  S s(r, c); auto& m = s.m;
  using B = basis_tag_trait_of_t<std::decay_t<decltype(m)>>;
  const bool row = std::is_same<B, row_basis>::value;
  int got = OTHER, want = OK; const char* nm = "";
  const bool one = p == 0 && q == 0; // operations of m alone
  auto go = [&](const char* n, bool ok, int err, auto f) { nm = n; want = ok ? OK : err; got = run(f); };
  matrix<double, dynamic<>, B, row_major> o(p, q); MatInit<void>::set(o);
  Dyn v(p);
  switch(op) {
  case 0: nm = "check_size(m,c,c)"; want = r == p && c == q ? OK : MSIZE; got = constant_shapes<4, 4>(m, 0, p, q); break;
  case 1: nm = "check_minimum_size(m,c,c)"; want = r >= p && c >= q ? OK : MMIN; got = constant_shapes<4, 4>(m, 1, p, q); break;
  case 2: go("check_size(m,r,c)", r == p && c == q, MSIZE, [&] { check_size(m, p, q); }); break;
  case 3: go("check_minimum_size(m,r,c)", r >= p && c >= q, MMIN, [&] { check_minimum_size(m, p, q); }); break;
  case 4: go("check_same_size(m,o)", r == p && c == q, MINC, [&] { check_same_size(m, o); }); break;
  case 5: go("check_same_size(o,m)", r == p && c == q, MINC, [&] { check_same_size(o, m); }); break;
  case 6: go("check_same_row_size(m,o)", r == p, MROW, [&] { check_same_row_size(m, v.v); }); break;
  case 7: go("check_same_col_size(m,o)", c == p, MCOL, [&] { check_same_col_size(m, v.v); }); break;
  case 8: go("check_same_inner_size(m,o)", c == p, MINNER, [&] { check_same_inner_size(m, o); }); break;
  case 9: go("check_same_inner_size(o,m)", r == q, MINNER, [&] { check_same_inner_size(o, m); }); break;
  case 10: go("check_same_inner_size(m,v)", c == p, MINNER, [&] { check_same_inner_size(m, v.v); }); break;
  case 11: go("check_same_inner_size(v,m)", r == p, MINNER, [&] { check_same_inner_size(v.v, m); }); break;
  case 12: go("check_linear_size(m,n)", r * c == 5 * p + q, MSIZE, [&] { check_linear_size(m, 5 * p + q); }); break;
  case 13: { std::vector<double> l(size_t(5 * p + q), 1.); go("check_same_linear_size(m,std::vector)", r * c == 5 * p + q, MINC | MSIZE, [&] { check_same_linear_size(m, l); }); break; }
  case 14: { if(FR >= 0) return; const double a[6] = {1, 2, 3, 4, 5, 6}; if(!one) return; go("check_same_linear_size(m,array)", r * c == 6, MINC | MSIZE, [&] { if constexpr(FR < 0) check_same_linear_size(m, a); }); break; }
  case 15: { if(FR >= 0) return; const double a[2][3] = {{1, 2, 3}, {4, 5, 6}}; if(!one) return; go("check_same_size(m,array)", r == 2 && c == 3, MINC, [&] { if constexpr(FR < 0) check_same_size(m, a); }); break; }
  case 16: { if(!one || FR >= 0) return; go("check_linear_size(m,c)", r * c == 6, MSIZE, [&] { if constexpr(FR < 0) check_linear_size(m, int_c<6>()); }); break; }
  case 17: { if(!one || FR >= 0) return; go("check_square(m)", r == c, MSQ, [&] { if constexpr(FR < 0) check_square(m); }); break; }
  case 18: { if(!one || FR >= 0) return; go("check_linear_2D(m)", r >= 2 && c >= 2, MMIN, [&] { if constexpr(FR < 0) check_linear_2D(m); }); break; }
  case 19: { if(!one || FR >= 0) return; go("check_linear_3D(m)", r >= 3 && c >= 3, MMIN, [&] { if constexpr(FR < 0) check_linear_3D(m); }); break; }
  case 20: { if(!one || FR >= 0) return; go("check_affine_2D(m)", row ? r >= 3 && c >= 2 : r >= 2 && c >= 3, MMIN | AFF, [&] { if constexpr(FR < 0) check_affine_2D(m); }); break; }
  case 21: { if(!one || FR >= 0) return; go("check_affine_3D(m)", row ? r >= 4 && c >= 3 : r >= 3 && c >= 4, MMIN | AFF, [&] { if constexpr(FR < 0) check_affine_3D(m); }); break; }
  case 22: { if(!one || FR >= 0) return; go("check_same_size(expr,expr)", true, MINC, [&] { check_same_size(m * 2., m + m); }); break; }
  case 23: go("check_same_size(expr,o)", r == p && c == q, MINC, [&] { check_same_size(m * 2., o * 3.); }); break;
  }
  expect(nm, got, want);
  unchanged(nm, m, r, c, "left");
  mc::state(mc::Hash()(r)(c)(op)(p)(q));
}

struct Reg
{
  Reg()
  {
    using RB = row_basis; using CB = col_basis; using RM = row_major; using CM = col_major;
    mc::add("vector checks dynamic", vector_checks<Dyn>); mc::add("vector checks external", vector_checks<Ext>); mc::add("vector checks const external", vector_checks<CExt>);
    mc::add("array checks", array_checks);
    mc::add("matrix checks dynamic row", matrix_checks<MDyn<RB, RM>, -1, -1>); mc::add("matrix checks dynamic col", matrix_checks<MDyn<CB, CM>, -1, -1>);
    mc::add("matrix checks external", matrix_checks<MExt<CB, RM>, -1, -1>);
  }
} reg;
} // namespace
