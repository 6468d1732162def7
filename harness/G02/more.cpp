#include "frames.h"
namespace g02 {
// Inputs and outputs of every element type and storage kind.
template<class A, class R, class X, class B> void types()
{
  const vec a = dir(), r = dir();
  vec ai, ri;
  // Whole numbers only, so that integer inputs mean the same.
  for(double d : a) ai.push_back(std::round(2 * d));
  for(double d : r) ri.push_back(std::round(2 * d));
  if(ref::len(ref::cross(ai, ri)) < 1e-9) { mc::state(1); return; }
  const Order& o = choose_order();
  const double t = 4 * (sizeof(X) == 4 ? tol<float>() : sizeof(A) == 4 && sizeof(R) == 4 && sizeof(X) == 4 ? tol<float>() : tol<double>()) * condition(ai, ri);
  A ab[3] = {A(ai[0]), A(ai[1]), A(ai[2])};
  R rb[3] = {R(ri[0]), R(ri[1]), R(ri[2])};
  X xb[3], yb[3], zb[3];
  std::string why;
  mc::step(2);
  const int form = mc::choose(4);
  auto run = [&](const auto& al, const auto& rl) {
    if(form == 0) {
      vector<X, fixed<3>> x, y, z;
      orthonormal_basis(al, rl, x, y, z, true, o.order);
      MC_CHECK(frame_ok(columns(x, y, z), o, ai, ri, t, why), std::string("fixed ") + o.name, ai << " toward " << ri << ": " << why);
      mc::state(ref::hash(columns(x, y, z)));
    } else if(form == 1) {
      vector<X, dynamic<>> x, y, z(5);
      orthonormal_basis(al, rl, x, y, z, true, o.order);
      MC_CHECK(x.size() == 3 && y.size() == 3 && z.size() == 3, "outputs resized", x.size() << y.size() << z.size());
      MC_CHECK(frame_ok(columns(x, y, z), o, ai, ri, t, why), std::string("dynamic ") + o.name, ai << " toward " << ri << ": " << why);
    } else if(form == 2) {
      vector<X, external<3>> x(xb), y(yb);
      vector<X, external<>> z(zb, 3);
      orthonormal_basis(al, rl, x, y, z, true, o.order);
      MC_CHECK(frame_ok(columns(x, y, z), o, ai, ri, t, why), std::string("external ") + o.name, ai << " toward " << ri << ": " << why);
    } else {
      matrix<X, fixed<3,3>, B, row_major> m;
      matrix_rotation_align(m, al, rl, true, o.order);
      MC_CHECK(frame_ok(colmap(m), o, ai, ri, t, why), std::string("matrix ") + o.name, ai << " toward " << ri << ": " << why);
    }
  };
  const int in = mc::choose(4);
  if(in == 0) { vector<A, fixed<3>> al; vector<R, fixed<3>> rl; al.set(ab[0], ab[1], ab[2]); rl.set(rb[0], rb[1], rb[2]); run(al, rl); }
  else if(in == 1) { vector<A, dynamic<>> al(3, &ab[0]); vector<R, dynamic<>> rl(3, &rb[0]); run(al, rl); }
  else if(in == 2) { vector<const A, external<3>> al(ab); vector<const R, external<>> rl(rb, 3); run(al, rl); }
  else { vector<A, fixed<3>> al; vector<R, fixed<3>> rl; al.set(ab[0], ab[1], ab[2]); rl.set(rb[0], rb[1], rb[2]); run(al + al, A(3) * al - al + rl * R(2)); }
}
// The inputs may be the outputs.
template<class E> void aliased()
{
  const vec a = dir(), r = dir();
  if(ref::len(ref::cross(a, r)) < 1e-9) { mc::state(1); return; }
  const Order& o = choose_order();
  vector<E, compiled<3>> v[3];
  const int ia = mc::choose(3), ir = (ia + 1 + mc::choose(2)) % 3;
  v[ia] = v3<E>(a), v[ir] = v3<E>(r);
  std::string why;
  mc::step();
  orthonormal_basis(v[ia], v[ir], v[0], v[1], v[2], true, o.order);
  mc::state(ref::hash(columns(v[0], v[1], v[2])));
  MC_CHECK(frame_ok(columns(v[0], v[1], v[2]), o, a, r, 4 * tol<E>() * condition(a, r), why), o.name, a << " toward " << r << " in " << ia << ir << ": " << why);
}
// In the plane.
template<class E, class A, class B, class L> void plane()
{
  const double x0 = mc::choose(7) - 3, y0 = mc::choose(7) - 3;
  if(x0 == 0 && y0 == 0) { mc::state(1); return; }
  const bool yx = mc::choose(2), norm = mc::choose(2);
  vec a{x0, y0};
  if(!norm) { if(std::is_integral<A>::value && x0 * x0 + y0 * y0 != 1) { mc::state(2); return; } a = ref::unit(a); }
  vector<A, fixed<2>> al;
  al.set(A(a[0]), A(a[1]));
  const vec u = ref::unit(a);
  mat W(2, 2);
  // Axis along `align`, the other a quarter turn from it so that det = +1.
  if(yx) W.d = {u[1], u[0], -u[0], u[1]}; else W.d = {u[0], -u[1], u[1], u[0]};
  const axis_order2D ord = yx ? axis_order_yx : axis_order_xy;
  const double t = tol<E>();
  mc::step(4);
  auto cols = [](const auto& x, const auto& y) { const vec c[2] = {ref::read(x), ref::read(y)}; mat R(2, 2); for(int k = 0; k < 2; ++k) R(k, 0) = c[0][size_t(k)], R(k, 1) = c[1][size_t(k)]; return R; };
  vector<E, fixed<2>> x, y;
  orthonormal_basis_2D(al, x, y, norm, ord);
  mc::state(ref::hash(cols(x, y)));
  MC_CHECK(ref::near(cols(x, y), W, t), "orthonormal_basis_2D", a << (yx ? " yx" : " xy") << ": " << cols(x, y) << " not " << W);
  vector<E, dynamic<>> xd, yd(4);
  orthonormal_basis_2D(al, xd, yd, norm, ord);
  MC_CHECK(xd.size() == 2 && yd.size() == 2 && ref::near(cols(xd, yd), W, t), "orthonormal_basis_2D dynamic", a);
  matrix<E, fixed<2,2>, B, L> m;
  matrix<E, fixed<3,3>, B, L> m3;
  matrix<E, dynamic<>, B, L> md(2, 2);
  matrix_rotation_align_2D(m, al, norm, ord);
  MC_CHECK(ref::near(colmap(m), W, t), "matrix_rotation_align_2D", a << (yx ? " yx" : " xy") << ": " << colmap(m));
  matrix_rotation_align_2D(m3, al, norm, ord);
  MC_CHECK(ref::near(colmap(m3), embed(W, 3), t), "matrix_rotation_align_2D 3x3", a << (yx ? " yx" : " xy") << ": " << colmap(m3));
  matrix_rotation_align_2D(md, al, norm, ord);
  MC_CHECK(ref::near(colmap(md), W, t), "matrix_rotation_align_2D dynamic", a);
  if(norm && !yx) {
    matrix_rotation_align_2D(m, al);
    MC_CHECK(ref::near(colmap(m), W, t), "matrix_rotation_align_2D defaults", a);
    orthonormal_basis_2D(al, x, y);
    MC_CHECK(ref::near(cols(x, y), W, t), "orthonormal_basis_2D defaults", a);
  }
  // Into its own input.
  if(!std::is_integral<A>::value) {
    vector<E, fixed<2>> p, q2;
    p.set(E(a[0]), E(a[1]));
    orthonormal_basis_2D(p, q2, p, norm, ord);
    MC_CHECK(ref::near(cols(q2, p), W, t), "orthonormal_basis_2D into its input", a << (yx ? " yx" : " xy"));
  }
}
template<class F> std::string thrown(F f)
{
  try { f(); }
  catch(const vector_size_error&) { return "vector_size_error"; }
  catch(const incompatible_vector_size_error&) { return "vector_size_error"; }
  catch(const minimum_matrix_size_error&) { return "minimum_matrix_size_error"; }
  catch(const std::exception& e) { return std::string("exception ") + e.what(); }
  return "none";
}
template<class E, class B, class L> void sizes()
{
  const int op = mc::choose(5), na = mc::choose(6), nr = op == 3 || op == 4 ? 3 : mc::choose(6), rows = op == 1 || op == 4 ? mc::choose(6) : 3, cols = op == 1 || op == 4 ? mc::choose(6) : 3;
  vector<E, dynamic<>> a(na), r(nr), x, y, z;
  for(int i = 0; i < na; ++i) a[i] = E(i == 0);
  for(int i = 0; i < nr; ++i) r[i] = E(i == 1);
  matrix<E, dynamic<>, B, L> m(rows, cols);
  quaternion<E, fixed<>, imaginary_first, positive_cross> q;
  const bool bad3 = na != 3 || nr != 3, small3 = rows < 3 || cols < 3, small2 = rows < 2 || cols < 2;
  std::string got, want;
  mc::step();
  if(op == 0) got = thrown([&] { orthonormal_basis(a, r, x, y, z); }), want = bad3 ? "vector_size_error" : "none";
  if(op == 1) got = thrown([&] { matrix_rotation_align(m, a, r); }), want = small3 ? "minimum_matrix_size_error" : bad3 ? "vector_size_error" : "none";
  if(op == 2) got = thrown([&] { quaternion_rotation_align(q, a, r); }), want = bad3 ? "vector_size_error" : "none";
  if(op == 3) got = thrown([&] { orthonormal_basis_2D(a, x, y); }), want = na != 2 ? "vector_size_error" : "none";
  if(op == 4) got = thrown([&] { matrix_rotation_align_2D(m, a); }), want = small2 ? "minimum_matrix_size_error" : na != 2 ? "vector_size_error" : "none";
  mc::state(mc::Hash()(op)(na)(nr)(rows)(cols));
  const bool both = (op == 1 && small3 && bad3) || (op == 4 && small2 && na != 2);
  MC_CHECK(both ? got != "none" : got == want, "size rule", "op " << op << " align " << na << " reference " << nr << " matrix " << rows << "x" << cols << ": " << got << " instead of " << want);
}
} // namespace g02
namespace { struct R { R() { using namespace g02;
mc::add("types double double double", types<double, double, double, col_basis>);
mc::add("types int int double", types<int, int, double, row_basis>);
mc::add("types int double double", types<int, double, double, col_basis>);
mc::add("types double int double", types<double, int, double, row_basis>);
mc::add("types float float float", types<float, float, float, row_basis>);
mc::add("types int int float", types<int, int, float, col_basis>);
mc::add("types double float float", types<double, float, float, col_basis>);
mc::add("aliased double", aliased<double>);
mc::add("aliased float", aliased<float>);
mc::add("plane double row row", plane<double, double, row_basis, row_major>);
mc::add("plane double col col", plane<double, double, col_basis, col_major>);
mc::add("plane double int col row", plane<double, int, col_basis, row_major>);
mc::add("plane float row col", plane<float, float, row_basis, col_major>);
mc::add("plane float int col row", plane<float, int, col_basis, row_major>);
mc::add("sizes double", sizes<double, col_basis, row_major>);
mc::add("sizes float", sizes<float, row_basis, col_major>);
} } r; }
