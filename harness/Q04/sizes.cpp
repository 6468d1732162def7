#include "euler.h"
namespace q04 {
template<class F> std::string thrown(F f)
{
  try { f(); }
  catch(const vector_size_error&) { return "vector_size_error"; }
  catch(const minimum_matrix_size_error&) { return "minimum_matrix_size_error"; }
  catch(const std::exception& e) { return std::string("exception ") + e.what(); }
  return "none";
}
// Sizes known only at run time.
template<class E, class B, class L> void sizes()
{
  const int op = mc::choose(5), r = mc::choose(6), c = op == 1 || op == 4 ? 3 : mc::choose(6);
  const Order& o = orders()[size_t(mc::choose(12))];
  if(op == 2 && o.name[0] == o.name[2]) return;
  matrix<E, dynamic<>, B, L> m(r, c);
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) m(i, j) = E(i == j);
  vector<E, dynamic<>> v(r);
  for(int i = 0; i < r; ++i) v[i] = E(.5);
  quaternion<E, fixed<>, imaginary_first, positive_cross> q;
  matrix<E, fixed<3,3>, B, L> f;
  const std::string small = r < 3 || c < 3 ? "minimum_matrix_size_error" : "none", three = r != 3 ? "vector_size_error" : "none";
  std::string got, want = small;
  mc::step();
  E x, y, z;
  if(op == 0) got = thrown([&] { matrix_rotation_euler(m, E(.1), E(.2), E(.3), o.order); });
  if(op == 1) want = three, got = thrown([&] { matrix_rotation_euler(f, v, o.order); });
  if(op == 2) got = thrown([&] { matrix_rotation_euler_derivatives(m, 1, E(.1), E(.2), E(.3), o.order); });
  if(op == 3) got = thrown([&] { matrix_to_euler(m, x, y, z, o.order); });
  if(op == 4) want = three, got = thrown([&] { quaternion_rotation_euler(q, v, o.order); });
  mc::state(mc::Hash()(op)(r)(c));
  MC_CHECK(got == want, "size rule", "op " << op << " size " << r << "," << c << ": " << got << " instead of " << want);
  if(op == 0 && want == "none") {
    const double a[3] = {.1, .2, .3};
    const mat R = compose(o, a);
    mat W(r, c);
    for(int i = 0; i < r && i < c; ++i) W(i, i) = 1;
    for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) W(i, j) = is_row<decltype(m)>() ? R(j, i) : R(i, j);
    MC_CHECK(ref::near(ref::readm(m), W, tol<E>()), "rest of a larger matrix", ref::readm(m));
  }
}
} // namespace q04
namespace { struct R { R() { using namespace q04;
mc::add("sizes double col row", sizes<double, col_basis, row_major>);
mc::add("sizes float row col", sizes<float, row_basis, col_major>);
} } r; }
