#include "forms.h"
// Sizes known only at run time.
namespace q03 {
template<class F> std::string thrown(F f)
{
  try { f(); }
  catch(const vector_size_error&) { return "vector_size_error"; }
  catch(const minimum_matrix_size_error&) { return "minimum_matrix_size_error"; }
  catch(const std::exception& e) { return std::string("exception ") + e.what(); }
  return "none";
}
template<class E, class B, class L> void sizes()
{
  using D = vector<E, dynamic<>>;
  using DM = matrix<E, dynamic<>, B, L>;
  using Q = quaternion<E, fixed<>, imaginary_first, positive_cross>;
  const int op = mc::choose(6), r = mc::choose(6), c = op == 0 || op == 3 || op == 4 || op == 5 ? mc::choose(6) : 3;
  Q q;
  quaternion_rotation_axis_angle(q, v3<E>({0, 0, 1}), E(.5));
  DM m(r, c);
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) m(i, j) = E(i == j);
  D v(r);
  for(int i = 0; i < r; ++i) v[i] = E(i == 1);
  E an = 0;
  std::string got, want = "none";
  mc::step();
  if(op == 0) { want = r < 3 || c < 3 ? "minimum_matrix_size_error" : "none"; got = thrown([&] { quaternion_rotation_matrix(q, m); });
    if(want == "none") MC_CHECK(rq::near(rq::read(q), rq::Q{1, 0, 0, 0}, tol<E>()), "identity of any size", r << "x" << c); }
  if(op == 1) { want = r != 3 ? "vector_size_error" : "none"; got = thrown([&] { quaternion_rotation_axis_angle(q, v, E(1)); }); }
  if(op == 2) { got = thrown([&] { quaternion_to_axis_angle(q, v, an); });
    MC_CHECK(v.size() == 3 && ref::near(ref::read(v), vec{0, 0, 1}, tol<E>()) && ref::near(an, .5, tol<E>()), "resized axis", r << ": " << ref::read(v)); }
  if(op == 3) { want = r < 3 || c < 3 ? "minimum_matrix_size_error" : "none"; got = thrown([&] { matrix_rotation_quaternion(m, q); });
    if(want == "none") {
      mat R(r, c);
      for(int i = 0; i < r && i < c; ++i) R(i, i) = 1;
      const mat z = ref::rodrigues({0, 0, 1}, .5), zz = is_row<DM>() ? ref::transpose(z) : z;
      for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) R(i, j) = zz(i, j);
      MC_CHECK(ref::near(ref::readm(m), R, tol<E>()), "rotation in a larger matrix", ref::readm(m) << " not " << R);
    } }
  if(op == 4) { want = r < 3 || c < 3 ? "minimum_matrix_size_error" : "none"; D x(c); got = thrown([&] { matrix_to_axis_angle(m, x, an); });
    if(want == "none") MC_CHECK(x.size() == 3 && ref::len(ref::read(x)) == 0 && an == 0, "identity has no axis", r << "x" << c); }
  if(op == 5) { const bool bad = r != 3 || c != 3; D n(c); for(int i = 0; i < c; ++i) n[i] = E(i == 2);
    got = thrown([&] { const vec o = ref::read(rotate_vector(v, n, E(pi / 2))); if(!bad) MC_CHECK(ref::near(o, vec{-1, 0, 0}, tol<E>()), "rotate dynamic", o); });
    want = bad ? "vector_size_error" : "none"; }
  mc::state(mc::Hash()(op)(r)(c));
  MC_CHECK(got == want, "size rule", "op " << op << " size " << r << "," << c << ": " << got << " instead of " << want);
}
// Axis vectors of every storage kind.
template<class E> void axes()
{
  using Q = quaternion<E, fixed<>, imaginary_first, positive_cross>;
  const vec u = choose_unit();
  const double a = choose_angle();
  const mat R = ref::rodrigues(u, a);
  E buf[3] = {E(u[0]), E(u[1]), E(u[2])}, out[3] = {9, 9, 9};
  vector<E, external<3>> xv(buf), xo(out);
  vector<E, external<>> dv(buf, 3), dxo(out, 3);
  vector<const E, external<3>> cv(buf);
  vector<E, dynamic<>> yv(3), yo;
  for(int i = 0; i < 3; ++i) yv[i] = buf[i];
  matrix<E, fixed<3,3>> m;
  Q q;
  E an;
  const int in = mc::choose(5), o = mc::choose(3);
  mc::step(4);
  auto build = [&](const auto& ax) { matrix_rotation_axis_angle(m, ax, E(a)); quaternion_rotation_axis_angle(q, ax, E(a)); };
  if(in == 0) build(xv); else if(in == 1) build(dv); else if(in == 2) build(cv); else if(in == 3) build(yv); else build(E(1) * xv);
  MC_CHECK(ref::near(colmap(m), R, tol<E>()), "matrix", u << " " << a);
  MC_CHECK(ref::near(rotation(rq::read(q)), R, tol<E>()), "quaternion", u << " " << a);
  auto back = [&](auto& ax) {
    quaternion_to_axis_angle(q, ax, an);
    const vec g = ref::read(ax);
    MC_CHECK(ref::near(ref::len(g) ? ref::rodrigues(ref::unit(g), double(an)) : mat::identity(3), R, tol<E>()), "axis back", u << " " << a << ": " << g << " " << an);
    matrix_to_axis_angle(m, ax, an);
    const vec h = ref::read(ax);
    MC_CHECK(ref::near(ref::len(h) ? ref::rodrigues(ref::unit(h), double(an)) : mat::identity(3), R, tol<E>()), "axis back from matrix", u << " " << a << ": " << h << " " << an);
  };
  if(o == 0) back(xo); else if(o == 1) back(dxo); else back(yo);
  mc::state(mc::Hash().raw(ref::hash(R))(in)(o));
}
} // namespace q03
namespace { struct R { R() { using namespace q03;
mc::add("sizes double col row", sizes<double, col_basis, row_major>);
mc::add("sizes double row row", sizes<double, row_basis, row_major>);
mc::add("sizes float col col", sizes<float, col_basis, col_major>);
mc::add("sizes float row col", sizes<float, row_basis, col_major>);
mc::add("axes double", axes<double>);
mc::add("axes float", axes<float>);
} } r; }
