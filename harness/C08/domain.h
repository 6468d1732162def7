#pragma once
// C08: arguments outside a documented domain raise std::invalid_argument and change nothing; those inside never do, and
// select what they name.
#include "mc.h"
#include "all.h"
#include "ref.h"
#include "alloc.h"
#include <climits>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <vector>

namespace c08 {
using namespace ref;
using namespace cml;

enum { OK, INVALID, OTHER };
template<class F> int run(F&& f)
{
  mc::step();
  try { f(); return OK; }
  catch(const std::invalid_argument&) { return INVALID; }
  catch(const std::exception&) { return OTHER; }
}
inline void expect(const std::string& op, int got, bool admitted)
{
  static const char* n[] = {"no error", "std::invalid_argument", "another exception"};
  if(admitted) MC_CHECK(got == OK, op + ": rejected", op << " raised " << n[got] << " for an admitted argument");
  else MC_CHECK(got == INVALID, op + ": accepted", op << " raised " << n[got] << " for an argument outside its domain");
}
// Every int near the domain, and ints whose low bits lie inside it.
inline int index()
{
  static const int l[] = {0, 1, 2, -1, 3, -2, -3, 4, 5, 8, 255, 256, 257, 258, -256, 65536, 65537, 65538, -65536, 1 << 30, INT_MIN, INT_MIN + 1, INT_MIN + 2, INT_MAX, INT_MAX - 1};
  return l[mc::choose(int(sizeof l / sizeof *l))];
}
template<class M> void numbered(M& m) { for(int i = 0; i < m.rows(); ++i) for(int j = 0; j < m.cols(); ++j) m.put(i, j, 3 + i * 10 + j); }
template<class M> void untouched(const std::string& op, const M& m, int r, int c)
{
  MC_CHECK(m.rows() == r && m.cols() == c, op + ": shape changed", op << ": " << m.rows() << "x" << m.cols() << " instead of " << r << "x" << c);
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) MC_CHECK(m.get(i, j) == 3 + i * 10 + j, op + ": changed", op << ": element " << i << "," << j << " became " << m.get(i, j));
}
template<class V> void untouchedv(const std::string& op, const V& v, int n)
{
  MC_CHECK(v.size() == n, op + ": size changed", op << ": " << v.size() << " instead of " << n);
  for(int i = 0; i < n; ++i) MC_CHECK(v.get(i) == 7 + i, op + ": changed", op << ": element " << i << " became " << v.get(i));
}
template<class T> T& count(T& v) { for(int i = 0; i < v.size(); ++i) v[i] = typename std::decay_t<decltype(v[0])>(7 + i); return v; }

// A matrix of a storage kind, with its own memory.
template<class M> struct Mk { M m; };
template<class E, class B, class L> struct Mk<matrix<E, dynamic<>, B, L>> { matrix<E, dynamic<>, B, L> m; Mk() : m(4, 4) {} };
template<class E, int R, int C, class B, class L> struct Mk<matrix<E, external<R, C>, B, L>> { E buf[R * C]; matrix<E, external<R, C>, B, L> m; Mk() : m(buf) {} };
template<class E, class B, class L> struct Mk<matrix<E, external<>, B, L>> { E buf[16]; matrix<E, external<>, B, L> m; Mk() : m(4, 4, &buf[0]) {} };

// ---- axes and basis indices --------------------------------------------
template<class M> void basis_index()
{
  using E = value_type_trait_of_t<M>;
  Mk<M> k, w; M& m = k.m; M& z = w.m; numbered(m); numbered(z);
  const int r = m.rows(), c = m.cols(), i = index(), op = mc::choose(8);
  const bool two = op < 4, in = i >= 0 && i < (two ? 2 : 3);
  const vector<E, fixed<2>> v2(E(71), E(72)); const vector<E, fixed<3>> v3(E(71), E(72), E(73));
  vector<E, dynamic<>> got, want;
  static const char* names[] = {"matrix_set_basis_vector_2D", "matrix_set_transposed_basis_vector_2D", "matrix_get_basis_vector_2D", "matrix_get_transposed_basis_vector_2D",
    "matrix_set_basis_vector", "matrix_set_transposed_basis_vector", "matrix_get_basis_vector", "matrix_get_transposed_basis_vector"};
  const std::string name = names[op];
  const int res = run([&] {
    switch(op) {
    case 0: matrix_set_basis_vector_2D(m, i, v2); break;
    case 1: matrix_set_transposed_basis_vector_2D(m, i, v2); break;
    case 2: got = matrix_get_basis_vector_2D(m, i); break;
    case 3: got = matrix_get_transposed_basis_vector_2D(m, i); break;
    case 4: matrix_set_basis_vector(m, i, v3); break;
    case 5: matrix_set_transposed_basis_vector(m, i, v3); break;
    case 6: got = matrix_get_basis_vector(m, i); break;
    case 7: got = matrix_get_transposed_basis_vector(m, i); break;
    }
  });
  expect(name, res, in);
  mc::state(mc::Hash()(i)(op));
  if(!in || op % 4 > 1) untouched(name, m, r, c);
  if(!in) { MC_CHECK(got.size() == 0, name + ": result", "assigned " << got.size()); return; }
  // The named versions are the reference (they take no index).
  switch(op) {
  case 0: i == 0 ? matrix_set_x_basis_vector_2D(z, v2) : matrix_set_y_basis_vector_2D(z, v2); break;
  case 1: i == 0 ? matrix_set_transposed_x_basis_vector_2D(z, v2) : matrix_set_transposed_y_basis_vector_2D(z, v2); break;
  case 2: if(i == 0) want = matrix_get_x_basis_vector_2D(z); else want = matrix_get_y_basis_vector_2D(z); break;
  case 3: if(i == 0) want = matrix_get_transposed_x_basis_vector_2D(z); else want = matrix_get_transposed_y_basis_vector_2D(z); break;
  case 4: i == 0 ? matrix_set_x_basis_vector(z, v3) : i == 1 ? matrix_set_y_basis_vector(z, v3) : matrix_set_z_basis_vector(z, v3); break;
  case 5: i == 0 ? matrix_set_transposed_x_basis_vector(z, v3) : i == 1 ? matrix_set_transposed_y_basis_vector(z, v3) : matrix_set_transposed_z_basis_vector(z, v3); break;
  case 6: if(i == 0) want = matrix_get_x_basis_vector(z); else if(i == 1) want = matrix_get_y_basis_vector(z); else want = matrix_get_z_basis_vector(z); break;
  case 7: if(i == 0) want = matrix_get_transposed_x_basis_vector(z); else if(i == 1) want = matrix_get_transposed_y_basis_vector(z); else want = matrix_get_transposed_z_basis_vector(z); break;
  }
  if(op % 4 < 2) MC_CHECK(same(readm(m), readm(z)), name + ": index", "index " << i << ": " << readm(m) << " instead of " << readm(z));
  else {
    MC_CHECK(same(read(got), read(want)), name + ": index", "index " << i << ": " << read(got) << " instead of " << read(want));
    const int n = two ? 2 : 3; const bool rows = std::is_same<basis_tag_trait_of_t<M>, row_basis>::value == (op % 4 == 2);
    for(int j = 0; j < n; ++j) MC_CHECK(got[j] == (rows ? m.get(i, j) : m.get(j, i)), name + ": index", "index " << i << ": " << read(got) << " of " << readm(m));
  }
}

template<class M> void axis_rotation()
{
  using E = value_type_trait_of_t<M>;
  Mk<M> k, w; M& m = k.m; M& z = w.m; numbered(m); numbered(z);
  const int axis = index(), op = mc::choose(3);
  const bool in = axis >= 0 && axis <= 2;
  mc::state(mc::Hash()(axis)(op));
  if(op == 0) {
    const E t = E(mc::choose(5) - 2) * E(.6);
    expect("matrix_rotation_world_axis", run([&] { matrix_rotation_world_axis(m, axis, t); }), in);
    if(!in) return untouched("matrix_rotation_world_axis", m, m.rows(), m.cols());
    axis == 0 ? matrix_rotation_world_x(z, t) : axis == 1 ? matrix_rotation_world_y(z, t) : matrix_rotation_world_z(z, t);
    MC_CHECK(same(readm(m), readm(z)), "matrix_rotation_world_axis: axis", "axis " << axis << ": " << readm(m) << " instead of " << readm(z));
    return;
  }
  const euler_order order = euler_order(mc::choose(12));
  const bool repeat = order & 1;
  const vector<E, fixed<3>> e(E(.3), E(-.4), E(1.1));
  const std::string name = op == 1 ? "matrix_rotation_euler_derivatives(angles)" : "matrix_rotation_euler_derivatives(vector)";
  expect(name, run([&] { if(op == 1) matrix_rotation_euler_derivatives(m, axis, e[0], e[1], e[2], order); else matrix_rotation_euler_derivatives(m, axis, e, order); }), in && !repeat);
  if(!in || repeat) untouched(name, m, m.rows(), m.cols());
}

template<class Q> void quaternion_axis()
{
  using E = value_type_trait_of_t<Q>;
  const int axis = index(), op = mc::choose(2);
  const bool in = axis >= 0 && axis <= 2;
  mc::state(mc::Hash()(axis)(op));
  Q q, z; for(int i = 0; i < 4; ++i) q[i] = z[i] = E(7 + i);
  if(op == 0) {
    const E t = E(mc::choose(5) - 2) * E(.6);
    expect("quaternion_rotation_world_axis", run([&] { quaternion_rotation_world_axis(q, axis, t); }), in);
    if(!in) { for(int i = 0; i < 4; ++i) MC_CHECK(q[i] == E(7 + i), "quaternion_rotation_world_axis: changed", i); return; }
    axis == 0 ? quaternion_rotation_world_x(z, t) : axis == 1 ? quaternion_rotation_world_y(z, t) : quaternion_rotation_world_z(z, t);
    for(int i = 0; i < 4; ++i) MC_CHECK(q[i] == z[i], "quaternion_rotation_world_axis: axis", "axis " << axis << " coefficient " << i);
    return;
  }
  q.normalize(); z = q;
  vector<E, dynamic<>> got, want;
  expect("quaternion_get_basis_vector", run([&] { got = quaternion_get_basis_vector(q, axis); }), in);
  for(int i = 0; i < 4; ++i) MC_CHECK(q[i] == z[i], "quaternion_get_basis_vector: changed", i);
  if(!in) { MC_CHECK(got.size() == 0, "quaternion_get_basis_vector: result", got.size()); return; }
  if(axis == 0) want = quaternion_get_x_basis_vector(q); else if(axis == 1) want = quaternion_get_y_basis_vector(q); else want = quaternion_get_z_basis_vector(q);
  MC_CHECK(same(read(got), read(want)), "quaternion_get_basis_vector: axis", "axis " << axis << ": " << read(got) << " instead of " << read(want));
}

// ---- coordinate conversions --------------------------------------------
template<class V> struct Vk { V v; };
template<class E> struct Vk<vector<E, dynamic<>>> { vector<E, dynamic<>> v; Vk() : v(3) {} };
template<class E, int N> struct Vk<vector<E, external<N>>> { E buf[N]; vector<E, external<N>> v; Vk() : v(buf) {} };
template<class E> struct Vk<vector<E, external<>>> { E buf[3]; vector<E, external<>> v; Vk() : v(&buf[0], 3) {} };
template<class V> void coordinates()
{
  using E = value_type_trait_of_t<V>;
  Vk<V> k; V& v = k.v; count(v);
  const int axis = index(), op = mc::choose(10), type = mc::choose(2);
  const bool in = axis >= 0 && axis <= 2, from = op >= 4;
  const LatitudeType lt = type ? latitude : colatitude;
  if(type && (op == 0 || op == 1 || op == 4 || op == 5 || op == 6)) return;
  static const char* names[] = {"cylindrical_to_cartesian", "cylindrical_to_cartesian(CML1)", "spherical_to_cartesian", "spherical_to_cartesian(CML1)", "cartesian_to_cylindrical", "cartesian_to_cylindrical(tolerance)",
    "cartesian_to_cylindrical(CML1)", "cartesian_to_spherical", "cartesian_to_spherical(tolerance)", "cartesian_to_spherical(CML1)"};
  const std::string name = names[op];
  E a(from ? 91 : 2), b(from ? 92 : .5), c(from ? 93 : .7);
  mc::state(mc::Hash()(axis)(op)(type));
  const int res = run([&] {
    switch(op) {
    case 0: cylindrical_to_cartesian(v, axis, a, b, c); break;
    case 1: cylindrical_to_cartesian(a, b, c, axis, v); break;
    case 2: spherical_to_cartesian(v, axis, lt, a, b, c); break;
    case 3: spherical_to_cartesian(a, b, c, axis, lt, v); break;
    case 4: cartesian_to_cylindrical(v, axis, a, b, c); break;
    case 5: cartesian_to_cylindrical(v, axis, a, b, c, E(1e-3)); break;
    case 6: cartesian_to_cylindrical(v, a, b, c, axis); break;
    case 7: cartesian_to_spherical(v, axis, lt, a, b, c); break;
    case 8: cartesian_to_spherical(v, axis, lt, a, b, c, E(1e-3)); break;
    case 9: cartesian_to_spherical(v, a, b, c, axis, lt); break;
    }
  });
  expect(name, res, in);
  if(!in || from) untouchedv(name, v, 3);
  if(!in) { MC_CHECK(!from || (a == 91 && b == 92 && c == 93), name + ": changed", a << " " << b << " " << c); return; }
  if(op < 2) MC_CHECK(v[axis] == c, name + ": axis", "axis " << axis << ": " << read(v));
  if(op >= 4 && op <= 6) MC_CHECK(c == v[axis], name + ": axis", "axis " << axis << ": height " << c);
  if(op == 2 || op == 3) { const double h = 2 * (type ? std::sin(c) : std::cos(c)); MC_CHECK(ref::near(v[axis], h, 1e-5), name + ": axis", "axis " << axis << ": " << read(v) << " height " << h); }
  if(op >= 7) { const double l = ref::len(read(v)), p = type ? std::asin(v[axis] / l) : std::acos(v[axis] / l); MC_CHECK(ref::near(c, p, 1e-5), name + ": axis", "axis " << axis << ": " << c << " instead of " << p); }
}

// ---- row, column and basis numbers -------------------------------------
template<class M> void numbers()
{
  Mk<M> k; M& m = k.m; numbered(m);
  const int r = m.rows(), c = m.cols();
  static const int l[] = {0, 1, 2, 3, -1, -2, -3, -4, -256, -65536, INT_MIN, INT_MIN + 1};
  const int i = l[mc::choose(12)], op = mc::choose(9);
  const bool rb = std::is_same<basis_tag_trait_of_t<M>, row_basis>::value;
  const M& q = m;
  if(i >= 0 && i >= ((op % 3 == 0 || (op % 3 == 2 && rb)) ? r : c)) return; // beyond the end is a precondition
  vec got;
  static const char* names[] = {"row", "col", "basis", "row of const", "col of const", "basis of const", "row of an expression", "col of an expression", "basis of an expression"};
  const std::string name = names[op];
  const int res = run([&] {
    switch(op) {
    case 0: got = read(cml::row(m, i)); break; case 1: got = read(cml::col(m, i)); break; case 2: got = read(cml::basis(m, i)); break;
    case 3: got = read(cml::row(q, i)); break; case 4: got = read(cml::col(q, i)); break; case 5: got = read(cml::basis(q, i)); break;
    case 6: got = read(cml::row(q * 2, i)); break; case 7: got = read(cml::col(q * 2, i)); break; case 8: got = read(cml::basis(q * 2, i)); break;
    }
  });
  mc::state(mc::Hash()(i)(op));
  expect(name, res, i >= 0);
  untouched(name, m, r, c);
  if(i < 0) return;
  const bool rows = op % 3 == 0 || (op % 3 == 2 && rb);
  vec want; for(int j = 0; j < (rows ? c : r); ++j) want.push_back((op > 5 ? 2 : 1) * (rows ? m.get(i, j) : m.get(j, i)));
  MC_CHECK(same(got, want), name + ": number", i << ": " << got << " instead of " << want);
}

// ---- dimensions ---------------------------------------------------------
inline int dimension()
{
  static const int l[] = {0, 1, 2, 3, -1, -2, -3, -6, -256, -65536, INT_MIN, INT_MIN + 1};
  return l[mc::choose(12)];
}
template<class E> void vector_count()
{
  auto& st = h::alloc_state(); st.reset();
  const int old = mc::choose(4), n = dimension(), op = mc::choose(10);
  static const char* names[] = {"resize", "resize_fast", "vector(n)", "vector(pointer, n)", "vector(n, pointer)", "external(pointer, n)", "external(n, pointer)", "const external(pointer, n)", "const external(n, pointer)", "initialised resize"};
  const std::string name = names[op];
  {
    using V = vector<E, dynamic<h::CountAlloc<E>>>;
    V v(old); count(v);
    E buf[4] = {7, 8, 9, 10}; const E* p = buf; int size = -1; bool ok = true;
    const long before = st.allocs;
    const int res = run([&] {
      switch(op) {
      case 0: v.resize(n); size = v.size(); break;
      case 1: v.resize_fast(n); size = v.size(); break;
      case 2: { V x(n); size = x.size(); break; }
      case 3: { V x(p, n); size = x.size(); for(int i = 0; i < n; ++i) ok = ok && x[i] == E(7 + i); break; }
      case 4: { V x(n, p); size = x.size(); for(int i = 0; i < n; ++i) ok = ok && x[i] == E(7 + i); break; }
      case 5: { vector<E, external<>> x(&buf[0], n); size = x.size(); for(int i = 0; i < n; ++i) ok = ok && x[i] == E(7 + i); break; }
      case 6: { vector<E, external<>> x(n, &buf[0]); size = x.size(); for(int i = 0; i < n; ++i) ok = ok && x[i] == E(7 + i); break; }
      case 7: { vector<const E, external<>> x(p, n); size = x.size(); for(int i = 0; i < n; ++i) ok = ok && x[i] == E(7 + i); break; }
      case 8: { vector<const E, external<>> x(n, p); size = x.size(); for(int i = 0; i < n; ++i) ok = ok && x[i] == E(7 + i); break; }
      case 9: { V x(2); x.resize(n); size = x.size(); break; }
      }
    });
    mc::state(mc::Hash()(old)(n)(op));
    expect(name, res, n >= 0);
    if(n < 0) MC_CHECK(op == 9 || st.allocs == before, name + ": allocates", st.allocs - before);
    if(n < 0 || op > 1) untouchedv(name, v, old);
    if(n >= 0) {
      MC_CHECK(size == n && ok, name + ": size", size << " instead of " << n);
      if(op == 0) for(int i = 0; i < n && i < old; ++i) MC_CHECK(v[i] == E(7 + i), name + ": elements", i);
    }
    for(int i = 0; i < 4; ++i) MC_CHECK(buf[i] == E(7 + i), name + ": memory", i);
  }
  MC_CHECK(st.live.empty() && st.bad.empty(), name + ": leak", st.live.size() << " " << st.bad);
}
template<class E, class B, class L> void matrix_shape()
{
  auto& st = h::alloc_state(); st.reset();
  const int r0 = mc::choose(3), c0 = mc::choose(3), r = dimension(), c = dimension(), op = mc::choose(12);
  static const char* names[] = {"resize", "resize_fast", "matrix(r, c)", "matrix(r, c, pointer)", "matrix(pointer, r, c)", "matrix(r, c, array)", "matrix(r, c, elements)", "external(pointer, r, c)", "external(r, c, pointer)", "external resize",
    "external resize of 6", "external resize of 0"};
  const std::string name = names[op];
  const bool neg = r < 0 || c < 0;
  if(op > 1 && (r0 || c0)) return;
  // Admitted shapes of another count raise the size errors of C04.
  const bool six = op == 5 || op == 6 || op == 10;
  if(!neg && ((six && r * c != 6) || (op == 9 && r * c != 9) || (op == 11 && r * c != 0))) return;
  {
    using M = matrix<E, dynamic<h::CountAlloc<E>>, B, L>;
    using X = matrix<E, external<>, B, L>;
    M m(r0, c0); numbered(m);
    E buf[9] = {1, 2, 3, 4, 5, 6, 7, 8, 9}; const E* p = buf; const E six6[6] = {1, 2, 3, 4, 5, 6};
    X e9(3, 3, &buf[0]), e6(2, 3, &buf[0]), e0(0, 3, &buf[0]);
    int rows = -1, cols = -1;
    const long before = st.allocs;
    const int res = run([&] {
      switch(op) {
      case 0: m.resize(r, c); rows = m.rows(), cols = m.cols(); break;
      case 1: m.resize_fast(r, c); rows = m.rows(), cols = m.cols(); break;
      case 2: { M x(r, c); rows = x.rows(), cols = x.cols(); break; }
      case 3: { M x(r, c, p); rows = x.rows(), cols = x.cols(); break; }
      case 4: { M x(p, r, c); rows = x.rows(), cols = x.cols(); break; }
      case 5: { M x(r, c, six6); rows = x.rows(), cols = x.cols(); break; }
      case 6: { M x(r, c, E(1), E(2), E(3), E(4), E(5), E(6)); rows = x.rows(), cols = x.cols(); break; }
      case 7: { X x(&buf[0], r, c); rows = x.rows(), cols = x.cols(); break; }
      case 8: { X x(r, c, &buf[0]); rows = x.rows(), cols = x.cols(); break; }
      case 9: e9.resize(r, c); rows = e9.rows(), cols = e9.cols(); break;
      case 10: e6.resize(r, c); rows = e6.rows(), cols = e6.cols(); break;
      case 11: e0.resize(r, c); rows = e0.rows(), cols = e0.cols(); break;
      }
    });
    mc::state(mc::Hash()(r0)(c0)(r)(c)(op));
    expect(name, res, !neg);
    if(neg) MC_CHECK(st.allocs == before, name + ": allocates", st.allocs - before);
    if(neg || op > 1) untouched(name, m, r0, c0);
    if(neg) MC_CHECK(e9.rows() == 3 && e9.cols() == 3 && e6.rows() == 2 && e6.cols() == 3 && e0.rows() == 0 && e0.cols() == 3 && e9.data() == buf && e6.data() == buf, name + ": shape changed", name);
    else MC_CHECK(rows == r && cols == c, name + ": shape", rows << "x" << cols << " instead of " << r << "x" << c);
    for(int i = 0; i < 9; ++i) MC_CHECK(buf[i] == E(1 + i), name + ": memory", i);
  }
  MC_CHECK(st.live.empty() && st.bad.empty(), name + ": leak", st.live.size() << " " << st.bad);
}

// ---- singular factorisations -------------------------------------------
// All matrices of small whole numbers: the sign of a pivoted factorisation is 0 exactly for the singular ones, whose solve is
// rejected without touching the result.
template<class M, class V> void singular(int n)
{
  using E = value_type_trait_of_t<M>;
  M a; if constexpr(std::is_same<size_tag_of_t<M>, dynamic_size_tag>::value) a.resize(n, n);
  for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) a.put(i, j, E(n < 4 ? mc::choose(3) - 1 : mc::choose(2) * 2 - 1 + (i == j)));
  V b, x; if constexpr(std::is_same<size_tag_of_t<V>, dynamic_size_tag>::value) { b.resize(n); x.resize(n); }
  for(int i = 0; i < n; ++i) { b[i] = E(i + 1); x[i] = E(7 + i); }
  const mat m = readm(a); const bool regular = std::fabs(ref::det(m)) > .5;
  auto p = cml::lu_pivot(a);
  MC_CHECK((p.sign != 0) == regular, "lu_pivot: sign", m << ": sign " << p.sign << ", determinant " << ref::det(m));
  const mat f = readm(p.lu);
  expect("lu_solve(into)", run([&] { cml::lu_solve(p, x, b); }), regular);
  if(!regular) untouchedv("lu_solve(into)", x, n);
  else { const vec ax = ref::mul(m, read(x)); for(int i = 0; i < n; ++i) MC_CHECK(std::fabs(ax[i] - (i + 1)) < 1e-4, "lu_solve(into)", m << ": " << read(x)); }
  V y; bool set = false;
  expect("lu_solve", run([&] { y = cml::lu_solve(p, b); set = true; }), regular);
  MC_CHECK(set == regular, "lu_solve", m);
  for(int i = 0; i < n; ++i) MC_CHECK(b[i] == E(i + 1), "lu_solve: right-hand side changed", i);
  MC_CHECK(same(readm(p.lu), f) && same(readm(a), m), "lu_solve: factors changed", m);
  cml::lu_pivot_result<std::decay_t<decltype(p.lu)>> q(a); cml::lu_pivot(q);
  MC_CHECK(q.sign == p.sign && same(readm(q.lu), f), "lu_pivot in place", m);
  mc::step(2); mc::state(mc::Hash()(ref::det(m))(n));
}

// ---- cones --------------------------------------------------------------
template<class V, class D, class S> void cone()
{
  using E = value_type_trait_of_t<V>;
  static const double l[] = {.01, .5, 1, 1.5, 1.5707, -1e-6, -.5, -1.5, -3.2, -100, 1.5709, 1.6, 3, 3.14159, 7, 1e6};
  const int i = mc::choose(16), n = mc::choose(3) + 2;
  const bool in = i < 5;
  V v; D d; if constexpr(std::is_same<size_tag_of_t<V>, dynamic_size_tag>::value) { v.resize(mc::choose(4)); }
  if constexpr(std::is_same<size_tag_of_t<D>, dynamic_size_tag>::value) d.resize(n); else if(n != d.size()) return;
  if constexpr(std::is_same<size_tag_of_t<V>, fixed_size_tag>::value) if(v.size() != d.size()) return;
  count(v); const int size = v.size();
  for(int j = 0; j < d.size(); ++j) d[j] = E(j == 1);
  std::srand(5);
  expect("random_unit in a cone", run([&] { random_unit(v, d, S(l[i])); }), in);
  mc::state(mc::Hash()(i)(n)(size));
  for(int j = 0; j < d.size(); ++j) MC_CHECK(d[j] == E(j == 1), "random_unit in a cone: axis changed", j);
  if(!in) return untouchedv("random_unit in a cone", v, size);
  MC_CHECK(v.size() == d.size() && ref::near(ref::len(read(v)), 1, 1e-4) && v[1] >= std::cos(l[i]) - 1e-4, "random_unit in a cone", "angle " << l[i] << ": " << read(v));
}
} // namespace c08
