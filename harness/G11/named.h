// Named objects and types.
#pragma once
#include "../geo.h"
#include <cstring>

namespace g11 {
using namespace geo;

// Leaves nothing of earlier objects on the stack.
inline __attribute__((noinline)) void soil(int b)
{
  volatile unsigned char a[4096];
  for(size_t i = 0; i < sizeof a; ++i) a[i] = static_cast<unsigned char>(b);
}
inline int choose_soil()
{
  static const int b[] = {0x00, 0xff, 0x7f, 0x40};
  return b[mc::choose(4)];
}

// A vector generator: f(index) is the vector with 1 at index, or all zero
// for an index of -1.
template<int N, class F> void vec_is(const char* name, F f, int index, int b)
{
  soil(b);
  auto v = f();
  using V = decltype(v);
  static_assert(std::is_same<value_type_of_t<V>, double>::value, "double elements");
  const auto right = [&](const V& w) {
    for(int i = 0; i < N; ++i) if(w[i] != (i == index) || std::signbit(w[i])) return false;
    return w.size() == N;
  };
  mc::step(3);
  mc::state(mc::Hash()(int(std::hash<std::string>()(name)))(index)(b));
  MC_CHECK(right(v), "elements", name << " gives " << ref::read(v));
  // A second object is its own.
  soil(b ^ 0xff);
  auto w = f();
  for(int i = 0; i < N; ++i) v[i] = 9;
  MC_CHECK(right(w), "second object", name << " gives " << ref::read(w));
  MC_CHECK(right(f()), "after changing the first", name << " gives " << ref::read(f()));
  // As operands.
  const vec s = ref::read(f() + f());
  for(int i = 0; i < N; ++i) MC_CHECK(s[size_t(i)] == 2 * (i == index), "as operands", name << " twice: " << s);
}
template<int N> void vec_n()
{
  const int b = choose_soil(), k = mc::choose(N + 1) - 1;
  if(k < 0) vec_is<N>("zero<N>", [] { return zero<N>(); }, -1, b);
  else vec_is<N>("axis<N>", [k] { return axis<N>(k); }, k, b);
}
inline void vec_named()
{
  const int b = choose_soil();
  switch(mc::choose(13)) {
    case 0: vec_is<2>("zero_2D", [] { return zero_2D(); }, -1, b); break;
    case 1: vec_is<3>("zero_3D", [] { return zero_3D(); }, -1, b); break;
    case 2: vec_is<4>("zero_4D", [] { return zero_4D(); }, -1, b); break;
    case 3: vec_is<2>("axis_2D(0)", [] { return axis_2D(0); }, 0, b); break;
    case 4: vec_is<2>("axis_2D(1)", [] { return axis_2D(1); }, 1, b); break;
    case 5: vec_is<2>("x_axis_2D", [] { return x_axis_2D(); }, 0, b); break;
    case 6: vec_is<2>("y_axis_2D", [] { return y_axis_2D(); }, 1, b); break;
    case 7: vec_is<3>("axis_3D(0)", [] { return axis_3D(0); }, 0, b); break;
    case 8: vec_is<3>("axis_3D(1)", [] { return axis_3D(1); }, 1, b); break;
    case 9: vec_is<3>("axis_3D(2)", [] { return axis_3D(2); }, 2, b); break;
    case 10: vec_is<3>("x_axis_3D", [] { return x_axis_3D(); }, 0, b); break;
    case 11: vec_is<3>("y_axis_3D", [] { return y_axis_3D(); }, 1, b); break;
    default: vec_is<3>("z_axis_3D", [] { return z_axis_3D(); }, 2, b);
  }
}
// A matrix generator: the identity or zero.
template<int R, int C, class F> void mat_is(const char* name, F f, bool id, int b)
{
  soil(b);
  auto m = f();
  using M = decltype(m);
  static_assert(std::is_same<value_type_of_t<M>, double>::value, "double elements");
  const auto right = [&](const M& w) {
    if(w.rows() != R || w.cols() != C) return false;
    for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) if(w(i, j) != (id && i == j) || std::signbit(w(i, j))) return false;
    return true;
  };
  mc::step(3);
  mc::state(mc::Hash()(int(std::hash<std::string>()(name)))(R)(C)(b));
  MC_CHECK(right(m), "elements", name << " gives " << ref::readm(m));
  soil(b ^ 0xff);
  auto w = f();
  for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) m(i, j) = 9;
  MC_CHECK(right(w), "second object", name << " gives " << ref::readm(w));
  MC_CHECK(right(f()), "after changing the first", name << " gives " << ref::readm(f()));
  vector<double, compiled<C>> v;
  for(int i = 0; i < C; ++i) v[i] = i + 2;
  const vec p = ref::read(f() * v);
  for(int i = 0; i < R; ++i) MC_CHECK(p[size_t(i)] == (id && i < C ? i + 2 : 0), "as an operator", name << " on (2,3,..): " << p);
}
template<int R, int C> void mat_n()
{
  const int b = choose_soil();
  if(mc::choose(2)) mat_is<R, C>("zero<R,C>", [] { return zero<R, C>(); }, false, b);
  else mat_is<R, C>("identity<R,C>", [] { return identity<R, C>(); }, true, b);
}
inline void mat_named()
{
  const int b = choose_soil();
  switch(mc::choose(6)) {
    case 0: mat_is<2, 2>("zero_2x2", [] { return zero_2x2(); }, false, b); break;
    case 1: mat_is<3, 3>("zero_3x3", [] { return zero_3x3(); }, false, b); break;
    case 2: mat_is<4, 4>("zero_4x4", [] { return zero_4x4(); }, false, b); break;
    case 3: mat_is<2, 2>("identity_2x2", [] { return identity_2x2(); }, true, b); break;
    case 4: mat_is<3, 3>("identity_3x3", [] { return identity_3x3(); }, true, b); break;
    default: mat_is<4, 4>("identity_4x4", [] { return identity_4x4(); }, true, b);
  }
}

// Skew-symmetric matrices and partial traces.
template<class M> struct Made;
template<class E, int R, int C, class B, class L> struct Made<matrix<E, fixed<R, C>, B, L>> { matrix<E, fixed<R, C>, B, L> m; Made(int, int, E*) {} };
template<class E, class B, class L> struct Made<matrix<E, dynamic<>, B, L>> { matrix<E, dynamic<>, B, L> m; Made(int r, int c, E*) : m(r, c) {} };
template<class E, int R, int C, class B, class L> struct Made<matrix<E, external<R, C>, B, L>> { matrix<E, external<R, C>, B, L> m; Made(int, int, E* p) : m(p) {} };
template<class E, class B, class L> struct Made<matrix<E, external<>, B, L>> { matrix<E, external<>, B, L> m; Made(int r, int c, E* p) : m(p, r, c) {} };

// At least 3x3, or sized at run time.
template<class M> using spatial = std::integral_constant<bool, (array_rows_of_c<M>::value == -1 || array_rows_of_c<M>::value > 2) && (array_cols_of_c<M>::value == -1 || array_cols_of_c<M>::value > 2)>;
template<class M, class V> void skew(M& m, const V& v, std::true_type) { matrix_skew_symmetric(m, v); }
template<class M, class V> void skew(M&, const V&, std::false_type) {}
template<class M> double trace3(const M& m, std::true_type) { return double(trace_3x3(m)); }
template<class M> double trace3(const M&, std::false_type) { return 0; }
template<class M> void skew_n(int R, int C)
{
  using S = spatial<M>;
  using E = value_type_trait_of_t<M>;
  const bool row = is_row<M>();
  std::vector<E> buf(size_t(R * C) + 2, E(77));
  Made<M> o(R, C, &buf[1]);
  o.m.fill(E(55));
  const int a = mc::choose(7) - 3, b = mc::choose(7) - 3, c = mc::choose(7) - 3, f = mc::choose(4);
  mc::step();
  mc::state(mc::Hash()(a)(b)(c)(f));
  mat want(R, C);
  const auto put = [&](int i, int j, double x) { (row ? want(j, i) : want(i, j)) = x; };
  if(f == 3) {
    // s times the quarter turn.
    matrix_skew_symmetric_2D(o.m, E(a));
    put(1, 0, a), put(0, 1, -a);
  } else {
    if(R < 3 || C < 3) return;
    vector<E, compiled<3>> v;
    v.set(E(a), E(b), E(c));
    const E arr[3] = {E(a), E(b), E(c)};
    vector<E, dynamic<>> d(3, &arr[0]);
    vector<const E, external<3>> x(&arr[0]);
    if(f == 0) skew(o.m, v, S());
    if(f == 1) skew(o.m, d + d, S()), put(1, 0, 2 * c), put(0, 1, -2 * c), put(0, 2, 2 * b), put(2, 0, -2 * b), put(2, 1, 2 * a), put(1, 2, -2 * a);
    else put(1, 0, c), put(0, 1, -c), put(0, 2, b), put(2, 0, -b), put(2, 1, a), put(1, 2, -a);
    if(f == 2) skew(o.m, x, S());
  }
  const mat got = ref::readm(o.m);
  MC_CHECK(ref::same(got, want), f == 3 ? "matrix_skew_symmetric_2D" : "matrix_skew_symmetric", a << "," << b << "," << c << ": " << got << " for " << want);
  MC_CHECK(buf[0] == E(77) && buf.back() == E(77), "only its own elements", got);
}
template<class M> void trace_n(int R, int C)
{
  using S = spatial<M>;
  using E = value_type_trait_of_t<M>;
  std::vector<E> buf(size_t(R * C) + 2, E(77));
  Made<M> o(R, C, &buf[1]);
  const int x = mc::choose(9) - 4, y = mc::choose(9) - 4, z = mc::choose(9) - 4;
  for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) o.m(i, j) = E(100 * i + 10 * j + 7);
  o.m(0, 0) = E(x), o.m(1, 1) = E(y);
  if(R > 2 && C > 2) o.m(2, 2) = E(z);
  const mat before = ref::readm(o.m);
  mc::step(4);
  mc::state(mc::Hash()(x)(y)(z));
  MC_CHECK(trace_2x2(o.m) == E(x + y), "trace_2x2", before << ": " << double(trace_2x2(o.m)));
  MC_CHECK(trace_2x2(o.m + o.m) == E(2 * (x + y)), "trace_2x2 of an expression", before);
  if(R > 2 && C > 2) {
    MC_CHECK(trace3(o.m, S()) == x + y + z, "trace_3x3", before << ": " << trace3(o.m, S()));
    MC_CHECK(trace3(transpose(o.m), S()) == x + y + z, "trace_3x3 of an expression", before);
  }
  MC_CHECK(ref::same(ref::readm(o.m), before), "operand untouched", before);
}

// Type aliases.
template<class E, class U> struct type_is { static constexpr bool value = std::is_same<E, U>::value; };
template<class V> struct External : std::false_type {};
template<class E, int N> struct External<vector<E, external<N>>> : std::true_type {};
template<class E, int R, int C, class B, class L> struct External<matrix<E, external<R, C>, B, L>> : std::true_type {};
template<class V> struct Element;
template<class E, class S> struct Element<vector<E, S>> { using type = E; };
template<class E, class S, class B, class L> struct Element<matrix<E, S, B, L>> { using type = E; };
template<class E, class S, class O, class X> struct Element<quaternion<E, S, O, X>> { using type = E; };

// N of -1: sized at run time.
template<class V> typename std::enable_if<!External<V>::value && array_size_of_c<V>::value != -1>::type vector_use(const char* name)
{
  V v;
  for(int i = 0; i < v.size(); ++i) v[i] = i + 1;
  for(int i = 0; i < v.size(); ++i) MC_CHECK(v[i] == i + 1 && v.data()[i] == i + 1, "elements in order", name << " " << i);
}
template<class V> typename std::enable_if<!External<V>::value && array_size_of_c<V>::value == -1>::type vector_use(const char* name)
{
  V v;
  MC_CHECK(v.size() == 0, "empty at first", name);
  v.resize(5);
  for(int i = 0; i < 5; ++i) v[i] = i + 1;
  for(int i = 0; i < 5; ++i) MC_CHECK(v.size() == 5 && v[i] == i + 1 && v.data()[i] == i + 1, "elements in order", name << " " << i);
}
template<class V, class E> V over(E* p, int, std::true_type) { return V(p); }
template<class V, class E> V over(E* p, int n, std::false_type) { return V(p, n); }
template<class V> typename std::enable_if<External<V>::value>::type vector_use(const char* name)
{
  using E = typename std::remove_const<typename Element<V>::type>::type;
  constexpr int N = array_size_of_c<V>::value;
  E buf[5] = {1, 2, 3, 4, 5};
  V v = over<V, typename Element<V>::type>(buf, 5, std::integral_constant<bool, N != -1>());
  MC_CHECK(v.size() == (N == -1 ? 5 : N), "size of a view", name);
  for(int i = 0; i < v.size(); ++i) MC_CHECK(v[i] == buf[i] && v.data() == buf, "looks at the array", name << " " << i);
  buf[1] = 50;
  MC_CHECK(v[1] == 50, "follows the array", name);
}
template<class V, class E> void vector_alias(const char* name, int N, bool ext)
{
  mc::step();
  mc::state(mc::Hash()(int(std::hash<std::string>()(name))));
  MC_CHECK((type_is<typename Element<V>::type, E>::value), "element type", name);
  MC_CHECK(array_size_of_c<V>::value == N, "size", name << ": " << int(array_size_of_c<V>::value));
  MC_CHECK(External<V>::value == ext, "memory", name);
  vector_use<V>(name);
}
template<class M> void addressing(const char* name, M& m, bool col_major)
{
  const int R = m.rows(), C = m.cols();
  for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) m(i, j) = 10 * i + j;
  for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) MC_CHECK(m.data()[col_major ? j * R + i : i * C + j] == 10 * i + j, "storage order", name << " at " << i << "," << j);
}
template<class M, class E> M over(E* p, int, int, std::true_type) { return M(p); }
template<class M, class E> M over(E* p, int r, int c, std::false_type) { return M(p, r, c); }
template<class M> typename std::enable_if<External<M>::value>::type matrix_use(const char* name, bool col_major)
{
  using E = typename Element<M>::type;
  constexpr int R = array_rows_of_c<M>::value;
  E buf[16];
  M m = over<M, E>(buf, 2, 4, std::integral_constant<bool, R != -1>());
  if(R == -1) MC_CHECK(m.rows() == 2 && m.cols() == 4, "size of a view", name);
  MC_CHECK(m.data() == buf, "looks at the array", name);
  addressing(name, m, col_major);
}
template<class M> typename std::enable_if<!External<M>::value && array_rows_of_c<M>::value != -1>::type matrix_use(const char* name, bool col_major)
{
  M m;
  addressing(name, m, col_major);
}
template<class M> typename std::enable_if<!External<M>::value && array_rows_of_c<M>::value == -1>::type matrix_use(const char* name, bool col_major)
{
  M m;
  MC_CHECK(m.rows() == 0 && m.cols() == 0, "empty at first", name);
  m.resize(3, 5);
  MC_CHECK(m.rows() == 3 && m.cols() == 5, "resized", name);
  addressing(name, m, col_major);
}
template<class M, class E> void matrix_alias(const char* name, int R, int C, bool ext, bool row_basis, bool col_major)
{
  mc::step();
  mc::state(mc::Hash()(int(std::hash<std::string>()(name))));
  MC_CHECK((type_is<typename Element<M>::type, E>::value), "element type", name);
  MC_CHECK(array_rows_of_c<M>::value == R && array_cols_of_c<M>::value == C, "size", name << ": " << int(array_rows_of_c<M>::value) << "x" << int(array_cols_of_c<M>::value));
  MC_CHECK(External<M>::value == ext, "memory", name);
  MC_CHECK(is_row<M>() == row_basis, "basis", name);
  matrix_use<M>(name, col_major);
}
template<class Q, class E> void quaternion_alias(const char* name, bool real_first, bool negative)
{
  mc::step(2);
  mc::state(mc::Hash()(int(std::hash<std::string>()(name))));
  MC_CHECK((type_is<typename Element<Q>::type, E>::value), "element type", name);
  Q q;
  for(int i = 0; i < 4; ++i) q[i] = E(i + 1);
  MC_CHECK(q.w() == E(real_first ? 1 : 4) && q.x() == E(real_first ? 2 : 1) && q.z() == E(real_first ? 4 : 3), "element order", name << ": w at " << double(q.w()) - 1);
  // i j is k, or -k for the negative cross product.
  Q i, j;
  for(int e = 0; e < 4; ++e) i[e] = j[e] = E(0);
  i[real_first ? 1 : 0] = E(1), j[real_first ? 2 : 1] = E(1);
  const Q k = i * j;
  MC_CHECK(k.z() == E(negative ? -1 : 1) && k.w() == 0 && k.x() == 0 && k.y() == 0, "product of i and j", name << ": " << double(k.z()));
}
} // namespace g11
