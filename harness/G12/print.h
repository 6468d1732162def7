// Text written to a stream, and streams that fail on the way.
#pragma once
#include "../geo.h"
#include <iomanip>
#include <sstream>

namespace g12 {
using namespace geo;

enum { Formats = 6 };
inline void format(std::ostream& os, int f)
{
  os.precision(f == 0 ? 6 : 17);
  if(f == 2) os << std::fixed, os.precision(3);
  if(f == 3) os << std::scientific;
  if(f == 4) os << std::showpos << std::hex << std::showbase;
  if(f == 5) os << std::hexfloat << std::uppercase;
}
template<class T> std::string one(const T& x, int f) { std::ostringstream os; format(os, f); os << x; return os.str(); }

// A sink with room for so many characters; then it refuses, or throws.
struct Full : std::runtime_error { Full() : std::runtime_error("sink full") {} };
class Sink : public std::streambuf
{
  public:
  std::string text;
  size_t room;
  bool throws;
  Sink(size_t n, bool t) : room(n), throws(t) {}
  protected:
  int_type overflow(int_type c) override
  {
    if(text.size() >= room) { if(throws) throw Full(); return traits_type::eof(); }
    if(c != traits_type::eof()) text += char(c);
    return traits_type::not_eof(c);
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override
  {
    const size_t k = std::min(size_t(n), room - std::min(room, text.size()));
    text.append(s, k);
    if(k < size_t(n) && throws) throw Full();
    return std::streamsize(k);
  }
  int sync() override { return 0; }
};

// The numbers in a text, the brackets left out.
inline vec numbers(std::string t)
{
  for(char& c : t) if(c == '[' || c == ']') c = ' ';
  std::istringstream is(t);
  vec o;
  for(std::string w; is >> w;) o.push_back(std::strtod(w.c_str(), nullptr));
  return o;
}

// read() gives the elements of the object now.
template<class X, class Read> void shows(const char* site, const X& x, const std::string& want, const vec& elements, int f, Read read)
{
  const vec before = read();
  mc::step(5);
  {
    std::ostringstream os;
    format(os, f);
    const auto flags = os.flags();
    const auto precision = os.precision();
    std::ostream& r = os << x;
    MC_CHECK(&r == &os, "gives the stream back", site);
    MC_CHECK(os.str() == want, "text", site << " writes \"" << os.str() << "\" for \"" << want << "\"");
    MC_CHECK(os.flags() == flags && os.precision() == precision && os.width() == 0 && os.fill() == ' ', "format kept", site);
    if(f == 1) {
      const vec n = numbers(os.str());
      MC_CHECK(ref::same(n, elements), "reads back", site << " \"" << os.str() << "\": " << n << " for " << elements);
    }
  }
  {
    std::ostringstream os;
    format(os, f);
    os << "<" << x << "|" << x << ">";
    MC_CHECK(os.str() == "<" + want + "|" + want + ">", "chained", site << " writes " << os.str());
  }
  MC_CHECK(ref::same(read(), before), "object untouched", site);
}
// Every place a sink can fail at.
template<class X, class Read> void fails(const char* site, const X& x, const std::string& want, Read read)
{
  const vec before = read();
  for(size_t k = 0; k <= want.size(); ++k) for(int mode = 0; mode < 4; ++mode) {
    // The sink refuses or throws; the stream reports failure by state or by exception.
    Sink sink(k, mode & 1);
    std::ostream os(&sink);
    if(mode & 2) os.exceptions(std::ios::badbit | std::ios::failbit);
    std::string got = "none";
    mc::step();
    try { os << x; }
    catch(const Full&) { got = "full"; }
    catch(const std::ios_base::failure&) { got = "failure"; }
    catch(const std::exception& e) { got = e.what(); }
    const bool room = k == want.size();
    const bool quiet = room || !(mode & 2);
    if(!(quiet ? got == "none" : got == "full" || got == "failure")) MC_CHECK(false, "failure is reported as the stream says", site << " room " << k << " mode " << mode << ": " << got);
    if(room != os.good()) MC_CHECK(false, "stream state", site << " room " << k << " mode " << mode << ": " << os.rdstate());
    if(sink.text != want.substr(0, k)) MC_CHECK(false, "text up to the failure", site << " room " << k << " mode " << mode << ": " << sink.text);
    if(!ref::same(read(), before)) MC_CHECK(false, "object untouched by a failing stream", site << " room " << k);
  }
}

template<class T> struct Some;
template<> struct Some<double> { static std::vector<double> get() { return {0, -1.5, 12345678.25, 1e-3, 1e200, -3}; } };
template<> struct Some<float> { static std::vector<float> get() { return {0, -1.5f, 65536.25f, .125f, 1e20f, -3}; } };
template<> struct Some<int> { static std::vector<int> get() { return {0, -7, 123456, 10, 2147483647, -1}; } };
template<> struct Some<long> { static std::vector<long> get() { return {0, -7, 5000000000L, 10, 1, -1}; } };
template<> struct Some<unsigned> { static std::vector<unsigned> get() { return {0, 7, 123456, 10, 4294967295u, 1}; } };
template<> struct Some<long double> { static std::vector<long double> get() { return {0, -7.5L, 123456, 1e-3L, 1, -1}; } };
// n elements: all choices for few elements, a few orders for many.
template<class T> std::vector<T> choose_elements(int n)
{
  const auto a = Some<T>::get();
  std::vector<T> o;
  if(n <= 3) for(int i = 0; i < n; ++i) o.push_back(a[size_t(mc::choose(6))]);
  else {
    const int s = mc::choose(6), k = mc::choose(3);
    for(int i = 0; i < n; ++i) o.push_back(k == 0 ? a[size_t(i + s) % 6] : k == 1 ? T(100 + i + s) : a[size_t(i * 5 + s) % 6]);
  }
  return o;
}
template<class T> vec doubles(const std::vector<T>& v) { return vec(v.begin(), v.end()); }
template<class T> uint64_t hash(const std::vector<T>& v, int f) { mc::Hash h; for(T x : v) h(double(x)); return h(f)(int(v.size())); }
template<class T> std::string row_text(const std::vector<T>& e, int f)
{
  std::string s;
  for(size_t i = 0; i < e.size(); ++i) s += (i ? " " : "") + one(e[i], f);
  return s;
}
// e holds the rows, one after another.
template<class T> std::string mat_text(const std::vector<T>& e, int r, int c, int f)
{
  std::string s;
  for(int i = 0; i < r; ++i) {
    s += i ? "\n[" : "[";
    for(int j = 0; j < c; ++j) s += " " + one(e[size_t(i * c + j)], f);
    s += " ]";
  }
  return s;
}
// w, x, y, z
template<class T> std::string quat_text(const std::vector<T>& e, int f) { return "[  " + row_text(e, f) + " ]"; }

// Vectors.
template<class V> struct Vec;
template<class E, int N> struct Vec<vector<E, compiled<N>>> { vector<E, compiled<N>> v; Vec(int n, E* p) { for(int i = 0; i < n; ++i) v[i] = p[i]; } };
template<class E> struct Vec<vector<E, dynamic<>>> { vector<E, dynamic<>> v; Vec(int n, E* p) : v(n) { for(int i = 0; i < n; ++i) v[i] = p[i]; } };
template<class E, int N> struct Vec<vector<E, external<N>>> { vector<E, external<N>> v; Vec(int, E* p) : v(p) {} };
template<class E> struct Vec<vector<E, external<>>> { vector<E, external<>> v; Vec(int n, E* p) : v(p, n) {} };
template<class E, int N> struct Vec<vector<const E, external<N>>> { vector<const E, external<N>> v; Vec(int, E* p) : v(p) {} };
template<class E> struct Vec<vector<const E, external<>>> { vector<const E, external<>> v; Vec(int n, E* p) : v(p, n) {} };
template<class V, class E> void vec_n(int n)
{
  std::vector<E> e = choose_elements<E>(n);
  const int f = mc::choose(Formats);
  mc::state(hash(e, f));
  std::vector<E> buf = e;
  buf.push_back(E(77));
  Vec<V> o(n, buf.data());
  const auto read = [&] { vec r = ref::read(o.v); for(E x : buf) r.push_back(double(x)); return r; };
  shows("vector", o.v, row_text(e, f), doubles(e), f, read);
  const V& c = o.v;
  shows("const vector", c, row_text(e, f), doubles(e), f, read);
  if(f == 0) fails("vector", o.v, row_text(e, f), read);
}
template<class V, class E> void vec_expressions(int n)
{
  std::vector<E> e = choose_elements<E>(n), g = e;
  for(size_t i = 0; i < g.size(); ++i) g[i] = E(i + 1);
  for(E& x : e) x = E(x / E(8)); // room for sums
  const int f = mc::choose(Formats);
  mc::state(hash(e, f));
  std::vector<E> be = e, bg = g;
  be.push_back(E(7)), bg.push_back(E(7));
  Vec<V> o(n, be.data()), p(n, bg.data());
  const auto read = [&] { vec r = ref::read(o.v); const vec s = ref::read(p.v); r.insert(r.end(), s.begin(), s.end()); return r; };
  std::vector<E> sum, diff, twice, part;
  for(int i = 0; i < n; ++i) {
    sum.push_back(E(e[size_t(i)] + g[size_t(i)])), diff.push_back(E(e[size_t(i)] - g[size_t(i)])), twice.push_back(E(e[size_t(i)] * E(2)));
    if(i) part.push_back(e[size_t(i)]);
  }
  shows("sum", o.v + p.v, row_text(sum, f), doubles(sum), f, read);
  shows("difference", o.v - p.v, row_text(diff, f), doubles(diff), f, read);
  shows("multiple", o.v * E(2), row_text(twice, f), doubles(twice), f, read);
  if(f == 0) fails("sum", o.v + p.v, row_text(sum, f), read);
}
template<class E> void vec_views()
{
  std::vector<E> e = choose_elements<E>(6);
  const int f = mc::choose(Formats);
  mc::state(hash(e, f));
  matrix<E, compiled<2, 3>> m;
  matrix<E, dynamic<>, row_basis, col_major> d(2, 3);
  vector<E, compiled<3>> v;
  for(int i = 0; i < 2; ++i) for(int j = 0; j < 3; ++j) m(i, j) = d(i, j) = e[size_t(i * 3 + j)];
  for(int j = 0; j < 3; ++j) v[j] = e[size_t(j)];
  const auto read = [&] { return ref::readm(m).d; };
  for(int i = 0; i < 2; ++i) {
    const std::vector<E> w(e.begin() + 3 * i, e.begin() + 3 * i + 3);
    shows("row", row(m, i), row_text(w, f), doubles(w), f, read);
    shows("row of dynamic", row(d, i), row_text(w, f), doubles(w), f, read);
  }
  for(int j = 0; j < 3; ++j) {
    const std::vector<E> w{e[size_t(j)], e[size_t(j + 3)]};
    shows("column", col(m, j), row_text(w, f), doubles(w), f, read);
    shows("column of dynamic", col(d, j), row_text(w, f), doubles(w), f, read);
    std::vector<E> s;
    for(int k = 0; k < 3; ++k) if(k != j) s.push_back(e[size_t(k)]);
    shows("subvector", subvector(v, j), row_text(s, f), doubles(s), f, read);
  }
  if(f == 0) fails("row", row(m, 1), row_text(std::vector<E>(e.begin() + 3, e.end()), f), read);
  const std::vector<E> t{e[0], e[3], e[1], e[4], e[2], e[5]};
  shows("transpose", transpose(m), mat_text(t, 3, 2, f), doubles(t), f, read);
  shows("transpose of dynamic", transpose(d), mat_text(t, 3, 2, f), doubles(t), f, read);
  if(f == 0) fails("transpose", transpose(d), mat_text(t, 3, 2, f), read);
  // Small whole numbers for products.
  vector<E, compiled<3>> a, b;
  const int s = int(mc::choose(3));
  a.set(E(1 + s), E(2), E(3)), b.set(E(3), E(2 + s), E(4));
  std::vector<E> c{E(8 - 3 * (2 + s)), E(9 - 4 * (1 + s)), E((1 + s) * (2 + s) - 6)}, o;
  if(std::is_signed<E>::value || !std::is_integral<E>::value) shows("cross", cross(a, b), row_text(c, f), doubles(c), f, [&] { return ref::read(a); });
  for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) o.push_back(E(a[i] * b[j]));
  shows("outer product", outer(a, b), mat_text(o, 3, 3, f), doubles(o), f, [&] { return ref::read(a); });
}

// Matrices.
template<class M> struct Mat;
template<class E, int R, int C, class B, class L> struct Mat<matrix<E, fixed<R, C>, B, L>> { matrix<E, fixed<R, C>, B, L> m; Mat(int, int, E*) {} };
template<class E, class B, class L> struct Mat<matrix<E, dynamic<>, B, L>> { matrix<E, dynamic<>, B, L> m; Mat(int r, int c, E*) : m(r, c) {} };
template<class E, int R, int C, class B, class L> struct Mat<matrix<E, external<R, C>, B, L>> { matrix<E, external<R, C>, B, L> m; Mat(int, int, E* p) : m(p) {} };
template<class E, class B, class L> struct Mat<matrix<E, external<>, B, L>> { matrix<E, external<>, B, L> m; Mat(int r, int c, E* p) : m(p, r, c) {} };
template<class M> void mat_n(int R, int C)
{
  using E = value_type_trait_of_t<M>;
  const std::vector<E> e = choose_elements<E>(R * C);
  const int f = mc::choose(Formats);
  mc::state(hash(e, f));
  std::vector<E> buf(size_t(R * C) + 1, E(77));
  Mat<M> o(R, C, buf.data());
  for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) o.m(i, j) = e[size_t(i * C + j)];
  const auto read = [&] { vec r = ref::readm(o.m).d; for(E x : buf) r.push_back(double(x)); return r; };
  const std::string want = mat_text(e, R, C, f);
  shows("matrix", o.m, want, doubles(e), f, read);
  const M& c = o.m;
  shows("const matrix", c, want, doubles(e), f, read);
  std::vector<E> h;
  for(E x : e) h.push_back(E(E(x / E(8)) + E(x / E(8))));
  for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) o.m(i, j) = E(o.m(i, j) / E(8));
  shows("sum", o.m + o.m, mat_text(h, R, C, f), doubles(h), f, read);
  if(f == 0) fails("matrix", o.m + o.m, mat_text(h, R, C, f), read);
}

// Quaternions write the real part, then x, y and z, in any element order.
template<class Q> void quat()
{
  using E = value_type_trait_of_t<Q>;
  const auto a = Some<E>::get();
  std::vector<E> e;
  for(int i = 0; i < 4; ++i) e.push_back(a[size_t(mc::choose(4))]);
  const int f = mc::choose(Formats);
  mc::state(hash(e, f));
  Q q;
  const int real = std::is_same<order_type_trait_of_t<Q>, real_first>::value ? 0 : 3, first = real ? 0 : 1;
  q[real] = e[0], q[first] = e[1], q[first + 1] = e[2], q[first + 2] = e[3];
  MC_CHECK(q.w() == e[0] && q.x() == e[1] && q.y() == e[2] && q.z() == e[3], "elements", "");
  const auto read = [&] { return vec{double(q[0]), double(q[1]), double(q[2]), double(q[3])}; };
  shows("quaternion", q, quat_text(e, f), doubles(e), f, read);
  const Q& c = q;
  shows("const quaternion", c, quat_text(e, f), doubles(e), f, read);
  std::vector<E> con{e[0], E(-e[1]), E(-e[2]), E(-e[3])}, twice;
  for(E x : e) twice.push_back(E(x * E(2)));
  shows("conjugate", conjugate(q), quat_text(con, f), doubles(con), f, read);
  shows("multiple", q * E(2), quat_text(twice, f), doubles(twice), f, read);
  const std::vector<E> im{e[1], e[2], e[3]};
  shows("imaginary part", imaginary(q), row_text(im, f), doubles(im), f, read);
  if(f == 0) fails("quaternion", q, quat_text(e, f), read), fails("conjugate", conjugate(q), quat_text(con, f), read);
}
// Things of several kinds in one line.
inline void mixed()
{
  const int s = mc::choose(4), f = mc::choose(Formats);
  vector<double, dynamic<>> none, v(s);
  for(int i = 0; i < s; ++i) v[i] = i + .5;
  matrix<int, dynamic<>> empty, flat(s, 0);
  std::ostringstream os;
  format(os, f);
  os << none << ";" << v << ";" << empty << ";" << flat << ";" << v - v << ";" << 5;
  std::vector<double> e, z(static_cast<size_t>(s), 0.);
  for(int i = 0; i < s; ++i) e.push_back(i + .5);
  const std::string want = ";" + row_text(e, f) + ";;" + mat_text(std::vector<int>(), s, 0, f) + ";" + row_text(z, f) + ";" + one(5, f);
  mc::step();
  mc::state(mc::Hash()(s)(f));
  MC_CHECK(os.str() == want, "one after another", os.str() << " for " << want);
}
} // namespace g12
