// Shared read-only inputs in three storages, and the registration helper.
#pragma once
#include "sched.h"
#include "all.h"
#include <sstream>
#include <typeinfo>

namespace sx {
using namespace cml;


struct Fix
{
  static constexpr const char* name = "fixed";
  template<int N> using V = vector<double, compiled<N>>;
  template<int R, int C, class B = col_basis, class L = row_major> using M = matrix<double, compiled<R, C>, B, L>;
};
struct Dyn
{
  static constexpr const char* name = "dynamic";
  template<int N> using V = vector<double, dynamic<>>;
  template<int R, int C, class B = col_basis, class L = row_major> using M = matrix<double, dynamic<>, B, L>;
};
struct Ext
{
  static constexpr const char* name = "external";
  template<int N> using V = vector<double, external<N>>;
  template<int R, int C, class B = col_basis, class L = row_major> using M = matrix<double, external<R, C>, B, L>;
};


using Q = quaternion<double, compiled<>, imaginary_first, positive_cross>;
using QR = quaternion<double, compiled<>, real_first, negative_cross>;

struct Raw // plain numbers behind the external objects
{
  double a2[2], b2[2], a3[3], b3[3], c3[3], a4[4], b4[4];
  double m22[4], n22[4], m33[9], n33[9], m23[6], m32[6], m34[12], m44[16], n44[16], r33[9], p44[16];
};

// Members are const: nobody writes them once they are built.
template<class K> struct In
{
  template<int N> using V = typename K::template V<N>;
  template<int R, int C, class B = col_basis, class L = row_major> using M = typename K::template M<R, C, B, L>;
  Raw raw;
  V<2> a2, b2;
  V<3> a3, b3, c3;
  V<4> a4, b4;
  M<2, 2> m22, n22;
  M<3, 3> m33, n33;
  M<3, 3, row_basis, col_major> w33; // rotation
  M<2, 3> m23;
  M<3, 2> m32;
  M<3, 4> m34;
  M<4, 4> m44, n44;
  M<4, 4, row_basis, col_major> w44; // affine
  M<4, 4, col_basis, col_major> p44; // projection-like
  M<3, 3> rot; // rotation
  Q q, p;
  QR s, t;
  double x, y, z, g;
};

struct All
{
  In<Fix>* f;
  In<Dyn>* d;
  In<Ext>* e;
};

inline void put(Out& o, double d) { o(d); }
template<class S> void put(Out& o, const readable_vector<S>& v) { o(v.size()); for(int i = 0; i < v.size(); ++i) o(double(v.get(i))); }
template<class S> void put(Out& o, const readable_matrix<S>& m)
{
  o(m.rows()); o(m.cols());
  for(int i = 0; i < m.rows(); ++i) for(int j = 0; j < m.cols(); ++j) o(double(m.get(i, j)));
}
template<class S> void put(Out& o, const readable_quaternion<S>& q) { for(int i = 0; i < 4; ++i) o(double(q.get(i))); }
template<class A, class B> void put(Out& o, const std::pair<A, B>& p) { put(o, p.first); put(o, p.second); }
inline void put(Out& o, const std::string& s) { o(double(s.size())); for(char c : s) o(double(c)); }

template<class K> const In<K>& pick(const All& a);
template<> inline const In<Fix>& pick<Fix>(const All& a) { return *a.f; }
template<> inline const In<Dyn>& pick<Dyn>(const All& a) { return *a.d; }
template<> inline const In<Ext>& pick<Ext>(const All& a) { return *a.e; }

template<class K> void call(void* fn, const All& a, Out& o)
{
  using F = void (*)(const In<K>&, Out&);
  try {
    reinterpret_cast<F>(fn)(pick<K>(a), o);
  } catch(const std::exception& e) {
    put(o, std::string(e.what()));
    put(o, std::string(typeid(e).name()));
  }
}
template<class K> void add(const char* name, void (*fn)(const In<K>&, Out&), bool random = false)
{
  reg(Op{K::name, name, reinterpret_cast<void*>(fn), &call<K>, random});
}
} // namespace sx

// In a function template over K: OP("name", body over inputs x and output o).
#define OP(NAME, ...) sx::add<K>(NAME, +[](const sx::In<K>& x, sx::Out& o) { (void) x; (void) o; __VA_ARGS__; })
#define OPR(NAME, ...) sx::add<K>(NAME, +[](const sx::In<K>& x, sx::Out& o) { (void) x; (void) o; __VA_ARGS__; }, true)

namespace sx {
// The thread's own copy of a shared object.
template<class T> temporary_of_t<T> own(const T& t) { return temporary_of_t<T>(t); }
template<class T> std::string text(const T& t) { std::ostringstream os; os << t; return os.str(); }
} // namespace sx
