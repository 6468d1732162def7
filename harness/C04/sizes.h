// Shared by the C04 harness files: classify the error an operation raises.
#pragma once
#include "mc.h"
#include "all.h"
#include <functional>
#include <memory>
#include <new>
#include <stdexcept>
#include <vector>

namespace sz {
enum : int {
  OK = 0, VINC = 1, VMIN = 2, VSIZE = 4, VRANGE = 8, MINC = 16, MMIN = 32, MSIZE = 64,
  MROW = 128, MCOL = 256, MINNER = 512, MSQ = 1024, AFF = 2048, INVARG = 4096, OTHER = 8192
};

// Sizes 0..max-1, or those of the large list.
inline bool big = false;
inline int pick(int max)
{
  static const std::vector<int> q = {1, 5, 7, 8, 9, 16, 17}, t = {0, 1, 5, 6, 7, 8, 9, 15, 16, 17, 33};
  if(!big) return mc::choose(max);
  const auto& l = mc::thorough() ? t : q;
  return l[size_t(mc::choose(int(l.size())))];
}
inline std::function<void()> large(std::function<void()> f) { return [f] { big = true; f(); big = false; }; }

template<class F> int run(F&& f)
{
  mc::step();
  try { f(); return OK; }
  catch(const cml::incompatible_vector_size_error&) { return VINC; }
  catch(const cml::minimum_vector_size_error&) { return VMIN; }
  catch(const cml::vector_size_error&) { return VSIZE; }
  catch(const cml::vector_size_range_error&) { return VRANGE; }
  catch(const cml::incompatible_matrix_size_error&) { return MINC; }
  catch(const cml::minimum_matrix_size_error&) { return MMIN; }
  catch(const cml::matrix_size_error&) { return MSIZE; }
  catch(const cml::incompatible_matrix_row_size_error&) { return MROW; }
  catch(const cml::incompatible_matrix_col_size_error&) { return MCOL; }
  catch(const cml::incompatible_matrix_inner_size_error&) { return MINNER; }
  catch(const cml::non_square_matrix_error&) { return MSQ; }
  catch(const cml::affine_matrix_size_error&) { return AFF; }
  catch(const std::invalid_argument&) { return INVARG; }
  catch(const std::exception&) { return OTHER; }
}

inline const char* name(int e)
{
  switch(e) {
    case OK: return "no error";
    case VINC: return "incompatible_vector_size_error";
    case VMIN: return "minimum_vector_size_error";
    case VSIZE: return "vector_size_error";
    case VRANGE: return "vector_size_range_error";
    case MINC: return "incompatible_matrix_size_error";
    case MMIN: return "minimum_matrix_size_error";
    case MSIZE: return "matrix_size_error";
    case MROW: return "incompatible_matrix_row_size_error";
    case MCOL: return "incompatible_matrix_col_size_error";
    case MINNER: return "incompatible_matrix_inner_size_error";
    case MSQ: return "non_square_matrix_error";
    case AFF: return "affine_matrix_size_error";
    case INVARG: return "std::invalid_argument";
    default: return "another exception";
  }
}

/// `mask` holds the acceptable errors; OK means that nothing may be thrown.
inline void expect(const char* op, int got, int mask)
{
  if(mask == OK) MC_CHECK(got == OK, std::string(op) + ":spurious-error", op << " raised " << name(got) << " although the sizes agree");
  else {
    MC_CHECK(got != OK, std::string(op) + ":missing-error", op << " accepted sizes that do not agree");
    MC_CHECK(got & mask, std::string(op) + ":wrong-error", op << " raised " << name(got));
  }
}

// Storage for one vector operand of each kind.
struct Dyn
{
  cml::vectord v;
  explicit Dyn(int n) : v(n) { for(int i = 0; i < n; ++i) v[i] = i + 1; }
};
struct Ext
{
  std::unique_ptr<double[]> m;
  cml::vector<double, cml::external<>> v;
  explicit Ext(int n) : m(new double[n]), v(m.get(), n) { for(int i = 0; i < n; ++i) m[i] = i + 1; }
};
struct CExt
{
  std::unique_ptr<double[]> m;
  cml::vector<const double, cml::external<>> v;
  explicit CExt(int n) : m(new double[n]), v(m.get(), n) { for(int i = 0; i < n; ++i) m[i] = i + 1; }
};
template<int N> struct Fix
{
  cml::vector<double, cml::compiled<N>> v;
  explicit Fix(int) { for(int i = 0; i < N; ++i) v[i] = i + 1; }
};

template<class V> void unchanged(const char* op, const V& v, int n, const char* which)
{
  MC_CHECK(v.size() == n, std::string(op) + ":operand-size", op << ": the " << which << " operand has size " << v.size() << " afterwards, was " << n);
  for(int i = 0; i < n; ++i) MC_CHECK(v.get(i) == i + 1, std::string(op) + ":operand-changed", op << ": element " << i << " of the " << which << " operand is " << v.get(i));
}

template<class M> struct MatInit
{
  template<class A> static void set(A& m)
  {
    for(int i = 0; i < m.rows(); ++i) for(int j = 0; j < m.cols(); ++j) m(i, j) = 1 + i * 10 + j + (i == j ? 7 : 0);
  }
};
inline double cell(int i, int j) { return 1 + i * 10 + j + (i == j ? 7 : 0); }

template<class B, class L> struct MDyn
{
  cml::matrix<double, cml::dynamic<>, B, L> m;
  MDyn(int r, int c) : m(r, c) { MatInit<void>::set(m); }
};
template<class B, class L> struct MExt
{
  std::unique_ptr<double[]> p;
  cml::matrix<double, cml::external<>, B, L> m;
  MExt(int r, int c) : p(new double[r * c]), m(p.get(), r, c) { MatInit<void>::set(m); }
};
template<int R, int C, class B, class L> struct MFix
{
  cml::matrix<double, cml::compiled<R, C>, B, L> m;
  MFix(int, int) { MatInit<void>::set(m); }
};

template<class M> void unchanged(const char* op, const M& m, int r, int c, const char* which)
{
  MC_CHECK(m.rows() == r && m.cols() == c, std::string(op) + ":operand-size", op << ": the " << which << " operand is " << m.rows() << "x" << m.cols() << " afterwards, was " << r << "x" << c);
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j)
    MC_CHECK(m.get(i, j) == cell(i, j), std::string(op) + ":operand-changed", op << ": element " << i << "," << j << " of the " << which << " operand is " << m.get(i, j));
}
} // namespace sz
