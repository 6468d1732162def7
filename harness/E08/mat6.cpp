#include "inplace.h"
namespace { using namespace e08; template<int N> using T = matrix<float, dynamic<>, col_basis, row_major>; struct R { R() {
  mc::add("builders 3D float, dynamic<>, col_basis, row_major", builders3<T<4>>);
  mc::add("builders 2D float, dynamic<>, col_basis, row_major", builders2<T<3>>);
  mc::add("projections float, dynamic<>, col_basis, row_major", projections<T<4>>);
  mc::add("products 2 float, dynamic<>, col_basis, row_major", [] { products<T<2>>(2); });
  mc::add("products 3 float, dynamic<>, col_basis, row_major", [] { products<T<3>>(3); });
  mc::add("products 4 float, dynamic<>, col_basis, row_major", [] { products<T<4>>(4); });
  mc::add("systems 3 float, dynamic<>, col_basis, row_major", [] { systems<T<3>>(3); });
  mc::add("systems 4 float, dynamic<>, col_basis, row_major", [] { systems<T<4>>(4); });
} } r; }
