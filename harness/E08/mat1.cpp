#include "inplace.h"
namespace { using namespace e08; template<int N> using T = matrix<double, fixed<N, N>, col_basis, col_major>; struct R { R() {
  mc::add("builders 3D double, fixed<N, N>, col_basis, col_major", builders3<T<4>>);
  mc::add("builders 2D double, fixed<N, N>, col_basis, col_major", builders2<T<3>>);
  mc::add("projections double, fixed<N, N>, col_basis, col_major", projections<T<4>>);
  mc::add("products 2 double, fixed<N, N>, col_basis, col_major", [] { products<T<2>>(2); });
  mc::add("products 3 double, fixed<N, N>, col_basis, col_major", [] { products<T<3>>(3); });
  mc::add("products 4 double, fixed<N, N>, col_basis, col_major", [] { products<T<4>>(4); });
  mc::add("systems 3 double, fixed<N, N>, col_basis, col_major", [] { systems<T<3>>(3); });
  mc::add("systems 4 double, fixed<N, N>, col_basis, col_major", [] { systems<T<4>>(4); });
} } r; }
