#include "det.h"
namespace { struct R { R() { using namespace l01;
mc::add("determinant 1x1 matrix<int, fixed<1, 1>, col_basis, row_major>", determinants<matrix<int, fixed<1, 1>, col_basis, row_major>, 1, false>);
mc::add("determinant 3x3 matrix<int, fixed<3, 3>, col_basis, row_major>", determinants<matrix<int, fixed<3, 3>, col_basis, row_major>, 3, false>);
} } r; }
