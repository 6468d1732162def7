#include "det.h"
namespace { struct R { R() { using namespace l01;
mc::add("determinant 2x2 matrix<int, fixed<2, 2>, col_basis, row_major>", determinants<matrix<int, fixed<2, 2>, col_basis, row_major>, 2, false>);
mc::add("determinant 4x4 matrix<int, fixed<4, 4>, col_basis, row_major>", determinants<matrix<int, fixed<4, 4>, col_basis, row_major>, 4, false>);
} } r; }
