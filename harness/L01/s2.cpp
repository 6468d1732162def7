#include "det.h"
namespace { struct R { R() { using namespace l01;
mc::add("determinant 2x2 matrix<float, fixed<2, 2>, col_basis, row_major>", determinants<matrix<float, fixed<2, 2>, col_basis, row_major>, 2, false>);
mc::add("scaled 2x2 matrix<float, fixed<2, 2>, col_basis, row_major>", scaled<matrix<float, fixed<2, 2>, col_basis, row_major>, 2>);
} } r; }
