#include "det.h"
namespace { struct R { R() { using namespace l01;
mc::add("determinant 4x4 matrix<double, fixed<4, 4>, col_basis, row_major>", determinants<matrix<double, fixed<4, 4>, col_basis, row_major>, 4, true>);
mc::add("scaled 4x4 matrix<double, fixed<4, 4>, col_basis, row_major>", scaled<matrix<double, fixed<4, 4>, col_basis, row_major>, 4>);
} } r; }
