#include "det.h"
namespace { struct R { R() { using namespace l01;
mc::add("determinant 4x4 matrix<float, fixed<4, 4>, col_basis, row_major>", determinants<matrix<float, fixed<4, 4>, col_basis, row_major>, 4, false>);
mc::add("scaled 4x4 matrix<float, fixed<4, 4>, col_basis, row_major>", scaled<matrix<float, fixed<4, 4>, col_basis, row_major>, 4>);
} } r; }
