#include "det.h"
namespace { struct R { R() { using namespace l01;
mc::add("determinant 3x3 matrix<float, fixed<3, 3>, col_basis, row_major>", determinants<matrix<float, fixed<3, 3>, col_basis, row_major>, 3, false>);
mc::add("scaled 3x3 matrix<float, fixed<3, 3>, col_basis, row_major>", scaled<matrix<float, fixed<3, 3>, col_basis, row_major>, 3>);
} } r; }
