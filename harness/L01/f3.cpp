#include "det.h"
namespace { struct R { R() { using namespace l01;
mc::add("determinant 3x3 matrix<double, fixed<3, 3>, col_basis, row_major>", determinants<matrix<double, fixed<3, 3>, col_basis, row_major>, 3, true>);
mc::add("scaled 3x3 matrix<double, fixed<3, 3>, col_basis, row_major>", scaled<matrix<double, fixed<3, 3>, col_basis, row_major>, 3>);
} } r; }
