#include "det.h"
namespace { struct R { R() { using namespace l01;
mc::add("determinant 1x1 matrix<double, fixed<1, 1>, col_basis, row_major>", determinants<matrix<double, fixed<1, 1>, col_basis, row_major>, 1, true>);
mc::add("scaled 1x1 matrix<double, fixed<1, 1>, col_basis, row_major>", scaled<matrix<double, fixed<1, 1>, col_basis, row_major>, 1>);
} } r; }
