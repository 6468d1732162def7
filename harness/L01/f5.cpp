#include "det.h"
namespace { struct R { R() { using namespace l01;
mc::add("determinant 5x5 matrix<double, fixed<5, 5>, col_basis, row_major>", determinants<matrix<double, fixed<5, 5>, col_basis, row_major>, 5, true>);
mc::add("scaled 5x5 matrix<double, fixed<5, 5>, col_basis, row_major>", scaled<matrix<double, fixed<5, 5>, col_basis, row_major>, 5>);
} } r; }
