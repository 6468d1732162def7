#include "det.h"
namespace { struct R { R() { using namespace l01;
mc::add("determinant 2x2 matrix<double, fixed<2, 2>, row_basis, row_major>", determinants<matrix<double, fixed<2, 2>, row_basis, row_major>, 2, false>);
} } r; }
