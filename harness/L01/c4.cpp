#include "det.h"
namespace { struct R { R() { using namespace l01;
mc::add("determinant 4x4 matrix<double, fixed<4, 4>, col_basis, col_major>", determinants<matrix<double, fixed<4, 4>, col_basis, col_major>, 4, false>);
} } r; }
