#include "det.h"
namespace { struct R { R() { using namespace l01;
mc::add("determinant 3x3 matrix<double, external<3, 3>, col_basis, col_major>", determinants<matrix<double, external<3, 3>, col_basis, col_major>, 3, false>);
} } r; }
