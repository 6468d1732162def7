#include "det.h"
namespace { struct R { R() { using namespace l01;
mc::add("determinant 1x1 matrix<double, external<>, col_basis, row_major>", determinants<matrix<double, external<>, col_basis, row_major>, 1, false>);
mc::add("determinant 3x3 matrix<double, external<>, col_basis, row_major>", determinants<matrix<double, external<>, col_basis, row_major>, 3, false>);
mc::add("determinant 4x4 matrix<double, external<>, col_basis, row_major>", determinants<matrix<double, external<>, col_basis, row_major>, 4, false>);
mc::add("determinant 5x5 matrix<double, external<>, col_basis, row_major>", determinants<matrix<double, external<>, col_basis, row_major>, 5, false>);
} } r; }
