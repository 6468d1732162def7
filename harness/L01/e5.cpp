#include "det.h"
namespace { struct R { R() { using namespace l01;
mc::add("determinant 5x5 matrix<double, external<5, 5>, col_basis, col_major>", determinants<matrix<double, external<5, 5>, col_basis, col_major>, 5, false>);
} } r; }
