#include "det.h"
namespace { struct R { R() { using namespace l01;
mc::add("determinant 5x5 matrix<double, fixed<5, 5>, row_basis, row_major>", determinants<matrix<double, fixed<5, 5>, row_basis, row_major>, 5, false>);
} } r; }
