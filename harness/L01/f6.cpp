#include "det.h"
namespace { struct R { R() { using namespace l01;
mc::add("determinant 6x6 matrix<double, fixed<6, 6>, col_basis, row_major>", determinants<matrix<double, fixed<6, 6>, col_basis, row_major>, 6, false>);
} } r; }
