#include "inv.h"
namespace { struct R { R() { using namespace l02;
mc::add("inverse 4x4 matrix<double, fixed<4, 4>, col_basis, col_major>", inverses<matrix<double, fixed<4, 4>, col_basis, col_major>, 4, false>);
mc::add("products 4x4 matrix<double, fixed<4, 4>, col_basis, col_major>", products<matrix<double, fixed<4, 4>, col_basis, col_major>, 4>);
} } r; }
