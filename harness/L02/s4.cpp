#include "inv.h"
namespace { struct R { R() { using namespace l02;
mc::add("inverse 4x4 matrix<float, fixed<4, 4>, col_basis, row_major>", inverses<matrix<float, fixed<4, 4>, col_basis, row_major>, 4, false>);
mc::add("scaled 4x4 matrix<float, fixed<4, 4>, col_basis, row_major>", scaled<matrix<float, fixed<4, 4>, col_basis, row_major>, 4>);
mc::add("products 4x4 matrix<float, fixed<4, 4>, col_basis, row_major>", products<matrix<float, fixed<4, 4>, col_basis, row_major>, 4>);
} } r; }
