#include "inv.h"
namespace { struct R { R() { using namespace l02;
mc::add("inverse 5x5 matrix<float, fixed<5, 5>, col_basis, row_major>", inverses<matrix<float, fixed<5, 5>, col_basis, row_major>, 5, false>);
mc::add("scaled 5x5 matrix<float, fixed<5, 5>, col_basis, row_major>", scaled<matrix<float, fixed<5, 5>, col_basis, row_major>, 5>);
mc::add("products 5x5 matrix<float, fixed<5, 5>, col_basis, row_major>", products<matrix<float, fixed<5, 5>, col_basis, row_major>, 5>);
} } r; }
