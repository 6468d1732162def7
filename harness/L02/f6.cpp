#include "inv.h"
namespace { struct R { R() { using namespace l02;
mc::add("inverse 6x6 matrix<double, fixed<6, 6>, col_basis, row_major>", inverses<matrix<double, fixed<6, 6>, col_basis, row_major>, 6, false>);
mc::add("products 6x6 matrix<double, fixed<6, 6>, col_basis, row_major>", products<matrix<double, fixed<6, 6>, col_basis, row_major>, 6>);
} } r; }
