#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("fixed 1x4x3 row_basis, col_major", fixed_products<double, row_basis, col_major, 1, 4, 3>);
mc::add("fixed 2x4x3 row_basis, col_major", fixed_products<double, row_basis, col_major, 2, 4, 3>);
mc::add("fixed 3x4x3 row_basis, col_major", fixed_products<double, row_basis, col_major, 3, 4, 3>);
mc::add("fixed 4x4x3 row_basis, col_major", fixed_products<double, row_basis, col_major, 4, 4, 3>);
} } r; }
