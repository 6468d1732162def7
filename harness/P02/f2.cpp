#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("fixed 1x1x3 row_basis, col_major", fixed_products<double, row_basis, col_major, 1, 1, 3>);
mc::add("fixed 2x1x3 row_basis, col_major", fixed_products<double, row_basis, col_major, 2, 1, 3>);
mc::add("fixed 3x1x3 row_basis, col_major", fixed_products<double, row_basis, col_major, 3, 1, 3>);
mc::add("fixed 4x1x3 row_basis, col_major", fixed_products<double, row_basis, col_major, 4, 1, 3>);
} } r; }
