#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("fixed 1x1x1 row_basis, row_major", fixed_products<double, row_basis, row_major, 1, 1, 1>);
mc::add("fixed 1x1x1 col_basis, row_major", fixed_products<double, col_basis, row_major, 1, 1, 1>);
mc::add("fixed 1x1x1 row_basis, col_major", fixed_products<double, row_basis, col_major, 1, 1, 1>);
mc::add("fixed 1x1x1 col_basis, col_major", fixed_products<double, col_basis, col_major, 1, 1, 1>);
mc::add("fixed 2x1x1 row_basis, row_major", fixed_products<double, row_basis, row_major, 2, 1, 1>);
mc::add("fixed 3x1x1 row_basis, row_major", fixed_products<double, row_basis, row_major, 3, 1, 1>);
mc::add("fixed 4x1x1 row_basis, row_major", fixed_products<double, row_basis, row_major, 4, 1, 1>);
} } r; }
