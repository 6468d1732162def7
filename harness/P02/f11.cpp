#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("fixed 1x3x4 col_basis, row_major", fixed_products<double, col_basis, row_major, 1, 3, 4>);
mc::add("fixed 2x3x4 col_basis, row_major", fixed_products<double, col_basis, row_major, 2, 3, 4>);
mc::add("fixed 3x3x4 col_basis, row_major", fixed_products<double, col_basis, row_major, 3, 3, 4>);
mc::add("fixed 4x3x4 col_basis, row_major", fixed_products<double, col_basis, row_major, 4, 3, 4>);
} } r; }
