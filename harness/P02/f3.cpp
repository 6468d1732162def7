#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("fixed 1x1x4 col_basis, row_major", fixed_products<double, col_basis, row_major, 1, 1, 4>);
mc::add("fixed 2x1x4 col_basis, row_major", fixed_products<double, col_basis, row_major, 2, 1, 4>);
mc::add("fixed 3x1x4 col_basis, row_major", fixed_products<double, col_basis, row_major, 3, 1, 4>);
mc::add("fixed 4x1x4 col_basis, row_major", fixed_products<double, col_basis, row_major, 4, 1, 4>);
} } r; }
