#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("fixed 1x4x2 col_basis, col_major", fixed_products<double, col_basis, col_major, 1, 4, 2>);
mc::add("fixed 2x4x2 col_basis, col_major", fixed_products<double, col_basis, col_major, 2, 4, 2>);
mc::add("fixed 3x4x2 col_basis, col_major", fixed_products<double, col_basis, col_major, 3, 4, 2>);
mc::add("fixed 4x4x2 col_basis, col_major", fixed_products<double, col_basis, col_major, 4, 4, 2>);
} } r; }
