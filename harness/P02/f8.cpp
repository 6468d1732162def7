#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("fixed 1x3x1 row_basis, row_major", fixed_products<double, row_basis, row_major, 1, 3, 1>);
mc::add("fixed 2x3x1 row_basis, row_major", fixed_products<double, row_basis, row_major, 2, 3, 1>);
mc::add("fixed 3x3x1 row_basis, row_major", fixed_products<double, row_basis, row_major, 3, 3, 1>);
mc::add("fixed 4x3x1 row_basis, row_major", fixed_products<double, row_basis, row_major, 4, 3, 1>);
} } r; }
