#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("dynamic products col_basis, row_major", dynamic_products<int, col_basis, row_major>);
mc::add("dynamic vectors col_basis, row_major", dynamic_vectors<int, col_basis, row_major>);

} } r; }
