#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("dynamic products row_basis, col_major", dynamic_products<float, row_basis, col_major>);
mc::add("dynamic vectors row_basis, col_major", dynamic_vectors<float, row_basis, col_major>);

} } r; }
