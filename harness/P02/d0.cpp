#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("dynamic products row_basis, row_major", dynamic_products<double, row_basis, row_major>);
mc::add("dynamic vectors row_basis, row_major", dynamic_vectors<double, row_basis, row_major>);

} } r; }
