#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("dynamic laws col_basis, col_major", dynamic_laws<double, col_basis, col_major>);

} } r; }
