#include "inv.h"
namespace { struct R { R() { using namespace l02;
mc::add("inverse 1x1 matrix<double, fixed<1, 1>, col_basis, col_major>", inverses<matrix<double, fixed<1, 1>, col_basis, col_major>, 1, false>);
} } r; }
