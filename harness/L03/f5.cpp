#include "lu.h"
namespace { struct R { R() { using namespace l03;
mc::add("solve 5x5 matrix<double, fixed<5, 5>, col_basis, row_major> vector<double, fixed<5>>", solve<matrix<double, fixed<5, 5>, col_basis, row_major>, vector<double, fixed<5>>, 5, true>);
} } r; }
