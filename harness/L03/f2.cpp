#include "lu.h"
namespace { struct R { R() { using namespace l03;
mc::add("solve 2x2 matrix<double, fixed<2, 2>, col_basis, row_major> vector<double, fixed<2>>", solve<matrix<double, fixed<2, 2>, col_basis, row_major>, vector<double, fixed<2>>, 2, true>);
} } r; }
