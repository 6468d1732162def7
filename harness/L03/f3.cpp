#include "lu.h"
namespace { struct R { R() { using namespace l03;
mc::add("solve 3x3 matrix<double, fixed<3, 3>, col_basis, row_major> vector<double, fixed<3>>", solve<matrix<double, fixed<3, 3>, col_basis, row_major>, vector<double, fixed<3>>, 3, true>);
} } r; }
