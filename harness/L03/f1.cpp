#include "lu.h"
namespace { struct R { R() { using namespace l03;
mc::add("solve 1x1 matrix<double, fixed<1, 1>, col_basis, row_major> vector<double, fixed<1>>", solve<matrix<double, fixed<1, 1>, col_basis, row_major>, vector<double, fixed<1>>, 1, false>);
} } r; }
