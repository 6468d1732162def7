#include "lu.h"
namespace { struct R { R() { using namespace l03;
mc::add("solve 4x4 matrix<double, fixed<4, 4>, col_basis, col_major> vector<double, fixed<4>>", solve<matrix<double, fixed<4, 4>, col_basis, col_major>, vector<double, fixed<4>>, 4, false>);
} } r; }
