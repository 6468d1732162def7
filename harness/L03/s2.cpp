#include "lu.h"
namespace { struct R { R() { using namespace l03;
mc::add("solve 2x2 matrix<float, fixed<2, 2>, col_basis, row_major> vector<float, fixed<2>>", solve<matrix<float, fixed<2, 2>, col_basis, row_major>, vector<float, fixed<2>>, 2, false>);
} } r; }
