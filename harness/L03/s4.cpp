#include "lu.h"
namespace { struct R { R() { using namespace l03;
mc::add("solve 4x4 matrix<float, fixed<4, 4>, col_basis, row_major> vector<float, fixed<4>>", solve<matrix<float, fixed<4, 4>, col_basis, row_major>, vector<float, fixed<4>>, 4, false>);
} } r; }
