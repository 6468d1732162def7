#include "lu.h"
namespace { struct R { R() { using namespace l03;
mc::add("solve 3x3 matrix<float, fixed<3, 3>, col_basis, row_major> vector<float, fixed<3>>", solve<matrix<float, fixed<3, 3>, col_basis, row_major>, vector<float, fixed<3>>, 3, false>);
} } r; }
