#include "lu.h"
namespace { struct R { R() { using namespace l03;
mc::add("solve 5x5 matrix<float, fixed<5, 5>, col_basis, row_major> vector<float, fixed<5>>", solve<matrix<float, fixed<5, 5>, col_basis, row_major>, vector<float, fixed<5>>, 5, false>);
} } r; }
