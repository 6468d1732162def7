#include "lu.h"
namespace { struct R { R() { using namespace l03;
mc::add("solve 5x5 matrix<double, external<5, 5>, col_basis, col_major> vector<double, fixed<5>>", solve<matrix<double, external<5, 5>, col_basis, col_major>, vector<double, fixed<5>>, 5, false>);
} } r; }
