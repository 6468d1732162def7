#include "lu.h"
namespace { struct R { R() { using namespace l03;
mc::add("solve 2x2 matrix<double, fixed<2, 2>, row_basis, row_major> vector<double, dynamic<>>", solve<matrix<double, fixed<2, 2>, row_basis, row_major>, vector<double, dynamic<>>, 2, false>);
} } r; }
