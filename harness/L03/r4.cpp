#include "lu.h"
namespace { struct R { R() { using namespace l03;
mc::add("solve 4x4 matrix<double, fixed<4, 4>, row_basis, row_major> vector<double, dynamic<>>", solve<matrix<double, fixed<4, 4>, row_basis, row_major>, vector<double, dynamic<>>, 4, false>);
} } r; }
