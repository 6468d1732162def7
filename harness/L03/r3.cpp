#include "lu.h"
namespace { struct R { R() { using namespace l03;
mc::add("solve 3x3 matrix<double, fixed<3, 3>, row_basis, row_major> vector<double, dynamic<>>", solve<matrix<double, fixed<3, 3>, row_basis, row_major>, vector<double, dynamic<>>, 3, false>);
} } r; }
