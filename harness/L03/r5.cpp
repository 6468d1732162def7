#include "lu.h"
namespace { struct R { R() { using namespace l03;
mc::add("solve 5x5 matrix<double, fixed<5, 5>, row_basis, row_major> vector<double, dynamic<>>", solve<matrix<double, fixed<5, 5>, row_basis, row_major>, vector<double, dynamic<>>, 5, false>);
} } r; }
