#include "lu.h"
namespace { struct R { R() { using namespace l03;
mc::add("solve 1x1 matrix<double, dynamic<>, col_basis, row_major> vector<double, dynamic<>>", solve<matrix<double, dynamic<>, col_basis, row_major>, vector<double, dynamic<>>, 1, false>);
mc::add("solve 2x2 matrix<double, dynamic<>, col_basis, row_major> vector<double, dynamic<>>", solve<matrix<double, dynamic<>, col_basis, row_major>, vector<double, dynamic<>>, 2, false>);
mc::add("solve 3x3 matrix<double, dynamic<>, col_basis, row_major> vector<double, dynamic<>>", solve<matrix<double, dynamic<>, col_basis, row_major>, vector<double, dynamic<>>, 3, false>);
} } r; }
