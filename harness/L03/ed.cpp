#include "lu.h"
namespace { struct R { R() { using namespace l03;
mc::add("solve 1x1 matrix<double, external<>, col_basis, row_major> vector<double, dynamic<>>", solve<matrix<double, external<>, col_basis, row_major>, vector<double, dynamic<>>, 1, false>);
mc::add("solve 3x3 matrix<double, external<>, col_basis, row_major> vector<double, dynamic<>>", solve<matrix<double, external<>, col_basis, row_major>, vector<double, dynamic<>>, 3, false>);
mc::add("solve 4x4 matrix<double, external<>, col_basis, row_major> vector<double, dynamic<>>", solve<matrix<double, external<>, col_basis, row_major>, vector<double, dynamic<>>, 4, false>);
mc::add("solve 5x5 matrix<double, external<>, col_basis, row_major> vector<double, dynamic<>>", solve<matrix<double, external<>, col_basis, row_major>, vector<double, dynamic<>>, 5, false>);
} } r; }
