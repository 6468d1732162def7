#include "lu.h"
namespace { struct R { R() { using namespace l03;
mc::add("solve 4x4 matrix<double, dynamic<>, col_basis, row_major> vector<double, dynamic<>>", solve<matrix<double, dynamic<>, col_basis, row_major>, vector<double, dynamic<>>, 4, true>);
mc::add("solve 5x5 matrix<double, dynamic<>, col_basis, row_major> vector<double, dynamic<>>", solve<matrix<double, dynamic<>, col_basis, row_major>, vector<double, dynamic<>>, 5, false>);
mc::add("solve 6x6 matrix<double, dynamic<>, col_basis, row_major> vector<double, dynamic<>>", solve<matrix<double, dynamic<>, col_basis, row_major>, vector<double, dynamic<>>, 6, false>);
} } r; }
