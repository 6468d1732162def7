#include "lu.h"
namespace { struct R { R() { using namespace l03;
mc::add("solve 1x1 matrix<double, dynamic<>, col_basis, col_major> vector<double, fixed<1>>", solve<matrix<double, dynamic<>, col_basis, col_major>, vector<double, fixed<1>>, 1, false>);
mc::add("solve 2x2 matrix<double, dynamic<>, col_basis, col_major> vector<double, fixed<2>>", solve<matrix<double, dynamic<>, col_basis, col_major>, vector<double, fixed<2>>, 2, false>);
mc::add("solve 3x3 matrix<double, dynamic<>, col_basis, col_major> vector<double, fixed<3>>", solve<matrix<double, dynamic<>, col_basis, col_major>, vector<double, fixed<3>>, 3, false>);
mc::add("solve 4x4 matrix<double, dynamic<>, col_basis, col_major> vector<double, fixed<4>>", solve<matrix<double, dynamic<>, col_basis, col_major>, vector<double, fixed<4>>, 4, false>);
mc::add("solve 5x5 matrix<double, dynamic<>, col_basis, col_major> vector<double, fixed<5>>", solve<matrix<double, dynamic<>, col_basis, col_major>, vector<double, fixed<5>>, 5, false>);
mc::add("sizes row_major", sizes<double, row_major>);mc::add("sizes col_major", sizes<double, col_major>);
} } r; }
