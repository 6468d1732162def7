#include "det.h"
namespace { struct R { R() { using namespace l01;
mc::add("determinant 1x1 matrix<double, dynamic<>, col_basis, col_major>", determinants<matrix<double, dynamic<>, col_basis, col_major>, 1, false>);
mc::add("scaled 1x1 matrix<double, dynamic<>, col_basis, col_major>", scaled<matrix<double, dynamic<>, col_basis, col_major>, 1>);
mc::add("determinant 2x2 matrix<double, dynamic<>, col_basis, col_major>", determinants<matrix<double, dynamic<>, col_basis, col_major>, 2, false>);
mc::add("scaled 2x2 matrix<double, dynamic<>, col_basis, col_major>", scaled<matrix<double, dynamic<>, col_basis, col_major>, 2>);
mc::add("determinant 3x3 matrix<double, dynamic<>, col_basis, col_major>", determinants<matrix<double, dynamic<>, col_basis, col_major>, 3, false>);
mc::add("scaled 3x3 matrix<double, dynamic<>, col_basis, col_major>", scaled<matrix<double, dynamic<>, col_basis, col_major>, 3>);
mc::add("determinant 4x4 matrix<double, dynamic<>, col_basis, col_major>", determinants<matrix<double, dynamic<>, col_basis, col_major>, 4, false>);
mc::add("scaled 4x4 matrix<double, dynamic<>, col_basis, col_major>", scaled<matrix<double, dynamic<>, col_basis, col_major>, 4>);
mc::add("determinant 5x5 matrix<double, dynamic<>, col_basis, col_major>", determinants<matrix<double, dynamic<>, col_basis, col_major>, 5, false>);
mc::add("scaled 5x5 matrix<double, dynamic<>, col_basis, col_major>", scaled<matrix<double, dynamic<>, col_basis, col_major>, 5>);
} } r; }
