#include "inv.h"
namespace { struct R { R() { using namespace l02;
mc::add("inverse 1x1 matrix<double, dynamic<>, col_basis, col_major>", inverses<matrix<double, dynamic<>, col_basis, col_major>, 1, false>);
mc::add("scaled 1x1 matrix<double, dynamic<>, col_basis, col_major>", scaled<matrix<double, dynamic<>, col_basis, col_major>, 1>);
mc::add("inverse 2x2 matrix<double, dynamic<>, col_basis, col_major>", inverses<matrix<double, dynamic<>, col_basis, col_major>, 2, false>);
mc::add("scaled 2x2 matrix<double, dynamic<>, col_basis, col_major>", scaled<matrix<double, dynamic<>, col_basis, col_major>, 2>);
mc::add("products 2x2 matrix<double, dynamic<>, col_basis, col_major>", products<matrix<double, dynamic<>, col_basis, col_major>, 2>);
mc::add("inverse 3x3 matrix<double, dynamic<>, col_basis, col_major>", inverses<matrix<double, dynamic<>, col_basis, col_major>, 3, false>);
mc::add("scaled 3x3 matrix<double, dynamic<>, col_basis, col_major>", scaled<matrix<double, dynamic<>, col_basis, col_major>, 3>);
mc::add("products 3x3 matrix<double, dynamic<>, col_basis, col_major>", products<matrix<double, dynamic<>, col_basis, col_major>, 3>);
mc::add("inverse 4x4 matrix<double, dynamic<>, col_basis, col_major>", inverses<matrix<double, dynamic<>, col_basis, col_major>, 4, false>);
mc::add("scaled 4x4 matrix<double, dynamic<>, col_basis, col_major>", scaled<matrix<double, dynamic<>, col_basis, col_major>, 4>);
mc::add("products 4x4 matrix<double, dynamic<>, col_basis, col_major>", products<matrix<double, dynamic<>, col_basis, col_major>, 4>);
mc::add("inverse 5x5 matrix<double, dynamic<>, col_basis, col_major>", inverses<matrix<double, dynamic<>, col_basis, col_major>, 5, false>);
mc::add("scaled 5x5 matrix<double, dynamic<>, col_basis, col_major>", scaled<matrix<double, dynamic<>, col_basis, col_major>, 5>);
mc::add("products 5x5 matrix<double, dynamic<>, col_basis, col_major>", products<matrix<double, dynamic<>, col_basis, col_major>, 5>);
} } r; }
