#include "inv.h"
namespace { struct R { R() { using namespace l02;
mc::add("inverse 1x1 matrix<float, dynamic<>, row_basis, row_major>", inverses<matrix<float, dynamic<>, row_basis, row_major>, 1, false>);
mc::add("scaled 1x1 matrix<float, dynamic<>, row_basis, row_major>", scaled<matrix<float, dynamic<>, row_basis, row_major>, 1>);
mc::add("inverse 2x2 matrix<float, dynamic<>, row_basis, row_major>", inverses<matrix<float, dynamic<>, row_basis, row_major>, 2, false>);
mc::add("scaled 2x2 matrix<float, dynamic<>, row_basis, row_major>", scaled<matrix<float, dynamic<>, row_basis, row_major>, 2>);
mc::add("products 2x2 matrix<float, dynamic<>, row_basis, row_major>", products<matrix<float, dynamic<>, row_basis, row_major>, 2>);
mc::add("inverse 3x3 matrix<float, dynamic<>, row_basis, row_major>", inverses<matrix<float, dynamic<>, row_basis, row_major>, 3, false>);
mc::add("scaled 3x3 matrix<float, dynamic<>, row_basis, row_major>", scaled<matrix<float, dynamic<>, row_basis, row_major>, 3>);
mc::add("products 3x3 matrix<float, dynamic<>, row_basis, row_major>", products<matrix<float, dynamic<>, row_basis, row_major>, 3>);
mc::add("inverse 4x4 matrix<float, dynamic<>, row_basis, row_major>", inverses<matrix<float, dynamic<>, row_basis, row_major>, 4, false>);
mc::add("scaled 4x4 matrix<float, dynamic<>, row_basis, row_major>", scaled<matrix<float, dynamic<>, row_basis, row_major>, 4>);
mc::add("products 4x4 matrix<float, dynamic<>, row_basis, row_major>", products<matrix<float, dynamic<>, row_basis, row_major>, 4>);
mc::add("inverse 5x5 matrix<float, dynamic<>, row_basis, row_major>", inverses<matrix<float, dynamic<>, row_basis, row_major>, 5, false>);
mc::add("scaled 5x5 matrix<float, dynamic<>, row_basis, row_major>", scaled<matrix<float, dynamic<>, row_basis, row_major>, 5>);
mc::add("products 5x5 matrix<float, dynamic<>, row_basis, row_major>", products<matrix<float, dynamic<>, row_basis, row_major>, 5>);
} } r; }
