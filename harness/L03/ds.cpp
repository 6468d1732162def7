#include "lu.h"
namespace { struct R { R() { using namespace l03;
mc::add("solve 1x1 matrix<float, dynamic<>, row_basis, row_major> vector<float, dynamic<>>", solve<matrix<float, dynamic<>, row_basis, row_major>, vector<float, dynamic<>>, 1, false>);
mc::add("solve 2x2 matrix<float, dynamic<>, row_basis, row_major> vector<float, dynamic<>>", solve<matrix<float, dynamic<>, row_basis, row_major>, vector<float, dynamic<>>, 2, false>);
mc::add("solve 3x3 matrix<float, dynamic<>, row_basis, row_major> vector<float, dynamic<>>", solve<matrix<float, dynamic<>, row_basis, row_major>, vector<float, dynamic<>>, 3, false>);
mc::add("solve 4x4 matrix<float, dynamic<>, row_basis, row_major> vector<float, dynamic<>>", solve<matrix<float, dynamic<>, row_basis, row_major>, vector<float, dynamic<>>, 4, false>);
mc::add("solve 5x5 matrix<float, dynamic<>, row_basis, row_major> vector<float, dynamic<>>", solve<matrix<float, dynamic<>, row_basis, row_major>, vector<float, dynamic<>>, 5, false>);
} } r; }
