#include "planes.h"
namespace { struct R { R() { using namespace g05; using namespace cml;
const std::string n = "float col_basis row_major ";
mc::add("planes fixed<4,4> " + n, planes<matrix<float, fixed<4,4>, col_basis, row_major>, float>);
mc::add("planes dynamic<> " + n, planes<matrix<float, dynamic<>, col_basis, row_major>, float>);
mc::add("planes external<4,4> " + n, planes<matrix<float, external<4,4>, col_basis, row_major>, float>);
mc::add("planes external<> " + n, planes<matrix<float, external<>, col_basis, row_major>, float>);
mc::add("planes in double " + n, planes<matrix<float, fixed<4,4>, col_basis, row_major>, double>);
mc::add("shapes " + n, shapes<float, col_basis, row_major>);
} } r; }
