#include "planes.h"
namespace { struct R { R() { using namespace g05; using namespace cml;
const std::string n = "double col_basis col_major ";
mc::add("planes fixed<4,4> " + n, planes<matrix<double, fixed<4,4>, col_basis, col_major>, double>);
mc::add("planes dynamic<> " + n, planes<matrix<double, dynamic<>, col_basis, col_major>, double>);
mc::add("planes external<4,4> " + n, planes<matrix<double, external<4,4>, col_basis, col_major>, double>);
mc::add("planes external<> " + n, planes<matrix<double, external<>, col_basis, col_major>, double>);
mc::add("planes in float " + n, planes<matrix<double, fixed<4,4>, col_basis, col_major>, float>);
mc::add("shapes " + n, shapes<double, col_basis, col_major>);
} } r; }
