#include "planes.h"
namespace { struct R { R() { using namespace g05; using namespace cml;
const std::string n = "double row_basis row_major ";
mc::add("planes fixed<4,4> " + n, planes<matrix<double, fixed<4,4>, row_basis, row_major>, double>);
mc::add("planes dynamic<> " + n, planes<matrix<double, dynamic<>, row_basis, row_major>, double>);
mc::add("planes external<4,4> " + n, planes<matrix<double, external<4,4>, row_basis, row_major>, double>);
mc::add("planes external<> " + n, planes<matrix<double, external<>, row_basis, row_major>, double>);
mc::add("planes in float " + n, planes<matrix<double, fixed<4,4>, row_basis, row_major>, float>);
mc::add("shapes " + n, shapes<double, row_basis, row_major>);
} } r; }
