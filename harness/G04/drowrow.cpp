#include "volumes.h"
namespace { struct R { R() { using namespace g04; using namespace cml;
const std::string n = "double row_basis row_major ";
mc::add("bounds fixed<4,4> " + n, bounds<matrix<double, fixed<4,4>, row_basis, row_major>, double>);
mc::add("sizes fixed<4,4> " + n, sizes<matrix<double, fixed<4,4>, row_basis, row_major>, double>);
mc::add("bounds dynamic<> " + n, bounds<matrix<double, dynamic<>, row_basis, row_major>, double>);
mc::add("sizes dynamic<> " + n, sizes<matrix<double, dynamic<>, row_basis, row_major>, double>);
mc::add("bounds external<4,4> " + n, bounds<matrix<double, external<4,4>, row_basis, row_major>, double>);
mc::add("sizes external<4,4> " + n, sizes<matrix<double, external<4,4>, row_basis, row_major>, double>);
mc::add("bounds external<> " + n, bounds<matrix<double, external<>, row_basis, row_major>, double>);
mc::add("sizes external<> " + n, sizes<matrix<double, external<>, row_basis, row_major>, double>);
mc::add("bounds from float " + n, bounds<matrix<double, fixed<4,4>, row_basis, row_major>, float>);
mc::add("sizes from float " + n, sizes<matrix<double, fixed<4,4>, row_basis, row_major>, float>);
mc::add("shapes " + n, shapes<double, row_basis, row_major>);
} } r; }
