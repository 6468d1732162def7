#include "volumes.h"
namespace { struct R { R() { using namespace g04; using namespace cml;
const std::string n = "float row_basis row_major ";
mc::add("bounds fixed<4,4> " + n, bounds<matrix<float, fixed<4,4>, row_basis, row_major>, float>);
mc::add("sizes fixed<4,4> " + n, sizes<matrix<float, fixed<4,4>, row_basis, row_major>, float>);
mc::add("bounds dynamic<> " + n, bounds<matrix<float, dynamic<>, row_basis, row_major>, float>);
mc::add("sizes dynamic<> " + n, sizes<matrix<float, dynamic<>, row_basis, row_major>, float>);
mc::add("bounds external<4,4> " + n, bounds<matrix<float, external<4,4>, row_basis, row_major>, float>);
mc::add("sizes external<4,4> " + n, sizes<matrix<float, external<4,4>, row_basis, row_major>, float>);
mc::add("bounds external<> " + n, bounds<matrix<float, external<>, row_basis, row_major>, float>);
mc::add("sizes external<> " + n, sizes<matrix<float, external<>, row_basis, row_major>, float>);
mc::add("bounds from double " + n, bounds<matrix<float, fixed<4,4>, row_basis, row_major>, double>);
mc::add("sizes from double " + n, sizes<matrix<float, fixed<4,4>, row_basis, row_major>, double>);
mc::add("shapes " + n, shapes<float, row_basis, row_major>);
} } r; }
