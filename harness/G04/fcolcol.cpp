#include "volumes.h"
namespace { struct R { R() { using namespace g04; using namespace cml;
const std::string n = "float col_basis col_major ";
mc::add("bounds fixed<4,4> " + n, bounds<matrix<float, fixed<4,4>, col_basis, col_major>, float>);
mc::add("sizes fixed<4,4> " + n, sizes<matrix<float, fixed<4,4>, col_basis, col_major>, float>);
mc::add("bounds dynamic<> " + n, bounds<matrix<float, dynamic<>, col_basis, col_major>, float>);
mc::add("sizes dynamic<> " + n, sizes<matrix<float, dynamic<>, col_basis, col_major>, float>);
mc::add("bounds external<4,4> " + n, bounds<matrix<float, external<4,4>, col_basis, col_major>, float>);
mc::add("sizes external<4,4> " + n, sizes<matrix<float, external<4,4>, col_basis, col_major>, float>);
mc::add("bounds external<> " + n, bounds<matrix<float, external<>, col_basis, col_major>, float>);
mc::add("sizes external<> " + n, sizes<matrix<float, external<>, col_basis, col_major>, float>);
mc::add("bounds from double " + n, bounds<matrix<float, fixed<4,4>, col_basis, col_major>, double>);
mc::add("sizes from double " + n, sizes<matrix<float, fixed<4,4>, col_basis, col_major>, double>);
mc::add("shapes " + n, shapes<float, col_basis, col_major>);
} } r; }
