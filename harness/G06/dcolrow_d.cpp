#include "affine.h"
namespace g06 { namespace {
struct R { R() { const std::string n = "double col_basis row_major";
mc::add("external dynamic 4x4 3D " + n, [] { history<matrix<double, external<>, col_basis, row_major>, 3>(4, 4, (mc::thorough() ? 3 : 2)); });
mc::add("external dynamic affine shape 2D " + n, [] { history<matrix<double, external<>, col_basis, row_major>, 2>(2, 3, (mc::thorough() ? 3 : 2)); });
mc::add("sizes " + n, [] { sizes<double, col_basis, row_major>(); });
mc::add("sizes of inverse, concat, 4D " + n, [] { sizes_inverse<double, col_basis, row_major>(); });
} } r; } }
