#include "affine.h"
namespace g06 { namespace {
struct R { R() { const std::string n = "float row_basis col_major";
mc::add("dynamic 4x4 3D " + n, [] { history<matrix<float, dynamic<>, row_basis, col_major>, 3>(4, 4, (mc::thorough() ? 3 : 2)); });
mc::add("dynamic affine shape 3D " + n, [] { history<matrix<float, dynamic<>, row_basis, col_major>, 3>(4, 3, (mc::thorough() ? 3 : 2)); });
mc::add("dynamic 5x5 3D " + n, [] { history<matrix<float, dynamic<>, row_basis, col_major>, 3>(5, 5, (mc::thorough() ? 3 : 2)); });
mc::add("dynamic affine shape 2D " + n, [] { history<matrix<float, dynamic<>, row_basis, col_major>, 2>(3, 2, (mc::thorough() ? 3 : 2)); });
} } r; } }
