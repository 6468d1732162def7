#include "affine.h"
namespace g06 { namespace {
struct R { R() { const std::string n = "float row_basis col_major";
mc::add("4x4 3D " + n, [] { history<matrix<float, fixed<4, 4>, row_basis, col_major>, 3>(4, 4, (mc::thorough() ? 3 : 2)); });
mc::add("affine shape 3D " + n, [] { history<matrix<float, fixed<4, 3>, row_basis, col_major>, 3>(4, 3, (mc::thorough() ? 3 : 2)); });
mc::add("3x3 2D " + n, [] { history<matrix<float, fixed<3, 3>, row_basis, col_major>, 2>(3, 3, (mc::thorough() ? 3 : 2)); });
mc::add("affine shape 2D " + n, [] { history<matrix<float, fixed<3, 2>, row_basis, col_major>, 2>(3, 2, (mc::thorough() ? 3 : 2)); });
} } r; } }
