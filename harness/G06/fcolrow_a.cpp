#include "affine.h"
namespace g06 { namespace {
struct R { R() { const std::string n = "float col_basis row_major";
mc::add("4x4 3D " + n, [] { history<matrix<float, fixed<4, 4>, col_basis, row_major>, 3>(4, 4, (mc::thorough() ? 3 : 2)); });
mc::add("affine shape 3D " + n, [] { history<matrix<float, fixed<3, 4>, col_basis, row_major>, 3>(3, 4, (mc::thorough() ? 3 : 2)); });
mc::add("3x3 2D " + n, [] { history<matrix<float, fixed<3, 3>, col_basis, row_major>, 2>(3, 3, (mc::thorough() ? 3 : 2)); });
mc::add("affine shape 2D " + n, [] { history<matrix<float, fixed<2, 3>, col_basis, row_major>, 2>(2, 3, (mc::thorough() ? 3 : 2)); });
} } r; } }
