#include "affine.h"
namespace g06 { namespace {
struct R { R() { const std::string n = "double col_basis row_major";
mc::add("external 4x4 3D " + n, [] { history<matrix<double, external<4, 4>, col_basis, row_major>, 3>(4, 4, (mc::thorough() ? 3 : 2)); });
mc::add("external 3x3 2D " + n, [] { history<matrix<double, external<3, 3>, col_basis, row_major>, 2>(3, 3, (mc::thorough() ? 3 : 2)); });
mc::add("4x4 2D " + n, [] { history<matrix<double, fixed<4, 4>, col_basis, row_major>, 2>(4, 4, (mc::thorough() ? 3 : 2)); });
mc::add("stored kinds " + n, [] { kinds<double, col_basis, row_major>(); });
mc::add("mixed arguments " + n, [] { mixed<matrix<double, fixed<4, 4>, col_basis, row_major>>(); });
mc::add("projective " + n, [] { projective<matrix<double, fixed<4, 4>, col_basis, row_major>, vector<double, compiled<4>>, vector<double, compiled<3>>>(); });
mc::add("projective dynamic " + n, [] { projective<matrix<double, dynamic<>, col_basis, row_major>, vector<double, dynamic<>>, vector<double, dynamic<>>>(); });
} } r; } }
