#include "affine.h"
namespace g06 { namespace {
struct R { R() { const std::string n = "float row_basis col_major";
mc::add("external 4x4 3D " + n, [] { history<matrix<float, external<4, 4>, row_basis, col_major>, 3>(4, 4, (mc::thorough() ? 3 : 2)); });
mc::add("external 3x3 2D " + n, [] { history<matrix<float, external<3, 3>, row_basis, col_major>, 2>(3, 3, (mc::thorough() ? 3 : 2)); });
mc::add("4x4 2D " + n, [] { history<matrix<float, fixed<4, 4>, row_basis, col_major>, 2>(4, 4, (mc::thorough() ? 3 : 2)); });
mc::add("stored kinds " + n, [] { kinds<float, row_basis, col_major>(); });
mc::add("mixed arguments " + n, [] { mixed<matrix<float, fixed<4, 4>, row_basis, col_major>>(); });
mc::add("projective " + n, [] { projective<matrix<float, fixed<4, 4>, row_basis, col_major>, vector<float, compiled<4>>, vector<float, compiled<3>>>(); });
mc::add("projective dynamic " + n, [] { projective<matrix<float, dynamic<>, row_basis, col_major>, vector<float, dynamic<>>, vector<float, dynamic<>>>(); });
} } r; } }
