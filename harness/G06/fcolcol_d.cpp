#include "affine.h"
namespace g06 { namespace {
struct R { R() { const std::string n = "float col_basis col_major";
mc::add("external dynamic 4x4 3D " + n, [] { history<matrix<float, external<>, col_basis, col_major>, 3>(4, 4, (mc::thorough() ? 3 : 2)); });
mc::add("external dynamic affine shape 2D " + n, [] { history<matrix<float, external<>, col_basis, col_major>, 2>(2, 3, (mc::thorough() ? 3 : 2)); });
mc::add("sizes " + n, [] { sizes<float, col_basis, col_major>(); });
mc::add("sizes of inverse, concat, 4D " + n, [] { sizes_inverse<float, col_basis, col_major>(); });
} } r; } }
