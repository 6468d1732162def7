#include "view.h"
namespace g03 { namespace {
struct R { R() { const std::string n = "double col_basis col_major ";
mc::add("4x4 " + n, [] { views_f<double, fixed<4,4>, col_basis, col_major>(4, 4); });
mc::add("affine shape " + n, [] { views_f<double, fixed<3,4>, col_basis, col_major>(3,4); });
mc::add("dynamic " + n, [] { views_f<double, dynamic<>, col_basis, col_major>(4, 4); });
mc::add("dynamic affine shape " + n, [] { views_f<double, dynamic<>, col_basis, col_major>(3,4); });
mc::add("external " + n, [] { views_f<double, external<4,4>, col_basis, col_major>(4, 4); });
mc::add("external dynamic " + n, [] { views_f<double, external<>, col_basis, col_major>(4, 4); });
mc::add("whole-number points " + n, [] { views_f<double, fixed<4,4>, col_basis, col_major, int>(4, 4); });
mc::add("float points " + n, [] { views_f<double, fixed<4,4>, col_basis, col_major, float>(4, 4); });
mc::add("point storage " + n, [] { storages<double, col_basis, col_major>(); });
mc::add("sizes " + n, [] { sizes<double, col_basis, col_major>(); });
} } r; } }
