#include "view.h"
namespace g03 { namespace {
struct R { R() { const std::string n = "double row_basis col_major ";
mc::add("4x4 " + n, [] { views_f<double, fixed<4,4>, row_basis, col_major>(4, 4); });
mc::add("affine shape " + n, [] { views_f<double, fixed<4,3>, row_basis, col_major>(4,3); });
mc::add("dynamic " + n, [] { views_f<double, dynamic<>, row_basis, col_major>(4, 4); });
mc::add("dynamic affine shape " + n, [] { views_f<double, dynamic<>, row_basis, col_major>(4,3); });
mc::add("external " + n, [] { views_f<double, external<4,4>, row_basis, col_major>(4, 4); });
mc::add("external dynamic " + n, [] { views_f<double, external<>, row_basis, col_major>(4, 4); });
mc::add("whole-number points " + n, [] { views_f<double, fixed<4,4>, row_basis, col_major, int>(4, 4); });
mc::add("float points " + n, [] { views_f<double, fixed<4,4>, row_basis, col_major, float>(4, 4); });
mc::add("point storage " + n, [] { storages<double, row_basis, col_major>(); });
mc::add("sizes " + n, [] { sizes<double, row_basis, col_major>(); });
} } r; } }
