#include "turns.h"
namespace { struct R { R() { using namespace g01; using namespace cml;
const std::string n = "float row_basis col_major ";
mc::add("world fixed<3,3> " + n, world3<matrix<float, fixed<3,3>, row_basis, col_major>, float>);
mc::add("about fixed<3,3> " + n, about3<matrix<float, fixed<3,3>, row_basis, col_major>, float, float>);
mc::add("world fixed<4,4> " + n, world4<matrix<float, fixed<4,4>, row_basis, col_major>, float>);
mc::add("about fixed<4,4> " + n, about4<matrix<float, fixed<4,4>, row_basis, col_major>, float, float>);
mc::add("world dynamic<> " + n, world3<matrix<float, dynamic<>, row_basis, col_major>, float>);
mc::add("about dynamic<> " + n, about3<matrix<float, dynamic<>, row_basis, col_major>, float, float>);
mc::add("world external<4,4> " + n, world4<matrix<float, external<4,4>, row_basis, col_major>, float>);
mc::add("about external<4,4> " + n, about4<matrix<float, external<4,4>, row_basis, col_major>, float, float>);
mc::add("world external<> " + n, world4<matrix<float, external<>, row_basis, col_major>, float>);
mc::add("about external<> " + n, about4<matrix<float, external<>, row_basis, col_major>, float, float>);
mc::add("world mixed " + n, world3<matrix<float, fixed<3,3>, row_basis, col_major>, double>);
mc::add("about mixed " + n, about3<matrix<float, fixed<3,3>, row_basis, col_major>, double, float>);
mc::add("about mixed 2 " + n, about3<matrix<float, fixed<3,3>, row_basis, col_major>, float, double>);
mc::add("plane fixed<2,2> " + n, plane2<matrix<float, fixed<2,2>, row_basis, col_major>, float>);
mc::add("plane fixed<3,3> " + n, plane3<matrix<float, fixed<3,3>, row_basis, col_major>, float>);
mc::add("plane dynamic<> " + n, plane2<matrix<float, dynamic<>, row_basis, col_major>, float>);
mc::add("plane external<> " + n, plane3<matrix<float, external<>, row_basis, col_major>, float>);
mc::add("plane mixed " + n, plane2<matrix<float, fixed<2,2>, row_basis, col_major>, double>);
mc::add("sizes " + n, sizes<float, row_basis, col_major>);
} } r; }
