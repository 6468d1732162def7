#include "turns.h"
namespace { struct R { R() { using namespace g01; using namespace cml;
const std::string n = "double row_basis row_major ";
mc::add("world fixed<3,3> " + n, world3<matrix<double, fixed<3,3>, row_basis, row_major>, double>);
mc::add("about fixed<3,3> " + n, about3<matrix<double, fixed<3,3>, row_basis, row_major>, double, double>);
mc::add("world fixed<4,4> " + n, world4<matrix<double, fixed<4,4>, row_basis, row_major>, double>);
mc::add("about fixed<4,4> " + n, about4<matrix<double, fixed<4,4>, row_basis, row_major>, double, double>);
mc::add("world dynamic<> " + n, world3<matrix<double, dynamic<>, row_basis, row_major>, double>);
mc::add("about dynamic<> " + n, about3<matrix<double, dynamic<>, row_basis, row_major>, double, double>);
mc::add("world external<4,4> " + n, world4<matrix<double, external<4,4>, row_basis, row_major>, double>);
mc::add("about external<4,4> " + n, about4<matrix<double, external<4,4>, row_basis, row_major>, double, double>);
mc::add("world external<> " + n, world4<matrix<double, external<>, row_basis, row_major>, double>);
mc::add("about external<> " + n, about4<matrix<double, external<>, row_basis, row_major>, double, double>);
mc::add("world mixed " + n, world3<matrix<double, fixed<3,3>, row_basis, row_major>, float>);
mc::add("about mixed " + n, about3<matrix<double, fixed<3,3>, row_basis, row_major>, float, double>);
mc::add("about mixed 2 " + n, about3<matrix<double, fixed<3,3>, row_basis, row_major>, double, float>);
mc::add("plane fixed<2,2> " + n, plane2<matrix<double, fixed<2,2>, row_basis, row_major>, double>);
mc::add("plane fixed<3,3> " + n, plane3<matrix<double, fixed<3,3>, row_basis, row_major>, double>);
mc::add("plane dynamic<> " + n, plane2<matrix<double, dynamic<>, row_basis, row_major>, double>);
mc::add("plane external<> " + n, plane3<matrix<double, external<>, row_basis, row_major>, double>);
mc::add("plane mixed " + n, plane2<matrix<double, fixed<2,2>, row_basis, row_major>, float>);
mc::add("sizes " + n, sizes<double, row_basis, row_major>);
} } r; }
