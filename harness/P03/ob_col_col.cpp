#include "lock.h"
namespace p03 { namespace {
Add x0("oblong double 2x3", [] { auto m = std::make_unique<Oblong<matrix<double, fixed<2, 3>, col_basis, col_major>, matrix<double, fixed<3, 2>, col_basis, col_major>, 2, 3>>(); m->name = "matrix<double, fixed<2, 3>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x1("oblong double 2x3", [] { auto m = std::make_unique<Oblong<matrix<double, dynamic<>, col_basis, col_major>, matrix<double, dynamic<>, col_basis, col_major>, 2, 3>>(); m->name = "matrix<double, dynamic<>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x2("oblong double 2x3", [] { auto m = std::make_unique<Oblong<matrix<double, external<2, 3>, col_basis, col_major>, matrix<double, external<3, 2>, col_basis, col_major>, 2, 3>>(); m->name = "matrix<double, external<2, 3>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x3("oblong double 2x3", [] { auto m = std::make_unique<Oblong<matrix<double, external<>, col_basis, col_major>, matrix<double, external<>, col_basis, col_major>, 2, 3>>(); m->name = "matrix<double, external<>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x4("oblong double 3x4", [] { auto m = std::make_unique<Oblong<matrix<double, fixed<3, 4>, col_basis, col_major>, matrix<double, fixed<4, 3>, col_basis, col_major>, 3, 4>>(); m->name = "matrix<double, fixed<3, 4>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x5("oblong double 3x4", [] { auto m = std::make_unique<Oblong<matrix<double, dynamic<>, col_basis, col_major>, matrix<double, dynamic<>, col_basis, col_major>, 3, 4>>(); m->name = "matrix<double, dynamic<>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x6("oblong double 3x4", [] { auto m = std::make_unique<Oblong<matrix<double, external<3, 4>, col_basis, col_major>, matrix<double, external<4, 3>, col_basis, col_major>, 3, 4>>(); m->name = "matrix<double, external<3, 4>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x7("oblong double 3x4", [] { auto m = std::make_unique<Oblong<matrix<double, external<>, col_basis, col_major>, matrix<double, external<>, col_basis, col_major>, 3, 4>>(); m->name = "matrix<double, external<>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x8("oblong double 4x2", [] { auto m = std::make_unique<Oblong<matrix<double, fixed<4, 2>, col_basis, col_major>, matrix<double, fixed<2, 4>, col_basis, col_major>, 4, 2>>(); m->name = "matrix<double, fixed<4, 2>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x9("oblong double 4x2", [] { auto m = std::make_unique<Oblong<matrix<double, dynamic<>, col_basis, col_major>, matrix<double, dynamic<>, col_basis, col_major>, 4, 2>>(); m->name = "matrix<double, dynamic<>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x10("oblong double 4x2", [] { auto m = std::make_unique<Oblong<matrix<double, external<4, 2>, col_basis, col_major>, matrix<double, external<2, 4>, col_basis, col_major>, 4, 2>>(); m->name = "matrix<double, external<4, 2>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x11("oblong double 4x2", [] { auto m = std::make_unique<Oblong<matrix<double, external<>, col_basis, col_major>, matrix<double, external<>, col_basis, col_major>, 4, 2>>(); m->name = "matrix<double, external<>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
} }
