#include "lock.h"
namespace p03 { namespace {
Add x0("square double 3", [] { auto m = std::make_unique<Square<matrix<double, fixed<3, 3>, col_basis, col_major>, 3>>(); m->name = "matrix<double, fixed<3, 3>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x1("square double 3", [] { auto m = std::make_unique<Square<matrix<double, dynamic<>, col_basis, col_major>, 3>>(); m->name = "matrix<double, dynamic<>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x2("square double 3", [] { auto m = std::make_unique<Square<matrix<double, external<3, 3>, col_basis, col_major>, 3>>(); m->name = "matrix<double, external<3, 3>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x3("square double 3", [] { auto m = std::make_unique<Square<matrix<double, external<>, col_basis, col_major>, 3>>(); m->name = "matrix<double, external<>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x4("square float 3", [] { auto m = std::make_unique<Square<matrix<float, fixed<3, 3>, col_basis, col_major>, 3>>(); m->name = "matrix<float, fixed<3, 3>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x5("square float 3", [] { auto m = std::make_unique<Square<matrix<float, dynamic<>, col_basis, col_major>, 3>>(); m->name = "matrix<float, dynamic<>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x6("square float 3", [] { auto m = std::make_unique<Square<matrix<float, external<3, 3>, col_basis, col_major>, 3>>(); m->name = "matrix<float, external<3, 3>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x7("square float 3", [] { auto m = std::make_unique<Square<matrix<float, external<>, col_basis, col_major>, 3>>(); m->name = "matrix<float, external<>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
} }
