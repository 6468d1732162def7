#include "lock.h"
namespace p03 { namespace {
Add x0("maps double", [] { auto m = std::make_unique<Map<matrix<double, fixed<4, 4>, col_basis, row_major>>>(); m->name = "matrix<double, fixed<4, 4>, col_basis, row_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x1("maps double", [] { auto m = std::make_unique<Map<matrix<double, dynamic<>, col_basis, row_major>>>(); m->name = "matrix<double, dynamic<>, col_basis, row_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x2("maps double", [] { auto m = std::make_unique<Map<matrix<double, external<4, 4>, col_basis, row_major>>>(); m->name = "matrix<double, external<4, 4>, col_basis, row_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x3("maps double", [] { auto m = std::make_unique<Map<matrix<double, external<>, col_basis, row_major>>>(); m->name = "matrix<double, external<>, col_basis, row_major>"; return std::unique_ptr<Machine>(std::move(m)); });
} }
