#include "lock.h"
namespace p03 { namespace {
Add x0("maps double", [] { auto m = std::make_unique<Map<matrix<double, fixed<4, 4>, row_basis, col_major>>>(); m->name = "matrix<double, fixed<4, 4>, row_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x1("maps double", [] { auto m = std::make_unique<Map<matrix<double, dynamic<>, row_basis, col_major>>>(); m->name = "matrix<double, dynamic<>, row_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x2("maps double", [] { auto m = std::make_unique<Map<matrix<double, external<4, 4>, row_basis, col_major>>>(); m->name = "matrix<double, external<4, 4>, row_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x3("maps double", [] { auto m = std::make_unique<Map<matrix<double, external<>, row_basis, col_major>>>(); m->name = "matrix<double, external<>, row_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
} }
