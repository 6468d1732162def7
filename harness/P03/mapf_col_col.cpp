#include "lock.h"
namespace p03 { namespace {
Add x0("maps float", [] { auto m = std::make_unique<Map<matrix<float, fixed<4, 4>, col_basis, col_major>>>(); m->name = "matrix<float, fixed<4, 4>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x1("maps float", [] { auto m = std::make_unique<Map<matrix<float, dynamic<>, col_basis, col_major>>>(); m->name = "matrix<float, dynamic<>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x2("maps float", [] { auto m = std::make_unique<Map<matrix<float, external<4, 4>, col_basis, col_major>>>(); m->name = "matrix<float, external<4, 4>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
Add x3("maps float", [] { auto m = std::make_unique<Map<matrix<float, external<>, col_basis, col_major>>>(); m->name = "matrix<float, external<>, col_basis, col_major>"; return std::unique_ptr<Machine>(std::move(m)); });
} }
