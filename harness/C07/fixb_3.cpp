#include "struct.h"
namespace { using namespace cml; struct R { R() {  c07::add_fix<double, col_basis, row_major, 3, 1>("col_basis, row_major"); c07::add_fix<double, col_basis, row_major, 2, 3>("col_basis, row_major"); c07::add_fix<double, col_basis, row_major, 3, 3>("col_basis, row_major"); } } r; }
