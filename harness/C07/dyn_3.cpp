#include "struct.h"
namespace { using namespace cml; struct R { R() { c07::add_dyn<double, col_basis, row_major>("col_basis, row_major"); c07::add_dyn<int, col_basis, row_major>("int col_basis, row_major"); } } r; }
