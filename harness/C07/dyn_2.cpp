#include "struct.h"
namespace { using namespace cml; struct R { R() { c07::add_dyn<double, row_basis, col_major>("row_basis, col_major"); c07::add_dyn<int, row_basis, col_major>("int row_basis, col_major"); } } r; }
