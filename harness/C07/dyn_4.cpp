#include "struct.h"
namespace { using namespace cml; struct R { R() { c07::add_dyn<double, col_basis, col_major>("col_basis, col_major"); c07::add_dyn<int, col_basis, col_major>("int col_basis, col_major"); } } r; }
