#include "struct.h"
namespace { using namespace cml; struct R { R() { c07::add_dyn<double, row_basis, row_major>("row_basis, row_major"); c07::add_dyn<int, row_basis, row_major>("int row_basis, row_major"); } } r; }
