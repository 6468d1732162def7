#include "struct.h"
namespace { using namespace cml; struct R { R() { c07::add_basis<col_basis, row_major>("col_basis, row_major"); } } r; }
