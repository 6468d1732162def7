#include "struct.h"
namespace { using namespace cml; struct R { R() { c07::add_basis<row_basis, row_major>("row_basis, row_major"); } } r; }
