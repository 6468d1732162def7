#include "struct.h"
namespace { using namespace cml; struct R { R() {  c07::add_fix<double, row_basis, row_major, 3, 1>("row_basis, row_major"); c07::add_fix<double, row_basis, row_major, 2, 3>("row_basis, row_major"); c07::add_fix<double, row_basis, row_major, 3, 3>("row_basis, row_major"); } } r; }
