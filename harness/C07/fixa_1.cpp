#include "struct.h"
namespace { using namespace cml; struct R { R() {  c07::add_fix<double, row_basis, row_major, 1, 1>("row_basis, row_major"); c07::add_fix<double, row_basis, row_major, 1, 3>("row_basis, row_major"); c07::add_fix<double, row_basis, row_major, 2, 2>("row_basis, row_major"); } } r; }
