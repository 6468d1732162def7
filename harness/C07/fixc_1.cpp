#include "struct.h"
namespace { using namespace cml; struct R { R() {  c07::add_fix<double, row_basis, row_major, 4, 2>("row_basis, row_major"); c07::add_fix<double, row_basis, row_major, 4, 4>("row_basis, row_major"); } } r; }
