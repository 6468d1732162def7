#include "struct.h"
namespace { using namespace cml; struct R { R() {  c07::add_fix<double, col_basis, col_major, 4, 2>("col_basis, col_major"); c07::add_fix<double, col_basis, col_major, 4, 4>("col_basis, col_major"); } } r; }
