#include "lib.h"
namespace { struct Reg { Reg() { mc::add("accessors col_basis row_major", accessors<cml::col_basis, cml::row_major>); } } reg; }
