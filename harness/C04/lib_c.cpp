#include "lib.h"
namespace { struct Reg { Reg() { mc::add("accessors row_basis col_major", accessors<cml::row_basis, cml::col_major>); } } reg; }
