#include "lib.h"
namespace { struct Reg { Reg() { mc::add("builders col_basis col_major", builders<cml::col_basis, cml::col_major>); } } reg; }
