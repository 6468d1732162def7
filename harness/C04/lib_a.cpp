#include "lib.h"
namespace { struct Reg { Reg() { mc::add("builders row_basis row_major", builders<cml::row_basis, cml::row_major>); } } reg; }
