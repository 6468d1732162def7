#include "wide.h"
namespace { struct R { R() { mc::add("large float row basis col major", p02w::runtime<float, cml::row_basis, cml::col_major>);  } } r; }
