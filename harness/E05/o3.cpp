#include "mixed.h"
#include <memory>
namespace { struct R { R() { using namespace e05; mc::add("owner 3 0 col_basis col_major", owners<3, 0, cml::col_basis, cml::col_major>);
mc::add("owner 3 1 row_basis row_major", owners<3, 1, cml::row_basis, cml::row_major>);
mc::add("owner 3 2 col_basis col_major", owners<3, 2, cml::col_basis, cml::col_major>);
mc::add("owner 3 3 row_basis row_major", owners<3, 3, cml::row_basis, cml::row_major>); } } r; }
