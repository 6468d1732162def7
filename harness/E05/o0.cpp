#include "mixed.h"
#include <memory>
namespace { struct R { R() { using namespace e05; mc::add("owner 0 0 row_basis row_major", owners<0, 0, cml::row_basis, cml::row_major>);
mc::add("owner 0 1 col_basis col_major", owners<0, 1, cml::col_basis, cml::col_major>);
mc::add("owner 0 2 row_basis row_major", owners<0, 2, cml::row_basis, cml::row_major>);
mc::add("owner 0 3 col_basis col_major", owners<0, 3, cml::col_basis, cml::col_major>); } } r; }
