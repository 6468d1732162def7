#include "mixed.h"
#include <memory>
namespace { struct R { R() { using namespace e05; mc::add("owner 1 0 col_basis col_major", owners<1, 0, cml::col_basis, cml::col_major>);
mc::add("owner 1 1 row_basis row_major", owners<1, 1, cml::row_basis, cml::row_major>);
mc::add("owner 1 2 col_basis col_major", owners<1, 2, cml::col_basis, cml::col_major>);
mc::add("owner 1 3 row_basis row_major", owners<1, 3, cml::row_basis, cml::row_major>); } } r; }
