#include "cmp.h"
namespace { struct R { R() { using namespace e06;
mc::add("vectors External Fixed", pairs<External, Fixed>);
mc::add("vectors External Dynamic", pairs<External, Dynamic>);
mc::add("vectors External External", pairs<External, External>);
mc::add("vectors External ExternalDyn", pairs<External, ExternalDyn>);
mc::add("vectors External ConstExternal", pairs<External, ConstExternal>);
mc::add("vectors External Expr", pairs<External, Expr>);
mc::add("vectors External Sub", pairs<External, Sub>);
mc::add("vectors External FloatFixed", pairs<External, FloatFixed>);
mc::add("hash External", hashes<External>);
mc::add("quaternions real_first negative_cross", quaternions<cml::real_first, cml::negative_cross>);
mc::add("quaternion triples real_first negative_cross", quaternion_triples<cml::real_first, cml::negative_cross>);
} } r; }
