#include "cmp.h"
namespace { struct R { R() { using namespace e06;
mc::add("vectors Fixed Fixed", pairs<Fixed, Fixed>);
mc::add("vectors Fixed Dynamic", pairs<Fixed, Dynamic>);
mc::add("vectors Fixed External", pairs<Fixed, External>);
mc::add("vectors Fixed ExternalDyn", pairs<Fixed, ExternalDyn>);
mc::add("vectors Fixed ConstExternal", pairs<Fixed, ConstExternal>);
mc::add("vectors Fixed Expr", pairs<Fixed, Expr>);
mc::add("vectors Fixed Sub", pairs<Fixed, Sub>);
mc::add("vectors Fixed FloatFixed", pairs<Fixed, FloatFixed>);
mc::add("triples Fixed", triples<Fixed>);
mc::add("hash Fixed", hashes<Fixed>);
mc::add("quaternions real_first positive_cross", quaternions<cml::real_first, cml::positive_cross>);
mc::add("quaternion triples real_first positive_cross", quaternion_triples<cml::real_first, cml::positive_cross>);
} } r; }
