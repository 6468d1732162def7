#include "cmp.h"
namespace { struct R { R() { using namespace e06;
mc::add("vectors ExternalDyn Fixed", pairs<ExternalDyn, Fixed>);
mc::add("vectors ExternalDyn Dynamic", pairs<ExternalDyn, Dynamic>);
mc::add("vectors ExternalDyn External", pairs<ExternalDyn, External>);
mc::add("vectors ExternalDyn ExternalDyn", pairs<ExternalDyn, ExternalDyn>);
mc::add("vectors ExternalDyn ConstExternal", pairs<ExternalDyn, ConstExternal>);
mc::add("vectors ExternalDyn Expr", pairs<ExternalDyn, Expr>);
mc::add("vectors ExternalDyn Sub", pairs<ExternalDyn, Sub>);
mc::add("vectors ExternalDyn FloatFixed", pairs<ExternalDyn, FloatFixed>);
mc::add("hash ExternalDyn", hashes<ExternalDyn>);
mc::add("quaternions imaginary_first negative_cross", quaternions<cml::imaginary_first, cml::negative_cross>);
mc::add("quaternion triples imaginary_first negative_cross", quaternion_triples<cml::imaginary_first, cml::negative_cross>);
} } r; }
