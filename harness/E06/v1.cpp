#include "cmp.h"
namespace { struct R { R() { using namespace e06;
mc::add("vectors Dynamic Fixed", pairs<Dynamic, Fixed>);
mc::add("vectors Dynamic Dynamic", pairs<Dynamic, Dynamic>);
mc::add("vectors Dynamic External", pairs<Dynamic, External>);
mc::add("vectors Dynamic ExternalDyn", pairs<Dynamic, ExternalDyn>);
mc::add("vectors Dynamic ConstExternal", pairs<Dynamic, ConstExternal>);
mc::add("vectors Dynamic Expr", pairs<Dynamic, Expr>);
mc::add("vectors Dynamic Sub", pairs<Dynamic, Sub>);
mc::add("vectors Dynamic FloatFixed", pairs<Dynamic, FloatFixed>);
mc::add("triples Dynamic", triples<Dynamic>);
mc::add("hash Dynamic", hashes<Dynamic>);
mc::add("hash int", int_hashes<int>);
mc::add("hash unsigned char", int_hashes<unsigned char>);
mc::add("hash long long", int_hashes<long long>);
mc::add("hash float", int_hashes<float>);
mc::add("quaternions imaginary_first positive_cross", quaternions<cml::imaginary_first, cml::positive_cross>);
mc::add("quaternion triples imaginary_first positive_cross", quaternion_triples<cml::imaginary_first, cml::positive_cross>);
} } r; }
