#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("m MNeg MFixL", m1u<MNeg, MFixL>);
mc::add("m MNeg MExtL", m1u<MNeg, MExtL>);
mc::add("m MPos MFixL", m1u<MPos, MFixL>);
mc::add("m MPos MExtL", m1u<MPos, MExtL>);
mc::add("m MMulR MFixL", m1u<MMulR, MFixL>);
mc::add("m MMulR MExtL", m1u<MMulR, MExtL>);
mc::add("m MMulL MFixL", m1u<MMulL, MFixL>);
mc::add("m MMulL MExtL", m1u<MMulL, MExtL>);
mc::add("m MDiv MFixL", m1u<MDiv, MFixL>);
mc::add("m MDiv MExtL", m1u<MDiv, MExtL>);
mc::add("m MTra MFixL", m1u<MTra, MFixL>);
mc::add("m MTra MExtL", m1u<MTra, MExtL>);
} } r; }
