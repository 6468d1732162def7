#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("m MNeg MDynL", m1u<MNeg, MDynL>);
mc::add("m MNeg MFixT", m1u<MNeg, MFixT>);
mc::add("m MPos MDynL", m1u<MPos, MDynL>);
mc::add("m MPos MFixT", m1u<MPos, MFixT>);
mc::add("m MMulR MDynL", m1u<MMulR, MDynL>);
mc::add("m MMulR MFixT", m1u<MMulR, MFixT>);
mc::add("m MMulL MDynL", m1u<MMulL, MDynL>);
mc::add("m MMulL MFixT", m1u<MMulL, MFixT>);
mc::add("m MDiv MDynL", m1u<MDiv, MDynL>);
mc::add("m MDiv MFixT", m1u<MDiv, MFixT>);
mc::add("m MTra MDynL", m1u<MTra, MDynL>);
mc::add("m MTra MFixT", m1u<MTra, MFixT>);
} } r; }
