#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("m MNeg MDynC", m1u<MNeg, MDynC>);
mc::add("m MNeg MDynT", m1u<MNeg, MDynT>);
mc::add("m MPos MDynC", m1u<MPos, MDynC>);
mc::add("m MPos MDynT", m1u<MPos, MDynT>);
mc::add("m MMulR MDynC", m1u<MMulR, MDynC>);
mc::add("m MMulR MDynT", m1u<MMulR, MDynT>);
mc::add("m MMulL MDynC", m1u<MMulL, MDynC>);
mc::add("m MMulL MDynT", m1u<MMulL, MDynT>);
mc::add("m MDiv MDynC", m1u<MDiv, MDynC>);
mc::add("m MDiv MDynT", m1u<MDiv, MDynT>);
mc::add("m MTra MDynC", m1u<MTra, MDynC>);
mc::add("m MTra MDynT", m1u<MTra, MDynT>);
} } r; }
