#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("v Plus of VDynL and Neg VDynL", v2ub<Neg, VDynL, Plus, VDynL>);
mc::add("v Cross of VDynT and Neg VDynL", v2ub<Neg, VDynL, Cross, VDynT>);
mc::add("v Plus of VDynT and Neg VDynT", v2ub<Neg, VDynT, Plus, VDynT>);
mc::add("v Cross of VDynL and Neg VFixT", v2ub<Neg, VFixT, Cross, VDynL>);
mc::add("v Plus of VDynL and MulL VDynL", v2ub<MulL, VDynL, Plus, VDynL>);
mc::add("v Cross of VDynT and MulL VDynL", v2ub<MulL, VDynL, Cross, VDynT>);
mc::add("v Plus of VDynT and MulL VDynT", v2ub<MulL, VDynT, Plus, VDynT>);
mc::add("v Cross of VDynL and MulL VFixT", v2ub<MulL, VFixT, Cross, VDynL>);
mc::add("v Plus of VDynL and Pos VDynL", v2ub<Pos, VDynL, Plus, VDynL>);
mc::add("v Cross of VDynT and Pos VDynL", v2ub<Pos, VDynL, Cross, VDynT>);
mc::add("v Plus of VDynT and Pos VDynT", v2ub<Pos, VDynT, Plus, VDynT>);
mc::add("v Cross of VDynL and Pos VFixT", v2ub<Pos, VFixT, Cross, VDynL>);
} } r; }
