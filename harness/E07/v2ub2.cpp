#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("v Plus of VDynT and Neg VDynL", v2ub<Neg, VDynL, Plus, VDynT>);
mc::add("v Cross of VDynL and Neg VDynT", v2ub<Neg, VDynT, Cross, VDynL>);
mc::add("v Plus of VDynL and Neg VFixT", v2ub<Neg, VFixT, Plus, VDynL>);
mc::add("v Cross of VDynT and Neg VFixT", v2ub<Neg, VFixT, Cross, VDynT>);
mc::add("v Plus of VDynT and MulL VDynL", v2ub<MulL, VDynL, Plus, VDynT>);
mc::add("v Cross of VDynL and MulL VDynT", v2ub<MulL, VDynT, Cross, VDynL>);
mc::add("v Plus of VDynL and MulL VFixT", v2ub<MulL, VFixT, Plus, VDynL>);
mc::add("v Cross of VDynT and MulL VFixT", v2ub<MulL, VFixT, Cross, VDynT>);
mc::add("v Plus of VDynT and Pos VDynL", v2ub<Pos, VDynL, Plus, VDynT>);
mc::add("v Cross of VDynL and Pos VDynT", v2ub<Pos, VDynT, Cross, VDynL>);
mc::add("v Plus of VDynL and Pos VFixT", v2ub<Pos, VFixT, Plus, VDynL>);
mc::add("v Cross of VDynT and Pos VFixT", v2ub<Pos, VFixT, Cross, VDynT>);
} } r; }
