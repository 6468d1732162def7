#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("v Minus of Plus VDynL VDynT and VDynL", v2bb<Plus, VDynL, VDynT, Minus, VDynL>);
mc::add("v Minus of Plus VDynL VDynT and VDynT", v2bb<Plus, VDynL, VDynT, Minus, VDynT>);
mc::add("v Cross of Plus VDynL VDynT and VDynL", v2bb<Plus, VDynL, VDynT, Cross, VDynL>);
mc::add("v Cross of Plus VDynL VDynT and VDynT", v2bb<Plus, VDynL, VDynT, Cross, VDynT>);
mc::add("v Minus of Plus VDynT VFixL and VDynL", v2bb<Plus, VDynT, VFixL, Minus, VDynL>);
mc::add("v Minus of Plus VDynT VFixL and VDynT", v2bb<Plus, VDynT, VFixL, Minus, VDynT>);
mc::add("v Cross of Plus VDynT VFixL and VDynL", v2bb<Plus, VDynT, VFixL, Cross, VDynL>);
mc::add("v Cross of Plus VDynT VFixL and VDynT", v2bb<Plus, VDynT, VFixL, Cross, VDynT>);
mc::add("v Minus of Plus VDynT VDynT and VDynL", v2bb<Plus, VDynT, VDynT, Minus, VDynL>);
mc::add("v Minus of Plus VDynT VDynT and VDynT", v2bb<Plus, VDynT, VDynT, Minus, VDynT>);
mc::add("v Cross of Plus VDynT VDynT and VDynL", v2bb<Plus, VDynT, VDynT, Cross, VDynL>);
mc::add("v Cross of Plus VDynT VDynT and VDynT", v2bb<Plus, VDynT, VDynT, Cross, VDynT>);
mc::add("v Minus of Plus VFixT VExtL and VDynL", v2bb<Plus, VFixT, VExtL, Minus, VDynL>);
mc::add("v Minus of Plus VFixT VExtL and VDynT", v2bb<Plus, VFixT, VExtL, Minus, VDynT>);
mc::add("v Cross of Plus VFixT VExtL and VDynL", v2bb<Plus, VFixT, VExtL, Cross, VDynL>);
mc::add("v Cross of Plus VFixT VExtL and VDynT", v2bb<Plus, VFixT, VExtL, Cross, VDynT>);
} } r; }
