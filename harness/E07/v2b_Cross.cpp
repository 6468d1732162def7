#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("v Minus of Cross VDynL VDynT and VDynL", v2bb<Cross, VDynL, VDynT, Minus, VDynL>);
mc::add("v Minus of Cross VDynL VDynT and VDynT", v2bb<Cross, VDynL, VDynT, Minus, VDynT>);
mc::add("v Cross of Cross VDynL VDynT and VDynL", v2bb<Cross, VDynL, VDynT, Cross, VDynL>);
mc::add("v Cross of Cross VDynL VDynT and VDynT", v2bb<Cross, VDynL, VDynT, Cross, VDynT>);
mc::add("v Minus of Cross VDynT VFixL and VDynL", v2bb<Cross, VDynT, VFixL, Minus, VDynL>);
mc::add("v Minus of Cross VDynT VFixL and VDynT", v2bb<Cross, VDynT, VFixL, Minus, VDynT>);
mc::add("v Cross of Cross VDynT VFixL and VDynL", v2bb<Cross, VDynT, VFixL, Cross, VDynL>);
mc::add("v Cross of Cross VDynT VFixL and VDynT", v2bb<Cross, VDynT, VFixL, Cross, VDynT>);
mc::add("v Minus of Cross VDynT VDynT and VDynL", v2bb<Cross, VDynT, VDynT, Minus, VDynL>);
mc::add("v Minus of Cross VDynT VDynT and VDynT", v2bb<Cross, VDynT, VDynT, Minus, VDynT>);
mc::add("v Cross of Cross VDynT VDynT and VDynL", v2bb<Cross, VDynT, VDynT, Cross, VDynL>);
mc::add("v Cross of Cross VDynT VDynT and VDynT", v2bb<Cross, VDynT, VDynT, Cross, VDynT>);
mc::add("v Minus of Cross VFixT VExtL and VDynL", v2bb<Cross, VFixT, VExtL, Minus, VDynL>);
mc::add("v Minus of Cross VFixT VExtL and VDynT", v2bb<Cross, VFixT, VExtL, Minus, VDynT>);
mc::add("v Cross of Cross VFixT VExtL and VDynL", v2bb<Cross, VFixT, VExtL, Cross, VDynL>);
mc::add("v Cross of Cross VFixT VExtL and VDynT", v2bb<Cross, VFixT, VExtL, Cross, VDynT>);
} } r; }
