#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("v Had VFixL VDynL", v1b<Had, VFixL, VDynL>);
mc::add("v Had VFixL VExtL", v1b<Had, VFixL, VExtL>);
mc::add("v Had VFixL VDynT", v1b<Had, VFixL, VDynT>);
mc::add("v Had VDynL VDynL", v1b<Had, VDynL, VDynL>);
mc::add("v Had VDynL VExtL", v1b<Had, VDynL, VExtL>);
mc::add("v Had VDynL VDynT", v1b<Had, VDynL, VDynT>);
mc::add("v Had VDynC VDynL", v1b<Had, VDynC, VDynL>);
mc::add("v Had VDynC VDynT", v1b<Had, VDynC, VDynT>);
mc::add("v Had VExtL VDynL", v1b<Had, VExtL, VDynL>);
mc::add("v Had VExtL VDynT", v1b<Had, VExtL, VDynT>);
mc::add("v Had VFixT VDynL", v1b<Had, VFixT, VDynL>);
mc::add("v Had VFixT VExtL", v1b<Had, VFixT, VExtL>);
mc::add("v Had VFixT VDynT", v1b<Had, VFixT, VDynT>);
mc::add("v Had VDynT VDynL", v1b<Had, VDynT, VDynL>);
mc::add("v Had VDynT VExtL", v1b<Had, VDynT, VExtL>);
mc::add("v Had VDynT VDynT", v1b<Had, VDynT, VDynT>);
} } r; }
