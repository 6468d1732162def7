#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("v Had VFixL VFixL", v1b<Had, VFixL, VFixL>);
mc::add("v Had VFixL VDynC", v1b<Had, VFixL, VDynC>);
mc::add("v Had VFixL VFixT", v1b<Had, VFixL, VFixT>);
mc::add("v Had VDynL VFixL", v1b<Had, VDynL, VFixL>);
mc::add("v Had VDynL VDynC", v1b<Had, VDynL, VDynC>);
mc::add("v Had VDynL VFixT", v1b<Had, VDynL, VFixT>);
mc::add("v Had VDynC VFixL", v1b<Had, VDynC, VFixL>);
mc::add("v Had VDynC VFixT", v1b<Had, VDynC, VFixT>);
mc::add("v Had VExtL VFixL", v1b<Had, VExtL, VFixL>);
mc::add("v Had VExtL VFixT", v1b<Had, VExtL, VFixT>);
mc::add("v Had VFixT VFixL", v1b<Had, VFixT, VFixL>);
mc::add("v Had VFixT VDynC", v1b<Had, VFixT, VDynC>);
mc::add("v Had VFixT VFixT", v1b<Had, VFixT, VFixT>);
mc::add("v Had VDynT VFixL", v1b<Had, VDynT, VFixL>);
mc::add("v Had VDynT VDynC", v1b<Had, VDynT, VDynC>);
mc::add("v Had VDynT VFixT", v1b<Had, VDynT, VFixT>);
} } r; }
