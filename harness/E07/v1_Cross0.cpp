#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("v Cross VFixL VFixL", v1b<Cross, VFixL, VFixL>);
mc::add("v Cross VFixL VDynC", v1b<Cross, VFixL, VDynC>);
mc::add("v Cross VFixL VFixT", v1b<Cross, VFixL, VFixT>);
mc::add("v Cross VDynL VFixL", v1b<Cross, VDynL, VFixL>);
mc::add("v Cross VDynL VDynC", v1b<Cross, VDynL, VDynC>);
mc::add("v Cross VDynL VFixT", v1b<Cross, VDynL, VFixT>);
mc::add("v Cross VDynC VFixL", v1b<Cross, VDynC, VFixL>);
mc::add("v Cross VDynC VFixT", v1b<Cross, VDynC, VFixT>);
mc::add("v Cross VExtL VFixL", v1b<Cross, VExtL, VFixL>);
mc::add("v Cross VExtL VFixT", v1b<Cross, VExtL, VFixT>);
mc::add("v Cross VFixT VFixL", v1b<Cross, VFixT, VFixL>);
mc::add("v Cross VFixT VDynC", v1b<Cross, VFixT, VDynC>);
mc::add("v Cross VFixT VFixT", v1b<Cross, VFixT, VFixT>);
mc::add("v Cross VDynT VFixL", v1b<Cross, VDynT, VFixL>);
mc::add("v Cross VDynT VDynC", v1b<Cross, VDynT, VDynC>);
mc::add("v Cross VDynT VFixT", v1b<Cross, VDynT, VFixT>);
} } r; }
