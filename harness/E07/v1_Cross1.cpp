#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("v Cross VFixL VDynL", v1b<Cross, VFixL, VDynL>);
mc::add("v Cross VFixL VExtL", v1b<Cross, VFixL, VExtL>);
mc::add("v Cross VFixL VDynT", v1b<Cross, VFixL, VDynT>);
mc::add("v Cross VDynL VDynL", v1b<Cross, VDynL, VDynL>);
mc::add("v Cross VDynL VExtL", v1b<Cross, VDynL, VExtL>);
mc::add("v Cross VDynL VDynT", v1b<Cross, VDynL, VDynT>);
mc::add("v Cross VDynC VDynL", v1b<Cross, VDynC, VDynL>);
mc::add("v Cross VDynC VDynT", v1b<Cross, VDynC, VDynT>);
mc::add("v Cross VExtL VDynL", v1b<Cross, VExtL, VDynL>);
mc::add("v Cross VExtL VDynT", v1b<Cross, VExtL, VDynT>);
mc::add("v Cross VFixT VDynL", v1b<Cross, VFixT, VDynL>);
mc::add("v Cross VFixT VExtL", v1b<Cross, VFixT, VExtL>);
mc::add("v Cross VFixT VDynT", v1b<Cross, VFixT, VDynT>);
mc::add("v Cross VDynT VDynL", v1b<Cross, VDynT, VDynL>);
mc::add("v Cross VDynT VExtL", v1b<Cross, VDynT, VExtL>);
mc::add("v Cross VDynT VDynT", v1b<Cross, VDynT, VDynT>);
} } r; }
