#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("v Plus VFixL VFixL", v1b<Plus, VFixL, VFixL>);
mc::add("v Plus VFixL VDynC", v1b<Plus, VFixL, VDynC>);
mc::add("v Plus VFixL VFixT", v1b<Plus, VFixL, VFixT>);
mc::add("v Plus VDynL VFixL", v1b<Plus, VDynL, VFixL>);
mc::add("v Plus VDynL VDynC", v1b<Plus, VDynL, VDynC>);
mc::add("v Plus VDynL VFixT", v1b<Plus, VDynL, VFixT>);
mc::add("v Plus VDynC VFixL", v1b<Plus, VDynC, VFixL>);
mc::add("v Plus VDynC VFixT", v1b<Plus, VDynC, VFixT>);
mc::add("v Plus VExtL VFixL", v1b<Plus, VExtL, VFixL>);
mc::add("v Plus VExtL VFixT", v1b<Plus, VExtL, VFixT>);
mc::add("v Plus VFixT VFixL", v1b<Plus, VFixT, VFixL>);
mc::add("v Plus VFixT VDynC", v1b<Plus, VFixT, VDynC>);
mc::add("v Plus VFixT VFixT", v1b<Plus, VFixT, VFixT>);
mc::add("v Plus VDynT VFixL", v1b<Plus, VDynT, VFixL>);
mc::add("v Plus VDynT VDynC", v1b<Plus, VDynT, VDynC>);
mc::add("v Plus VDynT VFixT", v1b<Plus, VDynT, VFixT>);
} } r; }
