#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("v Plus VFixL VDynL", v1b<Plus, VFixL, VDynL>);
mc::add("v Plus VFixL VExtL", v1b<Plus, VFixL, VExtL>);
mc::add("v Plus VFixL VDynT", v1b<Plus, VFixL, VDynT>);
mc::add("v Plus VDynL VDynL", v1b<Plus, VDynL, VDynL>);
mc::add("v Plus VDynL VExtL", v1b<Plus, VDynL, VExtL>);
mc::add("v Plus VDynL VDynT", v1b<Plus, VDynL, VDynT>);
mc::add("v Plus VDynC VDynL", v1b<Plus, VDynC, VDynL>);
mc::add("v Plus VDynC VDynT", v1b<Plus, VDynC, VDynT>);
mc::add("v Plus VExtL VDynL", v1b<Plus, VExtL, VDynL>);
mc::add("v Plus VExtL VDynT", v1b<Plus, VExtL, VDynT>);
mc::add("v Plus VFixT VDynL", v1b<Plus, VFixT, VDynL>);
mc::add("v Plus VFixT VExtL", v1b<Plus, VFixT, VExtL>);
mc::add("v Plus VFixT VDynT", v1b<Plus, VFixT, VDynT>);
mc::add("v Plus VDynT VDynL", v1b<Plus, VDynT, VDynL>);
mc::add("v Plus VDynT VExtL", v1b<Plus, VDynT, VExtL>);
mc::add("v Plus VDynT VDynT", v1b<Plus, VDynT, VDynT>);
} } r; }
