#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("outer VFixL VFixL", outers<VFixL, VFixL>);
mc::add("outer VFixL VDynL", outers<VFixL, VDynL>);
mc::add("outer VFixL VFixT", outers<VFixL, VFixT>);
mc::add("outer VFixL VDynT", outers<VFixL, VDynT>);
mc::add("outer VDynL VFixL", outers<VDynL, VFixL>);
mc::add("outer VDynL VDynL", outers<VDynL, VDynL>);
mc::add("outer VDynL VFixT", outers<VDynL, VFixT>);
mc::add("outer VDynL VDynT", outers<VDynL, VDynT>);
mc::add("outer VFixT VFixL", outers<VFixT, VFixL>);
mc::add("outer VFixT VDynL", outers<VFixT, VDynL>);
mc::add("outer VFixT VFixT", outers<VFixT, VFixT>);
mc::add("outer VFixT VDynT", outers<VFixT, VDynT>);
mc::add("outer VDynT VFixL", outers<VDynT, VFixL>);
mc::add("outer VDynT VDynL", outers<VDynT, VDynL>);
mc::add("outer VDynT VFixT", outers<VDynT, VFixT>);
mc::add("outer VDynT VDynT", outers<VDynT, VDynT>);
} } r; }
