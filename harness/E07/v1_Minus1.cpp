#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("v Minus VFixL VDynL", v1b<Minus, VFixL, VDynL>);
mc::add("v Minus VFixL VExtL", v1b<Minus, VFixL, VExtL>);
mc::add("v Minus VFixL VDynT", v1b<Minus, VFixL, VDynT>);
mc::add("v Minus VDynL VDynL", v1b<Minus, VDynL, VDynL>);
mc::add("v Minus VDynL VExtL", v1b<Minus, VDynL, VExtL>);
mc::add("v Minus VDynL VDynT", v1b<Minus, VDynL, VDynT>);
mc::add("v Minus VDynC VDynL", v1b<Minus, VDynC, VDynL>);
mc::add("v Minus VDynC VDynT", v1b<Minus, VDynC, VDynT>);
mc::add("v Minus VExtL VDynL", v1b<Minus, VExtL, VDynL>);
mc::add("v Minus VExtL VDynT", v1b<Minus, VExtL, VDynT>);
mc::add("v Minus VFixT VDynL", v1b<Minus, VFixT, VDynL>);
mc::add("v Minus VFixT VExtL", v1b<Minus, VFixT, VExtL>);
mc::add("v Minus VFixT VDynT", v1b<Minus, VFixT, VDynT>);
mc::add("v Minus VDynT VDynL", v1b<Minus, VDynT, VDynL>);
mc::add("v Minus VDynT VExtL", v1b<Minus, VDynT, VExtL>);
mc::add("v Minus VDynT VDynT", v1b<Minus, VDynT, VDynT>);
} } r; }
