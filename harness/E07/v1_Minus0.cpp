#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("v Minus VFixL VFixL", v1b<Minus, VFixL, VFixL>);
mc::add("v Minus VFixL VDynC", v1b<Minus, VFixL, VDynC>);
mc::add("v Minus VFixL VFixT", v1b<Minus, VFixL, VFixT>);
mc::add("v Minus VDynL VFixL", v1b<Minus, VDynL, VFixL>);
mc::add("v Minus VDynL VDynC", v1b<Minus, VDynL, VDynC>);
mc::add("v Minus VDynL VFixT", v1b<Minus, VDynL, VFixT>);
mc::add("v Minus VDynC VFixL", v1b<Minus, VDynC, VFixL>);
mc::add("v Minus VDynC VFixT", v1b<Minus, VDynC, VFixT>);
mc::add("v Minus VExtL VFixL", v1b<Minus, VExtL, VFixL>);
mc::add("v Minus VExtL VFixT", v1b<Minus, VExtL, VFixT>);
mc::add("v Minus VFixT VFixL", v1b<Minus, VFixT, VFixL>);
mc::add("v Minus VFixT VDynC", v1b<Minus, VFixT, VDynC>);
mc::add("v Minus VFixT VFixT", v1b<Minus, VFixT, VFixT>);
mc::add("v Minus VDynT VFixL", v1b<Minus, VDynT, VFixL>);
mc::add("v Minus VDynT VDynC", v1b<Minus, VDynT, VDynC>);
mc::add("v Minus VDynT VFixT", v1b<Minus, VDynT, VFixT>);
} } r; }
