#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("v Neg of Plus VDynL VDynT", v2bu<Plus, VDynL, VDynT, Neg>);
mc::add("v MulL of Plus VDynL VDynT", v2bu<Plus, VDynL, VDynT, MulL>);
mc::add("v MulR of Plus VDynL VDynT", v2bu<Plus, VDynL, VDynT, MulR>);
mc::add("v Sub of Plus VDynL VDynT", v2bu<Plus, VDynL, VDynT, Sub>);
mc::add("v Neg of Plus VDynT VFixL", v2bu<Plus, VDynT, VFixL, Neg>);
mc::add("v MulL of Plus VDynT VFixL", v2bu<Plus, VDynT, VFixL, MulL>);
mc::add("v MulR of Plus VDynT VFixL", v2bu<Plus, VDynT, VFixL, MulR>);
mc::add("v Sub of Plus VDynT VFixL", v2bu<Plus, VDynT, VFixL, Sub>);
mc::add("v Neg of Plus VDynT VDynT", v2bu<Plus, VDynT, VDynT, Neg>);
mc::add("v MulL of Plus VDynT VDynT", v2bu<Plus, VDynT, VDynT, MulL>);
mc::add("v MulR of Plus VDynT VDynT", v2bu<Plus, VDynT, VDynT, MulR>);
mc::add("v Sub of Plus VDynT VDynT", v2bu<Plus, VDynT, VDynT, Sub>);
mc::add("v Neg of Plus VFixT VExtL", v2bu<Plus, VFixT, VExtL, Neg>);
mc::add("v MulL of Plus VFixT VExtL", v2bu<Plus, VFixT, VExtL, MulL>);
mc::add("v MulR of Plus VFixT VExtL", v2bu<Plus, VFixT, VExtL, MulR>);
mc::add("v Sub of Plus VFixT VExtL", v2bu<Plus, VFixT, VExtL, Sub>);
} } r; }
