#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("v Neg of Cross VDynL VDynT", v2bu<Cross, VDynL, VDynT, Neg>);
mc::add("v MulL of Cross VDynL VDynT", v2bu<Cross, VDynL, VDynT, MulL>);
mc::add("v MulR of Cross VDynL VDynT", v2bu<Cross, VDynL, VDynT, MulR>);
mc::add("v Sub of Cross VDynL VDynT", v2bu<Cross, VDynL, VDynT, Sub>);
mc::add("v Neg of Cross VDynT VFixL", v2bu<Cross, VDynT, VFixL, Neg>);
mc::add("v MulL of Cross VDynT VFixL", v2bu<Cross, VDynT, VFixL, MulL>);
mc::add("v MulR of Cross VDynT VFixL", v2bu<Cross, VDynT, VFixL, MulR>);
mc::add("v Sub of Cross VDynT VFixL", v2bu<Cross, VDynT, VFixL, Sub>);
mc::add("v Neg of Cross VDynT VDynT", v2bu<Cross, VDynT, VDynT, Neg>);
mc::add("v MulL of Cross VDynT VDynT", v2bu<Cross, VDynT, VDynT, MulL>);
mc::add("v MulR of Cross VDynT VDynT", v2bu<Cross, VDynT, VDynT, MulR>);
mc::add("v Sub of Cross VDynT VDynT", v2bu<Cross, VDynT, VDynT, Sub>);
mc::add("v Neg of Cross VFixT VExtL", v2bu<Cross, VFixT, VExtL, Neg>);
mc::add("v MulL of Cross VFixT VExtL", v2bu<Cross, VFixT, VExtL, MulL>);
mc::add("v MulR of Cross VFixT VExtL", v2bu<Cross, VFixT, VExtL, MulR>);
mc::add("v Sub of Cross VFixT VExtL", v2bu<Cross, VFixT, VExtL, Sub>);
} } r; }
