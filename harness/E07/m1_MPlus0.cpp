#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("m MPlus MFixL MFixL", m1b<MPlus, MFixL, MFixL>);
mc::add("m MPlus MFixL MDynC", m1b<MPlus, MFixL, MDynC>);
mc::add("m MPlus MFixL MFixT", m1b<MPlus, MFixL, MFixT>);
mc::add("m MPlus MDynL MFixL", m1b<MPlus, MDynL, MFixL>);
mc::add("m MPlus MDynL MDynC", m1b<MPlus, MDynL, MDynC>);
mc::add("m MPlus MDynL MFixT", m1b<MPlus, MDynL, MFixT>);
mc::add("m MPlus MDynC MFixL", m1b<MPlus, MDynC, MFixL>);
mc::add("m MPlus MDynC MFixT", m1b<MPlus, MDynC, MFixT>);
mc::add("m MPlus MExtL MFixL", m1b<MPlus, MExtL, MFixL>);
mc::add("m MPlus MExtL MFixT", m1b<MPlus, MExtL, MFixT>);
mc::add("m MPlus MFixT MFixL", m1b<MPlus, MFixT, MFixL>);
mc::add("m MPlus MFixT MDynC", m1b<MPlus, MFixT, MDynC>);
mc::add("m MPlus MFixT MFixT", m1b<MPlus, MFixT, MFixT>);
mc::add("m MPlus MDynT MFixL", m1b<MPlus, MDynT, MFixL>);
mc::add("m MPlus MDynT MDynC", m1b<MPlus, MDynT, MDynC>);
mc::add("m MPlus MDynT MFixT", m1b<MPlus, MDynT, MFixT>);
} } r; }
