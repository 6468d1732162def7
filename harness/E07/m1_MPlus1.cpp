#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("m MPlus MFixL MDynL", m1b<MPlus, MFixL, MDynL>);
mc::add("m MPlus MFixL MExtL", m1b<MPlus, MFixL, MExtL>);
mc::add("m MPlus MFixL MDynT", m1b<MPlus, MFixL, MDynT>);
mc::add("m MPlus MDynL MDynL", m1b<MPlus, MDynL, MDynL>);
mc::add("m MPlus MDynL MExtL", m1b<MPlus, MDynL, MExtL>);
mc::add("m MPlus MDynL MDynT", m1b<MPlus, MDynL, MDynT>);
mc::add("m MPlus MDynC MDynL", m1b<MPlus, MDynC, MDynL>);
mc::add("m MPlus MDynC MDynT", m1b<MPlus, MDynC, MDynT>);
mc::add("m MPlus MExtL MDynL", m1b<MPlus, MExtL, MDynL>);
mc::add("m MPlus MExtL MDynT", m1b<MPlus, MExtL, MDynT>);
mc::add("m MPlus MFixT MDynL", m1b<MPlus, MFixT, MDynL>);
mc::add("m MPlus MFixT MExtL", m1b<MPlus, MFixT, MExtL>);
mc::add("m MPlus MFixT MDynT", m1b<MPlus, MFixT, MDynT>);
mc::add("m MPlus MDynT MDynL", m1b<MPlus, MDynT, MDynL>);
mc::add("m MPlus MDynT MExtL", m1b<MPlus, MDynT, MExtL>);
mc::add("m MPlus MDynT MDynT", m1b<MPlus, MDynT, MDynT>);
} } r; }
