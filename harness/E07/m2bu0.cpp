#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("m MNeg of MPlus MDynL MDynT", m2bu<MPlus, MDynL, MDynT, MNeg>);
mc::add("m MTra of MPlus MDynL MDynT", m2bu<MPlus, MDynL, MDynT, MTra>);
mc::add("m MMulL of MHad MDynL MDynT", m2bu<MHad, MDynL, MDynT, MMulL>);
mc::add("m MNeg of MPlus MDynT MFixL", m2bu<MPlus, MDynT, MFixL, MNeg>);
mc::add("m MTra of MPlus MDynT MFixL", m2bu<MPlus, MDynT, MFixL, MTra>);
mc::add("m MMulL of MHad MDynT MFixL", m2bu<MHad, MDynT, MFixL, MMulL>);
mc::add("m MNeg of MPlus MDynT MDynT", m2bu<MPlus, MDynT, MDynT, MNeg>);
mc::add("m MTra of MPlus MDynT MDynT", m2bu<MPlus, MDynT, MDynT, MTra>);
mc::add("m MMulL of MHad MDynT MDynT", m2bu<MHad, MDynT, MDynT, MMulL>);
mc::add("m MNeg of MPlus MFixT MExtL", m2bu<MPlus, MFixT, MExtL, MNeg>);
mc::add("m MTra of MPlus MFixT MExtL", m2bu<MPlus, MFixT, MExtL, MTra>);
mc::add("m MMulL of MHad MFixT MExtL", m2bu<MHad, MFixT, MExtL, MMulL>);
} } r; }
