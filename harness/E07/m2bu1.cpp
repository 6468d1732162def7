#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("m MMulL of MPlus MDynL MDynT", m2bu<MPlus, MDynL, MDynT, MMulL>);
mc::add("m MNeg of MHad MDynL MDynT", m2bu<MHad, MDynL, MDynT, MNeg>);
mc::add("m MTra of MHad MDynL MDynT", m2bu<MHad, MDynL, MDynT, MTra>);
mc::add("m MMulL of MPlus MDynT MFixL", m2bu<MPlus, MDynT, MFixL, MMulL>);
mc::add("m MNeg of MHad MDynT MFixL", m2bu<MHad, MDynT, MFixL, MNeg>);
mc::add("m MTra of MHad MDynT MFixL", m2bu<MHad, MDynT, MFixL, MTra>);
mc::add("m MMulL of MPlus MDynT MDynT", m2bu<MPlus, MDynT, MDynT, MMulL>);
mc::add("m MNeg of MHad MDynT MDynT", m2bu<MHad, MDynT, MDynT, MNeg>);
mc::add("m MTra of MHad MDynT MDynT", m2bu<MHad, MDynT, MDynT, MTra>);
mc::add("m MMulL of MPlus MFixT MExtL", m2bu<MPlus, MFixT, MExtL, MMulL>);
mc::add("m MNeg of MHad MFixT MExtL", m2bu<MHad, MFixT, MExtL, MNeg>);
mc::add("m MTra of MHad MFixT MExtL", m2bu<MHad, MFixT, MExtL, MTra>);
} } r; }
