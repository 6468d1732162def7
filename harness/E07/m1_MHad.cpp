#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("m MHad MFixL MFixL", m1b<MHad, MFixL, MFixL>);
mc::add("m MHad MFixL MDynL", m1b<MHad, MFixL, MDynL>);
mc::add("m MHad MFixL MFixT", m1b<MHad, MFixL, MFixT>);
mc::add("m MHad MFixL MDynT", m1b<MHad, MFixL, MDynT>);
mc::add("m MHad MDynL MFixL", m1b<MHad, MDynL, MFixL>);
mc::add("m MHad MDynL MDynL", m1b<MHad, MDynL, MDynL>);
mc::add("m MHad MDynL MFixT", m1b<MHad, MDynL, MFixT>);
mc::add("m MHad MDynL MDynT", m1b<MHad, MDynL, MDynT>);
mc::add("m MHad MFixT MFixL", m1b<MHad, MFixT, MFixL>);
mc::add("m MHad MFixT MDynL", m1b<MHad, MFixT, MDynL>);
mc::add("m MHad MFixT MFixT", m1b<MHad, MFixT, MFixT>);
mc::add("m MHad MFixT MDynT", m1b<MHad, MFixT, MDynT>);
mc::add("m MHad MDynT MFixL", m1b<MHad, MDynT, MFixL>);
mc::add("m MHad MDynT MDynL", m1b<MHad, MDynT, MDynL>);
mc::add("m MHad MDynT MFixT", m1b<MHad, MDynT, MFixT>);
mc::add("m MHad MDynT MDynT", m1b<MHad, MDynT, MDynT>);
} } r; }
