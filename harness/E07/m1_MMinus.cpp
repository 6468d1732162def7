#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("m MMinus MFixL MFixL", m1b<MMinus, MFixL, MFixL>);
mc::add("m MMinus MFixL MDynL", m1b<MMinus, MFixL, MDynL>);
mc::add("m MMinus MFixL MFixT", m1b<MMinus, MFixL, MFixT>);
mc::add("m MMinus MFixL MDynT", m1b<MMinus, MFixL, MDynT>);
mc::add("m MMinus MDynL MFixL", m1b<MMinus, MDynL, MFixL>);
mc::add("m MMinus MDynL MDynL", m1b<MMinus, MDynL, MDynL>);
mc::add("m MMinus MDynL MFixT", m1b<MMinus, MDynL, MFixT>);
mc::add("m MMinus MDynL MDynT", m1b<MMinus, MDynL, MDynT>);
mc::add("m MMinus MFixT MFixL", m1b<MMinus, MFixT, MFixL>);
mc::add("m MMinus MFixT MDynL", m1b<MMinus, MFixT, MDynL>);
mc::add("m MMinus MFixT MFixT", m1b<MMinus, MFixT, MFixT>);
mc::add("m MMinus MFixT MDynT", m1b<MMinus, MFixT, MDynT>);
mc::add("m MMinus MDynT MFixL", m1b<MMinus, MDynT, MFixL>);
mc::add("m MMinus MDynT MDynL", m1b<MMinus, MDynT, MDynL>);
mc::add("m MMinus MDynT MFixT", m1b<MMinus, MDynT, MFixT>);
mc::add("m MMinus MDynT MDynT", m1b<MMinus, MDynT, MDynT>);
} } r; }
