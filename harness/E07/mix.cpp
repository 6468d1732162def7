#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("mixed MDynL MDynT", mixed<MDynL, MDynT>);
mc::add("mixed MDynT MFixL", mixed<MDynT, MFixL>);
mc::add("mixed MDynT MDynT", mixed<MDynT, MDynT>);
mc::add("mixed MFixT MExtL", mixed<MFixT, MExtL>);
} } r; }
