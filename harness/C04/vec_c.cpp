#include "vec.h"

namespace {
struct Reg
{
  Reg()
  {
    mc::add("pair external,dynamic", pair<Ext, Dyn, -1, -1, true>);
    mc::add("large pair external,dynamic", large(pair<Ext, Dyn, -1, -1, true>));
    mc::add("pair const external,dynamic", pair<CExt, Dyn, -1, -1, false>);
    mc::add("large pair const external,dynamic", large(pair<CExt, Dyn, -1, -1, false>));
    mc::add("pair fixed3,external", pair<Fix<3>, Ext, 3, -1, true>);
    mc::add("large pair fixed3,external", large(pair<Fix<3>, Ext, 3, -1, true>));
  }
} reg;
} // namespace
