#include "vec.h"

namespace {
struct Reg
{
  Reg()
  {
    mc::add("pair dynamic,external", pair<Dyn, Ext, -1, -1, true>);
    mc::add("large pair dynamic,external", large(pair<Dyn, Ext, -1, -1, true>));
    mc::add("pair external,const external", pair<Ext, CExt, -1, -1, true>);
    mc::add("large pair external,const external", large(pair<Ext, CExt, -1, -1, true>));
    mc::add("pair fixed3,dynamic", pair<Fix<3>, Dyn, 3, -1, true>);
    mc::add("large pair fixed3,dynamic", large(pair<Fix<3>, Dyn, 3, -1, true>));
    mc::add("pair fixed2,const external", pair<Fix<2>, CExt, 2, -1, true>);
    mc::add("large pair fixed2,const external", large(pair<Fix<2>, CExt, 2, -1, true>));
  }
} reg;
} // namespace
