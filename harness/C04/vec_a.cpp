#include "vec.h"

namespace {
struct Reg
{
  Reg()
  {
    mc::add("pair dynamic,dynamic", pair<Dyn, Dyn, -1, -1, true>);
    mc::add("large pair dynamic,dynamic", large(pair<Dyn, Dyn, -1, -1, true>));
    mc::add("pair external,external", pair<Ext, Ext, -1, -1, true>);
    mc::add("large pair external,external", large(pair<Ext, Ext, -1, -1, true>));
    mc::add("pair dynamic,fixed3", pair<Dyn, Fix<3>, -1, 3, true>);
    mc::add("large pair dynamic,fixed3", large(pair<Dyn, Fix<3>, -1, 3, true>));
    mc::add("pair external,fixed2", pair<Ext, Fix<2>, -1, 2, true>);
    mc::add("large pair external,fixed2", large(pair<Ext, Fix<2>, -1, 2, true>));
  }
} reg;
} // namespace
