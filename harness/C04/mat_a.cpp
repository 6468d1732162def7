#include "mat.h"

namespace {
using DR = MDyn<cml::col_basis, cml::row_major>;
using DC = MDyn<cml::col_basis, cml::col_major>;
using ER = MExt<cml::col_basis, cml::row_major>;
using EC = MExt<cml::col_basis, cml::col_major>;
using F22 = MFix<2, 2, cml::col_basis, cml::row_major>;
using F23 = MFix<2, 3, cml::col_basis, cml::col_major>;
struct Reg
{
  Reg()
  {
    mc::add("matrix pair dynamic,dynamic", mpair<DR, DC, -1, -1, -1, -1>);
    mc::add("large matrix pair dynamic,dynamic", large(mpair<DR, DC, -1, -1, -1, -1>));
    mc::add("matrix pair dynamic,fixed23", mpair<DC, F23, -1, -1, 2, 3>);
    mc::add("large matrix pair dynamic,fixed23", large(mpair<DC, F23, -1, -1, 2, 3>));
  }
} reg;
} // namespace
