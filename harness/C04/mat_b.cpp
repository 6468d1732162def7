#include "mat.h"

namespace {
using DR = MDyn<cml::col_basis, cml::row_major>;
using DC = MDyn<cml::col_basis, cml::col_major>;
using ER = MExt<cml::col_basis, cml::row_major>;
using EC = MExt<cml::col_basis, cml::col_major>;
using F22 = MFix<2, 2, cml::col_basis, cml::row_major>;
using F23 = MFix<2, 3, cml::col_basis, cml::col_major>;
struct Reg
{
  Reg()
  {
    mc::add("matrix pair external,dynamic", mpair<ER, DR, -1, -1, -1, -1>);
    mc::add("large matrix pair external,dynamic", large(mpair<ER, DR, -1, -1, -1, -1>));
    mc::add("matrix pair fixed22,dynamic", mpair<F22, DC, 2, 2, -1, -1>);
    mc::add("large matrix pair fixed22,dynamic", large(mpair<F22, DC, 2, 2, -1, -1>));
  }
} reg;
} // namespace
