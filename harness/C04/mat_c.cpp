#include "mat.h"

namespace {
using DR = MDyn<cml::col_basis, cml::row_major>;
using DC = MDyn<cml::col_basis, cml::col_major>;
using ER = MExt<cml::col_basis, cml::row_major>;
using EC = MExt<cml::col_basis, cml::col_major>;
using F22 = MFix<2, 2, cml::col_basis, cml::row_major>;
using F23 = MFix<2, 3, cml::col_basis, cml::col_major>;
struct Reg
{
  Reg()
  {
    mc::add("matrix pair dynamic,external", mpair<DR, EC, -1, -1, -1, -1>);
    mc::add("large matrix pair dynamic,external", large(mpair<DR, EC, -1, -1, -1, -1>));
    mc::add("matrix pair external,fixed22", mpair<EC, F22, -1, -1, 2, 2>);
    mc::add("large matrix pair external,fixed22", large(mpair<EC, F22, -1, -1, 2, 2>));
  }
} reg;
} // namespace
