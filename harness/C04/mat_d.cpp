#include "mat.h"

namespace {
using DR = MDyn<cml::col_basis, cml::row_major>;
using DC = MDyn<cml::col_basis, cml::col_major>;
using ER = MExt<cml::col_basis, cml::row_major>;
using EC = MExt<cml::col_basis, cml::col_major>;
using F22 = MFix<2, 2, cml::col_basis, cml::row_major>;
using F23 = MFix<2, 3, cml::col_basis, cml::col_major>;
struct Reg
{
  Reg()
  {
    mc::add("matrix unary dynamic", munary<DR, -1, -1>);
    mc::add("large matrix unary dynamic", large(munary<DR, -1, -1>));
    mc::add("matrix unary dynamic col", munary<DC, -1, -1>);
    mc::add("large matrix unary dynamic col", large(munary<DC, -1, -1>));
    mc::add("matrix unary external", munary<EC, -1, -1>);
    mc::add("large matrix unary external", large(munary<EC, -1, -1>));
    mc::add("matrix counted row", counted<cml::row_basis, cml::row_major>);
    mc::add("large matrix counted row", large(counted<cml::row_basis, cml::row_major>));
    mc::add("matrix counted col", counted<cml::col_basis, cml::col_major>);
    mc::add("large matrix counted col", large(counted<cml::col_basis, cml::col_major>));
    mc::add("external resize", external_resize);
    mc::add("matrix and vector", vec_mat);
    mc::add("large matrix and vector", large(vec_mat));
  }
} reg;
} // namespace
