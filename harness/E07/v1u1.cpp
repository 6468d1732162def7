#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("v Neg VDynL", v1u<Neg, VDynL>);
mc::add("v Neg VFixT", v1u<Neg, VFixT>);
mc::add("v Pos VDynL", v1u<Pos, VDynL>);
mc::add("v Pos VFixT", v1u<Pos, VFixT>);
mc::add("v MulR VDynL", v1u<MulR, VDynL>);
mc::add("v MulR VFixT", v1u<MulR, VFixT>);
mc::add("v MulL VDynL", v1u<MulL, VDynL>);
mc::add("v MulL VFixT", v1u<MulL, VFixT>);
mc::add("v Div VDynL", v1u<Div, VDynL>);
mc::add("v Div VFixT", v1u<Div, VFixT>);
mc::add("v Sub VDynL", v1u<Sub, VDynL>);
mc::add("v Sub VFixT", v1u<Sub, VFixT>);
mc::add("v normalize VDynL", normal<VDynL>);
mc::add("v normalize VFixT", normal<VFixT>);
} } r; }
