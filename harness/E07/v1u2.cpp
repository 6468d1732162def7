#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("v Neg VDynC", v1u<Neg, VDynC>);
mc::add("v Neg VDynT", v1u<Neg, VDynT>);
mc::add("v Pos VDynC", v1u<Pos, VDynC>);
mc::add("v Pos VDynT", v1u<Pos, VDynT>);
mc::add("v MulR VDynC", v1u<MulR, VDynC>);
mc::add("v MulR VDynT", v1u<MulR, VDynT>);
mc::add("v MulL VDynC", v1u<MulL, VDynC>);
mc::add("v MulL VDynT", v1u<MulL, VDynT>);
mc::add("v Div VDynC", v1u<Div, VDynC>);
mc::add("v Div VDynT", v1u<Div, VDynT>);
mc::add("v Sub VDynC", v1u<Sub, VDynC>);
mc::add("v Sub VDynT", v1u<Sub, VDynT>);
mc::add("v normalize VDynC", normal<VDynC>);
mc::add("v normalize VDynT", normal<VDynT>);
} } r; }
