#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("v Neg VFixL", v1u<Neg, VFixL>);
mc::add("v Neg VExtL", v1u<Neg, VExtL>);
mc::add("v Pos VFixL", v1u<Pos, VFixL>);
mc::add("v Pos VExtL", v1u<Pos, VExtL>);
mc::add("v MulR VFixL", v1u<MulR, VFixL>);
mc::add("v MulR VExtL", v1u<MulR, VExtL>);
mc::add("v MulL VFixL", v1u<MulL, VFixL>);
mc::add("v MulL VExtL", v1u<MulL, VExtL>);
mc::add("v Div VFixL", v1u<Div, VFixL>);
mc::add("v Div VExtL", v1u<Div, VExtL>);
mc::add("v Sub VFixL", v1u<Sub, VFixL>);
mc::add("v Sub VExtL", v1u<Sub, VExtL>);
mc::add("v normalize VFixL", normal<VFixL>);
mc::add("v normalize VExtL", normal<VExtL>);
} } r; }
