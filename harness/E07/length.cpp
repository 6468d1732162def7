#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("v length fixed", vlength<VFixL>);
mc::add("v length dynamic", vlength<VDynL>);
mc::add("v length external", vlength<VExtL>);
mc::add("q length Q", qlength<Q, 0>);
mc::add("q length Q const", qlength<Q, 1>);
mc::add("q length Q temporary", qlength<Q, 2>);
mc::add("q length QN", qlength<QN, 0>);
mc::add("q length QN temporary", qlength<QN, 2>);
} } r; }
