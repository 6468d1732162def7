#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("q QN 0 0", q1<QN, 0, 0>);
mc::add("q QN 0 1", q1<QN, 0, 1>);
mc::add("q QN 0 2", q1<QN, 0, 2>);
mc::add("q QN inverse 0", q2<QN, 0>);
mc::add("q QN 1 0", q1<QN, 1, 0>);
mc::add("q QN 1 1", q1<QN, 1, 1>);
mc::add("q QN 1 2", q1<QN, 1, 2>);
mc::add("q QN inverse 1", q2<QN, 1>);
mc::add("q QN 2 0", q1<QN, 2, 0>);
mc::add("q QN 2 1", q1<QN, 2, 1>);
mc::add("q QN 2 2", q1<QN, 2, 2>);
mc::add("q QN inverse 2", q2<QN, 2>);
} } r; }
