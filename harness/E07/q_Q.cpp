#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("q Q 0 0", q1<Q, 0, 0>);
mc::add("q Q 0 1", q1<Q, 0, 1>);
mc::add("q Q 0 2", q1<Q, 0, 2>);
mc::add("q Q inverse 0", q2<Q, 0>);
mc::add("q Q 1 0", q1<Q, 1, 0>);
mc::add("q Q 1 1", q1<Q, 1, 1>);
mc::add("q Q 1 2", q1<Q, 1, 2>);
mc::add("q Q inverse 1", q2<Q, 1>);
mc::add("q Q 2 0", q1<Q, 2, 0>);
mc::add("q Q 2 1", q1<Q, 2, 1>);
mc::add("q Q 2 2", q1<Q, 2, 2>);
mc::add("q Q inverse 2", q2<Q, 2>);
} } r; }
