#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("m Row of MNeg MDynL", m2uv<MNeg, MDynL, Row>);
mc::add("m Row of MNeg MFixT", m2uv<MNeg, MFixT, Row>);
mc::add("m Row of MTra MDynT", m2uv<MTra, MDynT, Row>);
mc::add("m Row of MMulL MDynL", m2uv<MMulL, MDynL, Row>);
mc::add("m Row of MMulL MFixT", m2uv<MMulL, MFixT, Row>);
mc::add("m Col of MNeg MDynT", m2uv<MNeg, MDynT, Col>);
mc::add("m Col of MTra MDynL", m2uv<MTra, MDynL, Col>);
mc::add("m Col of MTra MFixT", m2uv<MTra, MFixT, Col>);
mc::add("m Col of MMulL MDynT", m2uv<MMulL, MDynT, Col>);
} } r; }
