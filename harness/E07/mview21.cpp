#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("m Row of MNeg MDynT", m2uv<MNeg, MDynT, Row>);
mc::add("m Row of MTra MDynL", m2uv<MTra, MDynL, Row>);
mc::add("m Row of MTra MFixT", m2uv<MTra, MFixT, Row>);
mc::add("m Row of MMulL MDynT", m2uv<MMulL, MDynT, Row>);
mc::add("m Col of MNeg MDynL", m2uv<MNeg, MDynL, Col>);
mc::add("m Col of MNeg MFixT", m2uv<MNeg, MFixT, Col>);
mc::add("m Col of MTra MDynT", m2uv<MTra, MDynT, Col>);
mc::add("m Col of MMulL MDynL", m2uv<MMulL, MDynL, Col>);
mc::add("m Col of MMulL MFixT", m2uv<MMulL, MFixT, Col>);
} } r; }
