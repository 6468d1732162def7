#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("m MMinus of MNeg MDynL and MDynL", m2ub<MNeg, MDynL, MMinus, MDynL>);
mc::add("m MMinus of MNeg MDynL and MDynT", m2ub<MNeg, MDynL, MMinus, MDynT>);
mc::add("m MMinus of MNeg MDynT and MDynL", m2ub<MNeg, MDynT, MMinus, MDynL>);
mc::add("m MMinus of MNeg MDynT and MDynT", m2ub<MNeg, MDynT, MMinus, MDynT>);
mc::add("m MMinus of MNeg MFixT and MDynL", m2ub<MNeg, MFixT, MMinus, MDynL>);
mc::add("m MMinus of MNeg MFixT and MDynT", m2ub<MNeg, MFixT, MMinus, MDynT>);
mc::add("m MMinus of MDiv MDynL and MDynL", m2ub<MDiv, MDynL, MMinus, MDynL>);
mc::add("m MMinus of MDiv MDynL and MDynT", m2ub<MDiv, MDynL, MMinus, MDynT>);
mc::add("m MMinus of MDiv MDynT and MDynL", m2ub<MDiv, MDynT, MMinus, MDynL>);
mc::add("m MMinus of MDiv MDynT and MDynT", m2ub<MDiv, MDynT, MMinus, MDynT>);
mc::add("m MMinus of MDiv MFixT and MDynL", m2ub<MDiv, MFixT, MMinus, MDynL>);
mc::add("m MMinus of MDiv MFixT and MDynT", m2ub<MDiv, MFixT, MMinus, MDynT>);
} } r; }
