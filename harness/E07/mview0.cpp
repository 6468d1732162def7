#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("m Row MFixL", mview<Row, MFixL>);
mc::add("m Row MDynC", mview<Row, MDynC>);
mc::add("m Row MFixT", mview<Row, MFixT>);
mc::add("m Col MFixL", mview<Col, MFixL>);
mc::add("m Col MDynC", mview<Col, MDynC>);
mc::add("m Col MFixT", mview<Col, MFixT>);
mc::add("m basis MFixL", basis_views<MFixL>);
mc::add("m basis MDynC", basis_views<MDynC>);
mc::add("m basis MFixT", basis_views<MFixT>);
} } r; }
