#include "life.h"
namespace { struct R { R() { using namespace e07;
mc::add("m Row MDynL", mview<Row, MDynL>);
mc::add("m Row MExtL", mview<Row, MExtL>);
mc::add("m Row MDynT", mview<Row, MDynT>);
mc::add("m Col MDynL", mview<Col, MDynL>);
mc::add("m Col MExtL", mview<Col, MExtL>);
mc::add("m Col MDynT", mview<Col, MDynT>);
mc::add("m basis MDynL", basis_views<MDynL>);
mc::add("m basis MExtL", basis_views<MExtL>);
mc::add("m basis MDynT", basis_views<MDynT>);
} } r; }
