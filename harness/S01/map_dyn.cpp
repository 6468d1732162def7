#include "map.h"
namespace { struct R { R() { map_ops<sx::Dyn>(); } } r; }
