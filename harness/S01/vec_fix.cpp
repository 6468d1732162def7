#include "vec.h"
namespace { struct R { R() { vec_ops<sx::Fix>(); } } r; }
