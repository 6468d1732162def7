#include "mat.h"
namespace { struct R { R() { mat_ops<sx::Fix>(); } } r; }
