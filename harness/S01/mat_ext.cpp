#include "mat.h"
namespace { struct R { R() { mat_ops<sx::Ext>(); } } r; }
