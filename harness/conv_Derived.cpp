#include "conv.h"
static const bool reg = [] { fillConv<HObj>(tables()["Derived"]); return true; }();
