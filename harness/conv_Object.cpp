#include "conv.h"
static const bool reg = [] { fillConv<gs::Object>(tables()["Object"]); return true; }();
