#include "conv.h"
static const bool reg = [] { auto& t = tables()["Float"]; fillConv<gr::FloatType>(t); fillArg<gr::FloatType>(t); return true; }();
