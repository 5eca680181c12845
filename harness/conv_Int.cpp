#include "conv.h"
static const bool reg = [] { auto& t = tables()["Int"]; fillConv<gr::IntType>(t); fillArg<gr::IntType>(t); return true; }();
