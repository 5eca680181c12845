#include "conv.h"
static const bool reg = [] { auto& t = tables()["Boolean"]; fillConv<gr::BooleanType>(t); fillArg<gr::BooleanType>(t); return true; }();
