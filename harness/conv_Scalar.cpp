#include "conv.h"
static const bool reg = [] { auto& t = tables()["Scalar"]; fillConv<gr::Value>(t); fillArg<gr::Value>(t); return true; }();
