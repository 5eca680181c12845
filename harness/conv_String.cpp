#include "conv.h"
static const bool reg = [] { auto& t = tables()["String"]; fillConv<gr::StringType>(t); fillArg<gr::StringType>(t); return true; }();
