#include "conv.h"
static const bool reg = [] { auto& t = tables()["ID"]; fillConv<gr::IdType>(t); fillArg<gr::IdType>(t); return true; }();
