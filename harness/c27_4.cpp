#include "c27.hpp"
using namespace spp; using namespace vs;
PROP(c27_views1, 3) { s.coin() ? views1<int>(s) : views1<double>(s); }
