#include "c27.hpp"
using namespace spp; using namespace vs;
PROP(c27_views2, 3) { s.coin() ? views2<int>(s) : views2<double>(s); }
