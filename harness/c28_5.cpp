#include "c28.hpp"
using namespace spp; using namespace al;
PROP(c28_misc, 2) { s.coin() ? misc<double>(s) : misc<long double>(s); }
PROP(c28_history, 3) { s.coin() ? history<int, Unaligned>(s) : history<double, Aligned>(s); }
