#include "c28.hpp"
using namespace spp; using namespace al;
PROP(c28_two_double, 4) { two<double, Unaligned>(s); }
