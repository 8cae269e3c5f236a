#include "c28.hpp"
using namespace spp; using namespace al;
PROP(c28_one_int, 4) { one<int, Unaligned>(s); }
