#include "c28.hpp"
using namespace spp; using namespace al;
PROP(c28_two_int, 4) { two<int, Aligned>(s); }
