#include "c28.hpp"
using namespace spp; using namespace al;
PROP(c28_one_double, 4) { one<double, Aligned>(s); }
