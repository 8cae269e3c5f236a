#include "c21.hpp"
using namespace spp; using namespace fx;
PROP(c21_fixed2_b, 4) { s.coin() ? fixed2<float, 2, 2, Aligned>(s) : fixed2<long, 1, 4, Unaligned>(s); }
