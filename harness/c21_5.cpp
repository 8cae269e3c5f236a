#include "c21.hpp"
using namespace spp; using namespace fx;
PROP(c21_fixed2_a, 4) { s.coin() ? fixed2<double, 2, 3, Unaligned>(s) : fixed2<int, 3, 1, Aligned>(s); }
