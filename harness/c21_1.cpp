#include "c21.hpp"
using namespace spp; using namespace fx;
PROP(c21_fixed1_a, 4) { s.coin() ? fixed1<double, 4, Unaligned>(s) : fixed1<double, 1, Aligned>(s); }
