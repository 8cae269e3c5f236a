#include "c21.hpp"
using namespace spp; using namespace fx;
PROP(c21_fixed1_c, 2) { s.coin() ? fixed1<float, 3, Aligned>(s) : fixed1<bool, 6, Unaligned>(s); }
