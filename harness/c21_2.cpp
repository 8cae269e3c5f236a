#include "c21.hpp"
using namespace spp; using namespace fx;
PROP(c21_fixed1_b, 4) { s.coin() ? fixed1<int, 5, Aligned>(s) : fixed1<unsigned long, 2, Unaligned>(s); }
