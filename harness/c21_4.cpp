#include "c21.hpp"
using namespace spp; using namespace fx;
PROP(c21_fixed1_d, 2) { s.coin() ? fixed1<f128, 3, Aligned>(s) : fixed1<long double, 0, Unaligned>(s); }
