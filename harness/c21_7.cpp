#include "c21.hpp"
using namespace spp; using namespace fx;
PROP(c21_fixed2_c, 2) { s.coin() ? fixed2<f128, 3, 3, Aligned>(s) : fixed2<bool, 2, 3, Aligned>(s); }
