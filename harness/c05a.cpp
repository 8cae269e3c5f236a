#include "c05.hpp"
PROP(c05_int, 3) { c05::Hist<int, spp::Unaligned>::run(s); }
PROP(c05_double_aligned, 3) { c05::Hist<double, spp::Aligned>::run(s); }
