#include "c05.hpp"
PROP(c05_bool, 2) { c05::Hist<bool, spp::Unaligned>::run(s); }
PROP(c05_quad_aligned, 2) { c05::Hist<f128, spp::Aligned>::run(s); }
