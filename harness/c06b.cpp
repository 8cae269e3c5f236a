#include "c06.hpp"
PROP(c06_double_aligned, 3) { c06::Hist<double, spp::Aligned>::run(s); }
