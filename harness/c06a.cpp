#include "c06.hpp"
PROP(c06_int, 3) { c06::Hist<int, spp::Unaligned>::run(s); }
