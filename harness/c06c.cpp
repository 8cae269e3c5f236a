#include "c06.hpp"
PROP(c06_bool, 2) { c06::Hist<bool, spp::Unaligned>::run(s); }
