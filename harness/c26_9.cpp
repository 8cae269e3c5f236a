#include "c26.hpp"
using namespace spp; using namespace ei;
PROP(c26_prod_long, 2) { switch(s.below(4)) { case 0: return prod_dynamic<long, Unaligned, Unaligned, Unaligned>(s); case 1: return prod_dynamic<long, Aligned, Unaligned, Aligned>(s); case 2: return prod_dynamic<long, Unaligned, Aligned, Aligned>(s); default: return prod_dynamic<long, Aligned, Aligned, Unaligned>(s); } }
