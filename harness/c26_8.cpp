#include "c26.hpp"
using namespace spp; using namespace ei;
PROP(c26_prod_int, 2) { switch(s.below(4)) { case 0: return prod_dynamic<int, Unaligned, Unaligned, Unaligned>(s); case 1: return prod_dynamic<int, Aligned, Unaligned, Aligned>(s); case 2: return prod_dynamic<int, Unaligned, Aligned, Aligned>(s); default: return prod_dynamic<int, Aligned, Aligned, Unaligned>(s); } }
