#include "c26.hpp"
using namespace spp; using namespace ei;
PROP(c26_prod_unsigned, 2) { switch(s.below(4)) { case 0: return prod_dynamic<unsigned, Unaligned, Unaligned, Unaligned>(s); case 1: return prod_dynamic<unsigned, Aligned, Unaligned, Aligned>(s); case 2: return prod_dynamic<unsigned, Unaligned, Aligned, Aligned>(s); default: return prod_dynamic<unsigned, Aligned, Aligned, Unaligned>(s); } }
