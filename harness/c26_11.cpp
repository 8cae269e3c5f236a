#include "c26.hpp"
using namespace spp; using namespace ei;
PROP(c26_prod_ld, 1) { prod_dynamic<long double, Unaligned, Unaligned, Unaligned>(s); }
