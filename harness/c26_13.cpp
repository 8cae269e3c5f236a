#include "c26.hpp"
using namespace spp; using namespace ei;
PROP(c26_prodf_int, 2) { prod_fixed<int>(s); }
