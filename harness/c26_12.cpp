#include "c26.hpp"
using namespace spp; using namespace ei;
PROP(c26_prodf_double, 2) { prod_fixed<double>(s); }
