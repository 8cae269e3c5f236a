#include "c22.hpp"
using namespace spp; using namespace at;
PROP(c22_attached_5, 3) { attached<f128>(s); }
