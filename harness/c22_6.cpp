#include "c22.hpp"
using namespace spp; using namespace at;
PROP(c22_attached_6, 2) { attached<long double>(s); }
