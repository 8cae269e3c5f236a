#include "c22.hpp"
using namespace spp; using namespace at;
PROP(c22_attached_2, 3) { attached<int>(s); }
