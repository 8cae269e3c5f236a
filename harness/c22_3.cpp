#include "c22.hpp"
using namespace spp; using namespace at;
PROP(c22_attached_3, 3) { attached<unsigned long>(s); }
