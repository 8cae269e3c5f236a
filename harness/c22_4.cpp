#include "c22.hpp"
using namespace spp; using namespace at;
PROP(c22_attached_4, 3) { attached<float>(s); }
