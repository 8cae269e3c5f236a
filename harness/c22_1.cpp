#include "c22.hpp"
using namespace spp; using namespace at;
PROP(c22_attached_1, 3) { attached<double>(s); }
