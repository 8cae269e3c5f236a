#include "c27.hpp"
using namespace spp; using namespace vs;
PROP(c27_detach1, 2) { detach1<int>(s); }
PROP(c27_detach2, 2) { detach2<int>(s); }
