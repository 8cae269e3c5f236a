#include "c16.hpp"
PROP(c16_laws1, 6) { itr::laws<int, false>(s, false); }
