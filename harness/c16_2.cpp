#include "c16.hpp"
PROP(c16_laws2, 5) { itr::laws<int, true>(s, false); }
