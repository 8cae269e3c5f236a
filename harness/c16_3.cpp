#include "c16.hpp"
PROP(c16_mutable1, 6) { itr::mutating<int, false>(s); }
