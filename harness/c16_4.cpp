#include "c16.hpp"
PROP(c16_mutable2, 5) { itr::mutating<int, true>(s); }
