#include "c16.hpp"
PROP(c16_lines, 5) { itr::lines<int>(s); }
