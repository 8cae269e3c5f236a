#include "c16.hpp"
PROP(c16_line_writes, 4) { itr::line_writes<double>(s); }
