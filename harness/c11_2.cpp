#include "c11_table.hpp"
TABLE(long, l)
TABLE(unsigned, u)
