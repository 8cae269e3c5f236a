#include "c11_table.hpp"
TABLE(long double, ld)
