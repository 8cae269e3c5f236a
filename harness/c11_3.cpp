#include "c11_table.hpp"
TABLE(unsigned long, ul)
TABLE(float, f)
