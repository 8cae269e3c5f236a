#include "c11_table.hpp"
TABLE(f128, q)
