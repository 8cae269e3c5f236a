#include "c11_table.hpp"
TABLE(double, d)
