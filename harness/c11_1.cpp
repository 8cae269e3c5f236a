#include "c11_table.hpp"
TABLE(int, i)
TABLE(bool, b)
