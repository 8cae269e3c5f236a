#define PART1
#include "c07.cpp"
