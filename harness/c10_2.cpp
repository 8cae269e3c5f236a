#define PART 2
#include "c10.cpp"
