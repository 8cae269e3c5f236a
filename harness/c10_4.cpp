#define PART 4
#include "c10.cpp"
