#define PART 6
#include "c10.cpp"
