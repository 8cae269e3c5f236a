#define PART 3
#include "c10.cpp"
