#define PART 1
#include "c10.cpp"
