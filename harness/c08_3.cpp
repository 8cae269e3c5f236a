#define PART 3
#include "c08.cpp"
