#define PART 2
#include "c08.cpp"
