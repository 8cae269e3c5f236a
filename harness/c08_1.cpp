#define PART 1
#include "c08.cpp"
