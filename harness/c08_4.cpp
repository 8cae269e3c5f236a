#define PART 4
#include "c08.cpp"
