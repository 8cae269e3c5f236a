#define PART 7
#include "c10.cpp"
