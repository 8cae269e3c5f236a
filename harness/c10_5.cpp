#define PART 5
#include "c10.cpp"
