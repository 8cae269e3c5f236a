#define PART 3
#include "c09.cpp"
