#define PART 2
#include "c09.cpp"
