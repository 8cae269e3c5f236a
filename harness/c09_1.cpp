#define PART 1
#include "c09.cpp"
