#define PART 4
#include "c09.cpp"
