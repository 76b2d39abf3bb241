#define PART 1
#include "c07.cc"
