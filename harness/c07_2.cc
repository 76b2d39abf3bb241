#define PART 2
#include "c07.cc"
