// the module of python/src/support.cpp, with names of its own
#define pyvsip pyvsip_support
#define initialize initialize_support // an inline function that refers to the unnamed namespace
#include "python/src/support.cpp"
