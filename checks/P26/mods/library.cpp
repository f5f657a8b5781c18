// the module of python/src/library.cpp, with names of its own
#define pyvsip pyvsip_library
#define initialize initialize_library // an inline function that refers to the unnamed namespace
#include "python/src/library.cpp"
