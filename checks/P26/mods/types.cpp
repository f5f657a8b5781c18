// the module of python/src/types.cpp, with names of its own
#define pyvsip pyvsip_types
#define initialize initialize_types // an inline function that refers to the unnamed namespace
#define types types_
#include "python/src/types.cpp"
