// the module of python/src/math/types.cpp, with names of its own
#define pyvsip pyvsip_math_types
#define initialize initialize_math_types // an inline function that refers to the unnamed namespace
#define types math_types_
#include "python/src/math/types.cpp"
