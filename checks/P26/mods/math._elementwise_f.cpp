// the module of python/src/math/_elementwise_f.cpp, with names of its own
#define pyvsip pyvsip_math__elementwise_f
#define initialize initialize_math__elementwise_f // an inline function that refers to the unnamed namespace
#include "python/src/math/_elementwise_f.cpp"
