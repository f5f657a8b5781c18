// the module of python/src/math/_elementwise_d.cpp, with names of its own
#define pyvsip pyvsip_math__elementwise_d
#define initialize initialize_math__elementwise_d // an inline function that refers to the unnamed namespace
#include "python/src/math/_elementwise_d.cpp"
