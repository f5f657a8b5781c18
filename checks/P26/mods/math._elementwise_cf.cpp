// the module of python/src/math/_elementwise_cf.cpp, with names of its own
#define pyvsip pyvsip_math__elementwise_cf
#define initialize initialize_math__elementwise_cf // an inline function that refers to the unnamed namespace
#include "python/src/math/_elementwise_cf.cpp"
