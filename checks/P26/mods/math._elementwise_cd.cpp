// the module of python/src/math/_elementwise_cd.cpp, with names of its own
#define pyvsip pyvsip_math__elementwise_cd
#define initialize initialize_math__elementwise_cd // an inline function that refers to the unnamed namespace
#include "python/src/math/_elementwise_cd.cpp"
