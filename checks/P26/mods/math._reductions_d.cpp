// the module of python/src/math/_reductions_d.cpp, with names of its own
#define pyvsip pyvsip_math__reductions_d
#define initialize initialize_math__reductions_d // an inline function that refers to the unnamed namespace
#include "python/src/math/_reductions_d.cpp"
