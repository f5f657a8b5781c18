// the module of python/src/math/_reductions_f.cpp, with names of its own
#define pyvsip pyvsip_math__reductions_f
#define initialize initialize_math__reductions_f // an inline function that refers to the unnamed namespace
#include "python/src/math/_reductions_f.cpp"
