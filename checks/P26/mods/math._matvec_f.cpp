// the module of python/src/math/_matvec_f.cpp, with names of its own
#define pyvsip pyvsip_math__matvec_f
#define initialize initialize_math__matvec_f // an inline function that refers to the unnamed namespace
#include "python/src/math/_matvec_f.cpp"
