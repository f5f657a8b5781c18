// the module of python/src/math/_matvec_d.cpp, with names of its own
#define pyvsip pyvsip_math__matvec_d
#define initialize initialize_math__matvec_d // an inline function that refers to the unnamed namespace
#include "python/src/math/_matvec_d.cpp"
