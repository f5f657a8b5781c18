// the module of python/src/math/_matvec_cf.cpp, with names of its own
#define pyvsip pyvsip_math__matvec_cf
#define initialize initialize_math__matvec_cf // an inline function that refers to the unnamed namespace
#include "python/src/math/_matvec_cf.cpp"
