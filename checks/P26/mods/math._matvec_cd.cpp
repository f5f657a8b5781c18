// the module of python/src/math/_matvec_cd.cpp, with names of its own
#define pyvsip pyvsip_math__matvec_cd
#define initialize initialize_math__matvec_cd // an inline function that refers to the unnamed namespace
#include "python/src/math/_matvec_cd.cpp"
