// the module of python/src/math/solvers/_toepsol_d.cpp, with names of its own
#define pyvsip pyvsip_math_solvers__toepsol_d
#define initialize initialize_math_solvers__toepsol_d // an inline function that refers to the unnamed namespace
#include "python/src/math/solvers/_toepsol_d.cpp"
