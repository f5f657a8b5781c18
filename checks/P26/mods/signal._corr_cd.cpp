// the module of python/src/signal/_corr_cd.cpp, with names of its own
#define pyvsip pyvsip_signal__corr_cd
#define initialize initialize_signal__corr_cd // an inline function that refers to the unnamed namespace
#include "python/src/signal/_corr_cd.cpp"
