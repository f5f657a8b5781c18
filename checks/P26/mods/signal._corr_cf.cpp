// the module of python/src/signal/_corr_cf.cpp, with names of its own
#define pyvsip pyvsip_signal__corr_cf
#define initialize initialize_signal__corr_cf // an inline function that refers to the unnamed namespace
#include "python/src/signal/_corr_cf.cpp"
