// the module of python/src/signal/_fftm_cf.cpp, with names of its own
#define pyvsip pyvsip_signal__fftm_cf
#define initialize initialize_signal__fftm_cf // an inline function that refers to the unnamed namespace
#include "python/src/signal/_fftm_cf.cpp"
