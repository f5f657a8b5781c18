// the module of python/src/signal/_fft_cf.cpp, with names of its own
#define pyvsip pyvsip_signal__fft_cf
#define initialize initialize_signal__fft_cf // an inline function that refers to the unnamed namespace
#include "python/src/signal/_fft_cf.cpp"
