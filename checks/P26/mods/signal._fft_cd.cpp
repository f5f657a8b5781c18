// the module of python/src/signal/_fft_cd.cpp, with names of its own
#define pyvsip pyvsip_signal__fft_cd
#define initialize initialize_signal__fft_cd // an inline function that refers to the unnamed namespace
#include "python/src/signal/_fft_cd.cpp"
