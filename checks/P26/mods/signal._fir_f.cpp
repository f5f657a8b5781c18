// the module of python/src/signal/_fir_f.cpp, with names of its own
#define pyvsip pyvsip_signal__fir_f
#define initialize initialize_signal__fir_f // an inline function that refers to the unnamed namespace
#include "python/src/signal/_fir_f.cpp"
