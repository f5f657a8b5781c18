// the module of python/src/signal/_fir_d.cpp, with names of its own
#define pyvsip pyvsip_signal__fir_d
#define initialize initialize_signal__fir_d // an inline function that refers to the unnamed namespace
#include "python/src/signal/_fir_d.cpp"
