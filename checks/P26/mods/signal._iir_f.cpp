// the module of python/src/signal/_iir_f.cpp, with names of its own
#define pyvsip pyvsip_signal__iir_f
#define initialize initialize_signal__iir_f // an inline function that refers to the unnamed namespace
#include "python/src/signal/_iir_f.cpp"
