// the module of python/src/signal/_iir_cd.cpp, with names of its own
#define pyvsip pyvsip_signal__iir_cd
#define initialize initialize_signal__iir_cd // an inline function that refers to the unnamed namespace
#include "python/src/signal/_iir_cd.cpp"
