// the module of python/src/signal/_corr_f.cpp, with names of its own
#define pyvsip pyvsip_signal__corr_f
#define initialize initialize_signal__corr_f // an inline function that refers to the unnamed namespace
#include "python/src/signal/_corr_f.cpp"
