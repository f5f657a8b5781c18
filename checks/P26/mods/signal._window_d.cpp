// the module of python/src/signal/_window_d.cpp, with names of its own
#define pyvsip pyvsip_signal__window_d
#define initialize initialize_signal__window_d // an inline function that refers to the unnamed namespace
#include "python/src/signal/_window_d.cpp"
