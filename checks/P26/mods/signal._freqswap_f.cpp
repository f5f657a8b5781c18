// the module of python/src/signal/_freqswap_f.cpp, with names of its own
#define pyvsip pyvsip_signal__freqswap_f
#define initialize initialize_signal__freqswap_f // an inline function that refers to the unnamed namespace
#include "python/src/signal/_freqswap_f.cpp"
