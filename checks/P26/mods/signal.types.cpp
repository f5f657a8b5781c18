// the module of python/src/signal/types.cpp, with names of its own
#define pyvsip pyvsip_signal_types
#define initialize initialize_signal_types // an inline function that refers to the unnamed namespace
#define types signal_types_
#include "python/src/signal/types.cpp"
