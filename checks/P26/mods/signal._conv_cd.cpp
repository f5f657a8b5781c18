// the module of python/src/signal/_conv_cd.cpp, with names of its own
#define pyvsip pyvsip_signal__conv_cd
#define initialize initialize_signal__conv_cd // an inline function that refers to the unnamed namespace
#include "python/src/signal/_conv_cd.cpp"
