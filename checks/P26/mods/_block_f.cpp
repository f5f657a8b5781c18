// the module of python/src/_block_f.cpp, with names of its own
#define pyvsip pyvsip__block_f
#define initialize initialize__block_f // an inline function that refers to the unnamed namespace
#include "python/src/_block_f.cpp"
