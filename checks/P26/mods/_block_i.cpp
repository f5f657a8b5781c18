// the module of python/src/_block_i.cpp, with names of its own
#define pyvsip pyvsip__block_i
#define initialize initialize__block_i // an inline function that refers to the unnamed namespace
#include "python/src/_block_i.cpp"
