// the module of python/src/_block_b.cpp, with names of its own
#define pyvsip pyvsip__block_b
#define initialize initialize__block_b // an inline function that refers to the unnamed namespace
#include "python/src/_block_b.cpp"
