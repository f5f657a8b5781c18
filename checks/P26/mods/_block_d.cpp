// the module of python/src/_block_d.cpp, with names of its own
#define pyvsip pyvsip__block_d
#define initialize initialize__block_d // an inline function that refers to the unnamed namespace
#include "python/src/_block_d.cpp"
