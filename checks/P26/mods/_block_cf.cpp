// the module of python/src/_block_cf.cpp, with names of its own
#define pyvsip pyvsip__block_cf
#define initialize initialize__block_cf // an inline function that refers to the unnamed namespace
#include "python/src/_block_cf.cpp"
