// the module of python/src/_rand_f.cpp, with names of its own
#define pyvsip pyvsip__rand_f
#define initialize initialize__rand_f // an inline function that refers to the unnamed namespace
#include "python/src/_rand_f.cpp"
