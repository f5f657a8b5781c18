// the module of python/src/_rand_d.cpp, with names of its own
#define pyvsip pyvsip__rand_d
#define initialize initialize__rand_d // an inline function that refers to the unnamed namespace
#include "python/src/_rand_d.cpp"
