// the module of python/src/_rand_cd.cpp, with names of its own
#define pyvsip pyvsip__rand_cd
#define initialize initialize__rand_cd // an inline function that refers to the unnamed namespace
#include "python/src/_rand_cd.cpp"
