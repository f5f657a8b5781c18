// the module of python/src/_cast.cpp, with names of its own
#define pyvsip pyvsip__cast
#define initialize initialize__cast // an inline function that refers to the unnamed namespace
#include "python/src/_cast.cpp"
