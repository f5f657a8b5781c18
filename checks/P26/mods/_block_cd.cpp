// the module of python/src/_block_cd.cpp, with names of its own
#define pyvsip pyvsip__block_cd
#define initialize initialize__block_cd // an inline function that refers to the unnamed namespace
#include "python/src/_block_cd.cpp"
