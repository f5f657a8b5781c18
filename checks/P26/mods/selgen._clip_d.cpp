// the module of python/src/selgen/_clip_d.cpp, with names of its own
#define pyvsip pyvsip_selgen__clip_d
#define initialize initialize_selgen__clip_d // an inline function that refers to the unnamed namespace
#include "python/src/selgen/_clip_d.cpp"
