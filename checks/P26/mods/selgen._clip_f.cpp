// the module of python/src/selgen/_clip_f.cpp, with names of its own
#define pyvsip pyvsip_selgen__clip_f
#define initialize initialize_selgen__clip_f // an inline function that refers to the unnamed namespace
#include "python/src/selgen/_clip_f.cpp"
