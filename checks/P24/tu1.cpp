#define TU 1
#include "p24.hpp"
