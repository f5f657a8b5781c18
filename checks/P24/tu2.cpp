#define TU 2
#include "p24.hpp"
