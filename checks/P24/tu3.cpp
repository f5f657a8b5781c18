#define TU 3
#include "p24.hpp"
