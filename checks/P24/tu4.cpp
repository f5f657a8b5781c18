#define TU 4
#include "p24.hpp"
