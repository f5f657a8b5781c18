#define TU 5
#include "p24.hpp"
