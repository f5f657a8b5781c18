// P28: another property's workload, repeated; what it leaves allocated is counted.
#define VT_STEADY
#include "alloc.hpp"
#include P_SRC
