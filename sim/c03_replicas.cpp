#include "replicas.hpp"
#if SIM_PART == 0
SIM_ENGINES_A(SIM_REPLICAS)
#elif SIM_PART == 1
SIM_ENGINES_B(SIM_REPLICAS)
#else
SIM_ENGINES_C(SIM_REPLICAS)
#endif
