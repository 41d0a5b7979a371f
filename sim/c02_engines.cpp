#include "ckpt.hpp"
#if SIM_PART == 0
SIM_ENGINES_A(SIM_DAMAGE)
#elif SIM_PART == 1
SIM_ENGINES_B(SIM_DAMAGE)
#else
SIM_ENGINES_C(SIM_DAMAGE)
#endif
