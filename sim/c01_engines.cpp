#include "ckpt.hpp"
#if SIM_PART == 0
SIM_ENGINES_A(SIM_CKPT)
#elif SIM_PART == 1
SIM_ENGINES_B(SIM_CKPT)
#else
SIM_ENGINES_C(SIM_CKPT)
#endif
