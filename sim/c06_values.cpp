#include "vtypes.hpp"
using namespace sim;
#if SIM_PART == 0
typedef char CH;
#else
typedef wchar_t CH;
#endif
static struct Reg {
	Reg() {
#define R(C, ...) scenarios().push_back(Scenario{"C06", cat(V<__VA_ARGS__, C>::name(), "/", CharName<C>::s()), 1, &read_run<C, __VA_ARGS__ >});
#define RD(C, ...) R(C, DistText<__VA_ARGS__ >) R(C, ParamText<__VA_ARGS__ >)
		SIM_VALUE_TYPES(R, CH)
		SIM_DIST_TYPES(RD, CH)
	}
} reg;
