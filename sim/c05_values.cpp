#include "vtypes.hpp"
using namespace sim;
#define MAKE(C, ...) &make_value<__VA_ARGS__, C>,
#define MAKED(C, ...) &make_value<DistText<__VA_ARGS__ >, C>, &make_value<ParamText<__VA_ARGS__ >, C>,
#define ONE(C, ...) SIM_ONE(C, __VA_ARGS__)
#if SIM_PART == 0
typedef char CH;
#else
typedef wchar_t CH;
#endif
typedef std::vector<AnyValue<CH>* (*)(Sim&)> Types;
static Types const values = {SIM_VALUE_TYPES(MAKE, CH)}, dists = {SIM_DIST_TYPES(MAKED, CH)};
static Types all() { Types a(values); a.insert(a.end(), dists.begin(), dists.end()); return a; }
static Types const both = all();
SIM_SCENARIO("C05", cat("values/", CharName<CH>::s()), 4, [](Sim& s) { log_run<CH>(s, values); });
SIM_SCENARIO("C05", cat("distributions/", CharName<CH>::s()), 2, [](Sim& s) { log_run<CH>(s, dists); });
SIM_SCENARIO("C05", cat("mixed/", CharName<CH>::s()), 2, [](Sim& s) { log_run<CH>(s, both); });
