#include "dist.hpp"
namespace sr = sprout::random;
#if SIM_PART == 0
typedef std::uint32_t W;
#elif SIM_PART == 1
typedef std::uint64_t W;
#elif SIM_PART == 2
typedef unsigned char W;
#elif SIM_PART == 3
typedef std::int32_t W;
#else
typedef double W;
#endif
#define DIST(...) SIM_SCENARIO("C04", sim::cat(sim::A<__VA_ARGS__ >::name(), "/", sim::WordName<W>::s()), 1, (sim::dist_run<__VA_ARGS__, W>))
#define CANON(R, B) SIM_SCENARIO("C04", sim::cat("canonical<", sim::RealName<R>::s(), ",", #B, ">/", sim::WordName<W>::s()), 1, (sim::canonical_run<R, B, W>))
DIST(sr::uniform_int_distribution<int>);
DIST(sr::uniform_int_distribution<signed char>);
DIST(sr::uniform_int_distribution<short>);
DIST(sr::uniform_int_distribution<unsigned>);
DIST(sr::uniform_int_distribution<std::int64_t>);
DIST(sr::uniform_int_distribution<std::uint64_t>);
DIST(sr::uniform_smallint<int>);
DIST(sr::uniform_smallint<short>);
DIST(sr::uniform_smallint<unsigned char>);
DIST(sr::uniform_smallint<std::uint64_t>);
DIST(sr::uniform_01<double>);
DIST(sr::uniform_01<float>);
DIST(sr::uniform_real_distribution<double>);
DIST(sr::uniform_real_distribution<float>);
DIST(sr::bernoulli_distribution<double>);
DIST(sr::bernoulli_distribution<float>);
DIST(sr::geometric_distribution<int, double>);
DIST(sr::geometric_distribution<short, float>);
DIST(sr::poisson_distribution<int, double>);
DIST(sr::poisson_distribution<short, double>);
DIST(sr::poisson_distribution<int, float>);
DIST(sr::binomial_distribution<int, double>);
DIST(sr::binomial_distribution<short, double>);
DIST(sr::binomial_distribution<std::int64_t, double>);
DIST(sr::binomial_distribution<int, float>);
DIST(sr::normal_distribution<double>);
DIST(sr::normal_distribution<float>);
CANON(double, 53);
CANON(float, 24);
CANON(double, 10);
