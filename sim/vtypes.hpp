#include "values.hpp"
// the types with stream operators, for TYPES(M): M(type)
#define SIM_VALUE_TYPES(M, C) \
	M(C, sprout::bitset<1>) M(C, sprout::bitset<8>) M(C, sprout::bitset<64>) M(C, sprout::bitset<65>) M(C, sprout::bitset<130>) \
	M(C, sprout::complex<double>) M(C, sprout::complex<float>) M(C, sprout::math::quaternion<double>) M(C, sprout::math::quaternion<float>) \
	M(C, sprout::rational<int>) M(C, sprout::rational<long long>) M(C, sprout::tribool) M(C, sprout::uuids::uuid) \
	M(C, sprout::optional<int>) M(C, sprout::optional<double>) M(C, sprout::optional<sprout::tribool>) M(C, sprout::optional<sprout::bitset<8> >) \
	M(C, sprout::value_holder<int>) M(C, sprout::value_holder<double>) M(C, sprout::value_holder<sprout::bitset<8> >) \
	M(C, sprout::basic_string<C SIM_COMMA 1>) M(C, sprout::basic_string<C SIM_COMMA 5>) M(C, sprout::basic_string<C SIM_COMMA 20>)
#define SIM_DIST_TYPES(M, C) \
	M(C, sr::uniform_int_distribution<int>) M(C, sr::uniform_int_distribution<std::uint64_t>) M(C, sr::uniform_smallint<int>) M(C, sr::uniform_real_distribution<double>) M(C, sr::uniform_real_distribution<float>) \
	M(C, sr::bernoulli_distribution<double>) M(C, sr::geometric_distribution<int SIM_COMMA double>) M(C, sr::poisson_distribution<int SIM_COMMA double>) M(C, sr::binomial_distribution<int SIM_COMMA double>) \
	M(C, sr::normal_distribution<double>) M(C, sr::normal_distribution<float>)
