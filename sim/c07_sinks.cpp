#include "vtypes.hpp"
#include <sprout/random/mersenne_twister.hpp>
#include <sprout/random/shuffle_order.hpp>
#include <sprout/random/additive_combine.hpp>
using namespace sim;
#if SIM_PART == 0
typedef char CH;
#else
typedef wchar_t CH;
#endif
namespace sim {
	// a view of a string the harness keeps
	template<typename C> struct View { std::basic_string<C> s; };
	template<typename C> std::basic_ostream<C>& operator<<(std::basic_ostream<C>& o, View<C> const& v) { return o << sprout::basic_string_view<C>(v.s.data(), v.s.size()); }
	template<typename C> bool text_lost(View<C> const& v, std::basic_string<C> const& full) { return full.find(v.s) == std::basic_string<C>::npos; }
	template<typename C>
	struct V<View<C>, C> {
		static std::string name() { return "string_view"; }
		static View<C> gen(Sim& s) { View<C> v; for (std::uint64_t n = s.choose(20); n; --n) v.s += junk<C>(s); return v; }
	};
	template<typename C>
	struct V<sprout::variant<int, double, sprout::bitset<8> >, C> {
		typedef sprout::variant<int, double, sprout::bitset<8> > T;
		static std::string name() { return "variant"; }
		static T gen(Sim& s) { std::uint64_t k = s.choose(3); return k == 0 ? T(V<int, C>::gen(s)) : k == 1 ? T(V<double, C>::gen(s)) : T(V<sprout::bitset<8>, C>::gen(s)); }
	};
	template<typename E, typename C> struct EngineText {
		static std::string name() { return "engine"; }
		static E gen(Sim& s) { E e((typename E::result_type)(s.choose(1000) + 1)); for (std::uint64_t k = s.choose(5); k; --k) e(); return e; }
	};
	template<typename C> struct V<sr::minstd_rand, C> : EngineText<sr::minstd_rand, C> {};
	template<typename C> struct V<sr::mt19937, C> : EngineText<sr::mt19937, C> {};
	template<typename C> struct V<sr::knuth_b, C> : EngineText<sr::knuth_b, C> {};
	template<typename C> struct V<sr::ecuyer1988, C> : EngineText<sr::ecuyer1988, C> {};
}
#define R(C, ...) SIM_SCENARIO("C07", cat(V<__VA_ARGS__, C>::name(), "/", CharName<C>::s()), 1, (sink_run<C, __VA_ARGS__ >));
static struct Reg {
	Reg() {
#undef R
#define R(C, ...) scenarios().push_back(Scenario{"C07", cat(V<__VA_ARGS__, C>::name(), "/", CharName<C>::s()), 1, &sink_run<C, __VA_ARGS__ >});
#define RD(C, ...) R(C, DistText<__VA_ARGS__ >)
		SIM_VALUE_TYPES(R, CH)
		SIM_DIST_TYPES(RD, CH)
		R(CH, View<CH>)
		R(CH, sprout::variant<int, double, sprout::bitset<8> >)
		scenarios().push_back(Scenario{"C07", cat("minstd_rand/", CharName<CH>::s()), 1, &sink_run<CH, sr::minstd_rand>});
		scenarios().push_back(Scenario{"C07", cat("mt19937/", CharName<CH>::s()), 1, &sink_run<CH, sr::mt19937>});
		scenarios().push_back(Scenario{"C07", cat("knuth_b/", CharName<CH>::s()), 1, &sink_run<CH, sr::knuth_b>});
		scenarios().push_back(Scenario{"C07", cat("ecuyer1988/", CharName<CH>::s()), 1, &sink_run<CH, sr::ecuyer1988>});
	}
} reg;
