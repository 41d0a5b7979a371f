// The random engines under test, each with the independent reference generator of the same parameters (from the C++
// standard library or Boost.Random) that the replica checks compare against.
#ifndef SIM_ENGINES_HPP
#define SIM_ENGINES_HPP

#include <random>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <boost/random/linear_feedback_shift.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/shuffle_order.hpp>
#include <sprout/config.hpp>
#include <sprout/random/engine.hpp>
#include "core.hpp"

namespace sim {
	template<typename E, typename R>
	struct EngineBase {
		typedef E engine;
		typedef R reference;
		enum { plain_seed = 1 };	// seed(n) does the same as construction from n
		static engine make(std::uint64_t seed) { return engine((typename E::result_type)seed); }
		static reference ref(std::uint64_t seed) { return reference((typename R::result_type)seed); }
	};
#define SIM_ENGINE(NAME, STATE, SEEDMASK, SPROUT_T, REF_T) \
	struct NAME : EngineBase<SPROUT_T, REF_T> { \
		static char const* name() { return #NAME; } \
		enum { state_words = STATE }; \
		static std::uint64_t seed_mask() { return SEEDMASK; } \
	}

	typedef std::uint_fast32_t uf32;
	typedef std::uint32_t u32;
	typedef std::uint64_t u64;

	// --- group A: small state
	typedef sprout::random::linear_congruential_engine<u64, 1664525, 1013904223, (u64(1) << 32)> sp_lcg_pow2;
	typedef std::linear_congruential_engine<u64, 1664525, 1013904223, (u64(1) << 32)> rf_lcg_pow2;
	typedef sprout::random::linear_congruential_engine<u32, 8121, 28411, 134456> sp_lcg_small;
	typedef std::linear_congruential_engine<u32, 8121, 28411, 134456> rf_lcg_small;
	typedef sprout::random::linear_feedback_shift_engine<u32, 32, 31, 13, 12> sp_lfsr;
	typedef boost::random::linear_feedback_shift_engine<u32, 32, 31, 13, 12> rf_lfsr;
	typedef sprout::random::linear_feedback_shift_engine<u64, 64, 63, 5, 24> sp_lfsr64;
	typedef boost::random::linear_feedback_shift_engine<u64, 64, 63, 5, 24> rf_lfsr64;
	typedef sprout::random::xor_combine_engine<sprout::random::rand48, 0, sprout::random::linear_feedback_shift_engine<u32, 32, 29, 2, 4>, 1> sp_xor;
	// Boost's xor_combine insists on equal ranges of its parts, so the reference is spelled out
	struct rf_xor {
		typedef u32 result_type;
		boost::random::rand48 a;
		boost::random::linear_feedback_shift_engine<u32, 32, 29, 2, 4> b;
		explicit rf_xor(u32 s) : a(s), b(s) {}
		u32 operator()() { u32 x = a(); return x ^ (b() << 1); }
		void discard(unsigned long long n) { while (n--) (*this)(); }
	};
	SIM_ENGINE(minstd_rand0, 1, 0xFFFFFFFFFFFFull, sprout::random::minstd_rand0, std::minstd_rand0);
	SIM_ENGINE(minstd_rand, 1, 0xFFFFFFFFFFFFull, sprout::random::minstd_rand, std::minstd_rand);
	SIM_ENGINE(lcg_pow2, 1, 0xFFFFFFFFull, sp_lcg_pow2, rf_lcg_pow2);
	SIM_ENGINE(lcg_small, 1, 0xFFFFFFFFull, sp_lcg_small, rf_lcg_small);
	SIM_ENGINE(rand48, 1, 0xFFFFFFFFull, sprout::random::rand48, boost::random::rand48);
	SIM_ENGINE(hellekalek1995, 1, 0x7FFFFFFEull, sprout::random::hellekalek1995, boost::random::hellekalek1995);
	SIM_ENGINE(lfsr, 1, 0xFFFFFFFFull, sp_lfsr, rf_lfsr);
	SIM_ENGINE(lfsr64, 1, ~0ull, sp_lfsr64, rf_lfsr64);
	SIM_ENGINE(ecuyer1988, 2, 0x7FFFFFFFull, sprout::random::ecuyer1988, boost::random::ecuyer1988);
	SIM_ENGINE(taus88, 3, 0xFFFFFFFFull, sprout::random::taus88, boost::random::taus88);
	SIM_ENGINE(xor_mixed, 2, 0xFFFFFFFFull, sp_xor, rf_xor);

	// ecuyer1988 from states whose next draws of the two parts are equal or neighbours (the wrap-around of the combination)
	struct ecuyer_near : EngineBase<sprout::random::ecuyer1988, boost::random::ecuyer1988> {
		enum { state_words = 2, plain_seed = 0 };
		static char const* name() { return "ecuyer_near"; }
		static std::uint64_t seed_mask() { return ~0ull; }
		static u64 back(u64 y, u64 a, u64 m) {	// x with a*x = y (mod m), m prime
			u64 r = 1, e = m - 2;
			for (; e; e >>= 1) { if (e & 1) r = r * a % m; a = a * a % m; }
			return r * y % m;
		}
		static void parts(u64 seed, u64& s1, u64& s2) {
			u64 const m1 = 2147483563, m2 = 2147483399;
			u64 v = 2 + (seed >> 2) % (m2 - 4), w = v + (seed & 3) - 1;
			s1 = back(v, 40014, m1);
			s2 = back(w, 40692, m2);
		}
		static engine make(u64 seed) { u64 a, b; parts(seed, a, b); return engine((engine::base1_type::result_type)a, (engine::base2_type::result_type)b); }
		static reference ref(u64 seed) { u64 a, b; parts(seed, a, b); return reference((u32)a, (u32)b); }
	};

	// --- group B: shuffle tables
	typedef sprout::random::shuffle_order_engine<sprout::random::minstd_rand, 3> sp_shuf3;
	typedef std::shuffle_order_engine<std::minstd_rand, 3> rf_shuf3;
	typedef sprout::random::shuffle_order_engine<sprout::random::minstd_rand0, 1> sp_shuf1;
	typedef std::shuffle_order_engine<std::minstd_rand0, 1> rf_shuf1;
	SIM_ENGINE(knuth_b, 258, 0xFFFFFFFFull, sprout::random::knuth_b, std::knuth_b);
	SIM_ENGINE(kreutzer1986, 99, 0xFFFFFFFFull, sprout::random::kreutzer1986, boost::random::kreutzer1986);
	SIM_ENGINE(shuffle3, 5, 0xFFFFFFFFull, sp_shuf3, rf_shuf3);
	SIM_ENGINE(shuffle1, 3, 0xFFFFFFFFull, sp_shuf1, rf_shuf1);

	// --- group C: Mersenne twisters
	SIM_ENGINE(mt11213b, 351, 0xFFFFFFFFull, sprout::random::mt11213b, boost::random::mt11213b);
	SIM_ENGINE(mt19937, 624, 0xFFFFFFFFull, sprout::random::mt19937, std::mt19937);
	SIM_ENGINE(mt19937_64, 312, ~0ull, sprout::random::mt19937_64, std::mt19937_64);

	// a copy from a const lvalue (from a mutable one the seed-sequence constructors are preferred, and do not compile)
	template<typename T>
	T const& cref(T const& t) { return t; }

	template<typename I>
	std::uint64_t pick_seed(Sim& s) {
		std::uint64_t m = I::seed_mask();
		switch (s.choose(7)) {
		case 0: return 1;
		case 1: return s.choose(64) & m;
		case 2: return 5489 & m;
		case 3: return m - s.choose(4);
		case 4: return 0x7FFFFFFFull & m;
		case 5: { std::uint64_t v = (std::uint64_t)I::make(1).max() - s.choose(2); return v & m ? v & m : 1; }	// the largest states
		default: return s.bits() & m;
		}
	}
	// how many draws: small, around the state size, or across several refills
	template<typename I>
	std::uint64_t pick_draws(Sim& s) {
		std::uint64_t n = I::state_words;
		switch (s.choose(5)) {
		case 0: return s.choose(4);
		case 1: return s.choose(40);
		case 2: return n > 2 ? n - 2 + s.choose(5) : s.choose(7);
		case 3: return s.choose(n + 1);
		default: return s.choose(2 * n + 10);
		}
	}
}	// namespace sim

#define SIM_ENGINES_A(M) M(minstd_rand0) M(minstd_rand) M(lcg_pow2) M(lcg_small) M(rand48) M(hellekalek1995) M(lfsr) M(lfsr64) M(ecuyer1988) M(ecuyer_near) M(taus88) M(xor_mixed)
#define SIM_ENGINES_B(M) M(knuth_b) M(kreutzer1986) M(shuffle3) M(shuffle1)
#define SIM_ENGINES_C(M) M(mt11213b) M(mt19937) M(mt19937_64)

#endif
