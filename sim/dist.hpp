// C04: distributions driven by a simulated random bit source.
//
// The source hands out words of a shared tape: an adversarial prefix chosen by the simulator, fair words after it.  It can
// fail at any word.  The same draws are taken by every mechanism the library offers, from the same state, and compared
// with each other and with an in-house model of the published algorithm.  Where the model meets a floating comparison
// that is within rounding of going the other way, the draw is "ambiguous": only its range is checked.
#ifndef SIM_DIST_HPP
#define SIM_DIST_HPP

#include <cmath>
#include <limits>
#include <type_traits>
#include <sprout/random/uniform_int_distribution.hpp>
#include <sprout/random/uniform_smallint.hpp>
#include <sprout/random/uniform_01.hpp>
#include <sprout/random/uniform_real_distribution.hpp>
#include <sprout/random/bernoulli_distribution.hpp>
#include <sprout/random/geometric_distribution.hpp>
#include <sprout/random/poisson_distribution.hpp>
#include <sprout/random/binomial_distribution.hpp>
#include <sprout/random/normal_distribution.hpp>
#include <sprout/random/generate_canonical.hpp>
#include <sprout/random/generate_array.hpp>
#include <sprout/random/iterator.hpp>
#include <sprout/random/range.hpp>
#include <sprout/random/results.hpp>
#include <sprout/random/utility.hpp>
#include <sprout/random/variate_generator.hpp>
#include <sprout/random/random_result.hpp>
#include "core.hpp"

namespace sim {
	typedef unsigned __int128 u128;
	typedef long double ld;

	// ------------------------------------------------------------------------------------------------ the source
	template<typename W>
	struct Tape {
		W lo, hi;
		std::vector<W> prefix;	// adversarial words
		std::uint64_t seed;
		std::size_t fail_at, limit;	// word index at which the source throws; word index past which nothing progresses
		Tape() : lo(), hi(), seed(0), fail_at(~(std::size_t)0), limit(~(std::size_t)0) {}
		W fair(std::size_t i, std::true_type) const {
			std::uint64_t span = (std::uint64_t)hi - (std::uint64_t)lo;
			std::uint64_t v = mix64(seed + i);
			return (W)((std::uint64_t)lo + (span + 1 ? v % (span + 1) : v));
		}
		W fair(std::size_t i, std::false_type) const { return (W)((double)(mix64(seed + i) >> 11) * (1.0 / 9007199254740992.0)); }
		W word(std::size_t i) const {
			return i < prefix.size() ? prefix[i] : fair(i, std::is_integral<W>());
		}
		W read(std::size_t i) const {
			if (i == fail_at) throw InjectedFault{1};
			if (i >= limit) throw StepBudget{"random source"};
			return word(i);
		}
	};
	template<typename W>
	struct Src {
		typedef W result_type;
		Tape<W> const* t;
		std::size_t pos;
		Src() : t(0), pos(0) {}
		explicit Src(Tape<W> const* t_) : t(t_), pos(0) {}
		W min() const { return t->lo; }
		W max() const { return t->hi; }
		W operator()() { W w = t->read(pos); ++pos; return w; }
		sprout::random::random_result<Src> const operator()() const {
			W w = t->read(pos);
			Src n(*this);
			++n.pos;
			return sprout::random::random_result<Src>(w, n);
		}
		friend bool operator==(Src const& a, Src const& b) { return a.t == b.t && a.pos == b.pos; }
		friend bool operator!=(Src const& a, Src const& b) { return !(a == b); }
	};
	template<typename W>
	struct WordName { static char const* s() { return "f64"; } };
	template<> struct WordName<std::uint32_t> { static char const* s() { return "u32"; } };
	template<> struct WordName<std::uint64_t> { static char const* s() { return "u64"; } };
	template<> struct WordName<unsigned char> { static char const* s() { return "u8"; } };
	template<> struct WordName<std::int32_t> { static char const* s() { return "i32"; } };

	inline void word_range(Sim& s, Tape<std::uint32_t>& t) {
		static std::uint32_t const r[][2] = {{0, 0xFFFFFFFFu}, {1, 2147483646u}, {0, 255}, {0, 1}, {1, 6}, {0, 65535}, {5, 5 + (1u << 20)}, {0, 0x7FFFFFFFu}, {3, 0xFFFFFFFFu}};
		auto& p = s.pick(r);
		t.lo = p[0], t.hi = p[1];
	}
	inline void word_range(Sim& s, Tape<std::uint64_t>& t) {
		static std::uint64_t const r[][2] = {{0, ~0ull}, {0, 0xFFFFFFFFull}, {3, 1ull << 40}, {0, (1ull << 53) - 1}, {0, 9}, {1, ~0ull}};
		auto& p = s.pick(r);
		t.lo = p[0], t.hi = p[1];
	}
	inline void word_range(Sim& s, Tape<unsigned char>& t) {
		static unsigned char const r[][2] = {{0, 255}, {0, 1}, {10, 200}, {1, 255}};
		auto& p = s.pick(r);
		t.lo = p[0], t.hi = p[1];
	}
	inline void word_range(Sim& s, Tape<std::int32_t>& t) {
		static std::int32_t const r[][2] = {{1, 2147483646}, {0, 2147483647}, {-100, 1000}, {0, 1}, {-1000000000, -1}};
		auto& p = s.pick(r);
		t.lo = p[0], t.hi = p[1];
	}
	inline void word_range(Sim&, Tape<double>& t) { t.lo = 0, t.hi = 1; }

	// a word near fraction f of the range, d steps off
	template<typename W>
	W word_at(Tape<W> const& t, double f, int d, std::true_type) {
		std::uint64_t span = (std::uint64_t)t.hi - (std::uint64_t)t.lo;
		ld x = (ld)f * ((ld)span + 1);
		std::uint64_t o = x <= 0 ? 0 : x >= (ld)span ? span : (std::uint64_t)x;
		if (d < 0) o = o < (std::uint64_t)-d ? 0 : o + d;
		else o = span - o < (std::uint64_t)d ? span : o + d;
		return (W)((std::uint64_t)t.lo + o);
	}
	template<typename W>
	W word_at(Tape<W> const&, double f, int d, std::false_type) {
		double x = f < 0 ? 0 : f > 1 ? 1 : f;
		for (; d > 0; --d) x = std::nextafter(x, 2.0);
		for (; d < 0; ++d) x = std::nextafter(x, -1.0);
		return x < 0 ? 0 : x >= 1 ? std::nextafter(1.0, 0.0) : x;
	}

	// ------------------------------------------------------------------------------------------------ the models
	template<typename W>
	struct Words {
		Tape<W> const& t;
		std::size_t pos;
		bool amb;	// some comparison was within rounding
		ld tol;	// absolute tolerance of the value
		Words(Tape<W> const& t_, std::size_t p) : t(t_), pos(p), amb(false), tol(0) {}
		W raw() {
			if (pos >= t.limit) { amb = true; return t.lo; }	// unbounded model run: only after an ambiguity or a source that never ends a rejection
			return t.word(pos++);
		}
		std::uint64_t off() { W w = raw(); return (std::uint64_t)w - (std::uint64_t)t.lo; }	// integral sources
		std::uint64_t span() const { return (std::uint64_t)t.hi - (std::uint64_t)t.lo; }
		template<typename T>
		bool close(T a, T b, T scale, T eps) {
			if (std::fabs(a - b) <= scale * eps) { amb = true; return true; }
			return false;
		}
	};
	// how a uniform_int sees the source: integral words, or 53-bit integers made of fractions
	inline std::uint64_t span_int(Words<double> const&) { return (1ull << 53) - 1; }
	template<typename W> std::uint64_t span_int(Words<W> const& w) { return w.span(); }
	inline std::uint64_t off_int(Words<double>& w) { return (std::uint64_t)(w.raw() * 9007199254740992.0); }
	template<typename W> std::uint64_t off_int(Words<W>& w) { return w.off(); }

	template<typename W>
	u128 ref_uniform(Words<W>& w, u128 range) {
		u128 br = span_int(w);
		if (range == 0) return 0;
		if (br == range) return off_int(w);
		if (br > range) {
			u128 bucket = (br + 1) / (range + 1);
			for (; ; ) {
				u128 r = off_int(w) / bucket;
				if (r <= range || w.pos >= w.t.limit) return r > range ? 0 : r;
			}
		}
		for (; ; ) {
			u128 limit = (range + 1) / (br + 1), result = 0, mult = 1;
			bool done = false;
			while (mult <= limit) {
				result += (u128)off_int(w) * mult;
				mult *= br + 1;
				if (mult == range + 1) { done = true; break; }
			}
			if (done) return result;
			u128 inc = ref_uniform(w, range / mult);
			result += inc * mult;
			if (result <= range) return result;
			if (w.pos >= w.t.limit) return 0;
		}
	}
	template<typename R>
	R ref_u01_w(Words<double>& w) { return (R)w.raw(); }
	template<typename R, typename W>
	R ref_u01_w(Words<W>& w) { R o = (R)w.off(); return o * (R(1) / ((R)w.span() + R(1))); }
	template<typename R, typename W>
	R ref_u01(Words<W>& w) {
		for (; ; ) {
			R r = ref_u01_w<R>(w);
			w.close(r, R(1), R(1), 8 * std::numeric_limits<R>::epsilon());
			if (r < R(1) || w.pos >= w.t.limit) return r < R(1) ? r : R(0);
		}
	}
	// the fraction a word stands for, as uniform_real sees it
	template<typename R> R frac_real(Words<double>& w) { return (R)w.raw(); }
	template<typename R, typename W> R frac_real(Words<W>& w) { R o = (R)w.off(); return o / ((R)w.span() + 1); }

	template<typename R> R eps() { return std::numeric_limits<R>::epsilon(); }
	// floor of a value known to about `scale * 64 eps`
	template<typename R, typename W>
	R floor_amb(Words<W>& w, R x, R scale) {
		R n = std::floor(x + R(0.5));
		w.close(x, n, scale, 64 * eps<R>());
		return std::floor(x);
	}

	struct St {	// what a distribution remembers between draws
		bool valid;
		double r1, rho;
		St() : valid(false), r1(0), rho(0) {}
	};

	// draws as the library spells them
	template<typename D, typename E>
	typename D::result_type draw_in_place(D& d, E& e) { return d(e); }
	template<typename D, typename E>
	typename D::result_type draw_param(D& d, E& e, typename D::param_type const& p) { return d(e, p); }

	// ------------------------------------------------------------------------------------------------ adapters
	template<typename D> struct A;

	template<typename T> struct IntName { static char const* s() { return sizeof(T) == 1 ? (std::is_signed<T>::value ? "i8" : "u8") : sizeof(T) == 2 ? (std::is_signed<T>::value ? "i16" : "u16") : sizeof(T) == 4 ? (std::is_signed<T>::value ? "i32" : "u32") : (std::is_signed<T>::value ? "i64" : "u64"); } };
	template<typename T> struct RealName { static char const* s() { return sizeof(T) == 4 ? "f32" : sizeof(T) == 8 ? "f64" : "f80"; } };

	template<typename T, typename P>
	P gen_int_param(Sim& s, std::vector<double>& fr) {
		typedef typename std::make_unsigned<T>::type U;
		T const mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max();
		static std::uint64_t const widths[] = {0, 1, 2, 5, 6, 9, 15, 63, 99, 255, 256, 65535, 999999, 0x7FFFFFFDull, 0x7FFFFFFEull, 0x7FFFFFFFull, 0xFFFFFFFEull, 0xFFFFFFFFull, 0x100000000ull, 1ull << 40, (1ull << 53) - 1, 1ull << 53, ~0ull >> 1, ~0ull - 1, ~0ull};
		U w = (U)s.pick(widths);
		std::uint64_t c = s.choose(4);
		if (c == 1) w = (U)s.bits();
		else if (c == 2) w = (U)(w - s.choose(3));
		U room = (U)((U)mx - (U)mn - w);	// how far above the minimum it may start
		std::uint64_t k = s.choose(4);
		U st = k == 0 ? (room >= (U)((U)0 - (U)mn) ? (U)((U)0 - (U)mn) : (U)0) : k == 1 ? (U)0 : k == 2 ? room : (U)(room ? s.bits() % ((std::uint64_t)room ? (std::uint64_t)room : 1) : 0);
		T a = (T)((U)mn + st), b = (T)((U)mn + st + w);
		for (int i = 0; i != 4; ++i) fr.push_back((double)s.choose(17) / ((double)w + 1));
		fr.push_back((double)w / ((double)w + 1));
		return P(a, b);
	}
	template<typename T>
	struct A<sprout::random::uniform_int_distribution<T> > {
		typedef sprout::random::uniform_int_distribution<T> D;
		typedef typename D::param_type P;
		static std::string name() { return cat("uniform_int<", IntName<T>::s(), ">"); }
		static P gen(Sim& s, std::vector<double>& fr) { return gen_int_param<T, P>(s, fr); }
		static std::string show(P const& p) { return cat((ld)p.a(), "..", (ld)p.b()); }
		static bool getters(D const& d, P const& p) { return d.a() == p.a() && d.b() == p.b() && d.min() == p.a() && d.max() == p.b(); }
		template<typename W>
		static ld ref(P const& p, St&, Words<W>& w) {
			typedef typename std::make_unsigned<T>::type U;
			u128 r = ref_uniform(w, (U)((U)p.b() - (U)p.a()));
			return (ld)(T)((U)p.a() + (U)r);
		}
		static bool in_range(P const& p, ld v) { return v >= (ld)p.a() && v <= (ld)p.b(); }
	};
	template<typename T>
	struct A<sprout::random::uniform_smallint<T> > {
		typedef sprout::random::uniform_smallint<T> D;
		typedef typename D::param_type P;
		static std::string name() { return cat("uniform_smallint<", IntName<T>::s(), ">"); }
		static P gen(Sim& s, std::vector<double>& fr) { return gen_int_param<T, P>(s, fr); }
		static std::string show(P const& p) { return cat((ld)p.a(), "..", (ld)p.b()); }
		static bool getters(D const& d, P const& p) { return d.a() == p.a() && d.b() == p.b() && d.min() == p.a() && d.max() == p.b(); }
		static ld ref(P const& p, St&, Words<double>& w) {
			typedef typename std::make_unsigned<T>::type U;
			U range = (U)((U)p.b() - (U)p.a());
			double x = ref_u01<double>(w) * ((double)range + 1);
			w.amb = false;
			U o = x > (double)range + 0.5 && (ld)x > (ld)range ? range : (U)x;
			if (x >= (double)std::numeric_limits<U>::max()) w.amb = true;
			return (ld)(T)((U)p.a() + (o > range ? range : o));
		}
		template<typename W>
		static ld ref(P const& p, St&, Words<W>& w) {
			typedef typename std::make_unsigned<T>::type U;
			U range = (U)((U)p.b() - (U)p.a());
			std::uint64_t v = w.off();
			u128 r = (u128)range >= (u128)w.span() ? (u128)v : (u128)v % ((u128)range + 1);
			return (ld)(T)((U)p.a() + (U)r);
		}
		static bool in_range(P const& p, ld v) { return v >= (ld)p.a() && v <= (ld)p.b(); }
	};
	template<typename R>
	struct A<sprout::random::uniform_01<R> > {
		typedef sprout::random::uniform_01<R> D;
		typedef typename D::param_type P;
		static std::string name() { return cat("uniform_01<", RealName<R>::s(), ">"); }
		static P gen(Sim&, std::vector<double>&) { return P(); }
		static std::string show(P const&) { return ""; }
		static bool getters(D const& d, P const&) { return d.min() == R(0) && d.max() == R(1); }
		template<typename W>
		static ld ref(P const&, St&, Words<W>& w) { w.tol = 8 * eps<R>(); return ref_u01<R>(w); }
		static bool in_range(P const&, ld v) { return v >= 0 && v < 1; }
	};
	template<typename R>
	struct A<sprout::random::uniform_real_distribution<R> > {
		typedef sprout::random::uniform_real_distribution<R> D;
		typedef typename D::param_type P;
		static std::string name() { return cat("uniform_real<", RealName<R>::s(), ">"); }
		static P gen(Sim& s, std::vector<double>& fr) {
			static R const as[] = {R(0), R(-1), R(1), R(-1e6), R(1e9), R(-3.25), R(1e-20), R(-1e30)};
			static R const ws[] = {R(1), R(2), R(1e-6), R(1e6), R(0.5), R(1e30), R(3)};
			R a = s.pick(as), b = a + s.pick(ws);
			if (s.chance(1, 6) || !(a < b)) b = std::nextafter(a, std::numeric_limits<R>::max());
			fr.push_back(1 - 5.9604644775390625e-8); fr.push_back(1 - 2.98023223876953125e-8); fr.push_back(0.5);
			return P(a, b);
		}
		static std::string show(P const& p) { return cat((ld)p.a(), "..", (ld)p.b()); }
		static bool getters(D const& d, P const& p) { return d.a() == p.a() && d.b() == p.b() && d.min() == p.a() && d.max() == p.b(); }
		template<typename W>
		static ld ref(P const& p, St&, Words<W>& w) {
			R sc = std::fabs(p.a()) + std::fabs(p.b());
			w.tol = 8 * eps<R>() * sc;
			for (; ; ) {
				R r = frac_real<R>(w) * (p.b() - p.a()) + p.a();
				w.close(r, p.b(), sc, 8 * eps<R>());
				if (r < p.b()) return r;
				if (w.pos >= w.t.limit) return p.a();
			}
		}
		static bool in_range(P const& p, ld v) { return v >= (ld)p.a() && v < (ld)p.b(); }
	};
	template<typename R>
	struct A<sprout::random::bernoulli_distribution<R> > {
		typedef sprout::random::bernoulli_distribution<R> D;
		typedef typename D::param_type P;
		static std::string name() { return cat("bernoulli<", RealName<R>::s(), ">"); }
		static P gen(Sim& s, std::vector<double>& fr) {
			static R const ps[] = {R(0.5), R(0), R(1), R(0.25), R(0.1), R(0.9), R(1e-9), R(1) - R(1e-6), R(1) / 3};
			R p = s.pick(ps);
			fr.push_back(p);
			return P(p);
		}
		static std::string show(P const& p) { return cat((ld)p.p()); }
		static bool getters(D const& d, P const& p) { return d.p() == p.p() && d.min() == false && d.max() == true; }
		static R off(Words<double>& w) { return (R)w.raw(); }
		static R span(Words<double>&) { return R(1); }
		template<typename W> static R off(Words<W>& w) { return (R)w.off(); }
		template<typename W> static R span(Words<W>& w) { return (R)w.span(); }
		template<typename W>
		static ld ref(P const& p, St&, Words<W>& w) {
			if (p.p() == R(0)) return 0;
			R o = off(w), t = p.p() * span(w);
			if (p.p() != R(1)) w.close(o, t, t, 8 * eps<R>());
			return o <= t;
		}
		static bool in_range(P const& p, ld v) { return p.p() == R(0) ? v == 0 : p.p() == R(1) ? v == 1 : v == 0 || v == 1; }
	};
	template<typename I, typename R>
	struct A<sprout::random::geometric_distribution<I, R> > {
		typedef sprout::random::geometric_distribution<I, R> D;
		typedef typename D::param_type P;
		static std::string name() { return cat("geometric<", IntName<I>::s(), ",", RealName<R>::s(), ">"); }
		static P gen(Sim& s, std::vector<double>& fr) {
			static R const ps[] = {R(0.5), R(0.25), R(0.75), R(0.1), R(0.9), R(0.01), R(0.999), R(0.05)};
			R p = s.pick(ps);
			if (sizeof(I) > 2 && s.chance(1, 4)) p = sizeof(R) == 4 ? R(1e-3) : R(1e-6);
			for (int k = 1; k < 4; ++k) fr.push_back(1 - std::pow(1 - (double)p, k));
			return P(p);
		}
		static std::string show(P const& p) { return cat((ld)p.p()); }
		static bool getters(D const& d, P const& p) { return d.p() == p.p() && d.min() == 0 && d.max() == std::numeric_limits<I>::max(); }
		template<typename W>
		static ld ref(P const& p, St&, Words<W>& w) {
			R u = ref_u01<R>(w);
			if (u == R(0)) return 0;
			R x = std::log(R(1) - u) / std::log(1 - p.p());
			return floor_amb(w, x, x + 1);
		}
		static bool in_range(P const&, ld v) { return v >= 0; }
	};
	template<typename I, typename R>
	struct A<sprout::random::poisson_distribution<I, R> > {
		typedef sprout::random::poisson_distribution<I, R> D;
		typedef typename D::param_type P;
		static std::string name() { return cat("poisson<", IntName<I>::s(), ",", RealName<R>::s(), ">"); }
		static R vr(R mean) { return R(0.9277 - 3.6224 / ((0.931 + 2.53 * std::sqrt(mean)) - 2)); }
		static P gen(Sim& s, std::vector<double>& fr) {
			static R const ms[] = {R(1), R(0.1), R(9.999), R(10), R(10.5), R(15), R(30), R(100), R(3.5), R(12), R(1000), R(1e-9)};
			R m = s.pick(ms);
			if (sizeof(I) > 2 && sizeof(R) > 4 && s.chance(1, 6)) m = R(1e6);
			double v = vr(m);
			if (m >= 10) fr.push_back(0.86 * v), fr.push_back(v), fr.push_back(0.93 * v), fr.push_back(v + (1 - v) * s.choose(8) / 8.0), fr.push_back(s.choose(32) / 32.0);
			else {
				double c = std::exp(-(double)m), q = c;
				unsigned n = s.choose(12);
				for (unsigned k = 1; k <= n; ++k) q *= (double)m / k, c += q;
				fr.push_back(c);
			}
			return P(m);
		}
		static std::string show(P const& p) { return cat((ld)p.mean()); }
		static bool getters(D const& d, P const& p) { return d.mean() == p.mean() && d.min() == 0 && d.max() == std::numeric_limits<I>::max(); }
		template<typename W>
		static ld ref(P const& p, St&, Words<W>& w) {
			R const E = 64 * eps<R>();
			R mean = p.mean();
			if (mean < 10) {
				R u = ref_u01<R>(w), q = std::exp(-mean);
				int x = 0;
				for (; ; ) {
					w.close(u, q, R(x + 1), E);
					if (!(u > q)) return x;
					if (u - q == u || x > 400) { w.amb = true; return x; }
					u -= q;
					++x;
					q = q * mean / x;
				}
			}
			R smu = std::sqrt(mean), b = R(0.931) + R(2.53) * smu, a = R(-0.059) + R(0.02483) * b, v_r = R(0.9277) - R(3.6224) / (b - 2), ia = R(1.1239) + R(1.1328) / (b - R(3.4));
			for (; ; ) {
				if (w.pos >= w.t.limit) { w.amb = true; return 0; }
				R v = ref_u01<R>(w), u;
				w.close(v, R(0.86) * v_r, R(1), E);
				if (v <= R(0.86) * v_r) {
					u = v / v_r - R(0.43);
					R d = (2 * a / (R(0.5) - std::fabs(u)) + b) * u;
					return floor_amb(w, d + mean + R(0.445), std::fabs(d) * 4 + mean + 1);
				}
				w.close(v, v_r, R(1), E);
				if (v >= v_r) {
					u = ref_u01<R>(w) - R(0.5);
				} else {
					u = v / v_r - R(0.93);
					w.close(u, R(0), R(1), E);
					u = (u < 0 ? R(-0.5) : R(0.5)) - u;
					v = ref_u01<R>(w) * v_r;
				}
				R us = R(0.5) - std::fabs(u);
				w.close(us, R(0.013), R(1), E);
				if (us < R(0.013)) {
					w.close(v, us, R(1), E);
					if (v > us) continue;
				}
				R d = (2 * a / us + b) * u;
				R k = floor_amb(w, d + mean + R(0.445), std::fabs(d) * 64 + mean + 1);
				v = v * ia / (a / (us * us) + b);
				if (k < 0) continue;
				R lhs, rhs, sc;
				if (k >= 10) {
					lhs = std::log(v * smu);
					R t1 = (k + R(0.5)) * std::log(mean / k);
					rhs = t1 - mean - R(0.91893853320467267) + k - (R(1) / 12 - (R(1) / 360 - R(1) / (1260 * k * k)) / (k * k)) / k;
					sc = std::fabs(t1) + mean + k + k + std::fabs(lhs) + 1;
				} else {
					lhs = std::log(v);
					rhs = k * std::log(mean) - mean - R(std::lgamma((double)k + 1));
					sc = std::fabs(k * std::log(mean)) + mean + 16 + std::fabs(lhs);
				}
				if (!(std::fabs(lhs) < std::numeric_limits<R>::max())) w.amb = true;	// log of 0
				w.close(lhs, rhs, sc, E);
				if (lhs <= rhs) return k;
			}
		}
		static bool in_range(P const&, ld v) { return v >= 0; }
	};
	template<typename I, typename R>
	struct A<sprout::random::binomial_distribution<I, R> > {
		typedef sprout::random::binomial_distribution<I, R> D;
		typedef typename D::param_type P;
		static std::string name() { return cat("binomial<", IntName<I>::s(), ",", RealName<R>::s(), ">"); }
		static P gen(Sim& s, std::vector<double>& fr) {
			static int const ts[] = {1, 0, 2, 5, 10, 20, 21, 22, 40, 100, 1000, 30000};
			static R const ps[] = {R(0.5), R(0), R(1), R(0.25), R(0.1), R(0.9), R(0.01), R(0.99), R(0.45), R(0.55), R(1e-6), R(1) - R(1e-5)};
			I t = (I)s.pick(ts);
			if (sizeof(I) > 2 && s.chance(1, 5)) t = (I)(sizeof(R) == 4 ? 100000 : 1000000000);
			R p = s.pick(ps);
			R q = p > R(0.5) ? 1 - p : p, sd = std::sqrt((R)t * q * (1 - q)), b = R(1.15) + R(2.53) * sd, v = R(0.92) - R(4.2) / b;
			fr.push_back(0.86 * v), fr.push_back(v), fr.push_back(0.93 * v), fr.push_back(v + (1 - v) * s.choose(8) / 8.0), fr.push_back(s.choose(32) / 32.0), fr.push_back(std::pow(1 - (double)q, (double)t));
			I m = (I)(((R)t + 1) * q);
			if (m >= 26 && t <= 1000) for (int i = 0; i != 2; ++i) {	// a candidate below ten, and a second word between its two squeezes
				double k = s.choose(10), x0 = 1e-9, x1 = 0.07, aa = -0.0873 + 0.0248 * b + 0.01 * q, c = t * q + 0.5, npq = t * q * (1 - q), alpha = (2.83 + 5.1 / b) * sd;
				for (int n = 0; n != 60; ++n) { double us = (x0 + x1) / 2; if ((2 * aa / us + b) * (us - 0.5) + c < k + 0.5) x0 = us; else x1 = us; }
				double km = m - k, rho = (km / npq) * (((km / 3. + 0.625) * km + 1. / 6) / npq + 0.5), th = -km * km / (2 * npq);
				double w = std::exp(th + rho * ((double)s.choose(17) / 8 - 1)) * (aa / (x0 * x0) + b) / alpha / v;
				if (w < 1) fr.push_back(2 + v * (0.93 - x0)), fr.push_back(w);
			}
			return P(t, p);
		}
		static std::string show(P const& p) { return cat((ld)p.t(), ",", (ld)p.p()); }
		static bool getters(D const& d, P const& p) { return d.t() == p.t() && d.p() == p.p() && d.min() == 0 && d.max() == p.t(); }
		static R fc(R k) {	// Stirling correction: log k! - log(sqrt(2 pi) (k+1)^(k+1/2) e^-(k+1))
			if (k < 10) {
				static double const t[] = {0.08106146679532726, 0.04134069595540929, 0.02767792568499834, 0.02079067210376509, 0.01664469118982119, 0.01387612882307075, 0.01189670994589177, 0.01041126526197209, 0.009255462182712733, 0.008330563433362871};
				return (R)t[(int)k];
			}
			R i = R(1) / (k + 1);
			return (R(1) / 12 - (R(1) / 360 - (R(1) / 1260) * (i * i)) * (i * i)) * i;
		}
		template<typename W>
		static ld ref_half(I ti, R p, Words<W>& w) {
			R const E = 64 * eps<R>();
			R tt = (R)ti;
			I m = (I)((tt + 1) * p);
			if (m < 11) {
				R u = ref_u01<R>(w), q = 1 - p, s = p / q, a = (tt + 1) * s, r = std::pow(q, tt);
				long x = 0;
				for (; ; ) {
					w.close(u, r, R(x + 1), E);
					if (p == R(0)) w.amb = false;	// r is exactly 1
					if (!(u > r)) return x;
					if (u - r == u || x >= (long)ti) { w.amb = true; return x; }
					u -= r;
					++x;
					r = (a / x - s) * r;
				}
			}
			R r = p / (1 - p), nr = (tt + 1) * r, npq = tt * p * (1 - p), sq = std::sqrt(npq), b = R(1.15) + R(2.53) * sq, a = R(-0.0873) + R(0.0248) * b + R(0.01) * p,
				c = tt * p + R(0.5), alpha = (R(2.83) + R(5.1) / b) * sq, v_r = R(0.92) - R(4.2) / b, uv = R(0.86) * v_r;
			for (; ; ) {
				if (w.pos >= w.t.limit) { w.amb = true; return 0; }
				R v = ref_u01<R>(w), u;
				w.close(v, uv, R(1), E);
				if (v <= uv) {
					u = v / v_r - R(0.43);
					R d = (2 * a / (R(0.5) - std::fabs(u)) + b) * u;
					return floor_amb(w, d + c, std::fabs(d) * 4 + c);
				}
				w.close(v, v_r, R(1), E);
				if (v >= v_r) {
					u = ref_u01<R>(w) - R(0.5);
				} else {
					u = v / v_r - R(0.93);
					w.close(u, R(0), R(1), E);
					u = (u < 0 ? R(-0.5) : R(0.5)) - u;
					v = ref_u01<R>(w) * v_r;
				}
				R us = R(0.5) - std::fabs(u);
				R d = (2 * a / us + b) * u;
				R k = floor_amb(w, d + c, std::fabs(d) * 64 + c);
				if (!(k >= 0 && k <= tt)) continue;
				v = v * alpha / (a / (us * us) + b);
				R km = std::fabs(k - m);
				if (km <= 15) {
					R f = 1;
					if ((R)m < k) for (R i = m; i != k; ) ++i, f = f * (nr / i - r);
					else if ((R)m > k) for (R i = k; i != (R)m; ) ++i, v = v * (nr / i - r);
					w.close(v, f, std::fabs(v) + std::fabs(f), E);
					if (v <= f) return k;
				} else {
					R lv = std::log(v);
					if (!(std::fabs(lv) < std::numeric_limits<R>::max())) w.amb = true;
					R rho = (km / npq) * (((km / R(3) + R(0.625)) * km + R(1) / 6) / npq + R(0.5)), t = -km * km / (2 * npq);
					w.close(lv, t - rho, std::fabs(t) + rho + std::fabs(lv), E);
					if (lv < t - rho) return k;
					w.close(lv, t + rho, std::fabs(t) + rho + std::fabs(lv), E);
					if (lv > t + rho) continue;
					R nm = tt - m + 1, nk = tt - k + 1;
					R h1 = (m + R(0.5)) * std::log((m + 1) / (r * nm)), h2 = (tt + 1) * std::log(nm / nk), h3 = (k + R(0.5)) * std::log(nk * r / (k + 1));
					// each logarithm is of a ratio near 1: its absolute error is a few eps whatever its size
					w.close(lv, h1 + fc((R)m) + fc(tt - m) + h2 + h3 - fc(k) - fc(tt - k), (R)m + 2 * tt + k + std::fabs(lv) + 16, E);
					if (lv <= h1 + fc((R)m) + fc(tt - m) + h2 + h3 - fc(k) - fc(tt - k)) return k;
				}
			}
		}
		template<typename W>
		static ld ref(P const& p, St&, Words<W>& w) {
			if (R(0.5) < p.p()) return (ld)p.t() - ref_half(p.t(), 1 - p.p(), w);
			return ref_half(p.t(), p.p(), w);
		}
		static bool in_range(P const& p, ld v) { return v >= 0 && v <= (ld)p.t(); }
	};
	template<typename R>
	struct A<sprout::random::normal_distribution<R> > {
		typedef sprout::random::normal_distribution<R> D;
		typedef typename D::param_type P;
		static std::string name() { return cat("normal<", RealName<R>::s(), ">"); }
		static P gen(Sim& s, std::vector<double>& fr) {
			static R const ms[] = {R(0), R(1), R(-100), R(1e6)};
			static R const ss[] = {R(1), R(0), R(2.5), R(1e-3), R(1e3)};
			R m = s.pick(ms);
			fr.push_back(0.25), fr.push_back(0.5), fr.push_back(0.75);
			return P(m, s.pick(ss));
		}
		static std::string show(P const& p) { return cat((ld)p.mean(), ",", (ld)p.sigma()); }
		static bool getters(D const& d, P const& p) { return d.mean() == p.mean() && d.sigma() == p.sigma() && d.stddev() == p.sigma(); }
		template<typename W>
		static ld ref(P const& p, St& st, Words<W>& w) {
			R x;
			R const two_pi = R(6.28318530717958647692528676655900576839L);
			if (!st.valid) {
				R r1 = ref_u01<R>(w), r2 = ref_u01<R>(w);
				st.r1 = r1;
				st.rho = std::sqrt(R(-2) * std::log(R(1) - r2));
				// the relative error of rho is unbounded near r2 == 0 only in the last place of 1 - r2
				x = (R)st.rho * std::cos(two_pi * r1);
			} else {
				x = (R)st.rho * std::sin(two_pi * (R)st.r1);
			}
			st.valid = !st.valid;
			w.tol = 256 * eps<R>() * (std::fabs((R)st.rho * p.sigma()) + std::fabs(p.mean()));
			return x * p.sigma() + p.mean();
		}
		static bool in_range(P const&, ld v) { return v - v == 0; }	// finite
	};

	// ------------------------------------------------------------------------------------------------ the scenario
	template<typename D, typename W>
	struct DistRun {
		typedef A<D> Ad;
		typedef typename D::param_type P;
		typedef typename D::result_type T;
		typedef Src<W> S;
		Sim& s;
		Tape<W> tape;
		D d;	// the distribution in use
		P p;
		St st;
		S e;
		bool lost;	// the model no longer knows the distribution's state
		std::size_t const budget;

		explicit DistRun(Sim& s_) : s(s_), lost(false), budget(6000) {}

		void new_param() {
			std::vector<double> fr;
			p = Ad::gen(s, fr);
			fr.push_back(0), fr.push_back(1);
			// adversarial words ahead of the current position
			std::size_t n = s.skewed(24);
			tape.prefix.resize(std::min(tape.prefix.size(), e.pos));
			for (std::size_t i = tape.prefix.size(); i < e.pos; ++i) tape.prefix.push_back(tape.word(i));
			bool used = false;
			for (std::size_t i = 0; i != n; ++i) {
				std::uint64_t k = s.choose(4);
				if (k == 0) tape.prefix.push_back(tape.fair(tape.prefix.size(), std::is_integral<W>()));
				else {
					std::size_t j = s.choose(fr.size());
					double f = k == 3 ? (double)s.choose(64) / 64 : fr[j];
					if (f >= 2) {	// two words that only matter together
						tape.prefix.push_back(word_at(tape, f - 2, 0, std::is_integral<W>()));
						f = fr[j + 1];
					}
					tape.prefix.push_back(word_at(tape, f, (int)s.range(-2, 2), std::is_integral<W>())), used = true;
				}
			}
			if (used) s.fault("adversarial_words");
		}
		std::string where() { return cat(Ad::name(), "(", Ad::show(p), ") over ", WordName<W>::s(), " [", (ld)tape.lo, ",", (ld)tape.hi, "], word ", e.pos); }

		bool same(ld a, ld b, ld tol) { return a == b || std::fabs(a - b) <= tol; }

		struct Draw { ld v, tol; std::size_t pos; bool amb; };

		// k draws in place from (d0, e0), each against the model
		std::vector<Draw> truth(D& d0, S& e0, St& st0, P const& q, std::size_t k, bool with_param) {
			std::vector<Draw> r;
			for (std::size_t i = 0; i != k; ++i) {
				tape.limit = e0.pos + budget;
				Words<W> w(tape, e0.pos);
				St fresh;
				ld want = Ad::ref(q, with_param ? fresh : st0, w);
				ld v = (ld)(with_param ? draw_param(d0, e0, q) : draw_in_place(d0, e0));
				Draw dr = {v, w.tol, e0.pos, w.amb};
				s.step();
				s.check(Ad::in_range(q, v), "out_of_range", cat(where(), ": draw ", i, " gave ", v, " outside the distribution's range"));
				if (!w.amb) {
					s.check(same(v, want, w.tol), "wrong_value", cat(where(), ": draw ", i, " gave ", v, ", its words stand for ", want));
					s.check(e0.pos == w.pos, "wrong_words", cat(where(), ": draw ", i, " used words up to ", e0.pos, ", the algorithm uses words up to ", w.pos));
				} else s.probe("ambiguous");
				r.push_back(dr);
			}
			return r;
		}
		void agree(std::vector<Draw> const& t, std::size_t i, T v, char const* mech) {
			s.check(Ad::in_range(p, (ld)v), "out_of_range", cat(where(), ": ", mech, " draw ", i, " gave ", (ld)v, " outside the distribution's range"));
			if (t[i].amb) lost = true;
			if (!lost) s.check(same((ld)v, t[i].v, t[i].tol), "mechanisms_disagree", cat(where(), ": ", mech, " draw ", i, " gave ", (ld)v, ", in place gave ", t[i].v));
		}
		void at(std::vector<Draw> const& t, std::size_t i, S const& x, char const* mech) {
			if (!lost) s.check(x.pos == t[i].pos, "wrong_words", cat(where(), ": ", mech, " draw ", i, " left the source at word ", x.pos, ", in place at ", t[i].pos));
		}

		template<std::size_t N>
		void array_in_place(std::vector<Draw> const& t, D& dm, S& em) {
			auto a = sprout::random::generate_array<N>(em, dm);
			for (std::size_t i = 0; i != N; ++i) agree(t, i, a[i], "generate_array");
			at(t, N - 1, em, "generate_array");
		}
		template<std::size_t N>
		void array_copy(std::vector<Draw> const& t, D& dm, S& em) {
			auto const vg = sprout::random::combine_copy(em, dm);
			auto a = sprout::random::generate_array<N>(vg);
			for (std::size_t i = 0; i != N; ++i) agree(t, i, a.first[i], "generate_array of a generator");
			em = a.second.engine();
			dm = a.second.distribution();
			at(t, N - 1, em, "generate_array of a generator");
		}

		void op_draw() {
			static char const* const mechs[] = {"in place", "functional", "result iteration", "result call", "variate_generator copy", "variate_generator view", "variate_generator reference", "generate_array", "generate_array of a generator", "iterator", "range", "with parameters", "functional with parameters"};
			std::size_t m = s.choose(sizeof(mechs) / sizeof(*mechs)), k = 1 + s.choose(4);
			if (m == 7 || m == 8) k = 3;
			if (m == 5) k = 1;
			bool with_param = m >= 11;
			D d1(d), dm(d);
			S e1(e), em(e);
			St st1(st);
			s.log(cat(mechs[m], " x", k, " at ", e.pos));
			std::vector<Draw> t = truth(d1, e1, st1, p, k, with_param);
			s.state(mix64(hash_str(Ad::name() + WordName<W>::s() + cat((ld)tape.lo, (ld)tape.hi)) + m * 64 + (t[k - 1].pos - e.pos > 63 ? 63 : t[k - 1].pos - e.pos)));
			bool keeps = true;	// the mechanism yields its final distribution
			tape.limit = e.pos + budget * k;
			switch (m) {
			case 0:
				keeps = false;
				break;
			case 1:
				for (std::size_t i = 0; i != k; ++i) {
					D const cd(dm);
					S const ce(em);
					auto r = cd(ce);
					agree(t, i, sprout::random::result(r), mechs[m]);
					em = r.engine();
					dm = r.distribution();
					at(t, i, em, mechs[m]);
				}
				break;
			case 2: {
				D const cd(dm);
				S const ce(em);
				sprout::random::random_result<S, D> r(cd(ce));
				for (std::size_t i = 0; i != k; ++i) {
					agree(t, i, *r, mechs[m]);
					at(t, i, r.engine(), mechs[m]);
					em = r.engine();
					dm = r.distribution();
					if (i + 1 != k) { if (i % 2) ++r; else r++; }
				}
				break;
			}
			case 3: {
				D const cd(dm);
				S const ce(em);
				sprout::random::random_result<S, D> r(cd(ce));
				for (std::size_t i = 0; ; ++i) {
					agree(t, i, r.result(), mechs[m]);
					at(t, i, r.engine(), mechs[m]);
					if (i + 1 == k) break;
					sprout::random::random_result<S, D> n(i % 2 ? r() : r.next_generator()());
					r = n;
				}
				em = r.engine();
				dm = r.distribution();
				break;
			}
			case 4: {
				auto vg = sprout::random::combine_copy(em, dm);
				for (std::size_t i = 0; i != k; ++i) {
					auto r = vg();
					agree(t, i, r.result(), mechs[m]);
					at(t, i, r.engine(), mechs[m]);
					vg = r.next();
				}
				em = vg.engine();
				dm = vg.distribution();
				break;
			}
			case 5: {
				auto r = sprout::random::ccombine(em, dm)();
				agree(t, 0, r.result(), mechs[m]);
				at(t, 0, r.engine(), mechs[m]);
				em = r.engine();
				dm = r.distribution();
				break;
			}
			case 6: {
				auto vg = sprout::random::combine(em, dm);
				for (std::size_t i = 0; i != k; ++i) {
					auto r = vg();
					agree(t, i, r.result(), mechs[m]);
					at(t, i, em, mechs[m]);
				}
				break;
			}
			case 7:
				array_in_place<3>(t, dm, em);
				break;
			case 8:
				array_copy<3>(t, dm, em);
				break;
			case 9: {
				D const cd(dm);
				S const ce(em);
				std::size_t i = 0;
				for (auto it = sprout::random::begin(ce, cd, (std::ptrdiff_t)k), end = sprout::random::end(ce, cd); it != end && i < k + 2; ++it, ++i)
					if (i < k) agree(t, i, *it, mechs[m]);
				s.check(i == k, "wrong_count", cat(where(), ": a counted iterator of ", k, " gave ", i, " values"));
				keeps = false;
				break;
			}
			case 10: {
				D const cd(dm);
				S const ce(em);
				std::size_t i = 0;
				for (auto x : sprout::random::make_range(ce, cd, (std::ptrdiff_t)k)) {
					if (i < k) agree(t, i, x, mechs[m]);
					if (++i > k + 2) break;
				}
				s.check(i == k, "wrong_count", cat(where(), ": a range of ", k, " gave ", i, " values"));
				keeps = false;
				break;
			}
			case 11:
				for (std::size_t i = 0; i != k; ++i) {
					T v = draw_param(dm, em, p);
					agree(t, i, v, mechs[m]);
					at(t, i, em, mechs[m]);
				}
				break;
			default:
				for (std::size_t i = 0; i != k; ++i) {
					D const cd(dm);
					S const ce(em);
					auto r = cd(ce, p);
					agree(t, i, r.result(), mechs[m]);
					em = r.engine();
					at(t, i, em, mechs[m]);
				}
				break;
			}
			if (keeps && !lost) {
				s.check(dm == d1, "state_differs", cat(where(), ": after ", k, " draws (", mechs[m], ") the distribution differs from the one that drew in place"));
				if (s.chance(1, 2)) d = dm; else d = d1;
			} else d = d1;
			e = e1;
			st = st1;
			if (lost) resync();
		}
		// an ambiguous draw: the distribution's memory is what the in-place one remembers; make it known again
		void resync() {
			d.reset();
			st = St();
			lost = false;
		}
		void op_fault() {
			// how many words would the next draw take?
			D d1(d);
			S e1(e);
			St st1(st);
			std::vector<Draw> t = truth(d1, e1, st1, p, 1, false);
			std::size_t n = t[0].pos - e.pos;
			if (n == 0 || t[0].amb) return;
			std::size_t at_word = e.pos + s.choose(n), start = e.pos;
			std::size_t m = s.choose(3);
			s.log(cat("source fails at word ", at_word, " (", m, ")"));
			D before(d);
			tape.fail_at = at_word;
			bool threw = false;
			try {
				if (m == 0) (void)draw_in_place(d, e);
				else if (m == 1) { D const cd(d); S const ce(e); (void)cd(ce); }
				else { auto vg = sprout::random::combine(e, d); (void)vg(); }
			} catch (InjectedFault const&) {
				threw = true;
			}
			tape.fail_at = ~(std::size_t)0;
			s.fault("source_throws");
			s.check(threw, "fault_swallowed", cat(where(), ": the source failed at word ", at_word, " and the draw returned anyway"));
			s.check(e.pos >= start && e.pos <= at_word, "wrong_words", cat(where(), ": after the source failed at word ", at_word, " the engine is at ", e.pos));
			// the model keeps its state: the distribution must go on as if the call had not been made
		}
		void run() {
			word_range(s, tape);
			tape.seed = s.bits();
			e = S(&tape);
			new_param();
			d = D(p);
			s.log(cat(Ad::name(), "(", Ad::show(p), ") over ", WordName<W>::s(), " [", (ld)tape.lo, ",", (ld)tape.hi, "]"));
			std::size_t ops = 0;
			do {
				std::uint64_t o = s.choose(8);
				if (o <= 4) op_draw();
				else if (o == 5) op_fault();
				else if (o == 6) {
					new_param();
					s.log("new parameters " + Ad::show(p));
					s.fault("reparameterise");
					d.param(p);
					st = St();
					s.check(d.param() == p && Ad::getters(d, p), "wrong_parameters", cat(where(), ": the distribution does not report the parameters it was given"));
				} else {
					s.log("reset/copy");
					if (s.chance(1, 2)) { d.reset(); st = St(); }
					D c(d);
					s.check(c == d && !(c != d), "copy_differs", where());
					D x(p);
					s.check(Ad::getters(x, p), "wrong_parameters", cat(where(), ": a distribution does not report the parameters it was made with"));
					x = d;
					d = x;
				}
			} while (++ops < 24 && s.more(9, 10));
		}
	};
	template<typename D, typename W>
	void dist_run(Sim& s) { DistRun<D, W>(s).run(); }

	// generate_canonical has no distribution object
	template<typename R, std::size_t Bits, typename W>
	R ref_canonical(Words<W>& w) {
		R r = std::is_integral<W>::value ? (R)w.span() + 1 : R(9007199254740992.0);
		if (!std::is_integral<W>::value) r = std::pow(R(2), R(53));
		R limit = std::pow(R(2), R(std::min<std::size_t>(Bits, std::numeric_limits<R>::digits)));
		R mult = 1, sum = 0;
		do {
			sum += (R)off_int(w) * mult;
			mult *= r;
		} while (mult < limit);
		return sum / mult;
	}
	template<typename R, std::size_t Bits, typename W>
	void canonical_run(Sim& s) {
		Tape<W> tape;
		word_range(s, tape);
		tape.seed = s.bits();
		std::size_t n = s.skewed(64);
		for (std::size_t i = 0; i != n; ++i) tape.prefix.push_back(word_at(tape, (double)s.choose(3) / 2, (int)s.range(-2, 2), std::is_integral<W>()));
		if (n) s.fault("adversarial_words");
		Src<W> e(&tape);
		s.log(cat("generate_canonical<", RealName<R>::s(), ",", Bits, "> over ", WordName<W>::s(), " [", (ld)tape.lo, ",", (ld)tape.hi, "]"));
		std::size_t ops = 0;
		do {
			tape.limit = e.pos + 6000;
			Words<W> w(tape, e.pos);
			R want = ref_canonical<R, Bits>(w);
			std::string at = cat("generate_canonical<", RealName<R>::s(), ",", Bits, "> over ", WordName<W>::s(), " [", (ld)tape.lo, ",", (ld)tape.hi, "], word ", e.pos);
			Src<W> e1(e);
			Src<W> const ce(e);
			s.step();
			if (s.chance(1, 8)) {
				tape.fail_at = e.pos + s.choose(w.pos - e.pos);
				bool threw = false;
				try { if (s.chance(1, 2)) sprout::random::generate_canonical<R, Bits>(e1); else sprout::random::generate_canonical<R, Bits>(ce); } catch (InjectedFault const&) { threw = true; }
				s.fault("source_throws");
				s.check(threw, "fault_swallowed", at + ": the source failed and the draw returned anyway");
				tape.fail_at = ~(std::size_t)0;
				e1 = e;
			}
			R v = sprout::random::generate_canonical<R, Bits>(e1);
			auto f = sprout::random::generate_canonical<R, Bits>(ce);
			s.check(v >= 0 && v < 1, "out_of_range", cat(at, ": gave ", v));
			s.check(f.first >= 0 && f.first < 1, "out_of_range", cat(at, ": functionally gave ", f.first));
			s.check(std::fabs(v - want) <= 8 * eps<R>(), "wrong_value", cat(at, ": gave ", v, ", its words stand for ", want));
			s.check(std::fabs(f.first - want) <= 8 * eps<R>(), "mechanisms_disagree", cat(at, ": functionally gave ", f.first, ", its words stand for ", want));
			s.check(e1.pos == w.pos && f.second.pos == w.pos, "wrong_words", cat(at, ": used words up to ", e1.pos, " in place and ", f.second.pos, " functionally instead of ", w.pos));
			e = e1;
		} while (++ops < 16 && s.more(7, 8));
	}
}	// namespace sim

#endif
