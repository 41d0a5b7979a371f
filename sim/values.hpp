// Values on character streams: what every type with stream operators writes and reads back (C05, C06, C07).
//
// V<T, C> describes one type on streams of C: how to make a value, and an independent reader of its text that uses only
// the standard library.
#ifndef SIM_VALUES_HPP
#define SIM_VALUES_HPP

#include <bitset>
#include <cmath>
#include <complex>
#include <limits>
#include <sprout/bitset.hpp>
#include <sprout/complex.hpp>
#include <sprout/math/quaternion.hpp>
#include <sprout/rational.hpp>
#include <sprout/optional.hpp>
#include <sprout/string.hpp>
#include <sprout/uuid.hpp>
#include <sprout/variant.hpp>
#include <sprout/logic/tribool.hpp>
#include <sprout/utility/string_view.hpp>
#include <sprout/utility/value_holder.hpp>
#include <sprout/random/uniform_int_distribution.hpp>
#include <sprout/random/uniform_smallint.hpp>
#include <sprout/random/uniform_01.hpp>
#include <sprout/random/uniform_real_distribution.hpp>
#include <sprout/random/bernoulli_distribution.hpp>
#include <sprout/random/geometric_distribution.hpp>
#include <sprout/random/poisson_distribution.hpp>
#include <sprout/random/binomial_distribution.hpp>
#include <sprout/random/normal_distribution.hpp>
#include <sprout/random/linear_congruential.hpp>
#include "core.hpp"
#include "io.hpp"

namespace sim {
	template<typename C> struct CharName;
	template<> struct CharName<char> { static char const* s() { return "char"; } };
	template<> struct CharName<wchar_t> { static char const* s() { return "wchar_t"; } };

	// which formats a type's text survives
	enum Fmt { any_flags = 1, real_flags = 2, int_flags = 4 };

	template<typename C>
	struct Format {
		std::ios_base::fmtflags flags;
		std::streamsize precision;
		C fill;
		template<typename S>
		void set(S& o) const { o.flags(flags); o.precision(precision); o.fill(fill); }
		template<typename S>
		bool is(S const& o) const { return o.flags() == flags && o.precision() == precision && const_cast<S&>(o).fill() == fill; }
	};
	template<typename C>
	Format<C> gen_format(Sim& s, unsigned kinds, int digits) {
		Format<C> f;
		f.flags = std::ios_base::skipws | std::ios_base::dec;
		f.precision = digits;
		f.fill = C(' ');
		if (!s.chance(1, 2)) return f;
		typedef std::ios_base b;
		if (kinds & any_flags) {
			b::fmtflags const base[] = {b::dec, b::hex, b::oct, b::fmtflags(0)}, adj[] = {b::fmtflags(0), b::left, b::right, b::internal};
			f.flags = b::skipws | s.pick(base) | s.pick(adj);
			if (s.chance(1, 2)) f.flags |= b::boolalpha;
			if (s.chance(1, 3)) f.flags |= b::showbase;
			if (s.chance(1, 3)) f.flags |= b::uppercase;
			if (s.chance(1, 3)) f.flags |= b::showpos;
			if (s.chance(1, 3)) f.flags |= b::showpoint;
			if (s.chance(1, 3)) f.flags |= b::unitbuf;
			if (s.chance(1, 3)) f.precision = s.choose(20);
			if (s.chance(1, 2)) f.fill = C("*0 x"[s.choose(4)]);
		} else if (kinds & real_flags) {
			f.flags = b::skipws | b::dec;
			if (s.chance(1, 3)) f.flags |= b::scientific;
			if (s.chance(1, 3)) f.flags |= b::uppercase;
			if (s.chance(1, 3)) f.flags |= b::showpos;
			if (s.chance(1, 3)) f.flags |= b::showpoint;
			if (s.chance(1, 3)) f.flags |= b::boolalpha;
			if (s.chance(1, 3)) f.flags |= b::left;
			if (s.chance(1, 2)) f.fill = C("*0 x"[s.choose(4)]);
		} else {
			if (s.chance(1, 3)) f.flags |= b::showpos;
			if (s.chance(1, 3)) f.flags |= b::left;
			if (s.chance(1, 3)) f.flags |= b::showbase;
			if (s.chance(1, 2)) f.fill = C("*0 x"[s.choose(4)]);
		}
		return f;
	}

	template<typename R>
	R gen_real(Sim& s) {
		static double const c[] = {0, 1, -1, 0.5, 0.1, 1.0 / 3, -2.75, 1e10, 1e-10, 123456789.123, 3.14159265358979};
		if (s.chance(1, 2)) return R(s.pick(c));
		return (R)std::ldexp((double)(std::int64_t)s.bits() / 9.3e18, (int)s.range(0, 60) - 30);
	}
	template<typename I>
	I gen_int(Sim& s) {
		if (s.chance(1, 4)) { I const c[] = {I(1), std::numeric_limits<I>::max(), (I)(std::numeric_limits<I>::min() + 1), I(-1)}; return s.pick(c); }
		return (I)((std::int64_t)s.bits() >> s.choose(64));
	}

	// reader helpers over the standard library
	template<typename C, typename T>
	bool num(std::basic_istream<C>& in, T& v) { return !!(in >> v); }
	template<typename C>
	bool lit(std::basic_istream<C>& in, C& c) { return !!(in >> c); }

	template<typename T, typename C> struct V;

	template<std::size_t N, typename C>
	struct V<sprout::bitset<N>, C> {
		typedef sprout::bitset<N> T;
		static std::string name() { return cat("bitset<", N, ">"); }
		enum { fmt = any_flags, spaced = 0, adjacent = 1, exact = 1 };
		static T gen(Sim& s) { T t; unsigned how = (unsigned)s.choose(3); for (std::size_t i = 0; i != N; ++i) if (how == 0 ? i % 3 == 0 : how == 1 ? s.choose(2) : true) t.set(i); return t; }
		static bool ref(std::basic_istream<C>& in, T const&, T& t) {
			std::bitset<N> b;
			if (!(in >> b)) return false;
			t.reset();
			for (std::size_t i = 0; i != N; ++i) if (b[i]) t.set(i);
			return true;
		}
	};
	template<typename R, typename C>
	struct V<sprout::complex<R>, C> {
		typedef sprout::complex<R> T;
		static std::string name() { return cat("complex<", sizeof(R) * 8, ">"); }
		enum { fmt = real_flags, spaced = 0, adjacent = 1, exact = 1 };
		static T gen(Sim& s) { R a = gen_real<R>(s); return T(a, gen_real<R>(s)); }
		static bool ref(std::basic_istream<C>& in, T const&, T& t) {
			std::complex<R> c;
			if (!(in >> c)) return false;
			t = T(c.real(), c.imag());
			return true;
		}
	};
	template<typename R, typename C>
	struct V<sprout::math::quaternion<R>, C> {
		typedef sprout::math::quaternion<R> T;
		static std::string name() { return cat("quaternion<", sizeof(R) * 8, ">"); }
		enum { fmt = real_flags, spaced = 0, adjacent = 1, exact = 1 };
		static T gen(Sim& s) { R a = gen_real<R>(s), b = gen_real<R>(s), c = gen_real<R>(s); return T(a, b, c, gen_real<R>(s)); }
		static bool ref(std::basic_istream<C>& in, T const&, T& t) {
			R v[4] = {0, 0, 0, 0};
			C c;
			if (!lit(in, c)) return false;
			if (c != C('(')) {
				in.putback(c);
				if (!num(in, v[0])) return false;
				t = T(v[0]);
				return true;
			}
			if (!lit(in, c)) return false;
			in.putback(c);
			if (c == C('(')) {
				std::complex<R> u, w;
				if (!(in >> u) || !lit(in, c)) return false;
				if (c == C(',')) { if (!(in >> w) || !lit(in, c)) return false; }
				if (c != C(')')) return in.setstate(std::ios_base::failbit), false;
				t = T(u.real(), u.imag(), w.real(), w.imag());
				return true;
			}
			for (int i = 0; i != 4; ++i) {
				if (i == 1) {
					if (!lit(in, c)) return false;
					in.putback(c);
					if (c == C('(')) {
						std::complex<R> w;
						if (!(in >> w) || !lit(in, c)) return false;
						if (c != C(')')) return in.setstate(std::ios_base::failbit), false;
						t = T(v[0], R(0), w.real(), w.imag());
						return true;
					}
				}
				if (!num(in, v[i]) || !lit(in, c)) return false;
				if (c == C(')')) { t = T(v[0], v[1], v[2], v[3]); return true; }
				if (c != C(',')) break;
			}
			in.setstate(std::ios_base::failbit);
			return false;
		}
	};
	template<typename I, typename C>
	struct V<sprout::rational<I>, C> {
		typedef sprout::rational<I> T;
		static std::string name() { return cat("rational<", sizeof(I) * 8, ">"); }
		enum { fmt = int_flags, spaced = 0, adjacent = 0, exact = 1 };
		static T gen(Sim& s) {
			I n = gen_int<I>(s), d = gen_int<I>(s);
			if (n == std::numeric_limits<I>::min()) n = 1;
			if (d == 0 || d == std::numeric_limits<I>::min()) d = 1;
			return T(n, d);
		}
		static bool ref(std::basic_istream<C>& in, T const& old, T& t) {
			I n, d;
			if (!num(in, n)) return false;
			if (!std::char_traits<C>::eq_int_type(in.get(), std::char_traits<C>::to_int_type(C('/')))) return in.setstate(std::ios_base::failbit), false;
			std::ios_base::fmtflags f = in.flags();
			in >> std::noskipws;
			bool ok = num(in, d);
			in.flags(f);
			if (!ok) return false;
			if (d == 0) return in.setstate(std::ios_base::failbit), false;
			if (n == std::numeric_limits<I>::min() || d == std::numeric_limits<I>::min()) return in.setstate(std::ios_base::badbit), false;	// no expectation
			I a = n < 0 ? -n : n, b = d < 0 ? -d : d;
			while (b) { I r = a % b; a = b; b = r; }
			if (d < 0) a = -a;
			(void)old;
			t = T();
			t.assign(n / a, d / a);
			return true;
		}
	};
	template<typename C>
	struct V<sprout::tribool, C> {
		typedef sprout::tribool T;
		static std::string name() { return "tribool"; }
		enum { fmt = any_flags, spaced = 0, adjacent = 2 /* with boolalpha */, exact = 1 };
		static T gen(Sim& s) { std::uint64_t k = s.choose(3); return k == 0 ? T(false) : k == 1 ? T(true) : T(sprout::indeterminate); }
		static bool ref(std::basic_istream<C>& in, T const&, T& t) {
			if (in.flags() & std::ios_base::boolalpha) {
				typename std::basic_istream<C>::sentry ok(in);
				if (!ok) return false;
				static char const* const names[] = {"false", "true", "indeterminate"};
				int which = -1;
				std::size_t pos = 0;
				for (; ; ) {
					typename std::char_traits<C>::int_type c = in.get();
					if (std::char_traits<C>::eq_int_type(c, std::char_traits<C>::eof())) return false;
					if (which < 0) for (int i = 0; i != 3; ++i) if (c == std::char_traits<C>::to_int_type(C(names[i][0]))) which = i;
					if (which < 0 || c != std::char_traits<C>::to_int_type(C(names[which][pos]))) return in.setstate(std::ios_base::failbit), false;
					if (!names[which][++pos]) break;
				}
				t = which == 0 ? T(false) : which == 1 ? T(true) : T(sprout::indeterminate);
				return true;
			}
			long v;
			if (!num(in, v)) return false;
			if (v < 0 || v > 2) return in.setstate(std::ios_base::failbit), false;
			t = v == 0 ? T(false) : v == 1 ? T(true) : T(sprout::indeterminate);
			return true;
		}
	};
	// how a type that has no operator== with the library's own meaning is compared
	template<typename T> bool eq(T const& a, T const& b) { return a == b; }
	inline bool eq(sprout::tribool a, sprout::tribool b) { return a.value == b.value; }

	template<typename E, typename C>
	struct V<sprout::optional<E>, C> {
		typedef sprout::optional<E> T;
		static std::string name() { return cat("optional<", V<E, C>::name(), ">"); }
		enum { fmt = V<E, C>::fmt, spaced = V<E, C>::spaced, adjacent = V<E, C>::adjacent, exact = 1 };
		static T gen(Sim& s) { return s.chance(2, 3) ? T(V<E, C>::gen(s)) : T(); }
		static bool ref(std::basic_istream<C>& in, T const&, T& t) {
			typedef std::char_traits<C> tr;
			typename tr::int_type c = in.get();
			if (tr::eq_int_type(c, tr::to_int_type(C(' ')))) {
				E e = E(), o = E();
				if (!V<E, C>::ref(in, o, e)) return false;
				t = e;
				return true;
			}
			if (tr::eq_int_type(c, tr::to_int_type(C('-'))) && tr::eq_int_type(in.get(), tr::to_int_type(C('-')))) { t = sprout::nullopt; return true; }
			in.setstate(std::ios_base::failbit);
			return false;
		}
	};
	template<typename E>
	bool eq(sprout::optional<E> const& a, sprout::optional<E> const& b) { return !a == !b && (!a || eq(*a, *b)); }
	template<typename E, typename C>
	struct V<sprout::value_holder<E>, C> {
		typedef sprout::value_holder<E> T;
		static std::string name() { return cat("value_holder<", V<E, C>::name(), ">"); }
		enum { fmt = V<E, C>::fmt, spaced = V<E, C>::spaced, adjacent = V<E, C>::adjacent, exact = 1 };
		static T gen(Sim& s) { return T(V<E, C>::gen(s)); }
		static bool ref(std::basic_istream<C>& in, T const&, T& t) {
			typedef std::char_traits<C> tr;
			if (!tr::eq_int_type(in.get(), tr::to_int_type(C(' ')))) return in.setstate(std::ios_base::failbit), false;
			E e = E(), o = E();
			if (!V<E, C>::ref(in, o, e)) return false;
			t = e;
			return true;
		}
	};
	template<typename E>
	bool eq(sprout::value_holder<E> const& a, sprout::value_holder<E> const& b) { return eq(*a, *b); }
	template<typename C>
	struct V<int, C> {
		static std::string name() { return "int"; }
		enum { fmt = int_flags, spaced = 0, adjacent = 0, exact = 1 };
		static int gen(Sim& s) { return gen_int<int>(s); }
		static bool ref(std::basic_istream<C>& in, int, int& t) { return num(in, t); }
	};
	template<typename C>
	struct V<double, C> {
		static std::string name() { return "double"; }
		enum { fmt = real_flags, spaced = 0, adjacent = 0, exact = 1 };
		static double gen(Sim& s) { return gen_real<double>(s); }
		static bool ref(std::basic_istream<C>& in, double, double& t) { return num(in, t); }
	};
	template<typename C>
	struct V<sprout::uuids::uuid, C> {
		typedef sprout::uuids::uuid T;
		static std::string name() { return "uuid"; }
		enum { fmt = any_flags, spaced = 0, adjacent = 1, exact = 1 };
		static T gen(Sim& s) {
			T t;
			unsigned how = (unsigned)s.choose(3);
			for (int i = 0; i != 16; ++i) t[i] = (unsigned char)(how == 0 ? i : how == 1 ? s.choose(16) : s.choose(256));
			return t;
		}
		static bool ref(std::basic_istream<C>& in, T const&, T& t) {
			typename std::basic_istream<C>::sentry ok(in);
			if (!ok) return false;
			T r;
			for (int i = 0; i != 16; ++i) {
				unsigned b = 0;
				for (int k = 0; k != 2; ++k) {
					C c;
					if (!lit(in, c)) return false;
					int d = c >= C('0') && c <= C('9') ? (int)(c - C('0')) : c >= C('a') && c <= C('f') ? (int)(c - C('a')) + 10 : c >= C('A') && c <= C('F') ? (int)(c - C('A')) + 10 : -1;
					if (d < 0) return in.setstate(std::ios_base::failbit), false;
					b = b * 16 + d;
				}
				r[i] = (unsigned char)b;
				if (i == 3 || i == 5 || i == 7 || i == 9) {
					C c;
					if (!lit(in, c)) return false;
					if (c != C('-')) return in.setstate(std::ios_base::failbit), false;
				}
			}
			t = r;
			return true;
		}
	};
	template<std::size_t N, typename C>
	struct V<sprout::basic_string<C, N>, C> {
		typedef sprout::basic_string<C, N> T;
		static std::string name() { return cat("string<", N, ">"); }
		enum { fmt = any_flags, spaced = 1, adjacent = 0, exact = 0 };
		static T gen(Sim& s) {
			T t;
			std::size_t n = 1 + s.choose(N);
			if (s.chance(1, 3)) n = N;
			t.resize(n);
			for (std::size_t i = 0; i != n; ++i) { std::uint64_t c = s.choose(200); t[i] = c < 94 ? (C)(33 + c) : c > 195 ? C() : sizeof(C) > 1 ? (C)(0x3042 + c) : (C)(char)(128 + (c - 94)); }
			return t;
		}
		static bool ref(std::basic_istream<C>& in, T const&, T& t) {
			std::size_t w = in.width() > 0 && (std::size_t)in.width() < N ? (std::size_t)in.width() : N;
			in.width((std::streamsize)w);
			std::basic_string<C> r;
			bool ok = !!(in >> r);
			in.width(0);
			if (!ok) return false;
			t.resize(r.size());
			for (std::size_t i = 0; i != r.size(); ++i) t[i] = r[i];
			return true;
		}
	};

	// --- distributions and their parameter sets: numbers separated by blanks
	template<typename D, typename C> struct DV;	// name, gen, ref of the parameter set
	namespace sr = sprout::random;
#define SIM_DIST2(D, TA, TB, OK) \
	template<typename A, typename C> \
	struct DV<D<A>, C> { \
		typedef typename D<A>::param_type P; \
		static std::string name() { return #D; } \
		static P gen(Sim& s) { TA a = gen_val<TA>(s); TB b = gen_val<TB>(s); for (int i = 0; !(OK) && i != 50; ++i) { a = gen_val<TA>(s); b = gen_val<TB>(s); } return (OK) ? P(a, b) : P(); } \
		static bool ref(std::basic_istream<C>& in, P& p) { \
			TA a; TB b; \
			if (!num(in, a) || !(in >> std::ws) || !num(in, b)) return false; \
			if (!(OK)) return in.setstate(std::ios_base::failbit), false; \
			p = P(a, b); \
			return true; \
		} \
	}
	template<typename T> typename std::enable_if<std::is_integral<T>::value, T>::type gen_val(Sim& s) { return gen_int<T>(s); }
	template<typename T> typename std::enable_if<!std::is_integral<T>::value, T>::type gen_val(Sim& s) { return gen_real<T>(s); }
	SIM_DIST2(sr::uniform_int_distribution, A, A, a <= b);
	SIM_DIST2(sr::uniform_smallint, A, A, a <= b);
	SIM_DIST2(sr::uniform_real_distribution, A, A, a <= b);
	SIM_DIST2(sr::normal_distribution, A, A, b >= 0);
	template<typename I, typename R, typename C>
	struct DV<sr::binomial_distribution<I, R>, C> {
		typedef typename sr::binomial_distribution<I, R>::param_type P;
		static std::string name() { return "sr::binomial_distribution"; }
		static P gen(Sim& s) { I t = (I)s.choose(100000); return P(t, (R)s.choose(1001) / 1000); }
		static bool ref(std::basic_istream<C>& in, P& p) {
			I t; R r;
			if (!num(in, t) || !(in >> std::ws) || !num(in, r)) return false;
			if (!(t >= 0 && r >= 0 && r <= 1)) return in.setstate(std::ios_base::failbit), false;
			p = P(t, r);
			return true;
		}
	};
#define SIM_DIST1(D, TP, EXPR, OK) \
	struct DV<D, C> { \
		typedef typename D::param_type P; \
		static std::string name() { return #D; } \
		static P gen(Sim& s) { TP a = (TP)(EXPR); return P(a); } \
		static bool ref(std::basic_istream<C>& in, P& p) { \
			TP a; \
			if (!num(in, a)) return false; \
			if (!(OK)) return in.setstate(std::ios_base::failbit), false; \
			p = P(a); \
			return true; \
		} \
	}
#define SIM_COMMA ,
	template<typename R, typename C> SIM_DIST1(sr::bernoulli_distribution<R>, R, s.choose(1001) / 1000.0, a >= 0 && a <= 1);
	template<typename I, typename R, typename C> SIM_DIST1(sr::geometric_distribution<I SIM_COMMA R>, R, (1 + s.choose(999)) / 1000.0, a > 0 && a < 1);
	template<typename I, typename R, typename C> SIM_DIST1(sr::poisson_distribution<I SIM_COMMA R>, R, std::exp((double)s.range(-20, 8)) * (1 + s.choose(100) / 100.0), a > 0);

	struct FixedSource {	// words for one draw
		typedef std::uint32_t result_type;
		std::uint64_t seed;
		unsigned used = 0;
		struct Enough {};
		static constexpr result_type static_min = 0;
		static constexpr result_type static_max = 0xFFFFFFFFu;
		result_type min() const { return 0; }
		result_type max() const { return 0xFFFFFFFFu; }
		explicit FixedSource(std::uint64_t n) : seed(n) {}
		result_type operator()() {
			if (++used > 400) throw Enough();	// a distribution may reject for ever (an empty interval): what counts is that both do
			return (result_type)(mix64(seed++) >> 32);
		}
	};
	template<typename D> struct DistText { D d; };
	template<typename D> struct ParamText { typename D::param_type p; };

	template<typename D, typename C>
	struct V<DistText<D>, C> {
		typedef DistText<D> T;
		static std::string name() { return DV<D, C>::name(); }
		enum { fmt = real_flags, spaced = 0, adjacent = 0, exact = 1 };
		static T gen(Sim& s) { return T{D(DV<D, C>::gen(s))}; }
		static bool ref(std::basic_istream<C>& in, T const&, T& t) {
			typename D::param_type p;
			if (!DV<D, C>::ref(in, p)) return false;
			t.d = D(p);
			return true;
		}
	};
	// the normal distribution also writes its cached half pair; a value is reached by drawing
	template<typename R, typename C>
	struct V<DistText<sr::normal_distribution<R> >, C> {
		typedef sr::normal_distribution<R> D;
		typedef DistText<D> T;
		static std::string name() { return "sr::normal_distribution"; }
		enum { fmt = real_flags, spaced = 0, adjacent = 0, exact = 1 };
		static T gen(Sim& s) {
			T t{D(DV<D, C>::gen(s))};
			FixedSource f(s.bits());
			try {
				for (std::uint64_t k = s.choose(4); k; --k) t.d(f);
			} catch (FixedSource::Enough const&) {}
			return t;
		}
		static bool ref(std::basic_istream<C>& in, T const&, T& t) {
			typename D::param_type p;
			bool valid;
			R rho, r1, r2;
			if (!DV<D, C>::ref(in, p) || !(in >> std::ws) || !num(in, valid) || !(in >> std::ws) || !num(in, rho) || !(in >> std::ws) || !num(in, r1) || !(in >> std::ws) || !num(in, r2)) return false;
			// the same state through the library's own text of exactly these numbers
			std::ostringstream o;
			o.precision(std::numeric_limits<R>::max_digits10);
			o << p.mean() << ' ' << p.sigma() << ' ' << valid << ' ' << rho << ' ' << r1 << ' ' << r2;
			std::istringstream i(o.str());
			i >> t.d;
			return true;
		}
	};
	template<typename D>
	bool eq(DistText<D> const& a, DistText<D> const& b) {
		if (!(a.d == b.d) || a.d != b.d) return false;
		return true;
	}
	template<typename C, typename D> std::basic_ostream<C>& operator<<(std::basic_ostream<C>& o, DistText<D> const& t) { return o << t.d; }
	template<typename C, typename D> std::basic_istream<C>& operator>>(std::basic_istream<C>& i, DistText<D>& t) { return i >> t.d; }
	template<typename D, typename C>
	struct V<ParamText<D>, C> {
		typedef ParamText<D> T;
		static std::string name() { return DV<D, C>::name() + "::param_type"; }
		enum { fmt = real_flags, spaced = 0, adjacent = 0, exact = 1 };
		static T gen(Sim& s) { return T{DV<D, C>::gen(s)}; }
		static bool ref(std::basic_istream<C>& in, T const&, T& t) { return DV<D, C>::ref(in, t.p); }
	};
	template<typename D> bool eq(ParamText<D> const& a, ParamText<D> const& b) { return a.p == b.p && !(a.p != b.p); }
	template<typename C, typename D> std::basic_ostream<C>& operator<<(std::basic_ostream<C>& o, ParamText<D> const& t) { return o << t.p; }
	template<typename C, typename D> std::basic_istream<C>& operator>>(std::basic_istream<C>& i, ParamText<D>& t) { return i >> t.p; }

	// values that act as well as compare: do they act alike?
	template<typename T> bool alike(T const&, T const&, std::uint64_t) { return true; }
	template<typename D> bool alike(DistText<D> a, DistText<D> b, std::uint64_t seed) {
		FixedSource x(seed), y(seed);
		for (int i = 0; i != 3; ++i) {
			int ended = 0;
			typename D::result_type u = typename D::result_type(), v = u;
			try { u = a.d(x); } catch (FixedSource::Enough const&) { ++ended; }
			try { v = b.d(y); } catch (FixedSource::Enough const&) { --ended; }
			if (ended || !(u == v || (u != u && v != v)) || x.seed != y.seed) return false;
		}
		return true;
	}

	template<typename T, typename C>
	std::string text_of(T const& t) {
		std::basic_ostringstream<C> o;
		o.precision(17);
		o << t;
		return quote(o.str());
	}

	// ------------------------------------------------------------------------------------------------ C05: logs of records
	template<typename C>
	struct AnyValue {	// one value of some type, type-erased
		virtual ~AnyValue() {}
		virtual void put(std::basic_ostream<C>&) const = 0;
		virtual bool get(std::basic_istream<C>&, Sim&) = 0;	// reads into a dirty target
		virtual bool same() const = 0;
		virtual std::string show() const = 0;
		virtual unsigned fmt() const = 0;
		virtual bool spaced() const = 0;
		virtual int adjacent() const = 0;
	};
	template<typename T, typename C>
	struct OneValue : AnyValue<C> {
		typedef V<T, C> A;
		T v, r;
		explicit OneValue(Sim& s) : v(A::gen(s)), r(A::gen(s)) {}
		void put(std::basic_ostream<C>& o) const { o << v; }
		bool get(std::basic_istream<C>& i, Sim&) { return !!(i >> r); }
		bool same() const { return eq(v, r) && text_of<T, C>(v) == text_of<T, C>(r) && alike(v, r, 12345); }
		std::string show() const { return cat(A::name(), " ", text_of<T, C>(v), ", read back as ", text_of<T, C>(r)); }
		unsigned fmt() const { return A::fmt; }
		bool spaced() const { return A::spaced; }
		int adjacent() const { return A::adjacent; }
	};
	template<typename C>
	struct Maker { AnyValue<C>* (*make)(Sim&); char const* unused; };
	template<typename T, typename C>
	AnyValue<C>* make_value(Sim& s) { return new OneValue<T, C>(s); }

	// A writer appends records to a log (buffered, synced now and then), the machine crashes (un-synced bytes lost or
	// torn), a reader goes through what survived.  A record is one value and a mark; adjacent values need no mark.
	template<typename C>
	void log_run(Sim& s, std::vector<AnyValue<C>* (*)(Sim&)> const& types) {
		struct Rec { AnyValue<C>* v; Format<C> f; bool mark; std::size_t end; };
		std::vector<Rec> recs;
		struct Clean { std::vector<Rec>& r; ~Clean() { for (auto& x : r) delete x.v; } } clean = {recs};
		std::basic_string<C> log;
		std::size_t synced = 0, n = 1 + s.choose(6);
		for (std::size_t i = 0; i != n; ++i) {
			Rec r;
			r.v = types[s.choose(types.size())](s);
			recs.push_back(r);
			Rec& q = recs.back();
			q.f = gen_format<C>(s, r.v->fmt(), 17);
			int adj = q.v->adjacent();
			q.mark = !((adj == 1 || (adj == 2 && (q.f.flags & std::ios_base::boolalpha))) && s.chance(1, 3));
			std::basic_ostringstream<C> o;
			q.f.set(o);
			q.v->put(o);
			s.check(o.good(), "write_failed", cat("writing ", q.v->show(), " failed"));
			s.check(q.f.is(o), "format_changed", cat("writing ", q.v->show(), " changed the format of the stream"));
			log += o.str();
			if (q.mark) {
				if (q.v->spaced()) log += C(' ');
				log += C(';');
			}
			q.end = log.size();
			if (s.chance(1, 3)) synced = log.size();
			s.step();
		}
		std::size_t keep = log.size();
		if (s.chance(1, 3)) {
			keep = synced + s.choose(log.size() - synced + 1);
			s.fault("crash");
			if (keep != log.size()) s.fault("torn_log");
		}
		s.log(cat("log ", quote(log), " kept ", keep));
		SimIn<C> buf(s, log.substr(0, keep), s.chance(3, 4), s.chance(1, 4) ? SimIn<C>::throws : SimIn<C>::eof);
		std::basic_istream<C> in(&buf);
		std::size_t whole = 0;
		while (whole != recs.size() && recs[whole].end <= keep) ++whole;
		for (std::size_t i = 0; i != whole; ++i) {
			Rec& q = recs[i];
			q.f.set(in);
			if (!q.v->spaced() && s.chance(1, 4)) in.unsetf(std::ios_base::skipws);
			std::ios_base::fmtflags before = in.flags();
			std::size_t start = buf.consumed(), stop = q.end - (q.mark ? q.v->spaced() ? 2 : 1 : 0);
			bool ok = q.v->get(in, s);
			s.check(ok, "record_refused", cat("record ", i, " of ", quote(log), " (at ", start, ") was refused: ", q.v->show()));
			s.check(q.v->same(), "record_changed", cat("record ", i, " of ", quote(log), ": ", q.v->show()));
			s.check(buf.consumed() == stop, "overread", cat("reading record ", i, " of ", quote(log), " ended at ", buf.consumed(), " instead of ", stop, ": ", q.v->show()));
			s.check(in.flags() == before && in.width() == 0, "format_changed", cat("reading ", q.v->show(), " changed the format of the stream"));
			in.flags(std::ios_base::skipws | std::ios_base::dec);
			if (q.mark) {
				C c = C();
				s.check(!!(in >> c) && c == C(';'), "neighbour_lost", cat("after reading ", q.v->show(), " the mark that follows it is gone"));
			}
			s.state(hash_str(cat(typeid(*q.v).name(), (unsigned)q.f.flags, q.mark)));
			s.step();
		}
	}

	// ------------------------------------------------------------------------------------------------ C06: damaged text
	template<typename C>
	C junk(Sim& s) {
		static char const a[] = "0123456789-+.,/() \t\nexfaTXit;:\"'%#rulsndm";
		std::uint64_t k = s.choose(sizeof(a) + 3);
		if (k < sizeof(a)) return C(a[k]);	// with the terminating NUL
		return k == sizeof(a) ? C(-1) : k == sizeof(a) + 1 ? (sizeof(C) > 1 ? C(0x128) : C(0x80)) : (sizeof(C) > 1 ? C(0x12D) : C(0xE9));
	}
	template<typename C>
	void damage(Sim& s, std::basic_string<C>& t) {
		std::size_t n = s.choose(4);
		for (; n; --n) {
			std::size_t at = s.choose(t.size() + 1);
			switch (s.choose(7)) {
			case 0: t.resize(at); s.fault("truncated"); break;
			case 1: if (at < t.size()) t.erase(at, 1 + s.choose(3)); s.fault("bytes_lost"); break;
			case 2: t.insert(at, 1, junk<C>(s)); s.fault("junk_inserted"); break;
			case 3: if (at < t.size()) t[at] = junk<C>(s); s.fault("byte_replaced"); break;
			case 4: t.insert(at, t.substr(0, s.choose(at + 1))); s.fault("block_duplicated"); break;
			case 5: t.insert(at, 1 + s.choose(24), C('9')); s.fault("number_grows"); break;
			default: if (at + 1 < t.size()) std::swap(t[at], t[at + 1]); s.fault("bytes_swapped"); break;
			}
		}
	}
	inline bool prefix_of(std::size_t n, std::size_t m) { return n <= m; }
	// May a target that was `old` be `now` after a refused extraction?  `held` is what the text held up to the fault.
	template<typename T, typename C>
	bool refused_ok(T const& old, T const& now, std::basic_string<C> const&, bool) { return eq(old, now); }
	template<std::size_t N, typename C>	// a string takes characters as they come: old, or a prefix of the characters there were
	bool refused_ok(sprout::basic_string<C, N> const& old, sprout::basic_string<C, N> const& now, std::basic_string<C> const& text, bool started) {
		if (eq(old, now)) return true;
		if (!started || now.size() > text.size()) return false;
		std::size_t b = 0;
		while (b < text.size() && (text[b] == C(' ') || text[b] == C('\t') || text[b] == C('\n'))) ++b;
		if (now.size() == 0) return true;
		for (std::size_t i = 0; i != now.size(); ++i) if (b + i >= text.size() || now[i] != text[b + i]) return false;
		return true;
	}
	template<typename T> struct Tricky { static char const* const* list() { static char const* const l[] = {0}; return l; } };
	template<typename R> struct Tricky<sprout::complex<R> > { static char const* const* list() { static char const* const l[] = {"3.5", "(2)", "(1,2", "(1", "(", "", " ( 1 , 2 ) ", "(1;2)", "1e", "(1,2)3", "()", "(,)", 0}; return l; } };
	template<typename R> struct Tricky<sprout::math::quaternion<R> > { static char const* const* list() { static char const* const l[] = {"3.5", "(2)", "(1,2)", "(1,2,3)", "(1,(2,3))", "((1,2))", "((1,2),(3,4))", "((1),2)", "(1", "(1,2,3,4", "((1,2),3", "", "(1,(2,3)", "(1,2,3,4,5)", 0}; return l; } };
	template<typename I> struct Tricky<sprout::rational<I> > { static char const* const* list() { static char const* const l[] = {"1/2", "2/4", "-6/4", "6/-4", "-6/-4", "1", "1/", "1/0", "0/5", "0/-5", "0/0", "1 /2", "1/ 2", "/2", "", "1//2", "7/1", 0}; return l; } };
	template<> struct Tricky<sprout::tribool> { static char const* const* list() { static char const* const l[] = {"true", "tru", "false", "fals", "indeterminate", "indeterminat", "ind", "3", "-1", "2", "", "trueindeterminate", "falsetrue", "tfalse", "itrue", 0}; return l; } };
	template<typename E> struct Tricky<sprout::optional<E> > { static char const* const* list() { static char const* const l[] = {"--", "-", " ", " x", "-5", "", " 5", "5", "---", 0}; return l; } };
	template<typename E> struct Tricky<sprout::value_holder<E> > { static char const* const* list() { static char const* const l[] = {"--", "-", " ", " x", "-5", "", " 5", "5", 0}; return l; } };
	template<std::size_t N> struct Tricky<sprout::bitset<N> > { static char const* const* list() { static char const* const l[] = {"", "x", "1", "01", "1x", " 101", "2", 0}; return l; } };

	template<typename C, typename T>
	void read_run(Sim& s) {
		typedef V<T, C> A;
		T target = A::gen(s);
		T const old(target);
		Format<C> f = gen_format<C>(s, any_flags, 17), w = gen_format<C>(s, A::fmt, 17);
		std::basic_string<C> text;
		std::size_t nl = 0;
		while (Tricky<T>::list()[nl]) ++nl;
		if (nl && s.chance(1, 3)) {
			text = widen<C>(Tricky<T>::list()[s.choose(nl)]);
			s.fault("foreign_text");
		} else {
			std::basic_ostringstream<C> o;
			w.set(o);
			o << A::gen(s);
			text = o.str();
			if (s.chance(1, 2)) f = w;
			if (s.chance(1, 2)) text += C(" ;)1"[s.choose(4)]);
		}
		if (s.chance(3, 4)) damage(s, text);
		if (s.chance(1, 6)) f.flags &= ~std::ios_base::skipws;
		std::streamsize width = A::spaced && s.chance(1, 3) ? (std::streamsize)s.choose(12) : 0;
		bool throws = s.chance(1, 3);
		unsigned pre = (unsigned)(s.chance(1, 8) ? 1 + s.choose(3) : 0);
		std::ios_base::iostate mask = s.chance(1, 3) ? std::ios_base::badbit | std::ios_base::failbit : s.chance(1, 4) ? std::ios_base::badbit : std::ios_base::goodbit;
		s.log(cat("read ", A::name(), " from ", quote(text), throws ? " (device fails at its end)" : "", " flags ", (unsigned)f.flags, " width ", width, " before ", pre, " mask ", (int)mask));
		std::ios_base::iostate const before = pre == 0 ? std::ios_base::goodbit : pre == 1 ? std::ios_base::eofbit : pre == 2 ? std::ios_base::failbit : std::ios_base::badbit;

		SimIn<C> rbuf(s, text, false);
		std::basic_istream<C> rin(&rbuf);
		f.set(rin);
		rin.width(width);
		rin.setstate(before);
		T expect(old);
		bool ref_ok = A::ref(rin, old, expect) && !rin.fail();
		bool no_expectation = std::is_same<T, sprout::rational<int> >::value || std::is_same<T, sprout::rational<long long> >::value ? !pre && rin.bad() : false;
		bool ran_out = rbuf.hit_end();

		SimIn<C> buf(s, text, s.chance(3, 4), throws ? SimIn<C>::throws : SimIn<C>::eof);
		std::basic_istream<C> in(&buf);
		f.set(in);
		in.width(width);
		in.setstate(before);
		if (!pre) in.exceptions(mask);
		bool thrown = false;
		std::string what = cat(A::name(), " from ", quote(text), throws ? " (device fails at its end)" : "", " flags ", (unsigned)f.flags, pre ? " on a stream that is not good" : "");
		s.step();
		try {
			in >> target;
		} catch (StepBudget const&) {
			throw;
		} catch (...) {
			thrown = true;
		}
		if (no_expectation) return;
		bool ok = !thrown && !in.fail();
		s.state(hash_str(cat(A::name(), CharName<C>::s(), text.size(), ok, ref_ok, ran_out, throws, pre, (int)mask)));
		if (thrown && mask == std::ios_base::goodbit) s.check(!std::is_same<T, T>::value || refused_ok(old, target, text, !pre), "target_torn", cat("reading ", what, " threw and left ", text_of<T, C>(target), " where ", text_of<T, C>(old), " was"));
		if (ok) {
			s.check(ref_ok, "damage_accepted", cat("reading ", what, " succeeded (", text_of<T, C>(target), "), but the text holds no such value"));
			s.check(eq(target, expect), "wrong_value", cat("reading ", what, " gave ", text_of<T, C>(target), ", the text holds ", text_of<T, C>(expect)));
			s.check(buf.consumed() == rbuf.consumed(), "overread", cat("reading ", what, " consumed ", buf.consumed(), " characters, its text has ", rbuf.consumed()));
		} else {
			s.check(!ref_ok || (throws && ran_out), "value_refused", cat("reading ", what, " was refused, the text holds ", text_of<T, C>(expect)));
			s.check(refused_ok(old, target, text, !pre), "target_torn", cat("reading ", what, " failed and left ", text_of<T, C>(target), " where ", text_of<T, C>(old), " was"));
			if (throws && ran_out && !pre) s.probe("device_error_met");
		}
		s.check(f.is(in), "format_changed", cat("reading ", what, " changed the format of the stream"));
		if (!pre && ok) s.check(in.width() == 0, "format_changed", cat("reading ", what, " left a field width behind"));
	}

	// ------------------------------------------------------------------------------------------------ C07: failing sinks
	// the characters a value consists of, where it is text itself
	template<typename C, typename T> bool text_lost(T const&, std::basic_string<C> const&) { return false; }
	template<typename C, std::size_t N> bool text_lost(sprout::basic_string<C, N> const& v, std::basic_string<C> const& full) { return full.find(std::basic_string<C>(v.data(), v.size())) == std::basic_string<C>::npos; }
	template<typename C, typename T>
	void sink_text(Sim& s, T const& v, Format<C> const& f, std::string const& name) {
		std::basic_ostringstream<C> o;
		f.set(o);
		o << v;
		std::basic_string<C> const full = o.str();
		s.check(o.good(), "write_failed", cat("writing ", name, " to a healthy sink failed"));
		s.check(!text_lost(v, full), "text_lost", cat("writing ", name, " to a healthy sink wrote ", quote(full), ", not its characters"));
		std::size_t cap = s.choose(full.size() + 2);
		bool throws = s.chance(1, 3), failed_before = s.chance(1, 8);
		std::ios_base::iostate mask = s.chance(1, 3) ? std::ios_base::badbit | std::ios_base::failbit : std::ios_base::goodbit;
		std::string what = cat(name, " ", quote(full), " to a sink of ", cap, throws ? " that throws" : "", failed_before ? " on a failed stream" : "");
		s.log(what);
		SimOut<C> buf(s, throws ? SimOut<C>::throws : SimOut<C>::refuses, cap);
		std::basic_ostream<C> out(&buf);
		f.set(out);
		if (failed_before) out.setstate(std::ios_base::failbit); else out.exceptions(mask);
		bool thrown = false;
		s.step();
		try { out << v; } catch (StepBudget const&) { throw; } catch (...) { thrown = true; }
		s.state(hash_str(cat(name, CharName<C>::s(), full.size() > cap, throws, failed_before, (int)mask, (full.size() > cap ? full.size() - cap : 0))));
		if (failed_before) {
			s.check(buf.data().empty() && !thrown && out.fail(), "wrote_to_failed", cat("writing ", what, " delivered ", quote(buf.data())));
			return;
		}
		s.check(full.compare(0, buf.data().size(), buf.data()) == 0, "not_a_prefix", cat("writing ", what, " delivered ", quote(buf.data())));
		if (cap < full.size()) {
			s.check(!out.good(), "loss_unreported", cat("writing ", what, " delivered ", quote(buf.data()), " and the stream reports success"));
			s.check(thrown == (mask != std::ios_base::goodbit), "loss_unreported", cat("writing ", what, thrown ? " threw out of a stream that reports by state" : " did not throw out of a stream that reports by exception"));
		} else {
			s.check(out.good() && !thrown, "false_loss", cat("writing ", what, " was delivered and the stream reports a failure"));
			s.check(buf.data() == full, "not_a_prefix", cat("writing ", what, " delivered ", quote(buf.data())));
		}
		s.check(f.is(out), "format_changed", cat("writing ", what, " changed the format of the stream"));
	}
	template<typename C, typename T>
	void sink_run(Sim& s) {
		typedef V<T, C> A;
		Format<C> f = gen_format<C>(s, any_flags, 17);
		do {
			T v = A::gen(s);
			sink_text<C>(s, v, f, A::name());
		} while (s.more(1, 2));
	}
}	// namespace sim

#endif
