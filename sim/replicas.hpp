// C03: replicas of one engine apply the same log of "consume n draws" commands, each with its own mechanism, under
// delays, stalls, crashes and state transfer; every consumed value is compared with an independent reference generator.
#ifndef SIM_REPLICAS_HPP
#define SIM_REPLICAS_HPP

#include <algorithm>
#include <iterator>
#include <sprout/random/generate_array.hpp>
#include <sprout/random/iterator.hpp>
#include <sprout/random/range.hpp>
#include <sprout/random/results.hpp>
#include <sprout/random/utility.hpp>
#include <sprout/random/random_result.hpp>
#include <sprout/tuple.hpp>
#include "engines.hpp"

namespace sim {
	template<typename E>
	struct has_discard {
		template<typename T> static auto f(int) -> decltype(std::declval<T&>().discard(1ull), std::true_type());
		template<typename T> static std::false_type f(...);
		static bool const value = decltype(f<E>(0))::value;
	};
	template<typename E>
	struct has_seed {
		template<typename T> static auto f(int) -> decltype(std::declval<T&>().seed((typename T::result_type)1), std::true_type());
		template<typename T> static std::false_type f(...);
		static bool const value = decltype(f<E>(0))::value;
	};
	template<> struct has_seed<sp_xor> { static bool const value = false; };	// one of its parts has no seed()

	template<typename E>
	void do_discard(E& e, unsigned long long n, bool functional, std::true_type) {
		if (functional) { E const& c = e; E r(c.discard(n)); e = r; }
		else e.discard(n);
	}
	template<typename E>
	void do_discard(E& e, unsigned long long n, bool, std::false_type) { while (n--) e(); }
	template<typename E>
	void do_seed(E& e, std::uint64_t s, std::true_type) { e.seed((typename E::result_type)s); }
	template<typename E>
	void do_seed(E&, std::uint64_t, std::false_type) {}

	template<std::size_t N, typename E>
	void arr_mut(E& e, std::vector<std::uint64_t>& out) {
		auto a = sprout::random::generate_array<N>(e);
		for (std::size_t i = 0; i != N; ++i) out.push_back((std::uint64_t)a[i]);
	}
	template<std::size_t N, typename E>
	void arr_const(E& e, std::vector<std::uint64_t>& out) {
		E const& c = e;
		auto p = sprout::random::generate_array<N>(c);
		for (std::size_t i = 0; i != N; ++i) out.push_back((std::uint64_t)p.first[i]);
		E r(cref(p.second));
		e = r;
	}

	// advances e by n draws (or a few more) and appends the values; values a mechanism does not show are appended as 0/unknown
	template<typename I>
	char const* consume(typename I::engine& e, std::size_t mech, std::uint64_t n, std::vector<std::uint64_t>& out, std::vector<bool>& known) {
		typedef typename I::engine E;
		E const& ce = e;
		char const* name = "";
		std::size_t const at = out.size();
		switch (mech) {
		case 0:
			name = "draw";
			for (; n; --n) out.push_back((std::uint64_t)e());
			break;
		case 1:
			name = "const draw, engine()";
			for (; n; --n) {
				auto r = ce();
				out.push_back((std::uint64_t)r.result());
				e = r.engine();
			}
			break;
		case 2:
			name = "const draw, next()/result()";
			for (; n; --n) {
				auto r = ce();
				out.push_back((std::uint64_t)sprout::random::result(r));
				e = sprout::random::next(r);
			}
			break;
		case 3:
			name = "random_result, pre-increment";
			if (n) {
				auto r = ce();
				auto it = r;
				for (; ; ++it) {
					out.push_back((std::uint64_t)*it);
					if (!--n) break;
				}
				e = it.engine();
			}
			break;
		case 4:
			name = "random_result, post-increment";
			if (n) {
				auto r = ce();
				auto it = r;
				for (; n > 1; --n) out.push_back((std::uint64_t)*it++);
				out.push_back((std::uint64_t)(typename E::result_type)it);
				e = it.next_generator();
			}
			break;
		case 5:
			name = "random_result, call";
			if (n) {
				auto r0 = ce();
				auto it = r0;
				for (; ; ) {
					out.push_back((std::uint64_t)it.generated_value());
					if (!--n) break;
					auto nx = (n & 1) ? it() : it.next_value();
					it = nx;
				}
				e = it.next();
			}
			break;
		case 6:
			name = "generate_array (in place)";
			switch (n % 4) {
			case 0: arr_mut<1>(e, out); break;
			case 1: arr_mut<2>(e, out); break;
			case 2: arr_mut<5>(e, out); break;
			default: arr_mut<16>(e, out); break;
			}
			break;
		case 7:
			name = "generate_array (const)";
			switch (n % 3) {
			case 0: arr_const<1>(e, out); break;
			case 1: arr_const<2>(e, out); break;
			default: arr_const<5>(e, out); break;
			}
			break;
		case 8: {
			name = "begin/end with count";
			auto f = sprout::random::begin(ce, (std::ptrdiff_t)n), l = sprout::random::end(ce);
			std::size_t k = 0;
			for (; f != l && k <= n; ++f, ++k) out.push_back((std::uint64_t)*f);
			if (k != n) out.push_back(~0ull), known.resize(out.size(), true), known.back() = true;	// wrong length: reported as a value mismatch
			for (; n; --n) e();
			break;
		}
		case 9: {
			name = "std::copy over begin/end";
			std::vector<std::uint64_t> tmp;
			std::copy(sprout::random::begin(ce, (std::ptrdiff_t)n), sprout::random::end(ce), std::back_inserter(tmp));
			out.insert(out.end(), tmp.begin(), tmp.end());
			for (; n; --n) e();
			break;
		}
		case 10:
			name = "discard";
			do_discard(e, n, false, std::integral_constant<bool, has_discard<E>::value>());
			out.resize(out.size() + n, 0);
			known.resize(at, true);
			known.resize(out.size(), false);
			break;
		case 11:
			name = "discard (const)";
			do_discard(e, n, true, std::integral_constant<bool, has_discard<E>::value>());
			out.resize(out.size() + n, 0);
			known.resize(at, true);
			known.resize(out.size(), false);
			break;
		case 12:
			name = "random_result as a pair";
			for (; n; --n) {
				auto r = ce();
				auto const& cr = r;
				out.push_back((std::uint64_t)sprout::tuples::get<0>(cr));
				E x(cref(sprout::tuples::get<1>(cr)));
				e = x;
			}
			break;
		case 13: {
			name = "std::generate_n with a reference";
			std::vector<std::uint64_t> tmp(n);
			std::generate_n(tmp.begin(), n, [&e]() { return (std::uint64_t)e(); });
			out.insert(out.end(), tmp.begin(), tmp.end());
			break;
		}
		case 14: {
			name = "make_range with count";
			auto rg = sprout::random::make_range(ce, (std::ptrdiff_t)n);
			std::size_t k = 0;
			for (auto f = rg.begin(); f != rg.end() && k <= n; ++f, ++k) out.push_back((std::uint64_t)*f);
			for (; n; --n) e();
			break;
		}
		default: {
			name = "copy, draw, swap";
			E x(cref(e));
			for (; n; --n) out.push_back((std::uint64_t)x());
			using std::swap;
			swap(x, e);
			break;
		}
		}
		known.resize(out.size(), true);
		return name;
	}
	enum { mechanisms = 16 };

	// jumping far ahead: x -> a*x + c (mod m) composed z times, by an independent computation
	template<typename E>
	bool jump(E const&, std::uint64_t, unsigned long long, std::uint64_t&) { return false; }
	template<typename U, U a, U c, U m>
	bool jump(sprout::random::linear_congruential_engine<U, a, c, m> const&, std::uint64_t x, unsigned long long z, std::uint64_t& out) {
		typedef unsigned __int128 W;
		W A = a % m, C = c % m, ra = 1, rc = 0;
		for (; z; z >>= 1) {
			if (z & 1) { rc = (A * rc + C) % m; ra = A * ra % m; }
			C = (A * C + C) % m;
			A = A * A % m;
		}
		out = (std::uint64_t)((ra * x + rc) % m);
		return true;
	}

	template<typename I>
	void replicas_run(Sim& s) {
		typedef typename I::engine E;
		std::uint64_t seed = pick_seed<I>(s);
		typename I::reference ref = I::ref(seed);
		std::vector<std::uint64_t> tape;
		auto at = [&](std::size_t p) {
			while (tape.size() <= p) tape.push_back((std::uint64_t)ref());
			return tape[p];
		};
		std::size_t const m = 2 + s.choose(3);
		struct Rep { E e; std::size_t pos; std::size_t stalled; };
		std::vector<Rep> rep;
		for (std::size_t i = 0; i != m; ++i) rep.push_back(Rep{I::make(seed), 0, 0});
		s.log(cat("seed ", seed, ", ", m, " replicas"));
		bool const heavy = I::state_words > 100;	// functional draws copy the whole state
		std::size_t committed = 0;	// length of the command log, in draws

		auto advance = [&](std::size_t i, std::uint64_t n, std::size_t mech) {
			Rep& r = rep[i];
			std::vector<std::uint64_t> out;
			std::vector<bool> known;
			E before(cref(r.e));
			char const* name = consume<I>(r.e, mech, n, out, known);
			s.log(cat("replica ", i, " at ", r.pos, " consumes ", out.size(), " by ", name));
			for (std::size_t k = 0; k != out.size(); ++k) {
				std::uint64_t w = at(r.pos + k);
				s.step();
				if (known[k] && out[k] != w) s.fail("draw-differs", cat(I::name(), " seed ", seed, ": draw ", r.pos + k, " is ", out[k], ", the reference generator gives ", w, " (", name, ")"));
			}
			s.checked();
			if (mech == 8 || mech == 9 || mech == 14) s.check(out.size() == n, "range-length", cat(I::name(), ": a range of ", n, " draws delivered ", out.size(), " (", name, ")"));
			s.probe(name);
			r.pos += out.size();
			s.state(hash_str(name, hash_str(I::name(), out.size() * 7919 + r.pos % (I::state_words + 1))));
		};
		auto same = [&](std::size_t i, std::size_t j) {
			if (rep[i].pos == rep[j].pos) {
				s.check(rep[i].e == rep[j].e && !(rep[i].e != rep[j].e) && rep[j].e == rep[i].e, "replicas-diverge", cat(I::name(), " seed ", seed, ": two replicas at draw ", rep[i].pos, " compare unequal"));
			} else {	// equal engines must have the same future
				bool eq = rep[i].e == rep[j].e;
				s.check(eq == !(rep[i].e != rep[j].e), "equality-inconsistent", "== and != disagree");
				if (eq) for (std::size_t k = 0; k != 40; ++k) s.check(at(rep[i].pos + k) == at(rep[j].pos + k), "equal-but-different-future", cat(I::name(), ": engines at draws ", rep[i].pos, " and ", rep[j].pos, " compare equal but draw differently"));
			}
		};
		// everybody catches up and then skips a stretch far too long to draw
		auto leap = [&]() {
			std::uint64_t x;
			if (!jump(rep[0].e, 0, 0, x)) return;
			for (std::size_t i = 0; i != m; ++i) if (rep[i].pos < committed + 1) advance(i, committed + 1 - rep[i].pos, 0);
			committed = 0;
			unsigned long long z;
			switch (s.choose(5)) {
			case 0: z = s.choose(1000000); break;
			case 1: z = 1ull << s.choose(63); break;
			case 2: z = 2147483646ull + s.choose(3); break;
			case 3: z = (1ull << 32) - 1 + s.choose(3); break;
			default: z = s.bits() >> s.choose(32); break;
			}
			std::size_t p = rep[0].pos;
			for (std::size_t i = 0; i != m; ++i) if (rep[i].pos > p) p = rep[i].pos;
			for (std::size_t i = 0; i != m; ++i) if (rep[i].pos < p) advance(i, p - rep[i].pos, 0);
			jump(rep[0].e, at(p - 1), z, x);	// these engines' last draw is their state
			s.log(cat("leap of ", z));
			s.probe("leap");
			for (std::size_t i = 0; i != m; ++i) {
				unsigned long long part = s.chance(1, 2) ? s.bits() % (z ? z : 1) : 0;
				bool f = s.chance(1, 2), g = s.chance(1, 2);
				do_discard(rep[i].e, part, f, std::integral_constant<bool, has_discard<E>::value>());
				do_discard(rep[i].e, z - part, g, std::integral_constant<bool, has_discard<E>::value>());
				rep[i].pos = 0;
			}
			seed = x;
			ref = I::ref(x);
			tape.clear();
			s.check(rep[0].e == I::make(x), "leap-differs", cat(I::name(), ": skipping ", z, " draws does not lead to state ", x));
			for (std::size_t i = 0; i != m; ++i) advance(i, 2, 0);
			committed = 2;
		};
		std::size_t ops = 0;
		while (ops++ < 40 && s.more(12, 13)) {
			s.step();
			std::size_t i = s.choose(m);
			switch (s.choose(8)) {
			case 0:
			case 1:
			case 2:
			case 3: {	// a batch is delivered to one replica
				if (rep[i].stalled) { --rep[i].stalled; s.fault("delivery-delayed"); break; }
				std::uint64_t n = pick_draws<I>(s);
				std::size_t mech = s.choose(mechanisms);
				if (heavy && mech != 0 && mech != 6 && mech != 10 && mech != 11 && mech != 13 && mech != 15 && n > 40) n = s.choose(12) + 1;
				if (mech == 10 && s.chance(1, 3)) n += s.choose(3000);
				advance(i, n, mech);
				if (rep[i].pos > committed) committed = rep[i].pos;
				break;
			}
			case 4:	// stall: this replica falls behind
				rep[i].stalled = 1 + s.choose(4);
				break;
			case 5: {	// crash; recovery from the seed, catching up with the log
				s.fault("crash");
				std::size_t to = rep[i].pos;
				if (has_seed<E>::value && I::plain_seed && s.chance(1, 2)) do_seed(rep[i].e, seed, std::integral_constant<bool, has_seed<E>::value && I::plain_seed>());
				else rep[i].e = I::make(seed);
				rep[i].pos = 0;
				rep[i].stalled = 0;
				if (to) advance(i, to, s.chance(1, 2) ? 10 : 0);
				break;
			}
			case 6: {	// crash; recovery by state transfer
				std::size_t j = s.choose(m);
				s.fault("state-transfer");
				switch (s.choose(3)) {
				case 0: rep[i].e = rep[j].e; break;
				case 1: { E x(cref(rep[j].e)); rep[i].e = x; break; }
				default: { E x(std::move(E(cref(rep[j].e)))); rep[i].e = std::move(x); break; }
				}
				rep[i].pos = rep[j].pos;
				rep[i].stalled = 0;
				s.log(cat("replica ", i, " takes the state of ", j, " at ", rep[j].pos));
				break;
			}
			default:
				if (s.chance(1, 4)) leap();
				else same(i, s.choose(m));
				break;
			}
		}
		// faults stop: everybody catches up with the log and agrees
		for (std::size_t i = 0; i != m; ++i) {
			std::size_t need = committed > rep[i].pos ? committed - rep[i].pos : 0;
			if (need) advance(i, need, s.chance(1, 2) ? 10 : 0);
		}
		for (std::size_t i = 0; i != m; ++i) same(0, i);
		for (std::size_t i = 0; i != m; ++i) advance(i, 3, 0);
	}
}	// namespace sim

#define SIM_REPLICAS(I) static ::sim::Register SIM_CAT(sim_regr_, I)("C03", #I, 3, ::sim::replicas_run< ::sim::I>);

#endif
