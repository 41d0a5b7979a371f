// Deterministic simulation core.
//
// One run is a pure function of (scenario, choice sequence).  In exploration the choice sequence is drawn from one
// PRNG seeded by (VERIF_SEED, scenario, run index); in replay it is read from the replay file (values past the end
// are 0, the "stop / no fault / smallest" choice).  Nothing else may influence a run: no clocks, no addresses, no
// iteration over hashed containers.  Logging never draws.
#ifndef SIM_CORE_HPP
#define SIM_CORE_HPP

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <functional>
#include <exception>

namespace sim {

	inline std::uint64_t mix64(std::uint64_t z) {
		z += 0x9E3779B97F4A7C15ull;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	inline std::uint64_t hash_bytes(char const* p, std::size_t n, std::uint64_t h = 1469598103934665603ull) {
		for (std::size_t i = 0; i != n; ++i) {
			h ^= (unsigned char)p[i];
			h *= 1099511628211ull;
		}
		return h;
	}
	inline std::uint64_t hash_str(std::string const& s, std::uint64_t h = 1469598103934665603ull) {
		return hash_bytes(s.data(), s.size(), h);
	}

	// Thrown by Sim::fail, only ever from harness code (never from inside a callback the library may swallow).
	struct Violation {
		std::string cls;	// violation class, kept fixed by the minimiser
		std::string msg;	// human-readable detail
	};
	// Thrown by a seam when the code under test exceeds its step budget (no progress).
	struct StepBudget {
		std::string what;
	};
	// Injected faults that are exceptions derive from nothing on purpose, so `catch (std::exception&)` cannot hide them.
	struct InjectedFault {
		int id;
	};

	struct Stats {
		std::uint64_t runs, steps, checks;
		std::map<std::string, std::uint64_t> faults, probes;
		std::set<std::uint64_t> histories;	// hashes of whole event logs
		std::set<std::uint64_t> nontrivial;	// ditto, of the runs that were not trivial
		std::set<std::uint64_t> states;	// hashes of the states the scenario reported
		Stats() : runs(0), steps(0), checks(0) {}
	};

	class Sim {
	public:
		// --- choice source
		Sim(Stats& st, std::uint64_t seed) : st_(st), replay_(false), pos_(0), rng_(seed), hash_(1469598103934665603ull), verbose_(false), nontrivial_(false), shared_(0), shared_cap_(0) {}
		Sim(Stats& st, std::vector<std::uint64_t> const& in) : st_(st), replay_(true), in_(in), pos_(0), rng_(0), hash_(1469598103934665603ull), verbose_(false), nontrivial_(false), shared_(0), shared_cap_(0) {}

		std::uint64_t raw() {
			std::uint64_t v;
			if (replay_) {
				v = pos_ < in_.size() ? in_[pos_] : 0;
			} else {
				rng_ += 0x9E3779B97F4A7C15ull;
				v = mix64(rng_);
			}
			++pos_;
			return v;
		}
		// uniform in [0, n); 0 is the simplest value
		std::uint64_t choose(std::uint64_t n) {
			std::uint64_t v = raw();
			v = n ? v % n : 0;
			note(v);
			return v;
		}
		// uniform in [lo, hi]; lo is the simplest value
		std::int64_t range(std::int64_t lo, std::int64_t hi) {
			return lo + (std::int64_t)choose((std::uint64_t)(hi - lo) + 1);
		}
		std::uint64_t bits() {
			std::uint64_t v = raw();
			note(v);
			return v;
		}
		// true with probability num/den; false is the simplest
		bool chance(unsigned num, unsigned den) {
			std::uint64_t v = raw();
			bool b;
			if (replay_) {
				b = v != 0;	// recorded as 0/1
			} else {
				b = v % den < num;
			}
			note(b ? 1 : 0);
			return b;
		}
		// loop guard: `while (s.more(p_num, p_den))`; ends on choice 0, which is what deleting the tail yields
		bool more(unsigned num, unsigned den) {
			return chance(num, den);
		}
		template<typename T>
		T const& pick(std::vector<T> const& v) {
			return v[choose(v.size())];
		}
		template<typename T, std::size_t N>
		T const& pick(T const (&v)[N]) {
			return v[choose(N)];
		}
		// small numbers more often, now and then large
		std::uint64_t skewed(std::uint64_t max) {
			std::uint64_t r = choose(4);
			std::uint64_t m = r == 0 ? 3 : r == 1 ? 12 : r == 2 ? 100 : max;
			if (m > max) m = max;
			return choose(m + 1);
		}

		// --- event log
		void log(std::string const& s) {
			hash_ = hash_str(s, hash_);
			hash_ = hash_bytes("\n", 1, hash_);
			if (verbose_) text_ += s, text_ += '\n';
		}
		void fault(char const* kind) {	// an injected fault actually fired
			++st_.faults[kind];
			nontrivial_ = true;
			if (verbose_) text_ += std::string("  ! fault ") + kind + '\n';
			hash_ = hash_bytes(kind, std::strlen(kind), hash_);
		}
		void probe(char const* name) {	// a rare condition was reached
			++st_.probes[name];
		}
		void step(std::uint64_t n = 1) {	// simulated time advances
			st_.steps += n;
		}
		void checked(std::uint64_t n = 1) {
			st_.checks += n;
		}
		void nontrivial() {
			nontrivial_ = true;
		}
		void state(std::uint64_t h) {
			if (st_.states.size() < 4000000) st_.states.insert(h);
		}

		// --- verdicts
		void fail(std::string const& cls, std::string const& msg) {
			throw Violation{cls, msg};
		}
		void check(bool ok, char const* cls, std::string const& msg) {
			++st_.checks;
			if (!ok) throw Violation{cls, msg};
		}

		std::uint64_t hash() const { return hash_; }
		std::string const& text() const { return text_; }
		void share(std::uint64_t* p, std::size_t cap) { shared_ = p; shared_cap_ = cap; }
		void verbose(bool v) { verbose_ = v; }
		bool is_verbose() const { return verbose_; }
		bool is_nontrivial() const { return nontrivial_; }
		std::vector<std::uint64_t> const& record() const { return rec_; }
		Stats& stats() { return st_; }

	private:
		void note(std::uint64_t v) {
			rec_.push_back(v);
			if (shared_ && rec_.size() < shared_cap_) {	// survives a crash of this process
				shared_[rec_.size()] = v;
				shared_[0] = rec_.size();
			}
			hash_ ^= mix64(v + 0x51ED270B);
			hash_ *= 1099511628211ull;
		}
		Stats& st_;
		bool replay_;
		std::vector<std::uint64_t> in_, rec_;
		std::size_t pos_;
		std::uint64_t rng_, hash_;
		bool verbose_, nontrivial_;
		std::string text_;
		std::uint64_t* shared_;
		std::size_t shared_cap_;
	};

	// --- formatting helper: cat("x=", 3, ...)
	inline void cat_(std::ostringstream&) {}
	template<typename T, typename... A>
	void cat_(std::ostringstream& o, T const& t, A const&... a) { o << t; cat_(o, a...); }
	template<typename... A>
	std::string cat(A const&... a) { std::ostringstream o; o.precision(17); cat_(o, a...); return o.str(); }

	inline std::string quote(std::string const& s, std::size_t max = 200) {
		std::string r = "\"";
		for (std::size_t i = 0; i != s.size(); ++i) {
			if (i == max) { r += "..."; break; }
			unsigned char c = s[i];
			if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
			else if (c == '\n') r += "\\n";
			else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
			else r += char(c);
		}
		return r + "\"";
	}
	inline std::string quote(std::wstring const& s, std::size_t max = 200) {
		std::string r = "L\"";
		for (std::size_t i = 0; i != s.size(); ++i) {
			if (i == max) { r += "..."; break; }
			wchar_t c = s[i];
			if (c == L'"' || c == L'\\') { r += '\\'; r += char(c); }
			else if (c < 32 || c > 126) { char b[16]; std::snprintf(b, sizeof b, "\\x{%x}", (unsigned)c); r += b; }
			else r += char(c);
		}
		return r + "\"";
	}

	// --- scenario registry
	struct Scenario {
		std::string prop, name;
		unsigned weight;
		std::function<void(Sim&)> fn;
	};
	std::vector<Scenario>& scenarios();
	struct Register {
		Register(std::string const& prop, std::string const& name, unsigned weight, std::function<void(Sim&)> fn) {
			scenarios().push_back(Scenario{prop, name, weight, fn});
		}
	};
}	// namespace sim

#define SIM_CAT2(a, b) a##b
#define SIM_CAT(a, b) SIM_CAT2(a, b)
#define SIM_SCENARIO(prop, name, weight, fn) static ::sim::Register SIM_CAT(sim_reg_, __COUNTER__)(prop, name, weight, fn)

#endif
