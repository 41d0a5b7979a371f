// Histories over small pools of value-holding objects whose element operations may fail (C13).
//
// The elements count and check every copy, move, assignment and comparison; the pool is compared with a model after
// every operation, failed or not.
#ifndef VERIF_SIM_HIST_HPP
#define VERIF_SIM_HIST_HPP
#include "core.hpp"
#include <functional>
#include <initializer_list>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace hist {
	using namespace sim;
	enum { MAKE = 1, COPY = 2, MOVE = 4, CMP = 8, CALL = 16, ALL = 31 };
	struct World {
		unsigned mask, fired_op;
		long ops, fail_at, live, copies;
		std::string bad;
		void arm(unsigned m, long at) { mask = m; fail_at = at; ops = 0; fired_op = 0; copies = 0; }
		void disarm() { mask = 0; fail_at = 0; }
		void complain(std::string const& what) { if (bad.empty()) bad = what; }
		void tick(unsigned op) {
			if (op == COPY) ++copies;
			if ((op & mask) && ++ops == fail_at) { fired_op = op; throw InjectedFault(); }
		}
	};
	inline World& world() { static World w; return w; }
	struct Slot { int key, id; bool unknown; };
	inline bool operator==(Slot const& a, Slot const& b) { return a.key == b.key && a.id == b.id && a.unknown == b.unknown; }
	struct Val {
		int key, id;
		unsigned magic;
		bool moved;
		static unsigned const alive = 0x7a1ee5u;
		void use(char const* how, bool value = true) const {
			if (magic != alive) world().complain(cat(how, " a dead value"));
			else if (value && moved) world().complain(cat(how, " a moved-from value"));
		}
		void born() { magic = alive; ++world().live; }
		Val() : key(-1), id(-1), moved(false) { world().tick(MAKE); born(); }
		Val(int k, int i) : key(k), id(i), moved(false) { world().tick(MAKE); born(); }
		Val(std::initializer_list<int> l) : key(-2), id(-2), moved(false) { world().tick(MAKE); if (l.size() == 2) key = *l.begin(), id = *(l.begin() + 1); born(); }
		Val(Val const& o) : key(o.key), id(o.id), moved(o.moved) { o.use("copies", false); world().tick(COPY); born(); }
		Val(Val&& o) : key(o.key), id(o.id), moved(o.moved) { o.use("moves", false); world().tick(MOVE); o.moved = true; born(); }
		Val& operator=(Val const& o) {
			o.use("copies", false); use("assigns to", false); world().tick(COPY);
			key = o.key; id = o.id; moved = o.moved;
			return *this;
		}
		Val& operator=(Val&& o) {
			o.use("moves", false); use("assigns to", false); world().tick(MOVE);
			if (this != &o) { key = o.key; id = o.id; moved = o.moved; }
			o.moved = true;
			return *this;
		}
		~Val() { if (magic != alive) world().complain("destroys a dead value"); magic = 0xdeadu; --world().live; }
		static bool cmp(Val const& a, Val const& b, bool less) { a.use("compares"); b.use("compares"); world().tick(CMP); return less ? a.key < b.key : a.key == b.key; }
		friend bool operator==(Val const& a, Val const& b) { return cmp(a, b, false); }
		friend bool operator!=(Val const& a, Val const& b) { return !(a == b); }
		friend bool operator<(Val const& a, Val const& b) { return cmp(a, b, true); }
		friend bool operator>(Val const& a, Val const& b) { return b < a; }
		friend bool operator<=(Val const& a, Val const& b) { return !(b < a); }
		friend bool operator>=(Val const& a, Val const& b) { return !(a < b); }
		Slot slot() const { if (magic != alive) world().complain("holds a dead value"); return Slot{key, id, moved}; }
	};
	struct ValB : Val {	// another type with the same behaviour
		ValB() { }
		ValB(int k, int i) : Val(k, i) { }
		explicit ValB(Val const& v) : Val(v) { }
	};
	inline Slot slot(Val const& v) { return v.slot(); }
	inline Slot slot(int v) { return Slot{v, 0, false}; }
	struct Obj { int tag; std::vector<Slot> s; };
	inline std::string show(Obj const& o) {
		std::string r = cat(o.tag, "[");
		for (std::size_t i = 0; i != o.s.size(); ++i) r += (i ? " " : "") + (o.s[i].unknown ? std::string("?") : cat(o.s[i].key, "#", o.s[i].id));
		return r + "]";
	}
	inline bool matches(Obj const& now, Obj const& want) {
		if (now.tag != want.tag || now.s.size() != want.s.size()) return false;
		for (std::size_t i = 0; i != now.s.size(); ++i) if (!want.s[i].unknown && !(now.s[i] == want.s[i])) return false;
		return true;
	}
	enum Loss {
		KEEP,	// a failure leaves everything as it was
		STRONG,	// a failing copy leaves everything as it was; a failing move leaves old, new or moved-from values
	STATE,	// a failing copy leaves everything as it was; a failing move leaves the state, whatever the values
		BASIC	// a failure leaves old, new, default or unspecified values, and either state
	};
	template<typename T, Obj (*Peek)(T const&)>
	struct History {
		enum { N = 3 };
		struct Change { int i; Obj to; };
		Sim& s;
		T pool[N];
		Obj model[N];
		int fresh;
		std::string past;
		explicit History(Sim& s_) : s(s_), fresh(10) { for (int i = 0; i != N; ++i) model[i] = Peek(pool[i]); }
		int any() { return (int)s.choose(N); }
		bool known(int i) const { for (Slot const& e : model[i].s) if (e.unknown) return false; return true; }
		int source() { int const k = any(); for (int d = 0; d != N; ++d) if (known((k + d) % N)) return (k + d) % N; return -1; }
		int key() { return (int)s.choose(6) - 2; }	// below, at and above the default values
		int id() { return fresh++; }
		// performs one operation: `act` on the real objects; what it changes when it succeeds; what a failure may leave
		template<typename Act>
		bool run(std::string const& name, Loss loss, std::vector<Change> const& changes, Act act) {
			World& w = world();
			static unsigned const masks[] = {COPY, MOVE, COPY | MOVE, MAKE, CMP | CALL, ALL};
			bool const armed = s.chance(1, 2);
			unsigned const mask = armed ? masks[s.choose(6)] : 0;
			long const at = armed ? 1 + (long)s.choose(s.chance(1, 3) ? 16 : 4) : 0;
			if (past.size() < 4000) past += " ; " + name;
			bool threw = false;
			w.arm(mask, at);
			std::string other;
			try { act(); }
			catch (InjectedFault&) { threw = true; }
			catch (std::exception& e) { other = e.what(); }
			unsigned const fired = w.fired_op;
			w.disarm();
			s.step();
			s.log(cat(name, threw ? " fails" : ""));
			if (fired) s.fault(fired == COPY ? "failing copy" : fired == MOVE ? "failing move" : fired == MAKE ? "failing construction" : fired == CMP ? "failing comparison" : "failing visitor");
			s.check(other.empty(), "unexpected-exception", cat(name, " throws ", other, after()));
			s.check(w.bad.empty(), "lifetime", cat(name, ' ', w.bad, after()));
			s.check(threw == (fired != 0), "failure-lost", cat(name, " swallows a failing element operation", after()));
			std::uint64_t h = hash_str(name.substr(0, name.find(' ')));
			for (int i = 0; i != N; ++i) {
				Obj const now = Peek(pool[i]);
				Change const* c = 0;
				for (Change const& e : changes) if (e.i == i) c = &e;
				if (!threw) s.check(matches(now, c ? c->to : model[i]), "wrong-value", cat(name, " leaves object ", i, " as ", show(now), " instead of ", show(c ? c->to : model[i]), after()));
				else if (!c || loss == KEEP || (loss != BASIC && fired != MOVE)) s.check(matches(now, model[i]), "changed-by-failure", cat("a failing ", name, " leaves object ", i, " as ", show(now), " instead of ", show(model[i]), after()));
				else {
					bool ok = now.tag == model[i].tag || (loss == BASIC && now.tag == c->to.tag);
					for (std::size_t k = 0; k != now.s.size() && ok; ++k) {
						Slot const& e = now.s[k];
						ok = e.unknown || loss == STATE || (loss == BASIC && ((e.key == -1 && e.id == -1) || (e.key == 0 && e.id == 0)))
							|| (k < model[i].s.size() && (model[i].s[k].unknown || model[i].s[k] == e)) || (k < c->to.s.size() && (c->to.s[k].unknown || c->to.s[k] == e));
					}
					s.check(ok, "broken-by-failure", cat("a failing ", name, " leaves object ", i, " as ", show(now), ", neither ", show(model[i]), " nor ", show(c->to), after()));
				}
				// an unspecified value stays unspecified for the model even where the real one happens to be known
				Obj next = now;
				if (!threw && c) { for (std::size_t k = 0; k != next.s.size(); ++k) if (c->to.s[k].unknown) next.s[k].unknown = true; }
				else if (!c) { for (std::size_t k = 0; k != next.s.size(); ++k) if (model[i].s[k].unknown) next.s[k].unknown = true; }
				else if (loss != KEEP) for (std::size_t k = 0; k != next.s.size(); ++k) if (loss == STATE || (k < model[i].s.size() && model[i].s[k].unknown)) next.s[k].unknown = true;
				model[i] = next;
				h = mix64(h ^ (std::uint64_t)(next.tag * 8 + (int)next.s.size() + (known(i) ? 64 : 0)));
			}
			s.state(h ^ mix64(fired * 977u + (threw ? (unsigned)at : 0)));
			return !threw;
		}
		// performs an operation that only observes; `act` returns what it saw
		template<typename Act, typename Want>
		bool look(std::string const& name, Want const& want, Act act) {
			Want got = Want();
			bool const ok = run(name, KEEP, std::vector<Change>(), [&] { got = act(); });
			if (ok) s.check(got == want, "wrong-answer", cat(name, " answers ", got, " instead of ", want, after()));
			return ok;
		}
		std::string after() const { return cat(" (after", past, ")"); }
		static Obj unknown(Obj o) { for (Slot& e : o.s) e.unknown = true; return o; }
		static std::vector<Change> one(int i, Obj const& to) { return std::vector<Change>(1, Change{i, to}); }
		static std::vector<Change> two(int i, Obj const& a, int j, Obj const& b) { std::vector<Change> r; r.push_back(Change{i, a}); if (i != j) r.push_back(Change{j, b}); return r; }
	};
	// runs a history and checks that nothing outlives it
	template<typename H, typename Step>
	void play(Sim& s, Step step) {
		World& w = world();
		w.disarm();
		w.bad.clear();
		long const live = w.live;
		std::string past;
		{
			H h(s);
			int n = 0;
			do step(h); while (++n < 40 && s.more(9, 10));
			past = h.after();
		}
		s.check(w.bad.empty(), "lifetime", cat("the end of the history ", w.bad, past));
		s.check(w.live == live, "leak", cat(w.live - live, " values too many are alive after everything is gone", past));
	}
}
#endif
