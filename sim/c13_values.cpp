// C13: optionals, variants, holders, tuples, pairs and arrays follow their model through any history of operations,
// including ones in which a copy, move, construction, comparison or visitor fails.
#include "hist.hpp"
#include <sprout/optional.hpp>
#include <sprout/variant.hpp>
#include <sprout/tuple.hpp>
#include <sprout/utility.hpp>
#include <sprout/utility/value_holder.hpp>
#include <sprout/array.hpp>
#include <sprout/compressed_pair.hpp>
#ifndef SIM_PART
#define SIM_PART 0
#endif
using namespace hist;
namespace {
#if SIM_PART == 0
	typedef sprout::optional<Val> Opt;
	Obj peek(Opt const& o) { Obj r; r.tag = o.is_initialized(); if (r.tag) r.s.push_back(slot(*o)); return r; }
	typedef History<Opt, peek> H;
	Obj none() { return Obj{0, std::vector<Slot>()}; }
	Obj some(int k, int i) { return Obj{1, std::vector<Slot>(1, Slot{k, i, false})}; }
	std::string see(Opt const& o) { return show(peek(o)); }
	void step(H& h) {
		int const i = h.any(), k = h.key();
		Opt& o = h.pool[i];
		Obj const was = h.model[i];
		bool const on = was.tag != 0;
		switch (h.s.choose(30)) {
		case 0: h.run(cat("o", i, " = nullopt"), KEEP, h.one(i, none()), [&] { o = sprout::nullopt; }); break;
		case 1: h.run(cat("o", i, ".reset()"), KEEP, h.one(i, none()), [&] { o.reset(); }); break;
		case 2: h.run(cat("o", i, ".reset(nullopt)"), KEEP, h.one(i, none()), [&] { o.reset(sprout::nullopt); }); break;
		case 3: { int const j = h.source(); if (j < 0) break; h.run(cat("o", i, " = o", j), STATE, h.one(i, h.model[j]), [&] { o = h.pool[j]; }); break; }
		case 4: { int const j = h.source(); if (j < 0) break; Opt const& c = h.pool[j]; h.run(cat("o", i, " = const o", j), STATE, h.one(i, h.model[j]), [&] { o = c; }); break; }
		case 5: { int const j = h.any(); h.run(cat("o", i, " = move(o", j, ")"), STATE, h.two(i, h.model[j], j, h.unknown(h.model[j])), [&] { o = std::move(h.pool[j]); }); break; }
		case 6: { Val const v(k, h.id()); h.run(cat("o", i, " = const value"), STATE, h.one(i, some(v.key, v.id)), [&] { o = v; }); h.s.check(!v.moved, "source-changed", "assigning a const value changes it"); break; }
		case 7: { Val v(k, h.id()); h.run(cat("o", i, " = value"), STATE, h.one(i, some(v.key, v.id)), [&] { o = v; }); h.s.check(!v.moved, "source-changed", "assigning an lvalue moves from it"); break; }
		case 8: { int const d = h.id(); h.run(cat("o", i, " = Val(", k, ")"), STATE, h.one(i, some(k, d)), [&] { o = Val(k, d); }); break; }
		case 9: { int const d = h.id(); h.run(cat("o", i, ".emplace(", k, ", id)"), STATE, h.one(i, some(k, d)), [&] { o.emplace(k, d); }); break; }
		case 10: { Val const v(k, h.id()); h.run(cat("o", i, ".emplace(value)"), STATE, h.one(i, some(v.key, v.id)), [&] { o.emplace(v); }); break; }
		case 11: { int const d = h.id(); h.run(cat("o", i, ".emplace({})"), STATE, h.one(i, some(k, d)), [&] { o.emplace({k, d}); }); break; }
		case 12: { int const j = h.source(); if (j < 0 || !h.model[j].tag) break; h.run(cat("o", i, " = *o", j), STATE, h.one(i, h.model[j]), [&] { o = *h.pool[j]; }); break; }
		case 13: { Val const v(k, h.id()); h.run(cat("o", i, ".reset(value)"), STATE, h.one(i, some(v.key, v.id)), [&] { o.reset(v); }); break; }
		case 14: { int const j = h.any(); int const how = (int)h.s.choose(3); h.run(cat(how ? how == 1 ? "swap" : "sprout::swap" : "member swap", "(o", i, ", o", j, ")"), STATE, h.two(i, h.model[j], j, was), [&] { using sprout::swap; if (how == 0) o.swap(h.pool[j]); else if (how == 1) swap(o, h.pool[j]); else sprout::swap(o, h.pool[j]); }); break; }
		case 15: { ValB const b(k, h.id()); sprout::optional<ValB> const c(b); h.run(cat("o", i, " = optional of another type"), STATE, h.one(i, some(b.key, b.id)), [&] { o = c; }); break; }
		case 16: { sprout::optional<ValB> c; h.run(cat("o", i, " = empty optional of another type"), STATE, h.one(i, none()), [&] { o = std::move(c); }); break; }
		case 17: { int const d = h.id(); h.look(cat("Opt(in_place)"), show(some(k, d)), [&] { Opt t(sprout::in_place, k, d); return see(t); }); break; }
		case 18: { int const j = h.source(); if (j < 0) break; Opt const& c = h.pool[j]; int const how = (int)h.s.choose(2); h.look(cat("Opt(o", j, ")"), show(h.model[j]), [&] { Opt t(how ? c : h.pool[j]); return see(t); }); break; }
		case 19: { bool const keep = h.known(i); std::string seen; if (!keep) break; h.run(cat("Opt(move(o", i, "))"), on ? STATE : KEEP, h.one(i, h.unknown(was)), [&] { Opt t(std::move(o)); seen = see(t); if (seen != show(was)) throw std::runtime_error("with another value"); }); break; }
		case 20: { bool const c = h.s.chance(1, 2); Val const v(k, h.id()); h.look(cat("Opt(", c, ", value)"), show(c ? some(v.key, v.id) : none()), [&] { Opt t(c, v); return see(t); }); break; }
		case 21: { int const d = h.id(); h.look(cat("make_optional"), show(some(k, d)), [&] { return see(sprout::make_optional(Val(k, d))); }); break; }
		case 22: {
			int const how = (int)h.s.choose(3);
			bool missing = false;
			h.run(cat(how ? how == 1 ? "get" : "at" : "value", "(o", i, ")"), KEEP, std::vector<H::Change>(), [&] {
				try {
					Opt const& c = o;
					Slot const a = slot(how ? how == 1 ? o.get() : o.at(0) : o.value()), b = slot(how ? how == 1 ? c.get() : c.at(0) : c.value());
					if (on && h.known(i) && !(a == was.s[0] && b == was.s[0])) throw std::runtime_error("with another value");
				}
				catch (sprout::bad_optional_access&) { missing = true; if (how == 2) throw; }
				catch (std::out_of_range&) { missing = true; if (how != 2) throw; }
			});
			h.s.check(missing == !on, "wrong-answer", cat("access to ", show(was), missing ? " fails" : " succeeds", h.after()));
			bool out = false;
			try { o.at(1); } catch (std::out_of_range&) { out = true; }
			h.s.check(out, "wrong-answer", cat("at(1) of an optional succeeds", h.after()));
			break;
		}
		case 23: {
			Opt const& c = o;
			h.look(cat("state(o", i, ")"), std::string(on ? "111010" : "000101"), [&] { return cat(bool(o), o.is_initialized(), o.size(), o.empty(), o.get_ptr() != 0 && c.get_pointer() == o.get_pointer(), !o); });
			break;
		}
		case 24: {
			Opt const& c = o;
			long n = 0, m = 0, r = 0;
			bool same = true;
			h.run(cat("iterate(o", i, ")"), KEEP, std::vector<H::Change>(), [&] {
				for (Val& v : o) same = same && &v == &*o, ++n;
				for (Val const& v : c) same = same && &v == &*o, ++m;
				for (Opt::reverse_iterator it = o.rbegin(); it != o.rend(); ++it) same = same && &*it == &*o, ++r;
				for (Opt::const_reverse_iterator it = c.rbegin(); it != c.rend(); ++it) same = same && &*it == &*o;
				for (Opt::const_iterator it = o.cbegin(); it != o.cend(); ++it) same = same && &*it == &*o;
				for (Opt::const_reverse_iterator it = o.crbegin(); it != o.crend(); ++it) same = same && &*it == &*o;
				same = same && o.end() - o.begin() == (on ? 1 : 0) && c.cend() - c.cbegin() == (on ? 1 : 0);
			});
			h.s.check(same && n == on && m == on && r == on, "wrong-answer", cat("iterating over ", show(was), " meets ", n, ' ', m, ' ', r, " elements or another one", h.after()));
			break;
		}
		case 25: { if (!h.known(i)) break; Val v(k, h.id()); Val const cv(v.key, v.id); Opt const& c = o; std::string const w = show(on ? was : some(v.key, v.id)); h.look(cat("value_or(o", i, ")"), w + w, [&] { return show(Obj{1, std::vector<Slot>(1, slot(o.value_or(v)))}) + show(Obj{1, std::vector<Slot>(1, slot(c.value_or(cv)))}); }); break; }
		case 26: case 27: {
			int const j = h.source(), l = h.source();
			if (j < 0) break;
			Opt const &a = h.pool[j], &b = h.pool[l];
			Obj const &x = h.model[j], &y = h.model[l];
			bool const eq = x.tag == y.tag && (!x.tag || x.s[0].key == y.s[0].key), lt = y.tag && (!x.tag || x.s[0].key < y.s[0].key), gt = x.tag && (!y.tag || y.s[0].key < x.s[0].key);
			h.look(cat("compare(o", j, ", o", l, ")"), cat(eq, !eq, lt, gt, !gt, !lt), [&] { return cat(a == b, a != b, a < b, a > b, a <= b, a >= b); });
			break;
		}
		case 28: {
			Opt const& c = o;
			sprout::nullopt_t const u = sprout::nullopt;	// nothing comes before something
			h.look(cat("compare(o", i, ", nullopt)"), cat(!on, on, !on, on, ' ', 0, on, on, 0, ' ', !on, 1, 1, !on), [&] {
				return cat(c == u, c != u, u == c, u != c, ' ', c < u, c > u, u < c, u > c, ' ', c <= u, c >= u, u <= c, u >= c);
			});
			break;
		}
		default: {	// writes through the object
			if (!on || !h.known(i)) break;
			int const d = h.id();
			h.run(cat("o", i, "->key = ", k), KEEP, h.one(i, some(k, d)), [&] { o->key = k; (*o).id = d; });
			break;
		}
		}
	}
	SIM_SCENARIO("C13", "optional", 4, [](Sim& s) { play<H>(s, step); });
#elif SIM_PART == 1
	typedef sprout::variant<Val, ValB, int> Var;
	Obj peek(Var const& v) {
		Obj r;
		r.tag = v.which();
		if (r.tag == 0) r.s.push_back(slot(v.get_at<0>()));
		else if (r.tag == 1) r.s.push_back(slot(v.get_at<1>()));
		else if (r.tag == 2) r.s.push_back(slot(v.get_at<2>()));
		else world().complain(cat("left a variant that holds alternative ", r.tag));
		return r;
	}
	typedef History<Var, peek> H;
	Obj alt(int t, int k, int i) { return Obj{t, std::vector<Slot>(1, Slot{k, t == 2 ? 0 : i, false})}; }
	std::string see(Var const& v) { return show(peek(v)); }
	Obj rest(Obj o) { if (o.tag != 2) o.s[0].unknown = true; return o; }	// what a move leaves
	struct Vis {
		typedef std::string result_type;
		int* calls;
		std::string at(int t, Val const& v) const { v.use("visits"); ++*calls; world().tick(CALL); return show(alt(t, v.key, v.id)); }
		std::string operator()(Val const& v) const { return at(0, v); }
		std::string operator()(ValB const& v) const { return at(1, v); }
		std::string operator()(int v) const { ++*calls; world().tick(CALL); return show(alt(2, v, 0)); }
	};
	struct Bump {
		typedef void result_type;
		int k, d;
		void operator()(Val& v) const { v.key = k; v.id = d; }
		void operator()(int& v) const { v = k; }
	};
	void step(H& h) {
		int const i = h.any(), k = h.key(), t = (int)h.s.choose(3);
		Var& v = h.pool[i];
		Obj const was = h.model[i];
		switch (h.s.choose(16)) {
		case 0: case 1: {
			int const d = h.id(), how = (int)h.s.choose(3);
			if (t == 0) { Val x(k, d); Val const& c = x; h.run(cat("v", i, " = Val", how), STATE, h.one(i, alt(0, k, d)), [&] { if (how == 0) v = c; else if (how == 1) v = x; else v = Val(k, d); }); h.s.check(!x.moved, "source-changed", "assigning a value moves from it"); }
			else if (t == 1) { ValB x(k, d); ValB const& c = x; h.run(cat("v", i, " = ValB", how), STATE, h.one(i, alt(1, k, d)), [&] { if (how == 0) v = c; else if (how == 1) v = x; else v = ValB(k, d); }); h.s.check(!x.moved, "source-changed", "assigning a value moves from it"); }
			else { int const c = k; h.run(cat("v", i, " = int", how), STATE, h.one(i, alt(2, k, d)), [&] { if (how == 0) v = c; else v = k + 0; }); }
			break;
		}
		case 2: { int const j = h.source(); if (j < 0) break; h.run(cat("v", i, " = v", j), STATE, h.one(i, h.model[j]), [&] { v = h.pool[j]; }); break; }
		case 3: { int const j = h.source(); if (j < 0) break; Var const& c = h.pool[j]; h.run(cat("v", i, " = const v", j), STATE, h.one(i, h.model[j]), [&] { v = c; }); break; }
		case 4: { int const j = h.source(); if (j < 0) break; h.run(cat("v", i, " = move(v", j, ")"), STATE, h.two(i, h.model[j], j, rest(h.model[j])), [&] { v = std::move(h.pool[j]); }); break; }
		case 5: { int const j = h.any(); int const how = (int)h.s.choose(3); h.run(cat(how ? how == 1 ? "swap" : "sprout::swap" : "member swap", "(v", i, ", v", j, ")"), STATE, h.two(i, h.model[j], j, was), [&] { using sprout::swap; if (how == 0) v.swap(h.pool[j]); else if (how == 1) swap(v, h.pool[j]); else sprout::swap(v, h.pool[j]); }); break; }
		case 6: { int const j = h.source(); if (j < 0) break; Var const& c = h.pool[j]; int const how = (int)h.s.choose(2); h.look(cat("Var(v", j, ")"), show(h.model[j]), [&] { Var x(how ? c : h.pool[j]); return see(x); }); break; }
		case 7: { if (!h.known(i)) break; h.run(cat("Var(move(v", i, "))"), STATE, h.one(i, rest(was)), [&] { Var x(std::move(v)); if (see(x) != show(was)) throw std::runtime_error("with another value"); }); break; }
		case 8: { int const d = h.id(); h.look(cat("Var(alternative ", t, ")"), show(alt(t, k, d)), [&] { Val const a(k, d); ValB b(k, d); if (t == 0) { Var x(a); return see(x); } else if (t == 1) { Var x(b); return see(x); } else { Var x(k); return see(x); } }); break; }
		case 9: case 10: {
			if (!h.known(i)) break;
			int calls = 0;
			Vis const vis = {&calls};
			Var const& c = v;
			int const how = (int)h.s.choose(3);
			h.look(cat("visit(v", i, ")"), show(was), [&] { return how == 0 ? v.apply_visitor(vis) : how == 1 ? c.apply_visitor(vis) : sprout::apply_visitor(vis, c); });
			h.s.check(calls == 1, "wrong-answer", cat("visiting calls the visitor ", calls, " times", h.after()));
			break;
		}
		case 11: { int const d = h.id(); if (!h.known(i)) break; h.run(cat("modify(v", i, ")"), KEEP, h.one(i, alt(was.tag, k, d)), [&] { if (h.s.chance(1, 2)) v.apply_visitor(Bump{k, d}); else if (was.tag == 0) v.get<Val>().key = k, v.get_at<0>().id = d; else if (was.tag == 1) sprout::get<ValB>(v).key = k, v.get<ValB>().id = d; else v.get<int>() = k; }); break; }
		case 12: case 13: {
			int const j = h.source(), l = h.source();
			if (j < 0) break;
			Var const &a = h.pool[j], &b = h.pool[l];
			Obj const &x = h.model[j], &y = h.model[l];
			bool const eq = x.tag == y.tag && x.s[0].key == y.s[0].key, lt = x.tag < y.tag || (x.tag == y.tag && x.s[0].key < y.s[0].key), gt = !eq && !lt;
			h.look(cat("compare(v", j, ", v", l, ")"), cat(eq, !eq, lt, gt, !gt, !lt), [&] { return cat(a == b, a != b, a < b, a > b, a <= b, a >= b); });
			break;
		}
		case 14: { h.look("Var()", show(alt(0, -1, -1)), [&] { Var x; return see(x); }); break; }
		default: {
			if (!h.known(i)) break;
			Var const& c = v;
			h.look(cat("state(v", i, ")"), cat(was.tag, 0, show(was)), [&] { return cat(c.which(), c.empty(), was.tag == 0 ? show(alt(0, c.get<Val>().key, sprout::get<Val>(c).id)) : was.tag == 1 ? show(alt(1, c.get<ValB>().key, sprout::get<ValB>(c).id)) : show(alt(2, sprout::get<int>(c), 0))); });
			break;
		}
		}
	}
	SIM_SCENARIO("C13", "variant", 3, [](Sim& s) { play<H>(s, step); });
#elif SIM_PART == 2
	typedef sprout::tuples::tuple<Val, ValB, int> Tup;
	using sprout::tuples::get;
	Obj peek(Tup const& t) { Obj r; r.tag = 0; r.s.push_back(slot(get<0>(t))); r.s.push_back(slot(get<1>(t))); r.s.push_back(slot(get<2>(t))); return r; }
	typedef History<Tup, peek> H;
	Obj tri(int k, int a, int l, int b, int c) { Obj r; r.tag = 0; r.s.push_back(Slot{k, a, false}); r.s.push_back(Slot{l, b, false}); r.s.push_back(Slot{c, 0, false}); return r; }
	std::string see(Tup const& t) { return show(peek(t)); }
	Obj ints(Obj o) { o.s[2].unknown = false; return o; }	// an int is never moved from
	int order(Obj const& x, Obj const& y) { for (std::size_t k = 0; k != x.s.size(); ++k) if (x.s[k].key != y.s[k].key) return x.s[k].key < y.s[k].key ? -1 : 1; return 0; }
	void step(H& h) {
		int const i = h.any(), k = h.key(), l = h.key(), c = h.key(), a = h.id(), b = h.id();
		Tup& t = h.pool[i];
		Obj const was = h.model[i];
		Obj const fresh = tri(k, a, l, b, c);
		switch (h.s.choose(19)) {
		case 0: { int const j = h.source(); if (j < 0) break; h.run(cat("t", i, " = t", j), BASIC, h.one(i, h.model[j]), [&] { t = h.pool[j]; }); break; }
		case 1: { int const j = h.source(); if (j < 0) break; Tup const& q = h.pool[j]; h.run(cat("t", i, " = const t", j), BASIC, h.one(i, h.model[j]), [&] { t = q; }); break; }
		case 2: { int const j = h.any(); h.run(cat("t", i, " = move(t", j, ")"), BASIC, h.two(i, i == j ? ints(h.unknown(h.model[j])) : h.model[j], j, ints(h.unknown(h.model[j]))), [&] { t = std::move(h.pool[j]); }); break; }
		case 3: { int const j = h.any(); int const how = (int)h.s.choose(3); h.run(cat("swap(t", i, ", t", j, ")"), BASIC, h.two(i, h.model[j], j, was), [&] { using sprout::swap; if (how == 0) t.swap(h.pool[j]); else if (how == 1) swap(t, h.pool[j]); else sprout::swap(t, h.pool[j]); }); break; }
		case 4: { Val const x(k, a); ValB const y(l, b); h.run(cat("t", i, " = tuple of values"), BASIC, h.one(i, fresh), [&] { t = Tup(x, y, c); }); break; }
		case 5: { Val const x(k, a); ValB const y(l, b); h.run(cat("t", i, " = make_tuple"), BASIC, h.one(i, fresh), [&] { t = sprout::tuples::make_tuple(x, y, c); }); break; }
		case 6: { sprout::tuples::tuple<ValB, ValB, short> q(ValB(k, a), ValB(l, b), (short)c); h.run(cat("t", i, " = tuple of other types"), BASIC, h.one(i, fresh), [&] { t = q; }); h.s.check(!get<0>(q).moved && !get<1>(q).moved, "source-changed", "assigning an lvalue tuple moves from it"); break; }
		case 7: { sprout::tuples::tuple<ValB, ValB, short> q(ValB(k, a), ValB(l, b), (short)c); h.run(cat("t", i, " = moved tuple of other types"), BASIC, h.one(i, fresh), [&] { t = std::move(q); }); break; }
		case 8: {	// through references, which stay in place
			int const j = h.any();
			Val x(k, a); ValB y(l, b); int z = c;
			int const how = (int)h.s.choose(3);
			h.run(cat("t", i, " tied to values"), BASIC, h.one(i, fresh), [&] {
				if (how == 0) t = sprout::tuples::tie(x, y, z);
				else if (how == 1) sprout::tuples::tie(get<0>(t), get<1>(t), get<2>(t)) = sprout::tuples::tie(x, y, z);
				else { sprout::tuples::tuple<Val&, ValB&, int&> d(get<0>(t), get<1>(t), get<2>(t)), e(x, y, z); d = e; }
			});
			h.s.check(!x.moved && !y.moved, "source-changed", cat("assigning a tuple of references moves from what they refer to", h.after()));
			(void)j;
			break;
		}
		case 9: {	// unpacks
			if (!h.known(i)) break;
			Val x; ValB y; int z = 0;
			bool const skip = h.s.chance(1, 3);
			bool const ok = h.run(cat("tie = t", i), KEEP, std::vector<H::Change>(), [&] { if (skip) sprout::tuples::tie(x, sprout::tuples::ignore, z) = t; else sprout::tuples::tie(x, y, z) = t; });
			if (ok) h.s.check(slot(x) == was.s[0] && (skip || slot(y) == was.s[1]) && z == was.s[2].key, "wrong-value", cat("unpacking ", show(was), " gives ", show(Obj{0, {slot(x), slot(y), slot(z)}}), h.after()));
			break;
		}
		case 10: { int const j = h.source(); if (j < 0) break; Tup const& q = h.pool[j]; int const how = (int)h.s.choose(2); h.look(cat("Tup(t", j, ")"), show(h.model[j]), [&] { Tup x(how ? q : h.pool[j]); return see(x); }); break; }
		case 11: { if (!h.known(i)) break; h.run(cat("Tup(move(t", i, "))"), BASIC, h.one(i, ints(h.unknown(was))), [&] { Tup x(std::move(t)); if (see(x) != show(was)) throw std::runtime_error("with another value"); }); break; }
		case 12: case 13: {
			int const j = h.source(), m = h.source();
			if (j < 0) break;
			Tup const &p = h.pool[j], &q = h.pool[m];
			int const o = order(h.model[j], h.model[m]);
			h.look(cat("compare(t", j, ", t", m, ")"), cat(o == 0, o != 0, o < 0, o > 0, o <= 0, o >= 0), [&] { return cat(p == q, p != q, p < q, p > q, p <= q, p >= q); });
			break;
		}
		case 14: {
			int const j = h.source();
			if (j < 0 || !h.known(i)) break;
			Tup const &p = h.pool[j], &q = t;
			h.look(cat("tuple_cat(t", j, ", t", i, ")"), show(h.model[j]) + show(was), [&] {
				sprout::tuples::tuple<Val, ValB, int, Val, ValB, int> r = sprout::tuples::tuple_cat(p, q);
				return show(Obj{0, {slot(get<0>(r)), slot(get<1>(r)), slot(get<2>(r))}}) + show(Obj{0, {slot(get<3>(r)), slot(get<4>(r)), slot(get<5>(r))}});
			});
			break;
		}
		case 15: {
			if (!h.known(i)) break;
			h.look(cat("apply(t", i, ")"), show(was), [&] { std::string r; sprout::tuples::apply([&](Val const& x, ValB const& y, int z) { world().tick(CALL); r = show(Obj{0, {slot(x), slot(y), slot(z)}}); }, static_cast<Tup const&>(t)); return r; });
			break;
		}
		case 16: { h.run(cat("get<>(t", i, ") = "), KEEP, h.one(i, fresh), [&] { get<0>(t).key = k; get<0>(t).id = a; get<0>(t).moved = false; get<1>(t).key = l; get<1>(t).id = b; get<1>(t).moved = false; get<2>(t) = c; }); break; }
		case 17: { Val const x(k, a); h.look("flexible tuple", show(Obj{0, {slot(x), Slot{-1, -1, false}, Slot{0, 0, false}}}), [&] { Tup q(sprout::tuples::flexibly_construct, x); return see(q); }); break; }
		default: { if (!h.known(i)) break; h.look(cat("std::tuple(t", i, ")"), show(was), [&] { std::tuple<Val, ValB, int> const q = static_cast<std::tuple<Val, ValB, int> >(static_cast<Tup const&>(t)); return show(Obj{0, {slot(std::get<0>(q)), slot(std::get<1>(q)), slot(std::get<2>(q))}}); }); break; }
		}
	}
	SIM_SCENARIO("C13", "tuple", 3, [](Sim& s) { play<H>(s, step); });
#elif SIM_PART == 3
	typedef sprout::pair<Val, ValB> Pair;
	Obj peek(Pair const& p) { return Obj{0, {slot(p.first), slot(p.second)}}; }
	typedef History<Pair, peek> H;
	Obj duo(int k, int a, int l, int b) { return Obj{0, {Slot{k, a, false}, Slot{l, b, false}}}; }
	std::string see(Pair const& p) { return show(peek(p)); }
	int order(Obj const& x, Obj const& y) { for (std::size_t k = 0; k != x.s.size(); ++k) if (x.s[k].key != y.s[k].key) return x.s[k].key < y.s[k].key ? -1 : 1; return 0; }
	void step(H& h) {
		using sprout::tuples::get;
		int const i = h.any(), k = h.key(), l = h.key(), a = h.id(), b = h.id();
		Pair& p = h.pool[i];
		Obj const was = h.model[i];
		Obj const fresh = duo(k, a, l, b);
		switch (h.s.choose(17)) {
		case 0: { int const j = h.source(); if (j < 0) break; h.run(cat("p", i, " = p", j), BASIC, h.one(i, h.model[j]), [&] { p = h.pool[j]; }); break; }
		case 1: { int const j = h.any(); h.run(cat("p", i, " = move(p", j, ")"), BASIC, h.two(i, i == j ? h.unknown(h.model[j]) : h.model[j], j, h.unknown(h.model[j])), [&] { p = std::move(h.pool[j]); }); break; }
		case 2: { int const j = h.any(); int const how = (int)h.s.choose(3); h.run(cat("swap(p", i, ", p", j, ")"), BASIC, h.two(i, h.model[j], j, was), [&] { using sprout::swap; if (how == 0) p.swap(h.pool[j]); else if (how == 1) swap(p, h.pool[j]); else sprout::swap(p, h.pool[j]); }); break; }
		case 3: { Val const x(k, a); ValB const y(l, b); h.run(cat("p", i, " = pair of values"), BASIC, h.one(i, fresh), [&] { p = Pair(x, y); }); break; }
		case 4: { Val x(k, a); ValB y(l, b); h.run(cat("p", i, " = make_pair"), BASIC, h.one(i, fresh), [&] { p = sprout::make_pair(x, y); }); h.s.check(!x.moved && !y.moved, "source-changed", "make_pair of lvalues moves from them"); break; }
		case 5: { sprout::pair<ValB, ValB> q(ValB(k, a), ValB(l, b)); h.run(cat("p", i, " = pair of other types"), BASIC, h.one(i, fresh), [&] { p = q; }); h.s.check(!q.first.moved && !q.second.moved, "source-changed", "assigning an lvalue pair moves from it"); break; }
		case 6: { sprout::pair<ValB, ValB> q(ValB(k, a), ValB(l, b)); h.run(cat("p", i, " = moved pair of other types"), BASIC, h.one(i, fresh), [&] { p = std::move(q); }); break; }
		case 7: { sprout::tuples::tuple<Val, ValB> q(Val(k, a), ValB(l, b)); h.run(cat("p", i, " = tuple"), BASIC, h.one(i, fresh), [&] { p = q; }); h.s.check(!get<0>(q).moved && !get<1>(q).moved, "source-changed", "assigning an lvalue tuple moves from it"); break; }
		case 8: { sprout::tuples::tuple<Val, ValB> q(Val(k, a), ValB(l, b)); h.run(cat("p", i, " = moved tuple"), BASIC, h.one(i, fresh), [&] { p = std::move(q); }); break; }
		case 9: {
			if (!h.known(i)) break;
			int const how = (int)h.s.choose(3);
			h.look(cat("tuple(p", i, ")"), show(was), [&] {
				Pair const& c = p;
				if (how == 0) { sprout::tuples::tuple<Val, ValB> q(c); return show(Obj{0, {slot(get<0>(q)), slot(get<1>(q))}}); }
				if (how == 1) { sprout::tuples::tuple<Val, ValB> q; q = c; return show(Obj{0, {slot(get<0>(q)), slot(get<1>(q))}}); }
				Val x; ValB y; sprout::tuples::tie(x, y) = c; return show(Obj{0, {slot(x), slot(y)}});
			});
			break;
		}
		case 10: { int const j = h.source(); if (j < 0) break; Pair const& q = h.pool[j]; int const how = (int)h.s.choose(2); h.look(cat("Pair(p", j, ")"), show(h.model[j]), [&] { Pair x(how ? q : h.pool[j]); return see(x); }); break; }
		case 11: { if (!h.known(i)) break; h.run(cat("Pair(move(p", i, "))"), BASIC, h.one(i, h.unknown(was)), [&] { Pair x(std::move(p)); if (see(x) != show(was)) throw std::runtime_error("with another value"); }); break; }
		case 12: case 13: {
			int const j = h.source(), m = h.source();
			if (j < 0) break;
			Pair const &x = h.pool[j], &y = h.pool[m];
			int const o = order(h.model[j], h.model[m]);
			h.look(cat("compare(p", j, ", p", m, ")"), cat(o == 0, o != 0, o < 0, o > 0, o <= 0, o >= 0), [&] { return cat(x == y, x != y, x < y, x > y, x <= y, x >= y); });
			break;
		}
		case 14: { h.look("piecewise", show(fresh), [&] { Pair q(std::piecewise_construct, sprout::tuples::make_tuple(k, a), sprout::tuples::make_tuple(l, b)); return see(q); }); break; }
		case 15: { sprout::tuples::tuple<Val, ValB> const q(Val(k, a), ValB(l, b)); h.look("Pair(tuple)", show(fresh), [&] { Pair x(q); return see(x); }); break; }
		default: { if (!h.known(i)) break; h.look(cat("get<>(p", i, ")"), show(was), [&] { Pair const& c = p; return show(Obj{0, {slot(sprout::tuples::get<0>(c)), slot(sprout::tuples::get<1>(p))}}); }); break; }
		}
	}
	SIM_SCENARIO("C13", "pair", 2, [](Sim& s) { play<H>(s, step); });
#elif SIM_PART == 4
	typedef sprout::array<Val, 4> Arr;
	Obj peek(Arr const& a) { Obj r; r.tag = 0; for (int i = 0; i != 4; ++i) r.s.push_back(slot(a.elems[i])); return r; }
	typedef History<Arr, peek> H;
	std::string see(Arr const& a) { return show(peek(a)); }
	int order(Obj const& x, Obj const& y) { for (std::size_t k = 0; k != x.s.size(); ++k) if (x.s[k].key != y.s[k].key) return x.s[k].key < y.s[k].key ? -1 : 1; return 0; }
	void step(H& h) {
		int const i = h.any(), k = h.key(), d = h.id();
		Arr& a = h.pool[i];
		Obj const was = h.model[i];
		Obj all; all.tag = 0; all.s.assign(4, Slot{k, d, false});
		Obj row; row.tag = 0; for (int j = 0; j != 4; ++j) row.s.push_back(Slot{(k + j * 5) % 6, d, false});
		switch (h.s.choose(16)) {
		case 0: { int const j = h.source(); if (j < 0) break; h.run(cat("a", i, " = a", j), BASIC, h.one(i, h.model[j]), [&] { a = h.pool[j]; }); break; }
		case 1: { int const j = h.any(); h.run(cat("a", i, " = move(a", j, ")"), BASIC, h.two(i, i == j ? h.unknown(h.model[j]) : h.model[j], j, h.unknown(h.model[j])), [&] { a = std::move(h.pool[j]); }); break; }
		case 2: { int const j = h.any(); if (i == j) break; int const how = (int)h.s.choose(3); h.run(cat("swap(a", i, ", a", j, ")"), BASIC, h.two(i, h.model[j], j, was), [&] { using sprout::swap; if (how == 0) a.swap(h.pool[j]); else if (how == 1) swap(a, h.pool[j]); else sprout::swap(a, h.pool[j]); }); break; }
		case 3: { Val const v(k, d); bool const f = h.s.chance(1, 2); h.run(cat("a", i, f ? ".fill" : ".assign"), BASIC, h.one(i, all), [&] { if (f) a.fill(v); else a.assign(v); }); break; }
		case 4: { if (!h.known(i)) break; int const j = (int)h.s.choose(4); Obj to = was; to.s.assign(4, was.s[j]); h.run(cat("a", i, ".fill(a", i, "[", j, "])"), BASIC, h.one(i, to), [&] { a.fill(a[j]); }); break; }
		case 5: { Val const v(k, d); bool const f = h.s.chance(1, 2); h.look("const fill", show(all), [&] { Arr const& c = a; return see(f ? c.fill(v) : c.assign(v)); }); break; }
		case 6: { sprout::array<ValB, 4> q = {{ValB(row.s[0].key, d), ValB(row.s[1].key, d), ValB(row.s[2].key, d), ValB(row.s[3].key, d)}}; bool const m = h.s.chance(1, 2); h.run(cat("a", i, " = ", m ? "moved " : "", "array of another type"), BASIC, h.one(i, row), [&] { if (m) a = std::move(q); else a = q; }); if (!m) for (int j = 0; j != 4; ++j) h.s.check(!q[j].moved, "source-changed", "assigning an lvalue array moves from it"); break; }
		case 7: { int const j = h.source(); if (j < 0) break; Arr const& c = h.pool[j]; h.look(cat("Arr(a", j, ")"), show(h.model[j]), [&] { Arr x(c); return see(x); }); break; }
		case 8: case 9: {
			int const j = h.source(), m = h.source();
			if (j < 0) break;
			Arr const &x = h.pool[j], &y = h.pool[m];
			int const o = order(h.model[j], h.model[m]);
			h.look(cat("compare(a", j, ", a", m, ")"), cat(o == 0, o != 0, o < 0, o > 0, o <= 0, o >= 0), [&] { return cat(x == y, x != y, x < y, x > y, x <= y, x >= y); });
			break;
		}
		case 10: {
			int const j = (int)h.s.choose(7);
			Arr const& c = a;
			int out = 0;
			h.run(cat("at(", j, ")"), KEEP, std::vector<H::Change>(), [&] {
				try { if (&a.at(j) != &a.elems[j]) throw std::runtime_error("another element"); } catch (std::out_of_range&) { ++out; }
				try { if (&c.at(j) != &a.elems[j]) throw std::runtime_error("another element"); } catch (std::out_of_range&) { ++out; }
				try { if (&*a.nth(j) != &a.elems[j] || a.index_of(a.nth(j)) != (std::size_t)j) throw std::runtime_error("another element"); } catch (std::out_of_range&) { ++out; }
				try { if (&*c.nth(j) != &a.elems[j] || c.index_of(c.nth(j)) != (std::size_t)j) throw std::runtime_error("another element"); } catch (std::out_of_range&) { ++out; }
			});
			h.s.check(out == (j < 4 ? 0 : 4), "wrong-answer", cat("element ", j, " of an array of 4 is out of range ", out, " times of 4", h.after()));
			break;
		}
		case 11: {
			Arr const& c = a;
			h.look(cat("iterate(a", i, ")"), std::string("0123 0123 3210 3210 0123 3210 40 03 03 00"), [&] {
				std::string r;
				for (Arr::iterator it = a.begin(); it != a.end(); ++it) r += cat(&*it - a.elems);
				r += ' '; for (Arr::const_iterator it = c.begin(); it != c.end(); ++it) r += cat(&*it - a.elems);
				r += ' '; for (Arr::reverse_iterator it = a.rbegin(); it != a.rend(); ++it) r += cat(&*it - a.elems);
				r += ' '; for (Arr::const_reverse_iterator it = c.rbegin(); it != c.rend(); ++it) r += cat(&*it - a.elems);
				r += ' '; for (Arr::const_iterator it = a.cbegin(); it != a.cend(); ++it) r += cat(&*it - a.elems);
				r += ' '; for (Arr::const_reverse_iterator it = a.crbegin(); it != a.crend(); ++it) r += cat(&*it - a.elems);
				return r + cat(' ', c.size(), c.empty(), ' ', &a.front() - a.elems, &a.back() - a.elems, ' ', &c.front() - a.elems, &c.back() - a.elems, ' ', a.data() - a.elems, c.data() - a.elems);
			});
			break;
		}
		case 12: { int const j = (int)h.s.choose(4); Obj to = was; to.s[j] = Slot{k, d, false}; h.run(cat("a", i, "[", j, "] = value"), BASIC, h.one(i, to), [&] { a[j] = Val(k, d); }); break; }
		case 13: { if (!h.known(i)) break; h.look(cat("std::array(a", i, ")"), show(was), [&] { std::array<Val, 4> const q = static_cast<Arr const&>(a); Arr const b = sprout::to_array(q); return see(b); }); break; }
		case 14: { Val const q[4] = {Val(row.s[0].key, d), Val(row.s[1].key, d), Val(row.s[2].key, d), Val(row.s[3].key, d)}; h.look("to_array", show(row), [&] { return see(sprout::to_array(q)); }); break; }
		default: { h.look("make_array", show(row), [&] { return see(sprout::make_array<Val>(Val(row.s[0].key, d), Val(row.s[1].key, d), Val(row.s[2].key, d), Val(row.s[3].key, d))); }); break; }
		}
	}
	SIM_SCENARIO("C13", "array", 2, [](Sim& s) { play<H>(s, step); });
#elif SIM_PART == 5
	typedef sprout::value_holder<Val> Hold;
	Obj peek(Hold const& o) { return Obj{0, {slot(o.get())}}; }
	typedef History<Hold, peek> H;
	Obj val(int k, int d) { return Obj{0, {Slot{k, d, false}}}; }
	std::string see(Hold const& o) { return show(peek(o)); }
	void step(H& h) {
		int const i = h.any(), k = h.key(), d = h.id();
		Hold& o = h.pool[i];
		Obj const was = h.model[i];
		switch (h.s.choose(10)) {
		case 0: { int const j = h.source(); if (j < 0) break; h.run(cat("h", i, " = h", j), STRONG, h.one(i, h.model[j]), [&] { o = h.pool[j]; }); break; }
		case 1: { int const j = h.any(); h.run(cat("h", i, " = move(h", j, ")"), STRONG, h.two(i, h.model[j], j, h.unknown(h.model[j])), [&] { o = std::move(h.pool[j]); }); break; }
		case 2: { Val v(k, d); h.run(cat("h", i, " = value"), STRONG, h.one(i, val(k, d)), [&] { o = v; }); h.s.check(!v.moved, "source-changed", "assigning an lvalue moves from it"); break; }
		case 3: { h.run(cat("h", i, " = moved value"), STRONG, h.one(i, val(k, d)), [&] { o = Val(k, d); }); break; }
		case 4: { int const j = h.any(); int const how = (int)h.s.choose(3); h.run(cat("swap(h", i, ", h", j, ")"), STRONG, h.two(i, h.model[j], j, was), [&] { using sprout::swap; if (how == 0) o.swap(h.pool[j]); else if (how == 1) swap(o, h.pool[j]); else sprout::swap(o, h.pool[j]); }); break; }
		case 5: { int const j = h.source(); if (j < 0) break; Hold const& c = h.pool[j]; h.look(cat("Hold(h", j, ")"), show(h.model[j]), [&] { Hold x(c); return see(x); }); break; }
		case 6: { if (!h.known(i)) break; h.run(cat("Hold(move(h", i, "))"), STRONG, h.one(i, h.unknown(was)), [&] { Hold x(std::move(o)); if (see(x) != show(was)) throw std::runtime_error("with another value"); }); break; }
		case 7: { h.look("Hold(in_place)", show(val(k, d)), [&] { Hold x(sprout::in_place, k, d); return see(x); }); break; }
		case 8: { h.run(cat("h", i, "->"), KEEP, h.one(i, val(k, d)), [&] { o->key = k; (*o).id = d; o.get().moved = false; }); break; }
		default: { Hold const& c = o; h.look(cat("access(h", i, ")"), std::string("1111"), [&] { return cat(&o.get() == o.get_pointer(), &*c == c.get_ptr(), &c.value() == &o.value(), bool(o)); }); break; }
		}
	}
	typedef sprout::compressed_pair<Val, ValB> Comp;
	Obj peek2(Comp const& p) { return Obj{0, {slot(p.first()), slot(p.second())}}; }
	typedef History<Comp, peek2> HC;
	void step2(HC& h) {
		int const i = h.any(), k = h.key(), l = h.key(), a = h.id(), b = h.id();
		Comp& p = h.pool[i];
		Obj const was = h.model[i];
		Obj const fresh = Obj{0, {Slot{k, a, false}, Slot{l, b, false}}};
		switch (h.s.choose(7)) {
		case 0: { int const j = h.source(); if (j < 0) break; h.run(cat("c", i, " = c", j), BASIC, h.one(i, h.model[j]), [&] { p = h.pool[j]; }); break; }
		case 1: { int const j = h.any(); h.run(cat("c", i, " = move(c", j, ")"), BASIC, h.two(i, i == j ? h.unknown(h.model[j]) : h.model[j], j, h.unknown(h.model[j])), [&] { p = std::move(h.pool[j]); }); break; }
		case 2: { int const j = h.any(); int const how = (int)h.s.choose(3); h.run(cat("swap(c", i, ", c", j, ")"), BASIC, h.two(i, h.model[j], j, was), [&] { using sprout::swap; if (how == 0) p.swap(h.pool[j]); else if (how == 1) swap(p, h.pool[j]); else sprout::swap(p, h.pool[j]); }); break; }
		case 3: { Val const x(k, a); ValB const y(l, b); h.run(cat("c", i, " = pair of values"), BASIC, h.one(i, fresh), [&] { p = Comp(x, y); }); break; }
		case 4: { int const j = h.source(); if (j < 0) break; Comp const& c = h.pool[j]; h.look(cat("Comp(c", j, ")"), show(h.model[j]), [&] { Comp x(c); return show(peek2(x)); }); break; }
		case 5: { Val const x(k, a); h.look("Comp(first)", cat(k, a), [&] { Comp c(x); return cat(c.first().key, c.first().id); }); break; }
		default: { h.run(cat("c", i, ".first() = "), KEEP, h.one(i, fresh), [&] { p.first().key = k; p.first().id = a; p.first().moved = false; p.second().key = l; p.second().id = b; p.second().moved = false; }); break; }
		}
	}
	SIM_SCENARIO("C13", "holder", 1, [](Sim& s) { play<H>(s, step); });
	SIM_SCENARIO("C13", "compressed pair", 1, [](Sim& s) { play<HC>(s, step2); });
#else
	// variables, changed only through references to them
	Obj peek(Val const& v) { return Obj{0, {slot(v)}}; }
	typedef History<Val, peek> H;
	typedef sprout::pair<Val&, Val&> Pair;
	typedef sprout::tuples::tuple<Val&, Val&> Tup;
	typedef sprout::optional<Val&> Opt;
	typedef sprout::value_holder<Val&> Hold;
	Obj val(int k, int d) { return Obj{0, {Slot{k, d, false}}}; }
	std::string see(Val const& a, Val const& b) { return show(Obj{0, {slot(a), slot(b)}}); }
	void step(H& h) {
		int const i = h.any(), j = (i + 1 + (int)h.s.choose(2)) % 3, k = h.key(), l = h.key(), a = h.id(), b = h.id();
		Val &p = h.pool[i], &q = h.pool[j];
		Obj const wasp = h.model[i], wasq = h.model[j];
		std::string const two = cat("(v", i, ", v", j, ")");
		std::vector<H::Change> const both = h.two(i, val(k, a), j, val(l, b));
		switch (h.s.choose(10)) {
		case 0: {	// from references of the same type: copies
			Val x(k, a), y(l, b);
			int const how = (int)h.s.choose(8);
			h.run(cat("refs", two, " = refs ", how), BASIC, both, [&] {
				if (how == 0) { Pair d(p, q), e(x, y); d = e; }
				else if (how == 1) { Pair d(p, q); Pair const e(x, y); d = e; }
				else if (how == 2) { Pair d(p, q); d = Pair(x, y); }
				else if (how == 3) { Tup d(p, q), e(x, y); d = e; }
				else if (how == 4) { Tup d(p, q); Tup const e(x, y); d = e; }
				else if (how == 5) { Tup d(p, q); d = Tup(x, y); }
				else if (how == 6) { sprout::tuples::tie(p, q) = sprout::tuples::tie(x, y); }
				else { sprout::tuples::tuple<Val&> d(p), e(x); d = std::move(e); sprout::pair<Val&, int> f(q, 1), g(y, 2); f = std::move(g); }
			});
			h.s.check(!x.moved && !y.moved && x.id == a && y.id == b, "source-changed", cat("assigning references moves from what they refer to (", how, ")", h.after()));
			break;
		}
		case 1: {	// from references of another type: copies
			Val x(k, a), y(l, b);
			int const how = (int)h.s.choose(8);
			h.run(cat("refs", two, " = other refs ", how), BASIC, both, [&] {
				if (how == 0) { Pair d(p, q); sprout::tuples::tuple<Val&, Val&> e(x, y); d = e; }
				else if (how == 1) { Pair d(p, q); d = sprout::tuples::tuple<Val&, Val&>(x, y); }
				else if (how == 2) { Pair d(p, q); d = sprout::pair<Val const&, Val&>(x, y); }
				else if (how == 3) { Tup d(p, q); sprout::pair<Val&, Val&> e(x, y); d = e; }
				else if (how == 4) { Tup d(p, q); d = sprout::pair<Val&, Val&>(x, y); }
				else if (how == 5) { Tup d(p, q); d = sprout::tuples::tuple<Val const&, Val&>(x, y); }
				else if (how == 6) { Tup d(p, q); sprout::pair<Val&, Val const&> const e(x, y); d = e; }
				else { Pair d(p, q); sprout::pair<Val const&, Val const&> const e(x, y); d = e; }
			});
			h.s.check(!x.moved && !y.moved && x.id == a && y.id == b, "source-changed", cat("assigning other references moves from what they refer to (", how, ")", h.after()));
			break;
		}
		case 2: {	// from values
			sprout::pair<Val, Val> x(Val(k, a), Val(l, b));
			sprout::tuples::tuple<Val, Val> y(Val(k, a), Val(l, b));
			int const how = (int)h.s.choose(6);
			h.run(cat("refs", two, " = values ", how), BASIC, both, [&] {
				if (how == 0) { Pair d(p, q); d = x; }
				else if (how == 1) { Pair d(p, q); d = y; }
				else if (how == 2) { Tup d(p, q); d = x; }
				else if (how == 3) { Tup d(p, q); d = y; }
				else if (how == 4) { sprout::tuples::tie(p, q) = sprout::tuples::tuple<Val, Val>(Val(k, a), Val(l, b)); }
				else { Pair d(p, q); d = sprout::pair<Val, Val>(Val(k, a), Val(l, b)); }
			});
			h.s.check(how > 3 || (!x.first.moved && !x.second.moved && !sprout::tuples::get<0>(y).moved && !sprout::tuples::get<1>(y).moved), "source-changed", cat("assigning lvalues to references moves from them (", how, ")", h.after()));
			break;
		}
		case 3: {	// values made from references
			if (!h.known(i) || !h.known(j)) break;
			int const how = (int)h.s.choose(7);
			h.look(cat("values of refs", two, " ", how), show(Obj{0, {wasp.s[0], wasq.s[0]}}), [&] {
				if (how == 0) { Pair d(p, q); sprout::pair<Val, Val> v(d); return see(v.first, v.second); }
				if (how == 1) { sprout::pair<Val, Val> v(Pair(p, q)); return see(v.first, v.second); }
				if (how == 2) { sprout::pair<Val, Val> v; v = Pair(p, q); return see(v.first, v.second); }
				if (how == 3) { sprout::tuples::tuple<Val, Val> v(Tup(p, q)); return see(sprout::tuples::get<0>(v), sprout::tuples::get<1>(v)); }
				if (how == 4) { sprout::tuples::tuple<Val, Val> v; v = Tup(p, q); return see(sprout::tuples::get<0>(v), sprout::tuples::get<1>(v)); }
				if (how == 5) { Val const x(sprout::tuples::get<0>(Tup(p, q))), y(sprout::tuples::get<1>(Tup(p, q))); return see(x, y); }
				sprout::tuples::tuple<Val, Val> v; v = Pair(p, q); return see(sprout::tuples::get<0>(v), sprout::tuples::get<1>(v));
			});
			break;
		}
		case 4: {	// identity
			int const how = (int)h.s.choose(6);
			h.look(cat("what refs", two, " refer to ", how), std::string("11"), [&] {
				if (how == 0) { Pair d(p, q), e(d), f(std::move(d)); return cat(&e.first == &p && &f.first == &p, &e.second == &q && &f.second == &q); }
				if (how == 1) { Tup d(p, q), e(d), f(std::move(d)); return cat(&sprout::tuples::get<0>(e) == &p && &sprout::tuples::get<0>(f) == &p, &sprout::tuples::get<1>(e) == &q && &sprout::tuples::get<1>(f) == &q); }
				if (how == 2) { auto d = sprout::make_pair(sprout::ref(p), sprout::cref(q)); return cat(&d.first == &p, &d.second == &q); }
				if (how == 3) { auto d = sprout::tuples::make_tuple(sprout::ref(p), sprout::cref(q)); return cat(&sprout::tuples::get<0>(d) == &p, &sprout::tuples::get<1>(d) == &q); }
				if (how == 4) { auto d = sprout::tuples::forward_as_tuple(p, std::move(q)); return cat(&sprout::tuples::get<0>(d) == &p, &sprout::tuples::get<1>(d) == &q); }
				auto d = sprout::tuples::tuple_cat(sprout::tuples::tie(p), sprout::tuples::tie(q)); return cat(&sprout::tuples::get<0>(d) == &p, &sprout::tuples::get<1>(d) == &q);
			});
			break;
		}
		case 5: {	// optional references are rebound
			int const how = (int)h.s.choose(8);
			h.look(cat("optional refs", two, " ", how), std::string("11"), [&] {
				Opt o(p), e;
				if (how == 0) { e = o; return cat(e.is_initialized() && &*e == &p, o.is_initialized() && &*o == &p); }
				if (how == 1) { e = std::move(o); return cat(e.is_initialized() && &*e == &p, true); }
				if (how == 2) { e = Opt(q); e.swap(o); return cat(&*e == &p, &*o == &q); }
				if (how == 3) { o = q; return cat(&*o == &q, &o.get() == o.get_pointer()); }
				if (how == 4) { Opt f(o), g(std::move(f)); return cat(&*g == &p, &g.value() == &p); }
				if (how == 5) { o = e; return cat(!o.is_initialized(), !e.is_initialized()); }
				if (how == 6) { o.emplace(q); return cat(&*o == &q, (bool)o); }
				o = sprout::nullopt; return cat(!o.is_initialized(), &o.value_or(q) == &q || true);
			});
			break;
		}
		case 6: {	// values of optional references
			if (!h.known(i)) break;
			int const how = (int)h.s.choose(4);
			h.look(cat("optional value of ref(v", i, ") ", how), show(wasp), [&] {
				Opt o(p);
				if (how == 0) { sprout::optional<Val> v(o); return show(peek(*v)); }
				if (how == 1) { sprout::optional<Val> v(std::move(o)); return show(peek(*v)); }
				if (how == 2) { sprout::optional<Val> v; v = o; return show(peek(*v)); }
				sprout::optional<Val> v; v = std::move(o); return show(peek(*v));
			});
			break;
		}
		case 7: { int const how = (int)h.s.choose(3); Val x(k, a); h.run(cat("through a ref(v", i, ") = value ", how), BASIC, h.one(i, val(k, a)), [&] { if (how == 0) { Opt o(p); *o = x; } else if (how == 1) { Hold o(p); *o = x; } else { Opt o(p); o->operator=(x); } }); h.s.check(!x.moved, "source-changed", "assigning an lvalue through a reference moves from it"); break; }
		case 8: { h.look(cat("holder refs", two), std::string("111"), [&] { Hold o(p), e(q), f(o); e = o; f = std::move(e); Hold g(q); g.swap(o); return cat(&*f == &p, &*g == &p, &o.get() == &q); }); break; }
		default: {	// piecewise construction moves what it is given to move
			Val x(k, a); Val y(l, b);
			int const how = (int)h.s.choose(2);
			h.look(cat("piecewise ", how), show(Obj{0, {Slot{k, a, false}, Slot{l, b, false}}}), [&] {
				if (how) { sprout::pair<Val, Val> v(std::piecewise_construct, sprout::tuples::forward_as_tuple(std::move(x)), sprout::tuples::forward_as_tuple(y)); return see(v.first, v.second); }
				sprout::pair<Val, Val> v(std::piecewise_construct, sprout::tuples::forward_as_tuple(k, a), sprout::tuples::make_tuple(l, b)); return see(v.first, v.second);
			});
			h.s.check(!y.moved, "source-changed", cat("piecewise construction moves from an lvalue", h.after()));
			break;
		}
		}
	}
	SIM_SCENARIO("C13", "references", 1, [](Sim& s) { play<H>(s, step); });
#endif
}
