// C16: iterator adaptors and range adaptors.  Several copies of an adaptor's iterators wander over the sequence it stands for
// (every operation of their category, failing predicates, functions and base iterators in between) against a vector and positions.
#include "alg.hpp"
#include <array>
#include <sprout/iterator.hpp>
#include <sprout/iterator/adaptor.hpp>
#include <sprout/iterator/clamp_iterator.hpp>
#include <sprout/iterator/operation.hpp>
using namespace sim;
using namespace alg;
namespace {
	typedef std::vector<Cell const*> Addrs;
	inline std::string show(Cell const* c) { return c ? cat(c->key, "#", c->id) : std::string("?"); }
	inline std::string show(KI const& c) { return cat(c.key, "#", c.id); }
	inline std::string show(long c) { return cat(c); }
	template<typename V> std::string show_all(std::vector<V> const& v) {
		std::string r = "[";
		for (std::size_t i = 0; i != v.size(); ++i) r += (i ? " " : "") + show(v[i]);
		return r + "]";
	}
	struct ByAddr { Cell const* operator()(Cell const& c) const { return &c; } enum { arrow = 1 }; template<typename P> Cell const* ptr(P const& p) const { return &*p; } };
	struct ByAddrOnly { Cell const* operator()(Cell const& c) const { return &c; } enum { arrow = 0 }; };
	struct ByValue { KI operator()(Cell const& c) const { c.use("reads"); return KI{c.key, c.id}; } enum { arrow = 0 }; };
	struct ByInt { long operator()(long c) const { return c; } enum { arrow = 0 }; };
	struct NoExtra { template<typename W, typename I> void operator()(W&, char const*, I const&, long) const { } };

	template<typename I, typename V, typename C, typename X>
	struct Walker {
		struct Slot { I it; long p; };
		Sim& s;
		std::string name;
		I first, last;
		std::vector<V> const& want;
		C conv;
		X extra;
		long n;
		std::vector<Slot> slots;
		typedef typename std::iterator_traits<I>::iterator_category category;
		typedef typename std::iterator_traits<I>::difference_type D;
		enum { bidi = std::is_convertible<category, std::bidirectional_iterator_tag>::value, random = std::is_convertible<category, std::random_access_iterator_tag>::value };
		Walker(Sim& s_, std::string const& name_, I const& f, I const& l, std::vector<V> const& w, C c, X x)
			: s(s_), name(name_), first(f), last(l), want(w), conv(c), extra(x), n((long)w.size())
		{
			for (int i = 0; i != 4; ++i) slots.push_back(Slot{first, 0});
		}
		void calm() { world().mask = 0; }
		void wrong(char const* cls, char const* op, std::string const& what) { s.fail(cls, cat(name, " of ", show_all(want), ": ", op, " ", what)); }
		void sound(char const* op) { if (!world().bad.empty()) wrong("bounds", op, world().bad); }
		void is(char const* op, I const& it, long p) {
			calm();
			s.checked();
			bool const at_end = it == last;
			if (at_end != (p == n)) wrong("position", op, at_end ? cat("gives the end instead of position ", p) : std::string("should give the end"));
			if ((it != last) == at_end) wrong("position", op, "gives an iterator that is both equal to the end and not");
			if (p != n) value(op, conv(*it), p);
			extra(*this, op, it, p);
			sound(op);
		}
		void truth(char const* op, bool got, bool expected) { s.checked(); if (got != expected) wrong("result", op, cat("is ", got)); }
		void value(char const* op, V const& got, long p) { s.checked(); if (!(got == want[p])) wrong("element", op, cat("gives ", show(got), " instead of ", show(want[p]), " at ", p)); }
		void count(char const* op, long got, long expected) { s.checked(); if (got != expected) wrong("result", op, cat("is ", got, " instead of ", expected)); }
		template<typename Cc> typename std::enable_if<Cc::arrow>::type arrow(Slot& a, Cc) { V const v = conv.ptr(a.it.operator->()); calm(); value("->", v, a.p); }
		template<typename Cc> typename std::enable_if<!Cc::arrow>::type arrow(Slot& a, Cc) { V const v = conv(*a.it); calm(); value("*", v, a.p); }
		void forward(int op, Slot& a, Slot& b) {
			switch (op) {
			case 0: if (a.p < n) { V const v = conv(*a.it); calm(); value("*", v, a.p); } break;
			case 1: if (a.p < n) arrow(a, conv); break;
			case 2: case 3: if (a.p < n) { I& r = ++a.it; calm(); ++a.p; truth("the result of ++", &r == &a.it, true); is("++", a.it, a.p); } break;
			case 4: if (a.p < n) { I const r = a.it++; calm(); ++a.p; is("the result of it++", r, a.p - 1); is("it++", a.it, a.p); } break;
			case 5: if (a.p < n) { I const r = sprout::next(a.it); calm(); is("next(it)", r, a.p + 1); } break;
			case 6: {
				long const d = s.range(0, n - a.p);
				I const r = sprout::next(a.it, (D)d);
				calm(); is("next(it, n)", r, a.p + d);
				break;
			}
			case 7: {
				long const d = s.range(0, n - a.p);
				sprout::advance(a.it, (D)d);
				calm(); a.p += d; is("advance(it, n)", a.it, a.p);
				break;
			}
			case 8: a.it = b.it; calm(); a.p = b.p; break;
			case 9: { I c(b.it); I const d(c); a.it = d; calm(); a.p = b.p; break; }
			case 10: a.it.swap(b.it); calm(); std::swap(a.p, b.p); break;
			case 11: { using sprout::swap; swap(a.it, b.it); calm(); std::swap(a.p, b.p); break; }
			case 12: { bool const e = a.it == b.it; calm(); truth("==", e, a.p == b.p); break; }
			case 13: { bool const e = a.it != b.it; calm(); truth("!=", e, a.p != b.p); break; }
			case 14: {
				if (!random && a.p > b.p) break;
				long const d = (long)sprout::distance(a.it, b.it);
				calm(); count("distance(a, b)", d, b.p - a.p);
				break;
			}
			case 15: {
				long left = n - a.p;
				I i(a.it);
				long k = a.p;
				for (; i != last; ++i, ++k) {
					if (!left--) { calm(); wrong("position", "a walk", cat("from ", a.p, " does not end")); }
					value("*", conv(*i), k);
				}
				calm(); count("the end of a walk", k, n);
				break;
			}
			case 16: if (s.chance(1, 3)) { a.it = last; a.p = n; } else { a.it = first; a.p = 0; } calm(); break;
			}
		}
		template<typename T> typename std::enable_if<!std::is_convertible<T, std::bidirectional_iterator_tag>::value>::type backward(int op, Slot& a, Slot& b, T) { forward(op, a, b); }
		template<typename T> typename std::enable_if<std::is_convertible<T, std::bidirectional_iterator_tag>::value>::type backward(int op, Slot& a, Slot& b, T) {
			switch (op) {
			case 17: case 18: if (a.p > 0) { I& r = --a.it; calm(); --a.p; truth("the result of --", &r == &a.it, true); is("--", a.it, a.p); } break;
			case 19: if (a.p > 0) { I const r = a.it--; calm(); --a.p; is("the result of it--", r, a.p + 1); is("it--", a.it, a.p); } break;
			case 20: if (a.p > 0) { I const r = sprout::prev(a.it); calm(); is("prev(it)", r, a.p - 1); } break;
			case 21: {
				long const d = s.range(-(n - a.p), a.p);
				I const r = sprout::prev(a.it, (D)d);
				calm(); is("prev(it, n)", r, a.p - d);
				break;
			}
			case 22: {
				long const d = s.range(-a.p, n - a.p);
				sprout::advance(a.it, (D)d);
				calm(); a.p += d; is("advance(it, n)", a.it, a.p);
				break;
			}
			case 23: {
				long const d = s.range(-a.p, n - a.p);
				I const r = sprout::next(a.it, (D)d);
				calm(); is("next(it, n)", r, a.p + d);
				break;
			}
			default: forward(op, a, b);
			}
		}
		template<typename T> typename std::enable_if<!std::is_convertible<T, std::random_access_iterator_tag>::value>::type jump(int op, Slot& a, Slot& b, T t) { backward(op, a, b, t); }
		template<typename T> typename std::enable_if<std::is_convertible<T, std::random_access_iterator_tag>::value>::type jump(int op, Slot& a, Slot& b, T t) {
			long const d = op >= 24 && op < 30 ? s.range(-a.p, n - a.p) : 0;
			switch (op) {
			case 24: { I const r = a.it + (D)d; calm(); is("it + n", r, a.p + d); break; }
			case 25: { I const r = (D)d + a.it; calm(); is("n + it", r, a.p + d); break; }
			case 26: { I const r = a.it - (D)-d; calm(); is("it - n", r, a.p + d); break; }
			case 27: { I& r = a.it += (D)d; calm(); a.p += d; truth("the result of +=", &r == &a.it, true); is("+=", a.it, a.p); break; }
			case 28: { I& r = a.it -= (D)-d; calm(); a.p += d; truth("the result of -=", &r == &a.it, true); is("-=", a.it, a.p); break; }
			case 29: if (a.p + d < n) { V const v = conv(a.it[(D)d]); calm(); value("[]", v, a.p + d); } break;
			case 30: { long const r = (long)(a.it - b.it); calm(); count("a - b", r, a.p - b.p); break; }
			case 31: { bool const e = a.it < b.it; calm(); truth("<", e, a.p < b.p); break; }
			case 32: { bool const e = a.it > b.it; calm(); truth(">", e, a.p > b.p); break; }
			case 33: { bool const e = a.it <= b.it; calm(); truth("<=", e, a.p <= b.p); break; }
			case 34: { bool const e = a.it >= b.it; calm(); truth(">=", e, a.p >= b.p); break; }
			default: backward(op, a, b, t);
			}
		}
		void run(unsigned failing) {
			long const ops = 4 + s.skewed(28);
			unsigned long long seen = 1469598103934665603ull;
			is("begin()", first, 0);
			is("end()", last, n);
			for (long k = 0; k != ops; ++k) {
				s.step();
				long const i = s.range(0, (long)slots.size() - 1), j = s.range(0, (long)slots.size() - 1);
				int const op = (int)s.range(0, random ? 34 : bidi ? 23 : 16);
				bool const broken = failing && s.chance(1, 5);
				world().reset(broken ? failing : 0, broken ? 1 + s.skewed(7) : 0, 4000);
				s.log(cat(name, " slot ", i, " at ", slots[i].p, " op ", op, " slot ", j, " at ", slots[j].p, broken ? " failing" : ""));
				try {
					jump(op, slots[i], slots[j], category());
				} catch (InjectedFault const&) {
					calm();
					s.fault("failing operation");
					// what an interrupted step leaves in its own iterator is not specified; nothing else may change
					bool const e = s.chance(1, 2);
					slots[i].it = e ? last : first;
					slots[i].p = e ? n : 0;
				} catch (Stop const&) {
					calm();
				}
				sound(cat("operation ", op).c_str());
				world().reset(0, 0, 4000);
				try {
					for (std::size_t x = 0; x != slots.size(); ++x) is("after the operation, a copy", slots[x].it, slots[x].p);
				} catch (Stop const&) {
					sound("looking at a copy");
				}
				seen = (seen ^ (unsigned long long)(slots[i].p * 41 + op)) * 1099511628211ull;
				s.state(hash_str(name) ^ seen);
			}
			if (n > 1) s.nontrivial();
		}
	};
	template<typename I, typename V, typename C, typename X>
	void walk(Sim& s, std::string const& name, I const& f, I const& l, std::vector<V> const& want, C c, X x, unsigned failing = CMP | READ | STEP) {
		Walker<I, V, C, X> w(s, name, f, l, want, c, x);
		try { w.run(failing); }
		catch (Stop const&) { w.calm(); w.sound("walking"); }
	}
	template<typename I, typename V, typename C>
	void walk(Sim& s, std::string const& name, I const& f, I const& l, std::vector<V> const& want, C c) { walk(s, name, f, l, want, c, NoExtra()); }
}

namespace {
	template<typename B> B at(Buf& b, long p) { return Make<B>::at(b, p); }
	struct Data {
		Keys a, b;
		Buf A, B;
		static Keys keys(Sim& s, long n, int range, int id0) {
			Keys r;
			for (long i = 0; i != n; ++i) r.push_back(KI{(int)s.range(0, range), id0 + (int)i});
			return r;
		}
		Data(Keys const& a_, Keys const& b_) : a(a_), b(b_), A(a_), B(b_) { }
		Cell const* pa(long i) const { return A.at(i); }
		Cell const* pb(long i) const { return B.at(i); }
		long na() const { return A.n; }
		long nb() const { return B.n; }
		void done(Sim& s, std::string const& name) {
			A.verify("the first source"); B.verify("the second source");
			if (!world().bad.empty()) s.fail("bounds", cat(name, " ", world().bad));
			s.check(A.keys() == a && B.keys() == b, "sources", cat(name, " changed a source"));
		}
	};
	struct Start { Start() { world().reset(0, 0, 100000); } };
	template<typename B> struct Name;
	template<> struct Name<It<std::forward_iterator_tag, Cell> > { static char const* get() { return "forward iterators"; } };
	template<> struct Name<It<std::bidirectional_iterator_tag, Cell> > { static char const* get() { return "bidirectional iterators"; } };
	template<> struct Name<It<std::random_access_iterator_tag, Cell> > { static char const* get() { return "random access iterators"; } };
	template<> struct Name<Cell*> { static char const* get() { return "pointers"; } };
	template<> struct Name<Cell const*> { static char const* get() { return "const pointers"; } };
	// plain functions, without state that could fail
	inline bool holds(Pred const& p, KI const& c) { return ((c.key % p.mod) + p.mod) % p.mod == p.rest; }
	inline bool before(Less const& l, KI const& a, KI const& b) { return l.desc ? b.key / l.div < a.key / l.div : a.key / l.div < b.key / l.div; }
	Pred some_pred(Sim& s) { int const m = (int)s.range(1, 3); return Pred{m, (int)s.range(0, m == 1 ? 1 : m - 1)}; }

	template<typename B> void filters(Sim& s) {
		Start st;
		Data d(Data::keys(s, s.range(0, 9), 3, 0), Keys());
		B const f = at<B>(d.A, 0), l = at<B>(d.A, d.na());
		int const kind = (int)s.range(0, 7);
		Pred const p = some_pred(s);
		Pred2 const eq{(int)s.range(1, 2)};
		KI const k{(int)s.range(0, 3), 77};
		Cell const v(k.key, k.id);
		Addrs want;
		switch (kind) {
		case 0: case 1:
			for (long i = 0; i != d.na(); ++i) if (holds(p, d.a[i])) want.push_back(d.pa(i));
			walk(s, cat("filter_iterator over ", Name<B>::get()), sprout::make_filter_iterator(p, f, l), sprout::make_filter_iterator(p, l, l), want, ByAddr());
			break;
		case 2:
			for (long i = 0; i != d.na(); ++i) if (d.a[i].key != k.key) want.push_back(d.pa(i));
			walk(s, cat("remove_iterator over ", Name<B>::get()), sprout::make_remove_iterator(v, f, l), sprout::make_remove_iterator(v, l, l), want, ByAddr());
			break;
		case 3:
			for (long i = 0; i != d.na(); ++i) if (!holds(p, d.a[i])) want.push_back(d.pa(i));
			walk(s, cat("remove_if_iterator over ", Name<B>::get()), sprout::make_remove_if_iterator(p, f, l), sprout::make_remove_if_iterator(p, l, l), want, ByAddr());
			break;
		case 4: {
			Less const lt{1, s.chance(1, 2)};
			for (long i = 0; i != d.na(); ++i) if (!i || before(lt, d.a[i - 1], d.a[i])) want.push_back(d.pa(i));
			walk(s, cat("adjacent_filter_iterator over ", Name<B>::get()), sprout::make_adjacent_filter_iterator(lt, f, l), sprout::make_adjacent_filter_iterator(lt, l, l), want, ByAddr());
			break;
		}
		case 5:
			for (long i = 0; i != d.na(); ++i) if (!i || d.a[i - 1].key / eq.div != d.a[i].key / eq.div) want.push_back(d.pa(i));
			walk(s, cat("unique_iterator over ", Name<B>::get()), sprout::make_unique_iterator(eq, f, l), sprout::make_unique_iterator(eq, l, l), want, ByAddr());
			break;
		case 6:
			for (long i = 0; i != d.na(); ++i) if (!i || d.a[i - 1].key != d.a[i].key) want.push_back(d.pa(i));
			walk(s, cat("unique_iterator over ", Name<B>::get()), sprout::make_unique_iterator(f, l), sprout::make_unique_iterator(l, l), want, ByAddr());
			break;
		case 7: {
			// the end of a while_iterator does not know where the walk ended (see KNOWN_FINDINGS.txt): it goes back to the last element that satisfies
			for (long i = 1; i < d.na(); ++i) if (!holds(p, d.a[i - 1])) while (holds(p, d.a[i])) d.a[i].key = d.A.at(i)->key = (d.a[i].key + 1) & 7;
			long e = 0;
			while (e != d.na() && holds(p, d.a[e])) want.push_back(d.pa(e++));
			// the end of a while_iterator is the end of what it walks over
			B const le = at<B>(d.A, d.na());
			walk(s, cat("while_iterator over ", Name<B>::get()), sprout::make_while_iterator(p, f, le), sprout::make_while_iterator(p, le, le), want, ByAddr());
			break;
		}
		}
		d.done(s, "a filter");
	}
	struct Index { template<typename W, typename I> void operator()(W& w, char const* op, I const& it, long p) const { if ((long)it.index() != from + p) w.wrong("index", op, cat("has index ", (long)it.index(), " at ", p)); } long from; };
	struct Held { template<typename W, typename I> void operator()(W& w, char const* op, I const& it, long) const { if (it.get() != v) w.wrong("value", op, cat("holds ", it.get())); } int v; };
	struct Fn2 { int k; Cell operator()(Cell const& a, Cell const& b) const { a.use("transforms"); b.use("transforms"); world().tick(CMP); return Cell(a.key * 10 + b.key + k, a.id); } };
	struct Pick { Cell const& operator()(Cell const& c) const { c.use("looks at"); world().tick(CMP); return c; } };

	template<typename B, typename B2> void maps(Sim& s) {
		Start st;
		long const n = s.range(0, 9);
		Data d(Data::keys(s, n, 3, 0), Data::keys(s, n, 3, 100));
		B const f = at<B>(d.A, 0), l = at<B>(d.A, n);
		B2 const g = at<B2>(d.B, 0), m = at<B2>(d.B, n);
		std::string const on = cat(" over ", Name<B>::get());
		int const kind = (int)s.range(0, 8);
		KI const k{(int)s.range(0, 3), 77}, r{(int)s.range(0, 9), 78};
		Cell const v(k.key, k.id), w(r.key, r.id);
		Keys want;
		Addrs addr;
		switch (kind) {
		case 0: {
			Un const u{(int)s.range(-3, 3)};
			for (long i = 0; i != n; ++i) want.push_back(KI{d.a[i].key + u.k, d.a[i].id});
			walk(s, "transform_iterator" + on, sprout::make_transform_iterator(f, u), sprout::make_transform_iterator(l, u), want, ByValue());
			break;
		}
		case 1: {
			Fn2 const u{(int)s.range(-3, 3)};
			for (long i = 0; i != n; ++i) want.push_back(KI{d.a[i].key * 10 + d.b[i].key + u.k, d.a[i].id});
			auto const b = sprout::make_transform_iterator(f, g, u);
			walk(s, cat("transform_iterator of two", on), b, sprout::make_transform_iterator(l, m, u), want, ByValue());
			break;
		}
		case 2:
			for (long i = 0; i != n; ++i) addr.push_back(d.pa(i));
			walk(s, "transform_iterator giving references" + on, sprout::make_transform_iterator(f, Pick()), sprout::make_transform_iterator(l, Pick()), addr, ByAddr());
			break;
		case 3:
			for (long i = 0; i != n; ++i) want.push_back(d.a[i].key == k.key ? r : d.a[i]);
			walk(s, "replace_iterator" + on, sprout::make_replace_iterator(f, v, w), sprout::make_replace_iterator(l, v, w), want, ByValue());
			break;
		case 4: {
			Pred const p = some_pred(s);
			for (long i = 0; i != n; ++i) want.push_back(holds(p, d.a[i]) ? r : d.a[i]);
			walk(s, "replace_if_iterator" + on, sprout::make_replace_if_iterator(f, p, w), sprout::make_replace_if_iterator(l, p, w), want, ByValue());
			break;
		}
		case 5: {
			long const i0 = s.range(-2, 5);
			for (long i = 0; i != n; ++i) addr.push_back(d.pa(i));
			walk(s, "indexed_iterator" + on, sprout::make_indexed_iterator(f, i0), sprout::make_indexed_iterator(l, i0 + n), addr, ByAddr(), Index{i0});
			break;
		}
		case 6:
			for (long i = 0; i != n; ++i) addr.push_back(d.pa(i));
			walk(s, "move_iterator" + on, sprout::make_move_iterator(f), sprout::make_move_iterator(l), addr, ByAddrOnly());
			break;
		case 7:
			for (long i = 0; i != n; ++i) addr.push_back(d.pa(i));
			walk(s, "valued_iterator" + on, sprout::make_valued_iterator(f, 5), sprout::make_valued_iterator(l, 5), addr, ByAddr(), Held{5});
			break;
		case 8: {
			long const lo = s.range(0, 3), hi = s.range(lo, 3);
			Less const lt{1, false};
			Cell const vl((int)lo, 80), vh((int)hi, 81);
			for (long i = 0; i != n; ++i) want.push_back(d.a[i].key < lo ? KI{(int)lo, 80} : d.a[i].key > hi ? KI{(int)hi, 81} : d.a[i]);
			Cell const* const cf = d.pa(0);
			Cell const* const cl = d.pa(n);
			walk(s, "clamp_iterator", sprout::make_clamp_iterator(cf, vl, vh, lt), sprout::make_clamp_iterator(cl, vl, vh, lt), want, ByValue());
			break;
		}
		}
		d.done(s, "a map");
	}
	template<typename B> void turns(Sim& s) {
		Start st;
		long const n = s.range(0, 9);
		Data d(Data::keys(s, n, 3, 0), Keys());
		B const f = at<B>(d.A, 0), l = at<B>(d.A, n);
		std::string const on = cat(" over ", Name<B>::get());
		Pred const p = some_pred(s);
		Un const u{(int)s.range(-3, 3)};
		Addrs addr;
		Keys want;
		switch (s.range(0, 4)) {
		case 0:
			for (long i = n; i--; ) addr.push_back(d.pa(i));
			walk(s, "reverse_iterator" + on, sprout::make_reverse_iterator(l), sprout::make_reverse_iterator(f), addr, ByAddr());
			break;
		case 1: {
			auto const b = sprout::make_filter_iterator(p, f, l), e = sprout::make_filter_iterator(p, l, l);
			for (long i = n; i--; ) if (holds(p, d.a[i])) addr.push_back(d.pa(i));
			walk(s, "reverse_iterator of filter_iterator" + on, sprout::make_reverse_iterator(e), sprout::make_reverse_iterator(b), addr, ByAddr());
			break;
		}
		case 2: {
			auto const b = sprout::make_reverse_iterator(l), e = sprout::make_reverse_iterator(f);
			for (long i = n; i--; ) if (holds(p, d.a[i])) addr.push_back(d.pa(i));
			walk(s, "filter_iterator of reverse_iterator" + on, sprout::make_filter_iterator(p, b, e), sprout::make_filter_iterator(p, e, e), addr, ByAddr());
			break;
		}
		case 3: {
			auto const b = sprout::make_reverse_iterator(l), e = sprout::make_reverse_iterator(f);
			for (long i = n; i--; ) want.push_back(KI{d.a[i].key + u.k, d.a[i].id});
			walk(s, "transform_iterator of reverse_iterator" + on, sprout::make_transform_iterator(b, u), sprout::make_transform_iterator(e, u), want, ByValue());
			break;
		}
		case 4: {
			auto const b = sprout::make_transform_iterator(f, u), e = sprout::make_transform_iterator(l, u);
			for (long i = n; i--; ) want.push_back(KI{d.a[i].key + u.k, d.a[i].id});
			walk(s, "reverse_iterator of transform_iterator" + on, sprout::make_reverse_iterator(e), sprout::make_reverse_iterator(b), want, ByValue());
			break;
		}
		}
		d.done(s, "a turn");
	}
	template<typename B, typename B2> void pairs(Sim& s) {
		Start st;
		bool const even = s.chance(1, 2);
		long const n = s.range(0, 6), m = even ? n : s.range(0, 6);
		Data d(Data::keys(s, n, 3, 0), Data::keys(s, m, 3, 100));
		B const f = at<B>(d.A, 0), l = at<B>(d.A, n);
		B2 const g = at<B2>(d.B, 0), h = at<B2>(d.B, m);
		std::string const on = cat(" over ", Name<B>::get(), " and ", Name<B2>::get());
		Addrs addr;
		if (even) {
			for (long i = 0; i != n; ++i) { addr.push_back(d.pa(i)); addr.push_back(d.pb(i)); }
			walk(s, "alternate_iterator" + on, sprout::make_alternate_iterator(f, g), sprout::make_alternate_iterator(l, h), addr, ByAddr());
		} else {
			for (long i = 0; i != n; ++i) addr.push_back(d.pa(i));
			for (long i = 0; i != m; ++i) addr.push_back(d.pb(i));
			walk(s, "joint_iterator" + on, sprout::make_joint_iterator(f, l, g, g), sprout::make_joint_iterator(l, l, g, h), addr, ByAddr());
		}
		d.done(s, "a pair of ranges");
	}
	template<typename B> void steps(Sim& s) {
		Start st;
		long const n = s.range(0, 9), w = s.range(1, 4);
		Data d(Data::keys(s, n, 3, 0), Keys());
		B const f = at<B>(d.A, 0), l = at<B>(d.A, n);
		Addrs addr;
		for (long i = 0; i < n; i += w) addr.push_back(d.pa(i));
		sprout::step_iterator<B> const b(f, w, l);
		if (s.chance(1, 2)) {	// the end as reached from the beginning
			sprout::step_iterator<B> e(b);
			for (std::size_t i = 0; i != addr.size(); ++i) ++e;
			walk(s, cat("step_iterator of width ", w, " over ", Name<B>::get()), b, e, addr, ByAddr());
		} else if (n % w == 0 || w == 1 || n == 0)
			walk(s, cat("step_iterator of width ", w, " over ", Name<B>::get()), b, sprout::step_iterator<B>(l, w, l), addr, ByAddr());
		d.done(s, "steps");
	}
	template<typename B, typename B2> void sets(Sim& s) {
		Start st;
		Less const lt{(int)s.range(1, 2), s.chance(1, 2)};
		Data x(Data::keys(s, s.range(0, 7), 3, 0), Data::keys(s, s.range(0, 7), 3, 100));
		std::stable_sort(x.a.begin(), x.a.end(), [&](KI const& a, KI const& b) { return before(lt, a, b); });
		std::stable_sort(x.b.begin(), x.b.end(), [&](KI const& a, KI const& b) { return before(lt, a, b); });
		Data d(x.a, x.b);
		long const n = d.na(), m = d.nb();
		B const f = at<B>(d.A, 0), l = at<B>(d.A, n);
		B2 const g = at<B2>(d.B, 0), h = at<B2>(d.B, m);
		std::string const on = cat(" over ", Name<B>::get(), " and ", Name<B2>::get());
		Addrs a, b, addr;
		for (long i = 0; i != n; ++i) a.push_back(d.pa(i));
		for (long i = 0; i != m; ++i) b.push_back(d.pb(i));
		auto const less = [&](Cell const* p, Cell const* q) { return before(lt, KI{p->key, p->id}, KI{q->key, q->id}); };
		switch (s.range(0, 4)) {
		case 0:
			std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(addr), less);
			walk(s, "merge_iterator" + on, sprout::make_merge_iterator(f, l, g, h, lt), sprout::make_merge_iterator(l, l, h, h, lt), addr, ByAddr());
			break;
		case 1:
			std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(addr), less);
			walk(s, "set_union_iterator" + on, sprout::make_set_union_iterator(f, l, g, h, lt), sprout::make_set_union_iterator(l, l, h, h, lt), addr, ByAddr());
			break;
		case 2:
			std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(addr), less);
			walk(s, "set_intersection_iterator" + on, sprout::make_set_intersection_iterator(f, l, g, h, lt), sprout::make_set_intersection_iterator(l, l, h, h, lt), addr, ByAddr());
			break;
		case 3:
			std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(addr), less);
			walk(s, "set_difference_iterator" + on, sprout::make_set_difference_iterator(f, l, g, h, lt), sprout::make_set_difference_iterator(l, l, h, h, lt), addr, ByAddr());
			break;
		case 4:
			std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(addr), less);
			walk(s, "set_symmetric_difference_iterator" + on, sprout::make_set_symmetric_difference_iterator(f, l, g, h, lt), sprout::make_set_symmetric_difference_iterator(l, l, h, h, lt), addr, ByAddr());
			break;
		}
		d.done(s, "a pair of sorted ranges");
	}
	template<typename T> void counts(Sim& s) {
		Start st;
		long const n = s.range(0, 9), from = s.range(0, 9);
		std::vector<long> want;
		for (long i = 0; i != n; ++i) want.push_back(from + i);
		walk(s, "counting_iterator", sprout::make_counting_iterator((T)from), sprout::make_counting_iterator((T)(from + n)), want, ByInt());
	}
	void values(Sim& s) {
		Start st;
		long const n = s.range(0, 9);
		Cell v(3, 4);
		if (s.chance(1, 2)) {
			Keys const want((std::size_t)n, KI{3, 4});
			walk(s, "value_iterator", sprout::value_iterator<Cell const>(v, n), sprout::value_iterator<Cell const>(v, 0), want, ByValue(), NoExtra(), CMP);
		} else {
			Addrs const want((std::size_t)n, &v);
			walk(s, "value_iterator of a reference", sprout::value_iterator<Cell&>(v, n), sprout::value_iterator<Cell&>(v, 0), want, ByAddr());
		}
	}
	void sizes(Sim& s) {
		Start st;
		long const n = s.range(0, 7), sep = s.range(0, 3);
		std::vector<std::string> v;
		std::vector<long> want, plain;
		for (long i = 0; i != n; ++i) {
			v.push_back(std::string((std::size_t)s.range(0, 4), 'x'));
			if (i) want.push_back(sep);
			want.push_back((long)v.back().size());
			plain.push_back((long)v.back().size());
		}
		std::string const* const b = v.data();
		if (s.chance(1, 3)) walk(s, "size_enum_iterator", sprout::size_enum_iterator<std::string const*>(b), sprout::size_enum_iterator<std::string const*>(b + n), plain, ByInt());
		else if (n) walk(s, "size_enum_iterator with separators", sprout::size_enum_iterator<std::string const*, true>(b, sep), sprout::size_enum_iterator<std::string const*, true>(b + n - 1, sep, true), want, ByInt());
	}
	// an adaptor over another iterator type is the same place in the same sequence
	template<typename T> struct To {
		template<typename W, typename I> void operator()(W& w, char const* op, I const& it, long p) const {
			T const c(it), l(w.last);
			T a;
			a = it;
			w.truth("== of converted iterators", c == l, p == w.n);
			w.truth("!= of an assigned iterator", a != l, p != w.n);
			w.truth("== with a converted iterator", it == c, true);
			if (p == w.n) return;
			w.value("* of a converted iterator", w.conv(*c), p);
			w.value("* of an assigned iterator", w.conv(*a), p);
			++a;
			w.truth("++ of an assigned iterator", a == l, p + 1 == w.n);
			if (p + 1 != w.n) w.value("* of an assigned iterator after ++", w.conv(*a), p + 1);
			(void)op;
		}
	};
	void conversions(Sim& s) {
		Start st;
		typedef Cell const* K;
		long const n = s.range(0, 6);
		Data d(Data::keys(s, n, 3, 0), Data::keys(s, n, 3, 100));
		Cell* const f = at<Cell*>(d.A, 0);
		Cell* const l = at<Cell*>(d.A, n);
		Cell* const g = at<Cell*>(d.B, 0);
		Cell* const h = at<Cell*>(d.B, n);
		Pred const p = some_pred(s);
		Addrs addr;
		Keys want;
		switch (s.range(0, 9)) {
		case 0:
			for (long i = 0; i != n; ++i) if (holds(p, d.a[i])) addr.push_back(d.pa(i));
			walk(s, "filter_iterator", sprout::make_filter_iterator(p, f, l), sprout::make_filter_iterator(p, l, l), addr, ByAddr(), To<sprout::filter_iterator<Pred, K> >(), 0);
			break;
		case 1: {
			Less const lt{1, s.chance(1, 2)};
			for (long i = 0; i != n; ++i) if (!i || before(lt, d.a[i - 1], d.a[i])) addr.push_back(d.pa(i));
			walk(s, "adjacent_filter_iterator", sprout::make_adjacent_filter_iterator(lt, f, l), sprout::make_adjacent_filter_iterator(lt, l, l), addr, ByAddr(), To<sprout::adjacent_filter_iterator<Less, K> >(), 0);
			break;
		}
		case 2: {
			Un const u{(int)s.range(-3, 3)};
			for (long i = 0; i != n; ++i) want.push_back(KI{d.a[i].key + u.k, d.a[i].id});
			walk(s, "transform_iterator", sprout::make_transform_iterator(f, u), sprout::make_transform_iterator(l, u), want, ByValue(), To<sprout::transform_iterator<Un, K> >(), 0);
			break;
		}
		case 3: {
			Fn2 const u{(int)s.range(-3, 3)};
			for (long i = 0; i != n; ++i) want.push_back(KI{d.a[i].key * 10 + d.b[i].key + u.k, d.a[i].id});
			walk(s, "transform_iterator of two", sprout::make_transform_iterator(f, g, u), sprout::make_transform_iterator(l, h, u), want, ByValue(), To<sprout::transform_iterator<Fn2, K, K> >(), 0);
			break;
		}
		case 4: {
			Less const lt{1, false};
			Cell const vl(1, 80), vh(2, 81);
			for (long i = 0; i != n; ++i) want.push_back(d.a[i].key < 1 ? KI{1, 80} : d.a[i].key > 2 ? KI{2, 81} : d.a[i]);
			walk(s, "clamp_iterator", sprout::make_clamp_iterator(f, vl, vh, lt), sprout::make_clamp_iterator(l, vl, vh, lt), want, ByValue(), To<sprout::clamp_iterator<K, Less> >(), 0);
			break;
		}
		case 5: {
			long const w = s.range(1, 3);
			for (long i = 0; i < n; i += w) addr.push_back(d.pa(i));
			sprout::step_iterator<Cell*> const b(f, w, l);
			sprout::step_iterator<Cell*> e(b);
			for (std::size_t i = 0; i != addr.size(); ++i) ++e;
			walk(s, "step_iterator", b, e, addr, ByAddr(), To<sprout::step_iterator<K> >(), 0);
			break;
		}
		case 6:
			for (long i = n; i--; ) addr.push_back(d.pa(i));
			walk(s, "reverse_iterator", sprout::make_reverse_iterator(l), sprout::make_reverse_iterator(f), addr, ByAddr(), To<sprout::reverse_iterator<K> >(), 0);
			break;
		case 7:
			for (long i = 0; i != n; ++i) addr.push_back(d.pa(i));
			for (long i = 0; i != n; ++i) addr.push_back(d.pb(i));
			walk(s, "joint_iterator", sprout::make_joint_iterator(f, l, g, g), sprout::make_joint_iterator(l, l, g, h), addr, ByAddr(), To<sprout::joint_iterator<K, K> >(), 0);
			break;
		case 8:
			for (long i = 0; i != n; ++i) { addr.push_back(d.pa(i)); addr.push_back(d.pb(i)); }
			walk(s, "alternate_iterator", sprout::make_alternate_iterator(f, g), sprout::make_alternate_iterator(l, h), addr, ByAddr(), To<sprout::alternate_iterator<K, K> >(), 0);
			break;
		case 9:
			for (long i = 0; i != n; ++i) addr.push_back(d.pa(i));
			walk(s, "indexed_iterator", sprout::make_indexed_iterator(f), sprout::make_indexed_iterator(l, n), addr, ByAddr(), To<sprout::indexed_iterator<K> >(), 0);
			break;
		}
		d.done(s, "a conversion");
	}
	// one step back from the end of a while_iterator
	void while_back(Sim& s) {
		Start st;
		long const n = s.range(1, 6);
		Data d(Data::keys(s, n, 3, 0), Keys());
		Pred const p = some_pred(s);
		long e = 0;
		while (e != n && holds(p, d.a[e])) ++e;
		if (!e) return;
		Cell* const f = at<Cell*>(d.A, 0);
		Cell* const l = at<Cell*>(d.A, n);
		auto i = sprout::make_while_iterator(p, f, l);
		long k = 0;
		while (i != sprout::make_while_iterator(p, l, l)) { s.check(&*i == d.pa(k), "element", cat("while_iterator gives a wrong element at ", k)); ++i; ++k; }
		s.check(k == e, "position", cat("a while_iterator ends after ", k, " elements instead of ", e));
		bool later = false;
		for (long j = e; j != n; ++j) later = later || holds(p, d.a[j]);
		--i;
		s.check(&*i == d.pa(e - 1), "while-end", cat("-- from the end of a while_iterator over ", n, " elements is not at the last it gave", later ? ", as a later element satisfies the predicate" : ""));
		if (e > 1) s.nontrivial();
		s.state(hash_str(cat(n, e, later)));
		d.done(s, "a while_iterator");
	}
	typedef It<std::forward_iterator_tag, Cell> Fwd;
	typedef It<std::bidirectional_iterator_tag, Cell> Bid;
	typedef It<std::random_access_iterator_tag, Cell> Ran;
}
#if SIM_PART == 0
namespace {
	void all_filters(Sim& s) { switch (s.range(0, 3)) { case 0: filters<Fwd>(s); break; case 1: filters<Bid>(s); break; case 2: filters<Ran>(s); break; default: filters<Cell*>(s); } }
	void all_turns(Sim& s) { switch (s.range(0, 2)) { case 0: turns<Bid>(s); break; case 1: turns<Ran>(s); break; default: turns<Cell*>(s); } }
}
SIM_SCENARIO("C16", "filters", 4, all_filters);
SIM_SCENARIO("C16", "turns", 3, all_turns);
#elif SIM_PART == 1
namespace {
	void all_maps(Sim& s) { switch (s.range(0, 4)) { case 0: maps<Fwd, Bid>(s); break; case 1: maps<Bid, Ran>(s); break; case 2: maps<Ran, Cell*>(s); break; case 3: maps<Ran, Ran>(s); break; default: maps<Cell*, Ran>(s); } }
	void all_counts(Sim& s) { switch (s.range(0, 2)) { case 0: counts<int>(s); break; case 1: counts<unsigned char>(s); break; default: counts<long long>(s); } }
}
SIM_SCENARIO("C16", "maps", 4, all_maps);
SIM_SCENARIO("C16", "numbers", 1, all_counts);
SIM_SCENARIO("C16", "values", 1, values);
SIM_SCENARIO("C16", "sizes", 1, sizes);
#elif SIM_PART == 2
namespace {
	void all_pairs(Sim& s) { switch (s.range(0, 3)) { case 0: pairs<Fwd, Ran>(s); break; case 1: pairs<Bid, Bid>(s); break; case 2: pairs<Ran, Ran>(s); break; default: pairs<Cell*, Cell*>(s); } }
	void all_steps(Sim& s) { switch (s.range(0, 3)) { case 0: steps<Fwd>(s); break; case 1: steps<Bid>(s); break; case 2: steps<Ran>(s); break; default: steps<Cell*>(s); } }
	void all_sets(Sim& s) { switch (s.range(0, 2)) { case 0: sets<Fwd, Ran>(s); break; case 1: sets<Ran, Ran>(s); break; default: sets<Cell*, Cell*>(s); } }
}
SIM_SCENARIO("C16", "conversions", 1, conversions);
SIM_SCENARIO("C16", "while backwards", 1, while_back);
SIM_SCENARIO("C16", "pairs", 2, all_pairs);
SIM_SCENARIO("C16", "steps", 2, all_steps);
SIM_SCENARIO("C16", "sets", 3, all_sets);
#elif SIM_PART == 3
#include <sprout/range/adaptor.hpp>
#include <sprout/array.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/string.hpp>
#include <sprout/container/functions.hpp>
namespace {
	// a range: the walk of its iterators, and what it says about its elements
	template<typename R, typename V, typename C>
	void range(Sim& s, std::string const& name, R const& r, std::vector<V> const& want, C conv) {
		std::string const on = cat(name, " giving ", show_all(want));
		s.check(sprout::empty(r) == want.empty(), "range", cat("empty() of ", on));
		s.check((long)sprout::size(r) == (long)want.size(), "range", cat("size() of ", on, " is ", (long)sprout::size(r)));
		if (!want.empty()) {
			s.check(conv(sprout::front(r)) == want.front(), "range", cat("front() of ", on));
			s.check(conv(sprout::back(r)) == want.back(), "range", cat("back() of ", on));
			long const i = s.range(0, (long)want.size() - 1);
			s.check(conv(r[i]) == want[i], "range", cat("[", i, "] of ", on));
			s.check(conv(r.at(i)) == want[i], "range", cat("at(", i, ") of ", on));
		}
		bool threw = false;
		try { (void)r.at(want.size() + s.range(0, 2)); } catch (std::out_of_range const&) { threw = true; }
		s.check(threw, "range", cat("at() behind the end of ", on));
		walk(s, name, sprout::begin(r), sprout::end(r), want, conv, NoExtra(), 0);
	}
	template<typename R> void range(Sim& s, std::string const& name, R const& r, std::vector<long> const& want) { range(s, name, r, want, ByInt()); }
	struct Odd { bool operator()(int x) const { return x % 2 != 0; } };
	struct Neg { int operator()(int x) const { return 10 - x; } };
	struct Dec { int operator()(int x, int y) const { return x * 10 + y; } };
	struct Near { bool operator()(int x, int y) const { return x / 2 == y / 2; } };
	struct Greater { bool operator()(int x, int y) const { return y < x; } };
	typedef std::vector<long> L;
	template<typename F> L map(L const& v, F f) { L r; for (long x : v) r.push_back(f(x)); return r; }
	template<typename F> L keep(L const& v, F f) { L r; for (long x : v) if (f(x)) r.push_back(x); return r; }
	template<typename F> L runs(L const& v, F f) { L r; for (std::size_t i = 0; i != v.size(); ++i) if (!i || f(v[i - 1], v[i])) r.push_back(v[i]); return r; }
	L cut(L const& v, long from, long to) {
		long const n = (long)v.size();
		from = std::min(from, n); to = std::min(to, n);
		return from < to ? L(v.begin() + from, v.begin() + to) : L();
	}
	template<std::size_t N, std::size_t M> void pipes(Sim& s) {
		Start st;
		namespace a = sprout::adaptors;
		sprout::array<int, N> x{{}};
		sprout::array<int, M> y{{}};
		sprout::array<int, N> z{{}};
		for (std::size_t i = 0; i != N; ++i) x[i] = (int)s.range(0, 4), z[i] = (int)s.range(0, 4);
		for (std::size_t i = 0; i != M; ++i) y[i] = (int)s.range(0, 4);
		bool const sorted = s.chance(1, 2);
		if (sorted) { std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); }
		sprout::array<int, N> const& cx = x;
		L const vx(x.begin(), x.end()), vy(y.begin(), y.end()), vz(z.begin(), z.end());
		long const n = s.range(0, 8), m = s.range(0, 8), k = s.range(0, 4), w = s.range(1, 4);
		L r;
		switch (s.range(0, sorted ? 39 : 31)) {
		case 0: range(s, "filtered", x | a::filtered(Odd()), keep(vx, Odd())); break;
		case 1: range(s, "filtered | reversed", cx | a::filtered(Odd()) | a::reversed, (r = keep(vx, Odd()), std::reverse(r.begin(), r.end()), r)); break;
		case 2: range(s, "removed", x | a::removed((int)k), keep(vx, [&](long e) { return e != k; })); break;
		case 3: range(s, "removed_if", cx | a::removed_if(Odd()), keep(vx, [&](long e) { return e % 2 == 0; })); break;
		case 4: range(s, "replaced", x | a::replaced((int)k, 9), map(vx, [&](long e) { return e == k ? 9 : e; })); break;
		case 5: range(s, "replaced_if", x | a::replaced_if(Odd(), 9), map(vx, [&](long e) { return e % 2 ? 9 : e; })); break;
		case 6: range(s, "transformed", cx | a::transformed(Neg()), map(vx, Neg())); break;
		case 7: {
			for (std::size_t i = 0; i != N; ++i) r.push_back(vx[i] * 10 + vz[i]);
			range(s, "transformed of two", x | a::transformed(z, Dec()), r);
			break;
		}
		case 8: range(s, "uniqued", x | a::uniqued, runs(vx, [](long p, long q) { return p != q; })); break;
		case 9: range(s, "uniqued with a predicate", cx | a::uniqued(Near()), runs(vx, [](long p, long q) { return p / 2 != q / 2; })); break;
		case 10: range(s, "adjacent_filtered", x | a::adjacent_filtered(Greater()), runs(vx, Greater())); break;
		case 11: range(s, "reversed", x | a::reversed, (r = vx, std::reverse(r.begin(), r.end()), r)); break;
		case 12: range(s, "reversed | reversed", x | a::reversed | a::reversed, vx); break;
		case 13: range(s, "indexed", cx | a::indexed, vx); break;
		case 14: range(s, "jointed", x | a::jointed(y), (r = vx, r.insert(r.end(), vy.begin(), vy.end()), r)); break;
		case 15: range(s, "jointed | reversed", cx | a::jointed(y) | a::reversed, (r = vx, r.insert(r.end(), vy.begin(), vy.end()), std::reverse(r.begin(), r.end()), r)); break;
		case 16: {
			for (std::size_t i = 0; i != N; ++i) r.push_back(vx[i]), r.push_back(vz[i]);
			range(s, "alternated", x | a::alternated(z), r);
			break;
		}
		case 17: {
			for (long i = 0; i < (long)N; i += w) r.push_back(vx[i]);
			range(s, cat("steps(", w, ")"), x | a::steps(w), r);
			break;
		}
		case 18: {
			for (long i = n; i < (long)N; i += w) r.push_back(vx[i]);
			range(s, cat("steps(", w, ", ", n, ")"), cx | a::steps(w, n), r);
			break;
		}
		case 19: {
			for (long i = 0; i < (long)N; i += w) r.push_back(vx[i]);
			range(s, cat("steps(", w, ") | reversed"), x | a::steps(w) | a::reversed, (std::reverse(r.begin(), r.end()), r));
			break;
		}
		case 20: range(s, cat("taken(", n, ")"), x | a::taken(n), cut(vx, 0, n)); break;
		case 21: range(s, cat("dropped(", n, ")"), cx | a::dropped(n), cut(vx, n, N)); break;
		case 22: range(s, cat("taken_end(", -n, ")"), x | a::taken_end(-n), cut(vx, std::max(0l, (long)N - n), N)); break;
		case 23: range(s, cat("dropped_end(", -n, ")"), cx | a::dropped_end(-n), cut(vx, 0, std::max(0l, (long)N - n))); break;
		case 24: range(s, cat("window(", n, ", ", n + m, ")"), x | a::window(n, n + m), cut(vx, n, n + m)); break;
		case 25: range(s, cat("window(", n, ")"), x | a::window(n), cut(vx, n, N)); break;
		case 26: range(s, cat("offset(", n, ", ", -m, ")"), x | a::offset(n, -m), cut(vx, n, std::max(0l, (long)N - m))); break;
		case 27: range(s, cat("offset(", n, ")"), cx | a::offset(n), cut(vx, n, N)); break;
		case 28: range(s, "clamped", x | a::clamped(1, 3), map(vx, [](long e) { return e < 1 ? 1 : e > 3 ? 3 : e; })); break;
		case 29: range(s, cat("filtered | taken(", n, ")"), x | a::filtered(Odd()) | a::taken(n), cut(keep(vx, Odd()), 0, n)); break;
		case 30: range(s, "transformed | filtered | jointed", x | a::transformed(Neg()) | a::jointed(y | a::transformed(Neg())) | a::filtered(Odd()), keep(map((r = vx, r.insert(r.end(), vy.begin(), vy.end()), r), Neg()), Odd())); break;
		case 31: range(s, "counting", a::counting((int)k, (int)(k + n)), (r = L(), [&] { for (long i = k; i != k + n; ++i) r.push_back(i); }(), r)); break;
		case 32: case 33: std::merge(vx.begin(), vx.end(), vy.begin(), vy.end(), std::back_inserter(r)); range(s, "merged", x | a::merged(y), r); break;
		case 34: std::set_union(vx.begin(), vx.end(), vy.begin(), vy.end(), std::back_inserter(r)); range(s, "set_union", x | a::set_union(y), r); break;
		case 35: std::set_intersection(vx.begin(), vx.end(), vy.begin(), vy.end(), std::back_inserter(r)); range(s, "set_intersection", x | a::set_intersection(y), r); break;
		case 36: std::set_difference(vx.begin(), vx.end(), vy.begin(), vy.end(), std::back_inserter(r)); range(s, "set_difference", x | a::set_difference(y), r); break;
		case 37: std::set_symmetric_difference(vx.begin(), vx.end(), vy.begin(), vy.end(), std::back_inserter(r)); range(s, "set_symmetric_difference", x | a::set_symmetric_difference(y), r); break;
		case 38: std::set_union(vx.begin(), vx.end(), vy.begin(), vy.end(), std::back_inserter(r)); range(s, "merged | uniqued", x | a::merged(y) | a::uniqued, runs((r = L(), std::merge(vx.begin(), vx.end(), vy.begin(), vy.end(), std::back_inserter(r)), r), [](long p, long q) { return p != q; })); break;
		case 39: range(s, "filtered | merged", x | a::filtered(Odd()) | a::merged(y | a::filtered(Odd())), (r = L(), [&] { L const p = keep(vx, Odd()), q = keep(vy, Odd()); std::merge(p.begin(), p.end(), q.begin(), q.end(), std::back_inserter(r)); }(), r)); break;
		}
	}
	void all_pipes(Sim& s) { if (s.chance(4, 5)) pipes<5, 4>(s); else pipes<1, 6>(s); }
}
SIM_SCENARIO("C16", "pipes", 4, all_pipes);
#endif
