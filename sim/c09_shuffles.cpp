// C09: shuffles, random swaps, random sorts, samples, random uuids and noise over a simulated random bit source.
//
// The source is the tape of C04: adversarial words, narrow ranges, failures at any word.  Sequences carry elements of
// known identity, so that every loss, duplication or write outside the range is seen.
#include "dist.hpp"
#include <algorithm>
#include <deque>
#include <functional>
#include <iterator>
#include <list>
#include <sprout/algorithm.hpp>
#include <sprout/range/algorithm.hpp>
#include <sprout/range/range_container.hpp>
#include <sprout/array.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/container.hpp>
#include <sprout/uuid.hpp>
#include <sprout/compost/waves.hpp>
using namespace sim;
namespace sr = sprout::random;
namespace {
	struct El { int key, id; };
	inline bool operator<(El const& a, El const& b) { return a.key < b.key; }
	inline bool operator==(El const& a, El const& b) { return a.key == b.key && a.id == b.id; }
	inline bool operator!=(El const& a, El const& b) { return !(a == b); }
	struct Desc { bool operator()(El const& a, El const& b) const { return b.key < a.key; } };
	typedef std::vector<El> Els;
	std::string show(Els const& v) { std::string r = "["; for (El const& e : v) r += cat(r.size() > 1 ? " " : "", e.key, "#", e.id); return r + "]"; }
	bool by_id(El const& a, El const& b) { return a.id < b.id; }
	Els ids(Els v) { std::sort(v.begin(), v.end(), by_id); return v; }
	bool ordered(Els const& v, bool desc) { for (std::size_t i = 1; i < v.size(); ++i) if (desc ? v[i - 1].key < v[i].key : v[i].key < v[i - 1].key) return false; return true; }

	// a window of a larger buffer: touching an element outside it is recorded, never undefined
	struct Arena {
		Els v;
		long lo, hi;
		long bad;
		bool out;
	};
	template<typename Cat>
	struct It {
		typedef Cat iterator_category;
		typedef El value_type;
		typedef std::ptrdiff_t difference_type;
		typedef El* pointer;
		typedef El& reference;
		Arena* a;
		long p;
		El& operator*() const {
			if (p < a->lo || p >= a->hi) { a->out = true; a->bad = p - a->lo; static El dummy; if (p < 0 || p >= (long)a->v.size()) return dummy; }
			return a->v[p];
		}
		El* operator->() const { return &**this; }
		El& operator[](std::ptrdiff_t n) const { return *(*this + n); }
		It& operator++() { ++p; return *this; }
		It operator++(int) { It r(*this); ++p; return r; }
		It& operator--() { --p; return *this; }
		It operator--(int) { It r(*this); --p; return r; }
		It& operator+=(std::ptrdiff_t n) { p += n; return *this; }
		It& operator-=(std::ptrdiff_t n) { p -= n; return *this; }
		friend It operator+(It i, std::ptrdiff_t n) { return i += n; }
		friend It operator+(std::ptrdiff_t n, It i) { return i += n; }
		friend It operator-(It i, std::ptrdiff_t n) { return i -= n; }
		friend std::ptrdiff_t operator-(It const& x, It const& y) { return x.p - y.p; }
		friend bool operator==(It const& x, It const& y) { return x.p == y.p; }
		friend bool operator!=(It const& x, It const& y) { return x.p != y.p; }
		friend bool operator<(It const& x, It const& y) { return x.p < y.p; }
		friend bool operator>(It const& x, It const& y) { return x.p > y.p; }
		friend bool operator<=(It const& x, It const& y) { return x.p <= y.p; }
		friend bool operator>=(It const& x, It const& y) { return x.p >= y.p; }
	};
	typedef It<std::random_access_iterator_tag> RIt;
	typedef It<std::forward_iterator_tag> FIt;
	struct Feed { Els v; std::size_t pos, derefs; bool past; };
	struct SinglePass {	// every copy shares the position
		typedef std::input_iterator_tag iterator_category;
		typedef El value_type;
		typedef std::ptrdiff_t difference_type;
		typedef El const* pointer;
		typedef El reference;
		Feed* f;
		bool end;
		struct Proxy { El e; El operator*() const { return e; } };
		El operator*() const { if (f->pos >= f->v.size()) { f->past = true; return El(); } ++f->derefs; return f->v[f->pos]; }
		SinglePass& operator++() { ++f->pos; return *this; }
		Proxy operator++(int) { Proxy r = {f->pos < f->v.size() ? f->v[f->pos] : El()}; if (f->pos >= f->v.size()) f->past = true; else ++f->derefs; ++f->pos; return r; }
		bool at_end() const { return end || f->pos >= f->v.size(); }
		friend bool operator==(SinglePass const& a, SinglePass const& b) { return a.at_end() == b.at_end(); }
		friend bool operator!=(SinglePass const& a, SinglePass const& b) { return !(a == b); }
	};

	Els gen_els(Sim& s, std::size_t n) {
		Els v(n);
		unsigned how = (unsigned)s.choose(4);	// keys: few, sorted, descending, many
		for (std::size_t i = 0; i != n; ++i) v[i].key = how == 0 ? (int)s.choose(3) : how == 1 ? (int)i : how == 2 ? (int)(n - i) : (int)s.choose(50), v[i].id = (int)i + 1;
		return v;
	}
	template<typename W>
	void gen_tape(Sim& s, Tape<W>& t, std::size_t n) {
		word_range(s, t);
		t.seed = s.bits();
		std::size_t k = s.skewed(20);
		bool used = false;
		for (std::size_t i = 0; i != k; ++i) {
			std::uint64_t how = s.choose(4);
			if (how == 0) { t.prefix.push_back(t.fair(i, std::true_type())); continue; }
			double f = how == 1 ? 0 : how == 2 ? 1 : (double)s.choose(n + 2) / (double)(n + 1);
			t.prefix.push_back(word_at(t, f, (int)s.range(-1, 1), std::true_type()));
			used = true;
		}
		if (used) s.fault("adversarial_words");
		if (s.chance(1, 4)) t.fail_at = s.skewed(40);
		t.limit = 20000;
	}

	enum { op_shuffle, op_random_shuffle, op_random_swap, op_bogo, op_bozo, ops };
	char const* const op_names[] = {"shuffle", "random_shuffle", "random_swap", "bogo_sort", "bozo_sort"};

	// ------------------------------------------------------------------------------------------------ in place
	template<typename S, typename I>
	void apply(unsigned op, unsigned comp, I b, I e, S& g) {
		auto rnd = [&](std::ptrdiff_t n) { return sprout::random::uniform_int_distribution<std::ptrdiff_t>(0, n - 1)(g); };
		switch (op) {
		case op_shuffle: sprout::shuffle(b, e, g); break;
		case op_random_shuffle: sprout::random_shuffle(b, e, rnd); break;
		case op_random_swap: sprout::random_swap(b, e, g); break;
		case op_bogo: if (comp == 0) sprout::bogo_sort(b, e, g); else if (comp == 1) sprout::bogo_sort(b, e, g, Desc()); else sprout::bogo_sort(b, e, g, std::less<El>()); break;
		default: if (comp == 0) sprout::bozo_sort(b, e, g); else if (comp == 1) sprout::bozo_sort(b, e, g, Desc()); else sprout::bozo_sort(b, e, g, std::less<El>()); break;
		}
	}
	template<typename S, typename C>
	void apply_range(unsigned op, unsigned comp, C& c, S& g) {
		auto rnd = [&](std::ptrdiff_t n) { return sprout::random::uniform_int_distribution<std::ptrdiff_t>(0, n - 1)(g); };
		switch (op) {
		case op_shuffle: sprout::range::shuffle(c, g); break;
		case op_random_shuffle: sprout::range::random_shuffle(c, rnd); break;
		case op_random_swap: sprout::range::random_swap(c, g); break;
		case op_bogo: if (comp == 0) sprout::range::bogo_sort(c, g); else if (comp == 1) sprout::range::bogo_sort(c, g, Desc()); else sprout::range::bogo_sort(c, g, std::less<El>()); break;
		default: if (comp == 0) sprout::range::bozo_sort(c, g); else if (comp == 1) sprout::range::bozo_sort(c, g, Desc()); else sprout::range::bozo_sort(c, g, std::less<El>()); break;
		}
	}
	struct Outcome { Els v; std::size_t pos; bool threw, out, stuck; };
	template<typename W>
	Outcome run_in_place(Tape<W> const& t, unsigned op, unsigned comp, unsigned form, Els const& v, long pad, std::size_t start, Sim& s) {
		Src<W> g(&t);
		g.pos = start;
		Outcome o;
		o.threw = o.out = o.stuck = false;
		Arena a;
		El guard = {-7, -7};
		a.v.assign(pad, guard);
		a.v.insert(a.v.end(), v.begin(), v.end());
		a.v.insert(a.v.end(), pad, guard);
		a.lo = pad, a.hi = pad + (long)v.size(), a.out = false;
		std::vector<El> vec(v);
		std::deque<El> deq(v.begin(), v.end());
		RIt b = {&a, a.lo}, e = {&a, a.hi};
		try {
			switch (form) {
			case 0: apply(op, comp, b, e, g); break;
			case 1: apply(op, comp, vec.begin(), vec.end(), g); break;
			case 2: apply(op, comp, deq.begin(), deq.end(), g); break;
			case 3: apply(op, comp, a.v.data() + a.lo, a.v.data() + a.hi, g); break;
			default: {
				sprout::range::range_container<RIt> r(b, e);
				apply_range(op, comp, r, g);
			}
			}
		} catch (InjectedFault&) {
			s.fault("source_failed");
			o.threw = true;
		} catch (StepBudget&) {
			o.stuck = true;
		}
		o.v = form == 1 ? vec : form == 2 ? Els(deq.begin(), deq.end()) : Els(a.v.begin() + a.lo, a.v.begin() + a.hi);
		o.out = a.out;
		for (long i = 0; i != pad; ++i) if (a.v[i] != guard || a.v[a.hi + i] != guard) o.out = true;
		o.pos = g.pos;
		return o;
	}
	template<typename W>
	void in_place(Sim& s) {
		Tape<W> t;
		std::size_t n = s.choose(4) ? s.choose(7) : s.choose(40);
		unsigned op = (unsigned)s.choose(ops), comp = (unsigned)s.choose(3);
		if (op >= op_bogo && n > 5) n = s.choose(6);
		gen_tape(s, t, n);
		Els v = gen_els(s, n);
		long pad = 3;
		std::size_t start = s.skewed(5);
		unsigned f1 = (unsigned)s.choose(5), f2 = (unsigned)s.choose(5);
		s.log(cat(op_names[op], " forms ", f1, ",", f2, " comp ", comp, " of ", show(v), " from word ", start, " fail at ", t.fail_at));
		Outcome o = run_in_place(t, op, comp, f1, v, pad, start, s);
		std::string w = cat(op_names[op], " of ", show(v), " over words [", (ld)t.lo, ",", (ld)t.hi, "] from ", start);
		s.step(o.pos - start + 1);
		s.check(!o.out, "outside_range", cat(w, ": an element outside the range was touched"));
		s.check(ids(o.v) == ids(v), "elements_lost", cat(w, ": became ", show(o.v), o.threw ? " when the source failed" : ""));
		if (o.stuck) s.probe("source_never_ends");
		if (o.threw) s.check(o.pos == t.fail_at, "wrong_failure", cat(w, ": failed at word ", o.pos, ", the source failed at ", t.fail_at));
		if (!o.threw && !o.stuck && op >= op_bogo) s.check(ordered(o.v, comp == 1), "not_sorted", cat(w, ": ended as ", show(o.v)));
		if (op >= op_bogo && ordered(v, comp == 1)) s.check(o.v == v && o.pos == start && !o.threw, "sorted_input_changed", cat(w, ": already sorted, became ", show(o.v), " using ", o.pos - start, " words"));
		if (n <= 1) s.check(o.v == v && !o.threw, "trivial_changed", cat(w, ": became ", show(o.v)));
		if (op == op_random_swap) {
			std::size_t d = 0;
			for (std::size_t i = 0; i != n; ++i) d += !(o.v[i] == v[i]);
			s.check(d <= 2, "more_than_swapped", cat(w, ": became ", show(o.v)));
		}
		// the result is a function of the words alone
		Outcome p = run_in_place(t, op, comp, f2, v, pad, start, s);
		s.check(!p.out, "outside_range", cat(w, ": form ", f2, ": an element outside the range was touched"));
		s.check(p.v == o.v && p.pos == o.pos && p.threw == o.threw && p.stuck == o.stuck, "forms_disagree", cat(w, ": form ", f1, " gave ", show(o.v), " at word ", o.pos, ", form ", f2, " gave ", show(p.v), " at word ", p.pos));
		s.state(mix64((op * 8 + f1) * 64 + n) ^ mix64(hash_str(cat((ld)t.hi, comp, o.threw, o.stuck, o.pos - start > 30 ? 30 : o.pos - start))));
	}

	// ------------------------------------------------------------------------------------------------ functional
	template<typename W>
	struct Spy {	// counts how far the tape was read
		Tape<W> const& t;
		std::size_t read;
	};
	// a source that notes the furthest word it handed out
	template<typename W>
	struct NSrc {
		typedef W result_type;
		Spy<W>* y;
		std::size_t pos;
		NSrc() : y(0), pos(0) {}
		explicit NSrc(Spy<W>* y_, std::size_t p) : y(y_), pos(p) {}
		W min() const { return y->t.lo; }
		W max() const { return y->t.hi; }
		W get() const { W w = y->t.read(pos); if (y->read < pos + 1) y->read = pos + 1; return w; }
		W operator()() { W w = get(); ++pos; return w; }
		sr::random_result<NSrc> const operator()() const {
			W w = get();
			NSrc n(*this);
			++n.pos;
			return sr::random_result<NSrc>(w, n);
		}
		friend bool operator==(NSrc const& a, NSrc const& b) { return a.pos == b.pos; }
		friend bool operator!=(NSrc const& a, NSrc const& b) { return !(a == b); }
	};
	struct FOut { Els whole, win; std::size_t pos; bool has_pos, threw, stuck; };
	template<typename C> Els els_of(C const& c) { return Els(c.begin(), c.end()); }
	template<typename C> Els inner(C const& c) { auto const& i = sprout::get_internal(c); return Els(i.begin(), i.end()); }

	template<typename C, typename G>
	FOut functional(unsigned op, unsigned comp, unsigned form, C const& c, G const& g) {
		FOut o;
		o.has_pos = o.threw = o.stuck = false;
		o.pos = 0;
#define SIM_PLAIN(NS, CALL) { auto const r = sprout::NS::CALL; o.whole = inner(r); o.win = els_of(r); }
#define SIM_RESULT(NS, CALL) { auto const r = sprout::NS::CALL; o.whole = inner(sprout::tuples::get<0>(r)); o.win = els_of(sprout::tuples::get<0>(r)); o.pos = sprout::tuples::get<1>(r).pos; o.has_pos = true; }
#define SIM_FORMS(NAME, ...) \
		switch (form) { \
		case 0: SIM_PLAIN(fixed, NAME(c, g __VA_ARGS__)); break; \
		case 1: SIM_RESULT(fixed, NAME##_result(c, g __VA_ARGS__)); break; \
		case 2: SIM_PLAIN(fit, NAME(c, g __VA_ARGS__)); break; \
		default: SIM_RESULT(fit, NAME##_result(c, g __VA_ARGS__)); break; \
		}
#define SIM_COMMA_DESC , Desc()
		switch (op) {
		case 0: SIM_FORMS(shuffle); break;
		case 1: SIM_FORMS(random_swap); break;
		case 2: if (comp) SIM_FORMS(bogo_sort, SIM_COMMA_DESC) else SIM_FORMS(bogo_sort) break;
		default: if (comp) SIM_FORMS(bozo_sort, SIM_COMMA_DESC) else SIM_FORMS(bozo_sort) break;
		}
		return o;
	}
	template<typename W, std::size_t N>
	void functional_run(Sim& s) {
		Tape<W> t;
		Els v = gen_els(s, N);
		sprout::array<El, N> arr;
		for (std::size_t i = 0; i != N; ++i) arr[i] = v[i];
		unsigned op = (unsigned)s.choose(N > 5 ? 2 : 4), comp = (unsigned)s.choose(2);
		static char const* const names[] = {"shuffle", "random_swap", "bogo_sort", "bozo_sort"};
		bool sub = s.chance(1, 2);
		std::size_t lo = 0, hi = N;
		if (sub) lo = s.choose(N + 1), hi = lo + s.choose(N + 1 - lo);
		Els win(v.begin() + lo, v.begin() + hi);
		gen_tape(s, t, hi - lo);
		std::size_t start = s.skewed(5);
		unsigned f1 = (unsigned)s.choose(4), f2 = (unsigned)s.choose(4);
		s.log(cat(names[op], " forms ", f1, ",", f2, " comp ", comp, " of ", show(v), sub ? cat(" window ", lo, "..", hi) : std::string(), " from word ", start, " fail at ", t.fail_at));
		auto const sa = sprout::sub(arr, (std::ptrdiff_t)lo, (std::ptrdiff_t)hi);
		FOut r[2];
		Spy<W> spy[2] = {{t, start}, {t, start}};
		for (int k = 0; k != 2; ++k) {
			NSrc<W> const g(&spy[k], start);
			unsigned form = k ? f2 : f1;
			try {
				r[k] = sub ? functional(op, comp, form, sa, g) : functional(op, comp, form, arr, g);
			} catch (InjectedFault&) {
				s.fault("source_failed");
				r[k].threw = true, r[k].stuck = false, r[k].has_pos = false;
			} catch (StepBudget&) {
				r[k].threw = false, r[k].stuck = true, r[k].has_pos = false;
			}
		}
		std::string w = cat("functional ", names[op], " of ", show(win), " over words [", (ld)t.lo, ",", (ld)t.hi, "] from ", start);
		s.step(spy[0].read - start + 1);
		s.check(els_of(arr) == v, "source_changed", cat(w, ": the sequence it was given changed"));
		bool sorted_already = op >= 2 && ordered(win, comp == 1);
		for (int k = 0; k != 2; ++k) {
			FOut const& o = r[k];
			unsigned form = k ? f2 : f1;
			if (o.stuck) { s.probe("source_never_ends"); continue; }
			if (o.threw) { s.check(!sorted_already && spy[k].read == t.fail_at, "wrong_failure", cat(w, ": failed after word ", spy[k].read, ", the source failed at ", t.fail_at)); continue; }
			s.check(ids(o.win) == ids(win), "elements_lost", cat(w, ": form ", form, " became ", show(o.win)));
			if (sub) {
				Els want(v);
				// the fixed form keeps the whole, the fit form only the window
				if (o.whole.size() == N) {
					std::copy(o.win.begin(), o.win.end(), want.begin() + lo);
					s.check(o.whole == want, "outside_window", cat(w, ": form ", form, " left the whole as ", show(o.whole), ", window ", show(o.win)));
				} else s.probe("fit_copy");
			}
			if (op >= 2) s.check(ordered(o.win, comp == 1), "not_sorted", cat(w, ": form ", form, " ended as ", show(o.win)));
			if (sorted_already) s.check(o.win == win && spy[k].read == start, "sorted_input_changed", cat(w, ": already sorted, became ", show(o.win), " using ", spy[k].read - start, " words"));
			if (win.size() <= 1) s.check(o.win == win, "trivial_changed", cat(w, ": became ", show(o.win)));
			if (op == 1) {
				std::size_t d = 0;
				for (std::size_t i = 0; i != win.size(); ++i) d += !(o.win[i] == win[i]);
				s.check(d <= 2, "more_than_swapped", cat(w, ": became ", show(o.win)));
			}
			if (o.has_pos) s.check(o.pos == spy[k].read, "wrong_source_returned", cat(w, ": form ", form, " read words up to ", spy[k].read, " and returned the source at ", o.pos));
		}
		s.check(r[0].threw == r[1].threw && r[0].stuck == r[1].stuck && (r[0].threw || r[0].stuck || (r[0].win == r[1].win && spy[0].read == spy[1].read)), "forms_disagree", cat(w, ": form ", f1, " gave ", show(r[0].win), " after word ", spy[0].read, ", form ", f2, " gave ", show(r[1].win), " after word ", spy[1].read));
		s.state(mix64(((op * 8 + f1) * 64 + N) * 64 + lo * 8 + (hi - lo)) ^ mix64(hash_str(cat((ld)t.hi, comp, r[0].threw, r[0].stuck, spy[0].read - start > 30 ? 30 : spy[0].read - start))));
	}

	// ------------------------------------------------------------------------------------------------ sample
	template<typename W>
	void sample_run(Sim& s) {
		Tape<W> t;
		std::size_t n = s.choose(4) ? s.choose(8) : s.choose(60), k = s.choose(4) ? s.choose(6) : s.choose(70);
		gen_tape(s, t, n);
		Els v = gen_els(s, n);
		for (std::size_t i = 0; i != n; ++i) v[i].key = (int)i;
		unsigned form = (unsigned)s.choose(6);
		Src<W> g(&t);
		Arena out;
		El guard = {-7, -7};
		out.v.assign(k + 6, guard);
		out.lo = 3, out.hi = 3 + (long)k, out.out = false;
		RIt o = {&out, 3};
		Feed f = {v, 0, 0, false};
		Arena pop;
		pop.v = v, pop.lo = 0, pop.hi = (long)n, pop.out = false;
		std::list<El> l(v.begin(), v.end());
		Els coll;
		bool threw = false, stuck = false;
		long ret = -1;
		s.log(cat("sample ", k, " of ", n, " form ", form, " fail at ", t.fail_at));
		try {
			if (form == 0) ret = (sprout::sample(SinglePass{&f, false}, SinglePass{&f, true}, o, (int)k, g) - o);
			else if (form == 1) ret = (sprout::sample(RIt{&pop, 0}, RIt{&pop, (long)n}, o, (std::ptrdiff_t)k, g) - o);
			else if (form == 2) ret = (sprout::sample(l.begin(), l.end(), o, (long long)k, g) - o);
			else if (form == 3) { sprout::sample(FIt{&pop, 0}, FIt{&pop, (long)n}, std::back_inserter(coll), (int)k, g); ret = (long)coll.size(); }
			else if (form == 4) { sprout::sample(l.begin(), l.end(), std::back_inserter(coll), (std::ptrdiff_t)k, g); ret = (long)coll.size(); }
			else { sprout::range::sample(v, std::back_inserter(coll), (int)k, g); ret = (long)coll.size(); }
		} catch (InjectedFault&) {
			s.fault("source_failed");
			threw = true;
		} catch (StepBudget&) {
			stuck = true;
		}
		s.step(g.pos + 1);
		std::string w = cat("sample of ", k, " out of ", n, " over words [", (ld)t.lo, ",", (ld)t.hi, "] form ", form);
		std::size_t want = k < n ? k : n;
		s.check(!out.out, "outside_range", cat(w, ": wrote at ", out.bad));
		s.check(!pop.out && !f.past, "outside_range", cat(w, ": read past the end of the population"));
		for (long i = 0; i != 3; ++i) s.check(out.v[i] == guard && out.v[out.hi + i] == guard, "outside_range", cat(w, ": wrote outside the sample"));
		Els got = form <= 2 ? Els(out.v.begin() + out.lo, out.v.begin() + out.lo + (long)(ret >= 0 && (std::size_t)ret <= k ? (std::size_t)ret : want)) : coll;
		if (stuck) { s.probe("source_never_ends"); return; }
		if (!threw) s.check(ret == (long)want, "wrong_size", cat(w, ": returned ", ret, " elements"));
		if (threw && form <= 2) while (!got.empty() && got.back() == guard) got.pop_back();
		std::set<int> seen;
		for (El const& e : got) s.check(e.id >= 1 && e.id <= (int)n && v[e.id - 1] == e && seen.insert(e.id).second, "not_a_sample", cat(w, ": gave ", show(got)));
		if (form >= 3) for (std::size_t i = 1; i < got.size(); ++i) s.check(got[i - 1].id < got[i].id, "out_of_order", cat(w, ": gave ", show(got)));
		if (k >= n && form <= 2) s.check(got == v && g.pos == 0 && !threw, "not_all", cat(w, ": everything was asked for, gave ", show(got)));
		if (!threw && k >= n) s.check(got == v, "not_all", cat(w, ": everything was asked for, gave ", show(got)));
		if (form == 0 && !threw) s.check(f.pos == n && f.derefs <= n, "single_pass", cat(w, ": the population was left at ", f.pos, " after ", f.derefs, " reads"));
		s.state(mix64((form * 128 + n) * 128 + k) ^ mix64(hash_str(cat((ld)t.hi, threw, g.pos > 40 ? 40 : g.pos))));
	}

	// ------------------------------------------------------------------------------------------------ fairness
	typedef std::uint32_t W32;
	void fairness(Sim& s) {
		std::size_t n = 3 + s.choose(2);
		unsigned what = (unsigned)s.choose(9);
		std::uint64_t seed = s.bits();
		static char const* const names[] = {"shuffle in place", "random_shuffle", "fixed::shuffle", "fixed::shuffle_result", "fit::shuffle of a window", "random_swap in place", "fixed::random_swap", "sample into a range", "sample in order"};
		s.log(cat("fairness of ", names[what], " of ", n));
		unsigned const trials = 6000;
		std::map<std::vector<int>, unsigned> count;
		Tape<W32> t;
		t.lo = 0, t.hi = 0xFFFFFFFFu, t.seed = seed;
		Src<W32> g(&t);
		for (unsigned k = 0; k != trials; ++k) {
			std::vector<int> v(n);
			for (std::size_t i = 0; i != n; ++i) v[i] = (int)i;
			t.seed = mix64(seed + k);
			g.pos = 0;
			Src<W32> const cg(g);
			auto rnd = [&](std::ptrdiff_t m) { return sr::uniform_int_distribution<std::ptrdiff_t>(0, m - 1)(g); };
			sprout::array<int, 3> a3{{0, 1, 2}};
			sprout::array<int, 4> a4{{0, 1, 2, 3}};
			sprout::array<int, 6> a6{{9, 0, 1, 2, 3, 9}};
			int smp[2] = {0, 0};
			switch (what) {
			case 0: sprout::shuffle(v.begin(), v.end(), g); break;
			case 1: sprout::random_shuffle(v.begin(), v.end(), rnd); break;
			case 2: if (n == 3) { auto r = sprout::fixed::shuffle(a3, cg); v.assign(r.begin(), r.end()); } else { auto r = sprout::fixed::shuffle(a4, cg); v.assign(r.begin(), r.end()); } break;
			case 3: if (n == 3) { auto r = sprout::fixed::shuffle_result(a3, cg); v.assign(sprout::first(r).begin(), sprout::first(r).end()); } else { auto r = sprout::fixed::shuffle_result(a4, cg); v.assign(sprout::first(r).begin(), sprout::first(r).end()); } break;
			case 4: { auto r = sprout::fit::shuffle(sprout::sub(a6, 1, 1 + (std::ptrdiff_t)n), cg); v.assign(r.begin(), r.end()); } break;
			case 5: sprout::random_swap(v.begin(), v.end(), g); break;
			case 6: if (n == 3) { auto r = sprout::fixed::random_swap(a3, cg); v.assign(r.begin(), r.end()); } else { auto r = sprout::fixed::random_swap(a4, cg); v.assign(r.begin(), r.end()); } break;
			case 7: sprout::sample(v.begin(), v.end(), smp, 2, g); std::sort(smp, smp + 2); v.assign(smp, smp + 2); break;
			default: { std::vector<int> r; sprout::sample(v.begin(), v.end(), std::back_inserter(r), 2, g); v = r; } break;
			}
			++count[v];
		}
		s.step(trials);
		// expected probabilities
		std::size_t cells;
		double chi = 0;
		if (what == 5 || what == 6) {
			std::size_t pairs = n * (n - 1) / 2;
			cells = pairs + 1;
			std::vector<int> idn(n);
			for (std::size_t i = 0; i != n; ++i) idn[i] = (int)i;
			for (auto& c : count) {
				double p = c.first == idn ? 1.0 / n : 2.0 / ((double)n * n), x = c.second - trials * p;
				chi += x * x / (trials * p);
			}
		} else {
			cells = what >= 7 ? n * (n - 1) / 2 : n == 3 ? 6 : 24;
			for (auto& c : count) {
				double x = c.second - (double)trials / cells;
				chi += x * x / ((double)trials / cells);
			}
		}
		double df = cells - 1.0;
		s.check(count.size() == cells, "unreachable", cat(names[what], " of ", n, ": a fair source reached ", count.size(), " of ", cells, " outcomes in ", trials, " trials"));
		s.check(chi < df + 12 * std::sqrt(2 * df) + 20, "unfair", cat(names[what], " of ", n, ": outcomes of a fair source are not equally likely: chi square ", chi, " with ", df, " degrees of freedom"));
		s.nontrivial();
		s.state(what * 8 + n);
	}

	// ------------------------------------------------------------------------------------------------ uuids
	template<typename W>
	void uuid_run(Sim& s) {
		Tape<W> t;
		gen_tape(s, t, 4);
		std::size_t start = s.skewed(5);
		Spy<W> spy = {t, start};
		NSrc<W> const g(&spy, start);
		unsigned how = (unsigned)s.choose(2);
		s.log(cat("uuid from word ", start, " fail at ", t.fail_at));
		std::vector<unsigned> want;
		Src<W> m(&t);
		m.pos = start;
		bool fails = false;
		try {
			for (int i = 0; i != 4; ++i) {
				std::uint32_t x = sr::uniform_int_distribution<std::uint32_t>(0, 0xFFFFFFFFu)(m);
				for (int k = 3; k >= 0; --k) want.push_back(x >> 8 * k & 255);
			}
		} catch (InjectedFault&) { fails = true; } catch (StepBudget&) { s.probe("source_never_ends"); return; }
		std::string w = cat("random uuid over words [", (ld)t.lo, ",", (ld)t.hi, "] from ", start);
		try {
			sprout::uuids::uuid u = how ? sprout::uuids::make_uuid4(g) : sprout::uuids::basic_random_generator<NSrc<W> >()(g);
			s.step(spy.read - start);
			s.check(!fails, "failure_swallowed", cat(w, ": the source failed, a uuid was made"));
			want[6] = (want[6] & 0x0F) | 0x40;
			want[8] = (want[8] & 0x3F) | 0x80;
			s.check(u.version() == sprout::uuids::uuid::version_random_number_based && u.variant() == sprout::uuids::uuid::variant_rfc_4122, "wrong_kind", cat(w, ": version byte ", (int)u[6], " variant byte ", (int)u[8]));
			for (int i = 0; i != 16; ++i) s.check((u[i] & 255u) == want[i], "wrong_bits", cat(w, ": byte ", i, " is ", (int)u[i], ", the words drawn give ", want[i]));
			s.check(spy.read == m.pos, "wrong_words", cat(w, ": read words up to ", spy.read, ", four draws take words up to ", m.pos));
		} catch (InjectedFault&) {
			s.fault("source_failed");
			s.check(fails, "wrong_failure", cat(w, ": failed, four draws do not"));
		}
		s.state(mix64(hash_str(cat((ld)t.hi, spy.read - start))));
	}

	// ------------------------------------------------------------------------------------------------ noise
	template<typename W>
	void noise_run(Sim& s) {
		Tape<W> t;
		gen_tape(s, t, 8);
		if (t.lo == t.hi) return;
		std::size_t start = s.skewed(5), k = 1 + s.choose(5);
		static double const sg[] = {1, 0.25, 3, 1e-3, 1e6};
		double sigma = s.pick(sg);
		unsigned how = (unsigned)s.choose(3);
		Src<W> g(&t);
		g.pos = start;
		s.log(cat("noise ", how, " sigma ", sigma, " x", k, " from word ", start, " fail at ", t.fail_at));
		std::vector<double> want, got[2];
		bool fails = false;
		{
			Src<W> m(g);
			sr::normal_distribution<double> d(0, sigma);
			try { for (std::size_t i = 0; i != (how == 2 && k < 4 ? 5 : k + 1); ++i) want.push_back(d(m)); } catch (InjectedFault&) { fails = true; } catch (StepBudget&) { s.probe("source_never_ends"); return; }
		}
		std::string w = cat("white noise of sigma ", sigma, " over words [", (ld)t.lo, ",", (ld)t.hi, "] from ", start);
		try {
			sprout::array<char, 4> four = {{}};
			if (how == 2) {
				auto const r = four | sprout::compost::waves::white_noise(g, sigma);
				s.check(r.size() == 4, "wrong_size", cat(w, ": over a range of 4 has size ", r.size()));
				s.check(r.sigma() == sigma, "wrong_sigma", cat(w, ": says ", r.sigma()));
				for (int pass = 0; pass != 2; ++pass) { std::size_t n = 0; for (auto i = r.begin(); n != k && i != r.end(); ++i, ++n) got[pass].push_back(*i); }
			} else {
				Src<W> const cg(g);
				auto const r = how ? sprout::compost::waves::white_noise(g, sigma) : sprout::compost::waves::white_noise(cg, sigma);
				s.check(r.sigma() == sigma, "wrong_sigma", cat(w, ": says ", r.sigma()));
				for (int pass = 0; pass != 2; ++pass) { auto i = r.begin(); for (std::size_t n = 0; n != k; ++n, ++i) got[pass].push_back(*i); }
			}
			s.step(k);
		} catch (InjectedFault&) {
			s.fault("source_failed");
			s.check(fails, "wrong_failure", cat(w, ": failed though the draws do not"));
			return;
		}
		s.check(got[0].size() == (how == 2 && k > 4 ? 4 : k), "wrong_size", cat(w, ": gave ", got[0].size(), " values"));
		for (std::size_t i = 0; i != got[0].size() && i < want.size(); ++i)
			s.check(got[0][i] == want[i] || std::fabs(got[0][i] - want[i]) <= sigma * 1e-9, "wrong_noise", cat(w, ": value ", i, " is ", got[0][i], ", the draw gives ", want[i]));
		s.check(got[0] == got[1], "second_pass", cat(w, ": a second pass gave other values"));
		s.state(mix64(hash_str(cat((ld)t.hi, sigma, how, k))));
	}
}
#define SIM_W(W, NAME) \
	SIM_SCENARIO("C09", "in_place/" NAME, 6, (in_place<W>)); \
	SIM_SCENARIO("C09", "sample/" NAME, 3, (sample_run<W>)); \
	SIM_SCENARIO("C09", "uuid/" NAME, 1, (uuid_run<W>)); \
	SIM_SCENARIO("C09", "noise/" NAME, 1, (noise_run<W>))
#define SIM_F(W, NAME, N) SIM_SCENARIO("C09", "functional<" #N ">/" NAME, 3, (functional_run<W, N>))
#if SIM_PART == 0
SIM_W(std::uint32_t, "u32");
SIM_F(std::uint32_t, "u32", 1);
SIM_F(std::uint32_t, "u32", 2);
SIM_F(std::uint32_t, "u32", 3);
#elif SIM_PART == 1
SIM_W(unsigned char, "u8");
SIM_F(unsigned char, "u8", 2);
SIM_F(unsigned char, "u8", 4);
#elif SIM_PART == 2
SIM_W(std::int32_t, "i32");
SIM_F(std::int32_t, "i32", 3);
SIM_F(std::int32_t, "i32", 8);
#else
SIM_W(std::uint64_t, "u64");
SIM_F(std::uint64_t, "u64", 5);
SIM_SCENARIO("C09", "fairness", 1, fairness);
#endif
