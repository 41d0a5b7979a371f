// C10: algorithms that change or produce sequences (in place and through output iterators), over single-pass sources,
// forward, bidirectional and random access iterators and pointers, with operations that fail at any point.
//
// Every algorithm is written once and instantiated twice: with sprout:: and with the standard library (hand-written
// references where the standard has none).  The fault-free run must leave and return what the standard leaves and returns;
// the run with a failing operation must propagate the failure and keep the sequence sound.
#include "algrun.hpp"
#include <sprout/algorithm/cxx14.hpp>
#include <sprout/algorithm/gather.hpp>
#include <sprout/algorithm/for_each_n.hpp>
#include <sprout/utility/pair.hpp>
namespace ref {
	using namespace std;
	template<typename I, typename O, typename T, typename C> O clamp_range(I f, I l, O o, T const& lo, T const& hi, C c) {
		for (; f != l; ++f) { Cell const& v = *f; *o = c(v, lo) ? lo : c(hi, v) ? hi : v; ++o; }
		return o;
	}
	template<typename I, typename O, typename T> O clamp_range(I f, I l, O o, T const& lo, T const& hi) {
		for (; f != l; ++f) { Cell const& v = *f; *o = v < lo ? lo : hi < v ? hi : v; ++o; }
		return o;
	}
	template<typename I, typename O, typename P> std::pair<I, O> copy_while(I f, I l, O o, P p) { for (; f != l && p(*f); ++f) { *o = *f; ++o; } return std::pair<I, O>(f, o); }
	template<typename I, typename O, typename P> std::pair<I, O> copy_until(I f, I l, O o, P p) { for (; f != l && !p(*f); ++f) { *o = *f; ++o; } return std::pair<I, O>(f, o); }
	template<typename P> struct Not { P p; bool operator()(Cell const& c) const { return !p(c); } };
	template<typename I, typename P> std::pair<I, I> gather(I f, I l, I m, P p) {
		I a = std::stable_partition(f, m, Not<P>{p});
		I b = std::stable_partition(m, l, p);
		return std::pair<I, I>(a, b);
	}
	template<typename I, typename S, typename V> I for_each_n(I f, S n, V v) { for (S i = 0; i != n; ++i, ++f) v(*f); return f; }
}
namespace {
#if SIM_PART == 0
	ALG(fill, FT, EXACT, RAW, FREE, NOTE, NS::fill(c.f(), c.l(), c.val););
	ALG(fill_n, FT, EXACT, RAW, FREE, NOTE, c.ra(NS::fill_n(c.f(), c.m, c.val)););
	ALG(generate, FT, EXACT, RAW, LIN, NOTE, NS::generate(c.f(), c.l(), c.gen()););
	ALG(generate_n, FT, EXACT, RAW, LIN, NOTE, c.ra(NS::generate_n(c.f(), c.m, c.gen())););
	ALG(generate_n_out, FT, EXACT, RAW, LIN, NOTE, c.ru(NS::generate_n(c.ub(), c.mx, c.gen())););
	ALG(for_each, FT, EXACT, RAW, LIN, NOTE, NS::for_each(c.xb(), c.xe(), c.visit()););
	ALG(for_each_mutable, FT, EXACT, RAW, LIN, NOTE, NS::for_each(c.f(), c.l(), c.visit_mut()););
	ALG(for_each_n, FT, EXACT, RAW, LIN, NOTE, c.ra(NS::for_each_n(c.f(), c.m, c.visit_mut())););
	ALG(copy, FT, EXACT, RAW, FREE, NOTE, c.ru(NS::copy(c.xb(), c.xe(), c.ub())););
	ALG(copy_left, FT, EXACT, RAW, FREE, NOTE, c.ra(NS::copy(c.mid(), c.l(), c.f())););
	ALG(copy_backward, BT, EXACT, RAW, FREE, NOTE, c.ra(NS::copy_backward(c.f(), c.mid(), c.l())););
	ALG(copy_n, FT, EXACT, RAW, FREE, NOTE, c.ru(NS::copy_n(c.xb(), c.mx, c.ub())););
	ALG(copy_if, FT, EXACT, RAW, LIN, NOTE, c.ru(NS::copy_if(c.xb(), c.xe(), c.ub(), c.pr)););
	ALG(copy_while, FT, EXACT, RAW, LIN, NOTE, auto r = NS::copy_while(c.xb(), c.xe(), c.ub(), c.pr); c.rx(r.first); c.ru(r.second););
	ALG(copy_until, FT, EXACT, RAW, LIN, NOTE, auto r = NS::copy_until(c.xb(), c.xe(), c.ub(), c.pr); c.rx(r.first); c.ru(r.second););
	ALG(move, FT, EXACT, RAW, FREE, NOTE, c.ru(NS::move(c.f(), c.l(), c.ub())););
	ALG(move_backward, BT, EXACT, RAW, FREE, NOTE, c.rb(NS::move_backward(c.f(), c.mid(), Make<decltype(c.f())>::at(c.B, c.m))););
	ALG(swap_ranges, FT, EXACT, RAW, FREE, SWAPS, c.rb(NS::swap_ranges(c.f(), c.mid(), c.bb())););
	ALG(iter_swap, FT, EXACT, RAW, FREE, SWAPS, if (c.m < c.n) NS::iter_swap(c.f(), c.mid()););
	ALG(clamp_range, FT, EXACT, RAW, LIN, NOTE,
		if (c.dflt) c.ru(NS::clamp_range(c.xb(), c.xe(), c.ub(), c.val, c.val2)); else c.ru(NS::clamp_range(c.xb(), c.xe(), c.ub(), c.val, c.val2, c.lt)););
	ALG(transform, FT, EXACT, RAW, LIN, NOTE, c.ru(NS::transform(c.xb(), c.xe(), c.ub(), c.un)););
	ALG(transform_two, FT, EXACT, MERGE, LIN, NOTE, c.ru(c.nx <= (long)c.p.y.size() ? NS::transform(c.xb(), c.xe(), c.yb(), c.ub(), c.bin) : NS::transform(c.yb(), c.ye(), c.xb(), c.ub(), c.bin)););
	ALG(transform_in_place, FT, EXACT, RAW, LIN, NOTE, c.ra(NS::transform(c.f(), c.l(), c.f(), c.un)););
#elif SIM_PART == 1
	ALG(replace, FT, EXACT, RAW, LIN, NOTE, NS::replace(c.f(), c.l(), c.val, c.val2););
	ALG(replace_if, FT, EXACT, RAW, LIN, NOTE, NS::replace_if(c.f(), c.l(), c.pr, c.val2););
	ALG(replace_copy, FT, EXACT, RAW, LIN, NOTE, c.ru(NS::replace_copy(c.xb(), c.xe(), c.ub(), c.val, c.val2)););
	ALG(replace_copy_if, FT, EXACT, RAW, LIN, NOTE, c.ru(NS::replace_copy_if(c.xb(), c.xe(), c.ub(), c.pr, c.val2)););
	ALG(remove, FT, PREFIX, RAW, LIN, PERMUTES, c.ra(NS::remove(c.f(), c.l(), c.val)););
	ALG(remove_if, FT, PREFIX, RAW, LIN, PERMUTES, c.ra(NS::remove_if(c.f(), c.l(), c.pr)););
	ALG(remove_copy, FT, EXACT, RAW, LIN, NOTE, c.ru(NS::remove_copy(c.xb(), c.xe(), c.ub(), c.val)););
	ALG(remove_copy_if, FT, EXACT, RAW, LIN, NOTE, c.ru(NS::remove_copy_if(c.xb(), c.xe(), c.ub(), c.pr)););
	ALG(unique, FT, PREFIX, RAW, LIN, PERMUTES, if (c.dflt) c.ra(NS::unique(c.f(), c.l())); else c.ra(NS::unique(c.f(), c.l(), c.eq)););
	ALG(unique_copy, FT, EXACT, RAW, LIN, NOTE, if (c.dflt) c.ru(NS::unique_copy(c.xb(), c.xe(), c.ub())); else c.ru(NS::unique_copy(c.xb(), c.xe(), c.ub(), c.eq)););
	ALG(reverse, BT, EXACT, RAW, FREE, SWAPS, NS::reverse(c.f(), c.l()););
	ALG(reverse_copy, BT, EXACT, RAW, FREE, NOTE, c.ru(NS::reverse_copy(c.f(), c.l(), c.ub())););
	ALG(rotate, FT, EXACT, RAW, FREE, SWAPS, c.ra(NS::rotate(c.f(), c.mid(), c.l())););
	ALG(rotate_copy, FT, EXACT, RAW, FREE, NOTE, c.ru(NS::rotate_copy(c.f(), c.mid(), c.l(), c.ub())););
	ALG(partition, FT, PART, RAW, LIN, SWAPS, c.ra(NS::partition(c.f(), c.l(), c.pr)););
	ALG(stable_partition, BT, EXACT, RAW, LIN, SWAPS, c.ra(NS::stable_partition(c.f(), c.l(), c.pr)););
	ALG(gather, BT, EXACT, RAW, LIN, SWAPS, auto r = NS::gather(c.f(), c.l(), c.mid(), c.pr); c.ra(r.first); c.ra(r.second););
	ALG(partition_copy, FT, EXACT, RAW, LIN, NOTE, auto r = NS::partition_copy(c.xb(), c.xe(), c.ub(), c.vb(), c.pr); c.ru(r.first); c.rv(r.second););
#elif SIM_PART == 2
	ALG(merge, FT, EXACT, MERGE, LIN, NOTE, if (c.dflt) c.ru(NS::merge(c.xb(), c.xe(), c.yb(), c.ye(), c.ub())); else c.ru(NS::merge(c.xb(), c.xe(), c.yb(), c.ye(), c.ub(), c.lt)););
	ALG(set_union, FT, EXACT, MERGE, LIN, NOTE, if (c.dflt) c.ru(NS::set_union(c.xb(), c.xe(), c.yb(), c.ye(), c.ub())); else c.ru(NS::set_union(c.xb(), c.xe(), c.yb(), c.ye(), c.ub(), c.lt)););
	ALG(set_intersection, FT, EXACT, MERGE, LIN, NOTE, if (c.dflt) c.ru(NS::set_intersection(c.xb(), c.xe(), c.yb(), c.ye(), c.ub())); else c.ru(NS::set_intersection(c.xb(), c.xe(), c.yb(), c.ye(), c.ub(), c.lt)););
	ALG(set_difference, FT, EXACT, MERGE, LIN, NOTE, if (c.dflt) c.ru(NS::set_difference(c.xb(), c.xe(), c.yb(), c.ye(), c.ub())); else c.ru(NS::set_difference(c.xb(), c.xe(), c.yb(), c.ye(), c.ub(), c.lt)););
	ALG(set_symmetric_difference, FT, EXACT, MERGE, LIN, NOTE, if (c.dflt) c.ru(NS::set_symmetric_difference(c.xb(), c.xe(), c.yb(), c.ye(), c.ub())); else c.ru(NS::set_symmetric_difference(c.xb(), c.xe(), c.yb(), c.ye(), c.ub(), c.lt)););
	ALG(inplace_merge, BT, EXACT, HALVES, NLOGN, SWAPS, if (c.dflt) NS::inplace_merge(c.f(), c.mid(), c.l()); else NS::inplace_merge(c.f(), c.mid(), c.l(), c.lt););
	ALG(next_permutation, BT, EXACT, RAW, LIN, SWAPS, if (c.dflt) c.rn(NS::next_permutation(c.f(), c.l())); else c.rn(NS::next_permutation(c.f(), c.l(), c.lt)););
	ALG(prev_permutation, BT, EXACT, RAW, LIN, SWAPS, if (c.dflt) c.rn(NS::prev_permutation(c.f(), c.l())); else c.rn(NS::prev_permutation(c.f(), c.l(), c.lt)););
	ALG(partial_sort_copy, RT, PSCOPY, RAW, NLOGN, NOTE, if (c.dflt) c.rb(NS::partial_sort_copy(c.xb(), c.xe(), c.bb(), c.be())); else c.rb(NS::partial_sort_copy(c.xb(), c.xe(), c.bb(), c.be(), c.lt)););
#else
	ALG(push_heap, RT, HEAP, HEAPED1, LOGN, PERMUTES, if (c.dflt) NS::push_heap(c.f(), c.l()); else NS::push_heap(c.f(), c.l(), c.lt););
	ALG(pop_heap, RT, POPPED, HEAPED, LOGN, PERMUTES, if (c.n) { if (c.dflt) NS::pop_heap(c.f(), c.l()); else NS::pop_heap(c.f(), c.l(), c.lt); });
	ALG(make_heap, RT, HEAP, RAW, NLOGN, PERMUTES, if (c.dflt) NS::make_heap(c.f(), c.l()); else NS::make_heap(c.f(), c.l(), c.lt););
	ALG(sort_heap, RT, SORTED, HEAPED, NLOGN, PERMUTES, if (c.dflt) NS::sort_heap(c.f(), c.l()); else NS::sort_heap(c.f(), c.l(), c.lt););
	ALG(sort, RT, SORTED, RAW, FREE, PERMUTES, if (c.dflt) NS::sort(c.f(), c.l()); else NS::sort(c.f(), c.l(), c.lt););
	ALG(stable_sort, RT, EXACT, RAW, NLOG2N, PERMUTES, if (c.dflt) NS::stable_sort(c.f(), c.l()); else NS::stable_sort(c.f(), c.l(), c.lt););
	ALG(partial_sort, RT, PSORT, RAW, NLOGN, PERMUTES, if (c.dflt) NS::partial_sort(c.f(), c.mid(), c.l()); else NS::partial_sort(c.f(), c.mid(), c.l(), c.lt););
	ALG(nth_element, RT, NTH, RAW, FREE, SWAPS, if (c.dflt) NS::nth_element(c.f(), c.mid(), c.l()); else NS::nth_element(c.f(), c.mid(), c.l(), c.lt););
#endif

	void check_result(Sim& s, Alg const& g, Plan const& p, Result const& r, Result const& q, std::string const& w) {
		Less0 lt{&p};
		s.check(r.rets == q.rets, "wrong_return", cat(w, ": returns position ", r.rets.empty() ? -1 : r.rets[0], ", not ", q.rets.empty() ? -1 : q.rets[0]));
		s.check(r.seen == q.seen, "wrong_visits", cat(w, ": visits other elements"));
		s.check(r.x == p.x && r.y == p.y && !r.moved_x, "source_changed", cat(w, ": changes its source"));
		long settled = g.kind == PREFIX && !q.rets.empty() ? q.rets[0] : p.n;
		if (std::string(g.name) == "move" || std::string(g.name) == "move_backward") settled = 0;
		for (long i = 0; i < settled; ++i) s.check(!r.amoved[i], "moved_from", cat(w, ": leaves a moved-from element at ", i));
		switch (g.kind) {
		case EXACT: case PREFIX:
			s.check(std::equal(r.a.begin(), r.a.begin() + settled, q.a.begin()), "wrong_contents", cat(w, ": leaves ", show(r.a), ", not ", show(q.a)));
			s.check(r.b == q.b, "wrong_contents", cat(w, ": leaves ", show(r.b), " in the second range, not ", show(q.b)));
			s.check(r.u == q.u && r.v == q.v, "wrong_output", cat(w, ": writes ", show(r.u), " ", show(r.v), ", not ", show(q.u), " ", show(q.v)));
			return;
		case PSCOPY:
			for (std::size_t i = 0; i != r.b.size(); ++i) {
				if ((long)i < q.rets[0]) {
					s.check(!lt(r.b[i], q.b[i]) && !lt(q.b[i], r.b[i]), "wrong_output", cat(w, ": writes ", show(r.b), ", not ", show(q.b)));
					s.check(std::find(p.x.begin(), p.x.end(), r.b[i]) != p.x.end() && std::count(r.b.begin(), r.b.begin() + q.rets[0], r.b[i]) == 1, "invented", cat(w, ": writes ", show(r.b)));
				} else s.check(r.b[i] == p.b[i], "wrong_contents", cat(w, ": writes behind its result: ", show(r.b)));
			}
			return;
		default: break;
		}
		s.check(ids(r.a) == ids(p.a), "not_a_permutation", cat(w, ": leaves ", show(r.a)));
		std::string const left = cat(w, ": leaves ", show(r.a));
		switch (g.kind) {
		case SORTED: s.check(std::is_sorted(r.a.begin(), r.a.end(), lt), "not_sorted", left); break;
		case HEAP: s.check(std::is_heap(r.a.begin(), r.a.end(), lt), "not_a_heap", left); break;
		case POPPED:
			if (p.n) {
				s.check(std::is_heap(r.a.begin(), r.a.end() - 1, lt), "not_a_heap", left);
				s.check(!lt(r.a.back(), *std::max_element(p.a.begin(), p.a.end(), lt)), "not_the_largest", left);
			}
			break;
		case PSORT: {
			Keys e = p.a;
			std::sort(e.begin(), e.end(), lt);
			for (long i = 0; i != p.m; ++i) s.check(!lt(r.a[i], e[i]) && !lt(e[i], r.a[i]), "not_sorted", left);
			break;
		}
		case NTH:
			if (p.m < p.n)
				for (long i = 0; i != p.n; ++i) s.check(i < p.m ? !lt(r.a[p.m], r.a[i]) : !lt(r.a[i], r.a[p.m]), "not_the_nth", left);
			break;
		case PART:
			for (long i = 0; i != p.n; ++i) s.check((r.a[i].key % p.kmod == p.krest) == (i < q.rets[0]), "not_partitioned", left);
			break;
		default: break;
		}
	}
	void one(Sim& s) {
		Alg const& g = algs()[s.choose(algs().size())];
		Plan p;
		bool const big = s.chance(1, 60);
		bool const heavy = g.cost == NLOGN || g.cost == NLOG2N || g.kind == SORTED || g.kind == NTH;
		p.n = big ? (heavy && s.chance(1, 3) ? s.range(1000, 1300) : s.range(60, 300)) : s.skewed(heavy ? 48 : 24);
		p.a = draw(s, p.n, 0);
		p.m = s.chance(1, 8) ? (s.chance(1, 2) ? p.n : 0) : s.range(0, (int)p.n);
		p.nx = big ? s.range(30, 200) : s.skewed(20);
		p.x = draw(s, p.nx, 10000);
		p.mx = s.range(0, (int)p.nx);
		if (g.prep == MERGE) p.y = draw(s, s.skewed(20), 20000);
		p.b = draw(s, g.kind == PSCOPY ? s.skewed(24) : p.n, 30000);
		p.dflt = s.chance(1, 2);
		p.desc = s.chance(1, 2);
		p.div = s.pick(std::vector<int>{1, 2, 5});
		p.kmod = s.pick(std::vector<int>{1, 2, 3, 7});
		p.krest = s.choose(p.kmod);
		p.gen0 = s.range(0, 9);
		p.val = !p.a.empty() && s.chance(2, 3) ? KI{p.a[s.choose(p.a.size())].key, -50} : KI{(int)s.range(0, 12), -50};
		p.val2 = KI{(int)s.range(0, 40), -51};
		Less0 lt{&p};
		if (std::string(g.name) == "clamp_range" && lt(p.val2, p.val)) std::swap(p.val.key, p.val2.key);
		if (g.prep == HALVES) { std::stable_sort(p.a.begin(), p.a.begin() + p.m, lt); std::stable_sort(p.a.begin() + p.m, p.a.end(), lt); }
		if (g.prep == HEAPED) std::make_heap(p.a.begin(), p.a.end(), lt);
		if (g.prep == HEAPED1 && p.n) std::make_heap(p.a.begin(), p.a.end() - 1, lt);
		if (g.prep == MERGE) { std::stable_sort(p.x.begin(), p.x.end(), lt); std::stable_sort(p.y.begin(), p.y.end(), lt); }
		std::string const w = what(g, p);
		s.log(w);
		Result q, r;
		g.run_ref(p, q, 0, 0, true);
		unsigned const masks[] = {CMP, CMP, COPY, MOVE, COPY | MOVE, READ | STEP, WRITE, ALL};
		unsigned const mask = masks[s.choose(8)];
		g.run_sprout(p, r, mask, 0, false);
		s.step(r.ops + 1);
		s.check(r.bad.empty() && !r.stopped, "misuse", cat(w, ": ", r.bad));
		s.check(r.leak == 0, "leak", cat(w, ": ", r.leak, " elements alive too many"));
		s.check(!r.threw, "throws", cat(w, ": throws though nothing failed"));
		check_result(s, g, p, r, q, w);
		{
			Result t;
			g.run_sprout(p, t, CMP, 0, true);
			double const N = (double)(g.prep == MERGE ? p.nx + (long)p.y.size() : g.kind == PSCOPY || std::string(g.name) == "clamp_range" ? p.nx + (long)p.b.size() : std::max(p.n, p.nx)) + 2, L = std::log2(N);
			double const bound = g.cost == FREE ? 1e18 : g.cost == LIN ? 4 * N + 8 : g.cost == LOGN ? 4 * L + 8 : g.cost == NLOGN ? 6 * N * L + 64 : 4 * N * L * L + 64;
			s.check((double)t.ops <= bound, "too_slow", cat(w, ": calls back ", t.ops, " times"));
		}
		if (!r.ops) { s.state(mix64(hash_str(cat(g.name, g.types, p.n, mask)))); return; }
		long const at = 1 + (long)s.choose((std::uint64_t)r.ops);
		Result f;
		g.run_sprout(p, f, mask, at, false);
		static char const* const kinds[] = {"callback_failed", "callback_failed", "copy_failed", "move_failed", "copy_or_move_failed", "iterator_failed", "sink_failed", "operation_failed"};
		int mi = 0;
		while (masks[mi] != mask) ++mi;
		s.fault(kinds[mi]);
		std::string const wf = cat(w, ", operation ", at, " of ", r.ops, " (", kinds[mi], ")");
		s.step(f.ops + 1);
		s.check(f.fired, "irreproducible", cat(wf, ": does other operations than before"));
		s.check(f.bad.empty() && !f.stopped, "misuse_after_failure", cat(wf, ": ", f.bad));
		s.check(f.threw, "swallowed", cat(wf, ": hides the failure"));
		s.check(f.leak == 0, "leak", cat(wf, ": ", f.leak, " elements alive too many"));
		s.check(f.x == p.x && f.y == p.y && !f.moved_x, "source_changed", cat(wf, ": changes its source"));
		for (Keys Result::* o : {&Result::u, &Result::v}) {
			bool open = true;
			for (std::size_t i = 0; i != (f.*o).size(); ++i) {
				bool const blank = (f.*o)[i] == KI{-7, -7};
				if (blank) open = false;
				else s.check(open && (f.*o)[i] == (q.*o)[i], "wrong_output", cat(wf, ": has written ", show(f.*o), " of ", show(q.*o)));
			}
		}
		if (g.keep != NOTE) {
			Keys left;
			for (long i = 0; i != p.n; ++i) if (!f.amoved[i]) left.push_back(f.a[i]);
			Keys const had = ids(p.a);
			left = ids(left);
			if (std::string(g.name) != "swap_ranges") {
				s.check(std::adjacent_find(left.begin(), left.end()) == left.end(), "duplicated", cat(wf, ": leaves ", show(f.a)));
				s.check(std::includes(had.begin(), had.end(), left.begin(), left.end()), "invented", cat(wf, ": leaves ", show(f.a)));
				if (g.keep == SWAPS && (mask & (CMP | READ | STEP | WRITE)) == mask) s.check(left == had, "lost", cat(wf, ": leaves ", show(f.a)));
			}
		}
		s.state(mix64(hash_str(cat(g.name, g.types, p.n, mask, at))));
		s.nontrivial();
	}
}
#if SIM_PART == 0
SIM_SCENARIO("C10", "copies", 3, one);
#elif SIM_PART == 1
SIM_SCENARIO("C10", "removals", 3, one);
#elif SIM_PART == 2
SIM_SCENARIO("C10", "merges", 2, one);
#else
SIM_SCENARIO("C10", "sorts", 3, one);
#endif
