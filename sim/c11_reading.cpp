// C11: algorithms that read sequences (quantifiers, searches, comparisons, folds, scans, set walks) over single-pass
// sources, forward, bidirectional and random access iterators, pointers and mixtures, with operations that fail.
#include "algrun.hpp"
#include <numeric>
#include <sprout/algorithm/non_modifying.hpp>
#include <sprout/algorithm/fold_until.hpp>
#include <sprout/algorithm/fold_while.hpp>
#include <sprout/algorithm/searching.hpp>
#include <sprout/algorithm/clamp.hpp>
#include <sprout/numeric.hpp>
#include <sprout/numeric/cxx14.hpp>
#include <sprout/iterator/operation.hpp>
namespace ref {
	using namespace std;
	template<typename I, typename T> bool all_of_equal(I f, I l, T const& v) { for (; f != l; ++f) if (!(*f == v)) return false; return true; }
	template<typename I, typename T> bool any_of_equal(I f, I l, T const& v) { for (; f != l; ++f) if (*f == v) return true; return false; }
	template<typename I, typename T> bool none_of_equal(I f, I l, T const& v) { return !ref::any_of_equal(f, l, v); }
	template<typename I, typename T> bool one_of_equal(I f, I l, T const& v) { int n = 0; for (; f != l; ++f) n += *f == v; return n == 1; }
	template<typename I, typename P> bool one_of(I f, I l, P p) { int n = 0; for (; f != l; ++f) n += p(*f); return n == 1; }
	template<typename I, typename J, typename P> bool equal(I f, I l, J g, J m, P p) { for (; f != l && g != m; ++f, ++g) if (!p(*f, *g)) return false; return f == l && g == m; }
	template<typename I, typename J> bool equal(I f, I l, J g, J m) { return ref::equal(f, l, g, m, std::equal_to<Cell>()); }
	template<typename I, typename J, typename P> bool equal(I f, I l, J g, P p) { return std::equal(f, l, g, p); }
	template<typename I, typename J> bool equal(I f, I l, J g) { return std::equal(f, l, g); }
	template<typename I, typename J, typename P> std::pair<I, J> mismatch(I f, I l, J g, J m, P p) { for (; f != l && g != m && p(*f, *g); ++f, ++g) { } return std::pair<I, J>(f, g); }
	template<typename I, typename J> std::pair<I, J> mismatch(I f, I l, J g, J m) { return ref::mismatch(f, l, g, m, std::equal_to<Cell>()); }
	template<typename I, typename J, typename P> std::pair<I, J> mismatch(I f, I l, J g, P p) { return std::mismatch(f, l, g, p); }
	template<typename I, typename J> std::pair<I, J> mismatch(I f, I l, J g) { return std::mismatch(f, l, g); }
	template<typename I, typename J, typename P> bool is_permutation(I f, I l, J g, J m, P p) { return std::distance(f, l) == std::distance(g, m) && std::is_permutation(f, l, g, p); }
	template<typename I, typename J> bool is_permutation(I f, I l, J g, J m) { return ref::is_permutation(f, l, g, m, std::equal_to<Cell>()); }
	template<typename I, typename J, typename P> bool is_permutation(I f, I l, J g, P p) { return std::is_permutation(f, l, g, p); }
	template<typename I, typename J> bool is_permutation(I f, I l, J g) { return std::is_permutation(f, l, g); }
	template<typename I> bool is_increasing(I f, I l) { for (I n = f; f != l && ++n != l; f = n) if (*n < *f) return false; return true; }
	template<typename I> bool is_decreasing(I f, I l) { for (I n = f; f != l && ++n != l; f = n) if (*f < *n) return false; return true; }
	template<typename I> bool is_strictly_increasing(I f, I l) { for (I n = f; f != l && ++n != l; f = n) if (!(*f < *n)) return false; return true; }
	template<typename I> bool is_strictly_decreasing(I f, I l) { for (I n = f; f != l && ++n != l; f = n) if (!(*n < *f)) return false; return true; }
	template<typename I, typename J, typename C> int tristate_lexicographical_compare(I f, I l, J g, J m, C c) {
		for (; f != l && g != m; ++f, ++g) { if (c(*f, *g)) return -1; if (c(*g, *f)) return 1; }
		return g != m ? -1 : f != l ? 1 : 0;
	}
	template<typename I, typename J> int tristate_lexicographical_compare(I f, I l, J g, J m) { return ref::tristate_lexicographical_compare(f, l, g, m, std::less<Cell>()); }
	template<typename T, typename C> T const& clamp(T const& v, T const& lo, T const& hi, C c) { return c(v, lo) ? lo : c(hi, v) ? hi : v; }
	template<typename T> T const& clamp(T const& v, T const& lo, T const& hi) { return v < lo ? lo : hi < v ? hi : v; }
	template<typename I, typename T, typename O, typename P> T fold_while(I f, I l, T t, O o, P p) { for (; f != l && p(t); ++f) t = o(t, *f); return t; }
	template<typename I, typename T, typename O, typename P> T fold_until(I f, I l, T t, O o, P p) { for (; f != l && !p(t); ++f) t = o(t, *f); return t; }
	template<typename I, typename T, typename O> T reduce(I f, I l, T t, O o) { return std::accumulate(f, l, t, o); }
	template<typename I, typename T> T reduce(I f, I l, T t) { return std::accumulate(f, l, t); }
	template<typename I> typename std::iterator_traits<I>::value_type reduce(I f, I l) { return std::accumulate(f, l, typename std::iterator_traits<I>::value_type()); }
	template<typename I, typename J, typename T, typename O, typename P> T transform_reduce(I f, I l, J g, T t, O o, P p) { return std::inner_product(f, l, g, t, o, p); }
	template<typename I, typename J, typename T> T transform_reduce(I f, I l, J g, T t) { return std::inner_product(f, l, g, t); }
	template<typename I, typename T, typename O, typename U> T transform_reduce(I f, I l, T t, O o, U u) { for (; f != l; ++f) t = o(t, u(*f)); return t; }
	struct Same { Cell const& operator()(Cell const& c) const { return c; } };
	template<typename I, typename O, typename T, typename B, typename U> O transform_exclusive_scan(I f, I l, O o, T t, B b, U u) { for (; f != l; ++f) { T const n = b(t, u(*f)); *o = t; ++o; t = n; } return o; }
	template<typename I, typename O, typename T, typename B> O exclusive_scan(I f, I l, O o, T t, B b) { return ref::transform_exclusive_scan(f, l, o, t, b, Same()); }
	template<typename I, typename O, typename T> O exclusive_scan(I f, I l, O o, T t) { return ref::exclusive_scan(f, l, o, t, std::plus<Cell>()); }
	// the library's scans with an initial value write that value first: n + 1 positions (fit:: sizes its result so)
	template<typename I, typename O, typename B, typename U, typename T> O transform_inclusive_scan(I f, I l, O o, B b, U u, T t) { *o = t; ++o; for (; f != l; ++f) { t = b(t, u(*f)); *o = t; ++o; } return o; }
	template<typename I, typename O, typename B, typename U> O transform_inclusive_scan(I f, I l, O o, B b, U u) { if (f == l) return o; Cell t = u(*f); ++f; return ref::transform_inclusive_scan(f, l, o, b, u, t); }
	template<typename I, typename O, typename B, typename T> O inclusive_scan(I f, I l, O o, B b, T t) { return ref::transform_inclusive_scan(f, l, o, b, Same(), t); }
	template<typename I, typename O, typename B> O inclusive_scan(I f, I l, O o, B b) { return ref::transform_inclusive_scan(f, l, o, b, Same()); }
	template<typename I, typename O> O inclusive_scan(I f, I l, O o) { return ref::inclusive_scan(f, l, o, std::plus<Cell>()); }
	template<typename I, typename J> struct default_searcher_;
	template<typename I, typename J, typename C> std::pair<I, J> find_difference(I f, I l, J g, J m, C c) {
		while (f != l) { if (g == m || c(*f, *g)) return std::pair<I, J>(f, g); if (c(*g, *f)) ++g; else { ++f; ++g; } }
		return std::pair<I, J>(l, m);
	}
	template<typename I, typename J, typename C> std::pair<I, J> find_intersection(I f, I l, J g, J m, C c) {
		while (f != l && g != m) { if (c(*f, *g)) ++f; else if (c(*g, *f)) ++g; else return std::pair<I, J>(f, g); }
		return std::pair<I, J>(l, m);
	}
	template<typename I, typename J, typename C> std::pair<I, J> find_symmetric_difference(I f, I l, J g, J m, C c) {
		while (f != l && g != m && !c(*f, *g) && !c(*g, *f)) { ++f; ++g; }
		return std::pair<I, J>(f, g);
	}
	template<typename I, typename J, typename C> std::pair<I, J> next_difference(I f, I l, J g, J m, C c) { return f == l ? std::pair<I, J>(l, m) : ref::find_difference(++f, l, g, m, c); }
	template<typename I, typename J, typename C> std::pair<I, J> next_intersection(I f, I l, J g, J m, C c) { return f == l || g == m ? std::pair<I, J>(l, m) : (++f, ++g, ref::find_intersection(f, l, g, m, c)); }
	template<typename I, typename J, typename C> std::pair<I, J> next_symmetric_difference(I f, I l, J g, J m, C c) {
		if (f != l && g != m) { if (c(*f, *g)) ++f; else ++g; return ref::find_symmetric_difference(f, l, g, m, c); }
		if (f != l) ++f; else if (g != m) ++g;
		return std::pair<I, J>(f, g);
	}
	template<typename I, typename J, typename C> std::pair<I, J> next_union(I f, I l, J g, J m, C c) {
		bool const a = f != l && (g == m || !c(*g, *f)), b = g != m && (f == l || !c(*f, *g));
		if (a) ++f;
		if (b) ++g;
		return std::pair<I, J>(f, g);
	}
	template<typename I, typename J> std::pair<I, J> find_difference(I f, I l, J g, J m) { return ref::find_difference(f, l, g, m, std::less<Cell>()); }
	template<typename I, typename J> std::pair<I, J> find_intersection(I f, I l, J g, J m) { return ref::find_intersection(f, l, g, m, std::less<Cell>()); }
	template<typename I, typename J> std::pair<I, J> find_symmetric_difference(I f, I l, J g, J m) { return ref::find_symmetric_difference(f, l, g, m, std::less<Cell>()); }
	template<typename I, typename J> std::pair<I, J> next_difference(I f, I l, J g, J m) { return ref::next_difference(f, l, g, m, std::less<Cell>()); }
	template<typename I, typename J> std::pair<I, J> next_intersection(I f, I l, J g, J m) { return ref::next_intersection(f, l, g, m, std::less<Cell>()); }
	template<typename I, typename J> std::pair<I, J> next_symmetric_difference(I f, I l, J g, J m) { return ref::next_symmetric_difference(f, l, g, m, std::less<Cell>()); }
	template<typename I, typename J> std::pair<I, J> next_union(I f, I l, J g, J m) { return ref::next_union(f, l, g, m, std::less<Cell>()); }
}
namespace {
	typedef std::input_iterator_tag IT;
	template<typename Min> struct Weak { typedef It<Min, Cell const> type; };
	template<> struct Weak<IT> { typedef SIt type; };
	template<typename Min, int T> struct RTypes;
	template<typename Min> struct RTypes<Min, 4> { typedef Ctx<Cell*, typename Weak<Min>::type, typename Weak<Min>::type, OIt> type; };
	template<typename Min> struct RTypes<Min, 5> { typedef Ctx<Cell*, It<RT, Cell const>, It<RT, Cell const>, It<RT, Cell> > type; };
	template<typename Min> struct RTypes<Min, 6> { typedef Ctx<Cell*, Cell const*, Cell const*, Cell*> type; };
	template<typename Min> struct RTypes<Min, 7> { typedef Ctx<Cell*, It<RT, Cell const>, typename Weak<Min>::type, Cell*> type; };
	template<typename Min> struct RTypes<Min, 8> { typedef Ctx<Cell*, typename Weak<Min>::type, Cell const*, OIt> type; };
	template<typename S, typename R, typename Min, int T>
	bool radd(char const* name, Prep p, Cost c) {
		typedef typename RTypes<Min, T>::type C;
		algs().push_back(Alg{name, EXACT, p, c, NOTE, &drive<C, S>, &drive<C, R>, T});
		return true;
	}
#define RALG(NAME, MIN, PREP, COST, ...) \
	struct S_##NAME { template<typename C> static void run(C& c) { namespace NS = ::sprout; __VA_ARGS__ } }; \
	struct R_##NAME { template<typename C> static void run(C& c) { namespace NS = ::ref; __VA_ARGS__ } }; \
	bool const reg_##NAME = radd<S_##NAME, R_##NAME, MIN, 4>(#NAME, PREP, COST) && radd<S_##NAME, R_##NAME, MIN, 5>(#NAME, PREP, COST) && radd<S_##NAME, R_##NAME, MIN, 6>(#NAME, PREP, COST) \
		&& radd<S_##NAME, R_##NAME, MIN, 7>(#NAME, PREP, COST) && radd<S_##NAME, R_##NAME, MIN, 8>(#NAME, PREP, COST)
#define X2 c.xb(), c.xe()
#define Y2 c.yb(), c.ye()

#if SIM_PART == 0
	RALG(all_of, IT, RAW, LIN, c.rn(NS::all_of(X2, c.pr)););
	RALG(any_of, IT, RAW, LIN, c.rn(NS::any_of(X2, c.pr)););
	RALG(none_of, IT, RAW, LIN, c.rn(NS::none_of(X2, c.pr)););
	RALG(one_of, IT, RAW, LIN, c.rn(NS::one_of(X2, c.pr)););
	RALG(all_of_equal, IT, RAW, LIN, c.rn(NS::all_of_equal(X2, c.val)););
	RALG(any_of_equal, IT, RAW, LIN, c.rn(NS::any_of_equal(X2, c.val)););
	RALG(none_of_equal, IT, RAW, LIN, c.rn(NS::none_of_equal(X2, c.val)););
	RALG(one_of_equal, IT, RAW, LIN, c.rn(NS::one_of_equal(X2, c.val)););
	RALG(find, IT, RAW, LIN, c.rx(NS::find(X2, c.val)););
	RALG(find_if, IT, RAW, LIN, c.rx(NS::find_if(X2, c.pr)););
	RALG(find_if_not, IT, RAW, LIN, c.rx(NS::find_if_not(X2, c.pr)););
	RALG(count, IT, RAW, LIN, c.rn(NS::count(X2, c.val)););
	RALG(count_if, IT, RAW, LIN, c.rn(NS::count_if(X2, c.pr)););
	RALG(adjacent_find, FT, RAW, LIN, if (c.dflt) c.rx(NS::adjacent_find(X2)); else c.rx(NS::adjacent_find(X2, c.eq)););
	RALG(is_partitioned, IT, RAW, LIN, c.rn(NS::is_partitioned(X2, c.pr)););
	RALG(distance, IT, RAW, FREE, c.rn(NS::distance(X2)););
	RALG(fold_while, IT, RAW, LIN, c.rv_(NS::fold_while(X2, c.val, c.bin, c.pr)););
	RALG(fold_until, IT, RAW, LIN, c.rv_(NS::fold_until(X2, c.val, c.bin, c.pr)););
#elif SIM_PART == 1
	RALG(equal_3, IT, MERGE, LIN, if (c.nx <= (long)c.p.y.size()) { if (c.dflt) c.rn(NS::equal(X2, c.yb())); else c.rn(NS::equal(X2, c.yb(), c.eq)); });
	RALG(equal, IT, MERGE, LIN, if (c.dflt) c.rn(NS::equal(X2, Y2)); else c.rn(NS::equal(X2, Y2, c.eq)););
	RALG(mismatch_3, IT, MERGE, LIN, if (c.nx <= (long)c.p.y.size()) { if (c.dflt) { auto r = NS::mismatch(X2, c.yb()); c.rx(r.first); c.ry(r.second); } else { auto r = NS::mismatch(X2, c.yb(), c.eq); c.rx(r.first); c.ry(r.second); } });
	RALG(mismatch, IT, MERGE, LIN, if (c.dflt) { auto r = NS::mismatch(X2, Y2); c.rx(r.first); c.ry(r.second); } else { auto r = NS::mismatch(X2, Y2, c.eq); c.rx(r.first); c.ry(r.second); });
	RALG(lexicographical_compare, IT, MERGE, LIN, if (c.dflt) c.rn(NS::lexicographical_compare(X2, Y2)); else c.rn(NS::lexicographical_compare(X2, Y2, c.lt)););
	RALG(tristate_lexicographical_compare, IT, MERGE, LIN, if (c.dflt) c.rn(NS::tristate_lexicographical_compare(X2, Y2)); else c.rn(NS::tristate_lexicographical_compare(X2, Y2, c.lt)););
	RALG(is_permutation_3, FT, MERGE, FREE, if (c.nx <= (long)c.p.y.size()) { if (c.dflt) c.rn(NS::is_permutation(X2, c.yb())); else c.rn(NS::is_permutation(X2, c.yb(), c.eq)); });
	RALG(is_permutation, FT, MERGE, FREE, if (c.dflt) c.rn(NS::is_permutation(X2, Y2)); else c.rn(NS::is_permutation(X2, Y2, c.eq)););
	RALG(search, FT, MERGE, FREE, if (c.dflt) c.rx(NS::search(X2, Y2)); else c.rx(NS::search(X2, Y2, c.eq)););
	RALG(search_n, FT, RAW, FREE, if (c.dflt) c.rx(NS::search_n(X2, c.p.div - 1, c.val)); else c.rx(NS::search_n(X2, c.p.div, c.val, c.eq)););
	RALG(find_end, FT, MERGE, FREE, if (c.dflt) c.rx(NS::find_end(X2, Y2)); else c.rx(NS::find_end(X2, Y2, c.eq)););
#elif SIM_PART == 2
	RALG(lower_bound, FT, SORTX, LOGN, if (c.dflt) c.rx(NS::lower_bound(X2, c.val)); else c.rx(NS::lower_bound(X2, c.val, c.lt)););
	RALG(upper_bound, FT, SORTX, LOGN, if (c.dflt) c.rx(NS::upper_bound(X2, c.val)); else c.rx(NS::upper_bound(X2, c.val, c.lt)););
	RALG(equal_range, FT, SORTX, LOGN, if (c.dflt) { auto r = NS::equal_range(X2, c.val); c.rx(r.first); c.rx(r.second); } else { auto r = NS::equal_range(X2, c.val, c.lt); c.rx(r.first); c.rx(r.second); });
	RALG(binary_search, FT, SORTX, LOGN, if (c.dflt) c.rn(NS::binary_search(X2, c.val)); else c.rn(NS::binary_search(X2, c.val, c.lt)););
	RALG(partition_point, FT, PARTX, LOGN, c.rx(NS::partition_point(X2, c.pr)););
	RALG(is_sorted, FT, RAW, LIN, if (c.dflt) c.rn(NS::is_sorted(X2)); else c.rn(NS::is_sorted(X2, c.lt)););
	RALG(is_sorted_until, FT, RAW, LIN, if (c.dflt) c.rx(NS::is_sorted_until(X2)); else c.rx(NS::is_sorted_until(X2, c.lt)););
	RALG(is_heap, RT, HEAPX, LIN, if (c.dflt) c.rn(NS::is_heap(X2)); else c.rn(NS::is_heap(X2, c.lt)););
	RALG(is_heap_until, RT, HEAPX, LIN, if (c.dflt) c.rx(NS::is_heap_until(X2)); else c.rx(NS::is_heap_until(X2, c.lt)););
	RALG(is_increasing, FT, RAW, LIN, c.rn(NS::is_increasing(X2)););
	RALG(is_decreasing, FT, RAW, LIN, c.rn(NS::is_decreasing(X2)););
	RALG(is_strictly_increasing, FT, RAW, LIN, c.rn(NS::is_strictly_increasing(X2)););
	RALG(is_strictly_decreasing, FT, RAW, LIN, c.rn(NS::is_strictly_decreasing(X2)););
	RALG(min_element, FT, RAW, LIN, if (c.dflt) c.rx(NS::min_element(X2)); else c.rx(NS::min_element(X2, c.lt)););
	RALG(max_element, FT, RAW, LIN, if (c.dflt) c.rx(NS::max_element(X2)); else c.rx(NS::max_element(X2, c.lt)););
	RALG(minmax_element, FT, RAW, LIN, if (c.dflt) { auto r = NS::minmax_element(X2); c.rx(r.first); c.rx(r.second); } else { auto r = NS::minmax_element(X2, c.lt); c.rx(r.first); c.rx(r.second); });
	RALG(min_two, FT, RAW, FREE, Cell const& r = c.dflt ? NS::min(c.val, c.val2) : NS::min(c.val, c.val2, c.lt); c.rn(&r == &c.val); c.rn(&r == &c.val2););
	RALG(max_two, FT, RAW, FREE, Cell const& r = c.dflt ? NS::max(c.val, c.val2) : NS::max(c.val, c.val2, c.lt); c.rn(&r == &c.val); c.rn(&r == &c.val2););
	RALG(minmax_two, FT, RAW, FREE, if (c.dflt) { auto const& r = NS::minmax(c.val, c.val2); c.rn(&r.first == &c.val); c.rn(&r.second == &c.val); } else { auto const& r = NS::minmax(c.val, c.val2, c.lt); c.rn(&r.first == &c.val); c.rn(&r.second == &c.val); });
	RALG(clamp, FT, MERGE, FREE, if (c.nx) { Cell lo(c.p.x.front().key, 1); Cell hi(c.p.x.back().key, 2); Cell const& r = c.dflt ? NS::clamp(c.val, lo, hi) : NS::clamp(c.val, lo, hi, c.lt); c.rn(r.id); });
#elif SIM_PART == 3
	RALG(includes, IT, MERGE, LIN, if (c.dflt) c.rn(NS::includes(X2, Y2)); else c.rn(NS::includes(X2, Y2, c.lt)););
	RALG(find_first_of, FT, MERGE, FREE, if (c.dflt) c.rx(NS::find_first_of(X2, Y2)); else c.rx(NS::find_first_of(X2, Y2, c.eq)););
	RALG(walk_difference, FT, MERGE, LIN, auto l1 = c.xe(); auto l2 = c.ye();
		auto r = c.dflt ? NS::find_difference(c.xb(), l1, c.yb(), l2) : NS::find_difference(c.xb(), l1, c.yb(), l2, c.lt);
		while (r.first != l1) { c.rv_(*r.first); c.rx(r.first); c.ry(r.second); r = c.dflt ? NS::next_difference(r.first, l1, r.second, l2) : NS::next_difference(r.first, l1, r.second, l2, c.lt); });
	RALG(walk_intersection, FT, MERGE, LIN, auto l1 = c.xe(); auto l2 = c.ye();
		auto r = c.dflt ? NS::find_intersection(c.xb(), l1, c.yb(), l2) : NS::find_intersection(c.xb(), l1, c.yb(), l2, c.lt);
		while (r.first != l1) { c.rv_(*r.first); c.rx(r.first); c.ry(r.second); r = c.dflt ? NS::next_intersection(r.first, l1, r.second, l2) : NS::next_intersection(r.first, l1, r.second, l2, c.lt); });
	RALG(walk_symmetric_difference, FT, MERGE, LIN, auto l1 = c.xe(); auto l2 = c.ye();
		auto r = c.dflt ? NS::find_symmetric_difference(c.xb(), l1, c.yb(), l2) : NS::find_symmetric_difference(c.xb(), l1, c.yb(), l2, c.lt);
		while (r.first != l1 || r.second != l2) { c.rx(r.first); c.ry(r.second); r = c.dflt ? NS::next_symmetric_difference(r.first, l1, r.second, l2) : NS::next_symmetric_difference(r.first, l1, r.second, l2, c.lt); });
	RALG(walk_union, FT, MERGE, LIN, auto l1 = c.xe(); auto l2 = c.ye();
		auto r = c.dflt ? NS::next_union(c.xb(), l1, c.yb(), l2) : NS::next_union(c.xb(), l1, c.yb(), l2, c.lt);
		for (long i = 0; i <= c.nx + (long)c.p.y.size(); ++i) { c.rx(r.first); c.ry(r.second); if (r.first == l1 && r.second == l2) break; r = c.dflt ? NS::next_union(r.first, l1, r.second, l2) : NS::next_union(r.first, l1, r.second, l2, c.lt); });
#else
	RALG(accumulate, IT, RAW, LIN, if (c.dflt) c.rv_(NS::accumulate(X2, c.val)); else c.rv_(NS::accumulate(X2, c.val, c.bin)););
	RALG(inner_product, IT, MERGE, LIN, if (c.nx <= (long)c.p.y.size()) { if (c.dflt) c.rv_(NS::inner_product(X2, c.yb(), c.val)); else c.rv_(NS::inner_product(X2, c.yb(), c.val, c.bin, Bin{77})); });
	RALG(reduce, IT, RAW, LIN, c.rv_(NS::reduce(X2, c.val)););
	RALG(reduce_default, IT, RAW, LIN, if (c.nx) c.rv_(NS::reduce(X2)););
	RALG(reduce_by, IT, RAW, LIN, c.rv_(NS::reduce(X2, c.val, std::plus<Cell>())););
	RALG(transform_reduce_two, IT, MERGE, LIN, if (c.nx <= (long)c.p.y.size()) { if (c.dflt) c.rv_(NS::transform_reduce(X2, c.yb(), c.val)); else c.rv_(NS::transform_reduce(X2, c.yb(), c.val, std::plus<Cell>(), Bin{77})); });
	RALG(transform_reduce, IT, RAW, LIN, c.rv_(NS::transform_reduce(X2, c.val, std::plus<Cell>(), c.un)););
	RALG(adjacent_difference, IT, RAW, LIN, if (c.dflt) c.ru(NS::adjacent_difference(X2, c.ub())); else c.ru(NS::adjacent_difference(X2, c.ub(), c.bin)););
	RALG(partial_sum, IT, RAW, LIN, if (c.dflt) c.ru(NS::partial_sum(X2, c.ub())); else c.ru(NS::partial_sum(X2, c.ub(), c.bin)););
	RALG(exclusive_scan, IT, RAW, LIN, if (c.dflt) c.ru(NS::exclusive_scan(X2, c.ub(), c.val)); else c.ru(NS::exclusive_scan(X2, c.ub(), c.val, Aff())););
	RALG(inclusive_scan, IT, RAW, LIN, if (c.dflt) c.ru(NS::inclusive_scan(X2, c.ub())); else c.ru(NS::inclusive_scan(X2, c.ub(), Aff())););
	RALG(inclusive_scan_init, IT, RAW, LIN, c.ru(NS::inclusive_scan(X2, c.ub(), Aff(), c.val)););
	RALG(transform_exclusive_scan, IT, RAW, LIN, c.ru(NS::transform_exclusive_scan(X2, c.ub(), c.val, Aff(), c.un)););
	RALG(transform_inclusive_scan, IT, RAW, LIN, c.ru(NS::transform_inclusive_scan(X2, c.ub(), Aff(), c.un)););
	RALG(transform_inclusive_scan_init, IT, RAW, LIN, c.ru(NS::transform_inclusive_scan(X2, c.ub(), Aff(), c.un, c.val)););
	RALG(adjacent_difference_in_place, FT, RAW, LIN, if (c.dflt) c.ra(NS::adjacent_difference(c.f(), c.l(), c.f())); else c.ra(NS::adjacent_difference(c.f(), c.l(), c.f(), c.bin)););
	RALG(partial_sum_in_place, FT, RAW, LIN, if (c.dflt) c.ra(NS::partial_sum(c.f(), c.l(), c.f())); else c.ra(NS::partial_sum(c.f(), c.l(), c.f(), c.bin)););
	RALG(inclusive_scan_in_place, FT, RAW, LIN, c.ra(NS::inclusive_scan(c.f(), c.l(), c.f(), Aff())););
	RALG(exclusive_scan_in_place, FT, RAW, LIN, c.ra(NS::exclusive_scan(c.f(), c.l(), c.f(), c.val, Aff())););
	RALG(transform_exclusive_scan_in_place, FT, RAW, LIN, c.ra(NS::transform_exclusive_scan(c.f(), c.l(), c.f(), c.val, Aff(), c.un)););
	RALG(iota, FT, RAW, LIN, NS::iota(c.f(), c.l(), c.val););
#endif
	void one(Sim& s) {
		Alg const& g = algs()[s.choose(algs().size())];
		Plan p;
		bool const big = s.chance(1, 60);
		p.n = s.skewed(20);
		p.a = draw(s, p.n, 0);
		p.m = 0;
		p.nx = big ? s.range(60, 400) : (long)s.skewed(24);
		p.x = draw(s, p.nx, 10000);
		p.mx = 0;
		if (g.prep == MERGE) {
			if (s.chance(1, 2)) {	// related sequences: the second repeats or changes a part of the first
				std::size_t const at = s.choose(p.x.size() + 1);
				std::size_t const len = s.chance(1, 3) ? p.x.size() - at : s.choose(std::min<std::size_t>(p.x.size() - at, 6) + 1);
				p.y.assign(p.x.begin() + (long)at, p.x.begin() + (long)(at + len));
				for (KI& e : p.y) e.id += 10000;
				for (std::uint64_t k = s.choose(3); k--; )
					if (!p.y.empty()) {
						std::size_t const i = s.choose(p.y.size());
						if (s.chance(1, 2)) std::swap(p.y[i].key, p.y[s.choose(p.y.size())].key); else p.y[i].key += (int)s.range(-1, 1);
					}
				if (s.chance(1, 4)) for (std::uint64_t k = s.choose(4); k--; ) p.y.push_back(KI{p.y.empty() ? 0 : p.y.back().key, 25000 + (int)k});
				for (KI& e : p.y) if (e.key < 0) e.key = 0;
			} else p.y = draw(s, (long)s.skewed(20), 20000);
		}
		p.dflt = s.chance(1, 2);
		p.desc = s.chance(1, 2);
		p.div = s.pick(std::vector<int>{1, 2, 5});
		p.kmod = s.pick(std::vector<int>{1, 2, 3, 7, 50});
		p.krest = (int)s.choose((std::uint64_t)p.kmod);
		p.gen0 = 0;
		p.room = 1;
		p.val = !p.x.empty() && s.chance(2, 3) ? KI{p.x[s.choose(p.x.size())].key, -50} : KI{(int)s.range(0, 12), -50};
		p.val2 = KI{s.chance(1, 4) ? p.val.key : (int)s.range(0, 40), -51};
		Less0 lt{&p};
		bool const walk = !std::strncmp(g.name, "walk", 4) || !std::strcmp(g.name, "includes") || !std::strcmp(g.name, "clamp");
		if (walk) { std::stable_sort(p.x.begin(), p.x.end(), lt); std::stable_sort(p.y.begin(), p.y.end(), lt); }
		if (g.prep == SORTX) std::stable_sort(p.x.begin(), p.x.end(), lt);
		if (g.prep == PARTX) std::stable_partition(p.x.begin(), p.x.end(), [&](KI const& e) { return e.key % p.kmod == p.krest; });
		if (g.prep == HEAPX) {
			std::make_heap(p.x.begin(), p.x.end(), lt);
			if (!p.x.empty() && s.chance(1, 2)) p.x[s.choose(p.x.size())].key = (int)s.range(0, 40);
		}
		std::string const w = what(g, p) + cat(" value ", p.val.key);
		s.log(w);
		Result q, r;
		g.run_ref(p, q, 0, 0, true);
		static unsigned const masks[] = {CMP, CMP, COPY, READ | STEP, WRITE, ALL};
		static char const* const kinds[] = {"callback_failed", "callback_failed", "copy_failed", "iterator_failed", "sink_failed", "operation_failed"};
		int const mi = (int)s.choose(6);
		g.run_sprout(p, r, masks[mi], 0, false);
		s.step(r.ops + 1);
		s.check(r.bad.empty() && !r.stopped, "misuse", cat(w, ": ", r.bad));
		s.check(r.leak == 0, "leak", cat(w, ": ", r.leak, " elements alive too many"));
		s.check(!r.threw, "throws", cat(w, ": throws though nothing failed"));
		for (std::size_t i = 0; i != std::max(r.rets.size(), q.rets.size()); ++i)
			s.check(i < r.rets.size() && i < q.rets.size() && r.rets[i] == q.rets[i], "wrong_return", cat(w, ": result ", i, " is ", i < r.rets.size() ? r.rets[i] : -99, ", not ", i < q.rets.size() ? q.rets[i] : -99));
		s.check(r.vals == q.vals, "wrong_value", cat(w, ": gives ", show(r.vals), ", not ", show(q.vals)));
		s.check(r.u == q.u, "wrong_output", cat(w, ": writes ", show(r.u), ", not ", show(q.u)));
		s.check(r.a == q.a, "wrong_contents", cat(w, ": leaves ", show(r.a), ", not ", show(q.a)));
		s.check(r.x == p.x && r.y == p.y && !r.moved_x, "source_changed", cat(w, ": changes its source"));
		{
			Result t;
			g.run_sprout(p, t, CMP, 0, true);
			double const N = (double)(p.nx + (long)p.y.size() + p.n) + 2, L = std::log2(N);
			double const bound = g.cost == FREE ? 8 * N * N + 64 : g.cost == LIN ? 4 * N + 8 : 4 * L + 8;
			s.check((double)t.ops <= bound, "too_slow", cat(w, ": calls back ", t.ops, " times"));
		}
		if (!r.ops) { s.state(mix64(hash_str(cat(g.name, g.types, p.nx, mi)))); return; }
		long const at = 1 + (long)s.choose((std::uint64_t)r.ops);
		Result f;
		g.run_sprout(p, f, masks[mi], at, false);
		s.fault(kinds[mi]);
		std::string const wf = cat(w, ", operation ", at, " of ", r.ops, " (", kinds[mi], ")");
		s.step(f.ops + 1);
		s.check(f.fired, "irreproducible", cat(wf, ": does other operations than before"));
		s.check(f.bad.empty() && !f.stopped, "misuse_after_failure", cat(wf, ": ", f.bad));
		s.check(f.threw, "swallowed", cat(wf, ": hides the failure"));
		s.check(f.leak == 0, "leak", cat(wf, ": ", f.leak, " elements alive too many"));
		s.check(f.x == p.x && f.y == p.y && !f.moved_x, "source_changed", cat(wf, ": changes its source"));
		bool open = true;
		for (std::size_t i = 0; i != f.u.size(); ++i) {
			bool const blank = f.u[i] == KI{-7, -7};
			if (blank) open = false;
			else s.check(open && f.u[i] == q.u[i], "wrong_output", cat(wf, ": has written ", show(f.u), " of ", show(q.u)));
		}
		s.state(mix64(hash_str(cat(g.name, g.types, p.nx, mi, at))));
		s.nontrivial();
	}
}
#if SIM_PART == 0
SIM_SCENARIO("C11", "quantifiers", 3, one);
#elif SIM_PART == 1
SIM_SCENARIO("C11", "comparisons", 2, one);
#elif SIM_PART == 2
SIM_SCENARIO("C11", "orders", 3, one);
#elif SIM_PART == 3
SIM_SCENARIO("C11", "sets", 1, one);
#else
SIM_SCENARIO("C11", "folds", 3, one);
#endif
