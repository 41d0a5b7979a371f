// C12: algorithms that return a new container (sprout::fixed, sprout::fit) over arrays and windows of arrays, with
// copies, iterators and callbacks that fail.
#include "algrun.hpp"
#include <numeric>
#include <sprout/array.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/utility/pair.hpp>
#include <sprout/algorithm/fixed.hpp>
#include <sprout/algorithm/fit.hpp>
#include <sprout/numeric/fixed.hpp>
#include <sprout/numeric/fit.hpp>
#include <sprout/operation.hpp>
#include <sprout/range/range_container.hpp>
#include <sprout/range/algorithm/fixed.hpp>
#include <sprout/range/algorithm/fit.hpp>
#include <sprout/range/numeric/fixed.hpp>
#include <sprout/range/numeric/fit.hpp>
namespace {
	typedef std::vector<Cell> Cells;
	template<std::size_t N> using Arr = sprout::array<Cell, N>;
	template<std::size_t N> using Sub = sprout::sub_array<sprout::array<Cell, N> >;
	Cells cells(Keys const& k) { Cells r; r.reserve(k.size()); for (KI const& e : k) r.push_back(Cell(e.key, e.id)); return r; }
	Keys keys_of(Cells const& c) { Keys r; for (Cell const& e : c) r.push_back(KI{e.key, e.id}); return r; }
	// what the algorithm should produce, computed with the standard library
	struct Model {
		Cells a, x, y, out;
		Cell v, v2;
		Pred pr; Pred2 eq; Less lt; Un un; Bin bin;
		bool dflt;
		long m, mx, n, k, fitn;
		Cells all;	// for operations that change the size: the whole array delivered, and the window in it
		long room, from, size, fsize;
		bool whole, array;
		std::vector<long> rets;
		Model(Plan const& p, Keys const& internal, bool is_array)
			: a(cells(p.a)), x(cells(p.x)), y(cells(p.y)), v(p.val.key, p.val.id), v2(p.val2.key, p.val2.id), pr(Pred{p.kmod, p.krest}), eq(Pred2{p.div}), lt(Less{p.div, p.desc}), un(Un{p.div}), bin(Bin{p.kmod})
			, dflt(p.dflt), m(p.m), mx(p.mx), n(p.n), k(p.gen0), fitn(-1), all(cells(internal)), room(p.room), from(p.room), size(p.n), fsize(p.n), whole(false), array(is_array)
		{
			if (dflt) { eq = Pred2{1}; lt = Less{1, false}; }
		}
		void in(long at, Cells const& c) { whole = true; all.insert(all.begin() + room + at, c.begin(), c.end()); size += (long)c.size(); fsize = size; }
		void cut(long at, long k) { whole = true; all.erase(all.begin() + room + at, all.begin() + room + at + k); size -= k; fsize = size; }
		void fresh(long k, long b, long keep, Cell const& rest) { whole = true; all.assign(k, rest); for (long i = std::max(0L, b); i < b + n && i < k; ++i) all[i] = a[i - b]; from = 0; size = k; fsize = keep; }
		long two() const { return all.size() > 1 ? 2 : 1; }
		Cells many(long k) const { Cells r; for (long i = 0; i != k; ++i) { r.push_back(v); r.push_back(v2); } return r; }
		Cells window() const { Cells r(many(2)); return Cells(r.begin() + 1, r.begin() + 1 + k % 4); }
		std::back_insert_iterator<Cells> to() { return std::back_inserter(out); }
	};
	template<typename Cat> struct Src { typedef It<Cat, Cell const> type; };
	template<> struct Src<void> { typedef Cell const* type; };
	struct NextCell {
		int at;
		sprout::pair<Cell, NextCell> operator()() const;
	};
	inline sprout::pair<Cell, NextCell> NextCell::operator()() const { world().tick(CMP); return sprout::pair<Cell, NextCell>(Cell(at, at), NextCell{at + 1}); }
	struct Unfold { sprout::pair<Cell, int> operator()(int i) const { world().tick(CMP); return sprout::pair<Cell, int>(Cell(i * 3 % 17, i), i + 1); } };
	struct Recur { Cell operator()(Cell const& a, Cell const& b) const { return mix(a, b, 3); } Cell operator()() const { world().tick(CMP); return Cell(5, 5); } };
	struct Count {
		int key, id;
		Count operator+(long i) const { world().tick(CMP); return Count{(int)(key + i), id}; }
		operator Cell() const { return Cell(key, id); }
	};
	template<typename T> struct Hold;	// the container under test: an array, or a window of one
	template<std::size_t N> struct Hold<Arr<N> > {
		Arr<N> c;
		Hold(Keys const& k, long, long) { for (std::size_t i = 0; i != N; ++i) { c[i].key = k[i].key; c[i].id = k[i].id; } }
		Arr<N> const& get() const { return c; }
		Keys all() const { Keys r; for (Cell const& e : c) r.push_back(KI{e.key, e.id}); return r; }
		bool moved() const { for (Cell const& e : c) if (e.moved) return true; return false; }
		enum { size = N, window = 0 };
	};
	template<std::size_t N> struct Hold<Sub<N> > {
		Hold<Arr<N> > h;
		Sub<N> c;
		Hold(Keys const& k, long b, long e) : h(k, 0, 0), c(h.c, b, e) { }
		Sub<N> const& get() const { return c; }
		Keys all() const { Keys r; for (Cell const& e : c.get_internal()) r.push_back(KI{e.key, e.id}); return r; }
		bool moved() const { for (Cell const& e : c.get_internal()) if (e.moved) return true; return false; }
		enum { size = N, window = 1 };
	};
	struct Taken {
		Keys all; long from, size; bool moved;
	};
	template<typename T, typename I>
	struct FCtx {
		typedef T Cont;
		Plan const& p;
		Hold<T> h;
		Buf X, Y;
		Cell v, v2;
		Pred pr; Pred2 eq; Less lt; Un un; Bin bin;
		bool dflt;
		long n, m, nx, mx;
		std::vector<long> rets;
		Taken t;
		FCtx(Plan const& q, Keys const& internal)
			: p(q), h(internal, q.room, q.room + q.n), X(q.x), Y(q.y), v(q.val.key, q.val.id), v2(q.val2.key, q.val2.id)
			, pr(Pred{q.kmod, q.krest}), eq(Pred2{q.div}), lt(Less{q.div, q.desc}), un(Un{q.div}), bin(Bin{q.kmod}), dflt(q.dflt), n(q.n), m(q.m), nx(q.nx), mx(q.mx)
		{ }
		enum { two = T::static_size > 1 ? 2 : 1 };
		Arr<2> pair() const { return Arr<2>{{v, v2}}; }
		Arr<4> four() const { return Arr<4>{{v, v2, v, v2}}; }
		Sub<4> window(Arr<4> const& a) const { return Sub<4>(a, 1, 1 + p.gen0 % 4); }
		T const& res() const { return h.get(); }
		typename sprout::container_traits<T>::const_iterator mid() const { return sprout::next(sprout::begin(h.get()), m); }
		typename sprout::container_traits<T>::const_iterator at(long i) const { return sprout::next(sprout::begin(h.get()), i); }
		I xb() { return Make<I>::at(X, 0); }
		I xm() { return Make<I>::at(X, mx); }
		I xe() { return Make<I>::at(X, nx); }
		I yb() { return Make<I>::at(Y, 0); }
		I ye() { return Make<I>::at(Y, (long)p.y.size()); }
		sprout::range::range_container<I> xr() { return sprout::range::range_container<I>(xb(), xe()); }
		sprout::range::range_container<I> yr() { return sprout::range::range_container<I>(yb(), ye()); }
		NextCell gen() { return NextCell{p.gen0}; }
		template<typename R> void take(R const& r) {
			world().mask = 0;	// looking at the result does not fail
			t.moved = false;
			for (Cell const& e : sprout::get_internal(r)) { t.all.push_back(KI{e.key, e.id}); if (e.moved) t.moved = true; }
			t.from = sprout::internal_begin_offset(r);
			t.size = (long)sprout::size(r);
		}
		void rn(long b) { rets.push_back(b); }
	};
	struct FResult {
		Keys cont, x, y;
		Taken t;
		std::vector<long> rets;
		long ops, leak;
		bool threw, fired, stopped, moved;
		std::string bad;
	};
	struct FAlg {
		char const* name;
		Kind kind; Prep prep;
		bool source, back, fit;
		int cont, src;	// 0: window of six, 1: array of five, 2: array of one; 0: weakest, 1: random access, 2: pointers
		void (*model)(Model&);
		void (*run)(Plan const&, Keys const&, FResult&, unsigned, long);
	};
	std::vector<FAlg>& falgs() { static std::vector<FAlg> v; return v; }
	template<typename C, typename Body>
	void fdrive(Plan const& p, Keys const& internal, FResult& r, unsigned mask, long at) {
		World& w = world();
		long const live = w.live;
		r.threw = r.fired = r.stopped = false;
		{
			w.reset(0, 0, 1L << 40);
			C c(p, internal);
			w.reset(mask, at, 400000);
			try { Body::run(c); }
			catch (InjectedFault&) { r.threw = true; }
			catch (Stop&) { r.stopped = true; }
			r.ops = w.ops; r.fired = w.fired;
			w.mask = 0; w.budget = 1L << 40;
			c.X.verify("the source"); c.Y.verify("the second source");
			r.cont = c.h.all(); r.x = c.X.keys(); r.y = c.Y.keys();
			r.moved = c.h.moved() || c.X.any_moved(c.X.n) || c.Y.any_moved(c.Y.n);
			r.t = c.t; r.rets = c.rets;
		}
		r.bad = w.bad;
		r.leak = w.live - live;
	}
	template<typename T, typename Cat, typename Body>
	void fadd(char const* name, Kind k, Prep p, bool source, bool back, bool fit, int cont, int src, void (*model)(Model&)) {
		typedef FCtx<T, typename Src<Cat>::type> C;
		falgs().push_back(FAlg{name, k, p, source, back, fit, cont, src, model, &fdrive<C, Body>});
	}
	template<typename Min, typename M, typename X, typename F>
	bool freg(char const* name, Kind k, Prep p, bool source, bool back) {
		fadd<Sub<6>, Min, X>(name, k, p, source, back, false, 0, 0, &M::run);
		fadd<Sub<6>, Min, F>(name, k, p, source, back, true, 0, 0, &M::run);
		fadd<Arr<5>, void, X>(name, k, p, source, back, false, 1, 2, &M::run);
		fadd<Arr<5>, void, F>(name, k, p, source, back, true, 1, 2, &M::run);
		fadd<Arr<1>, RT, X>(name, k, p, source, back, false, 2, 1, &M::run);
		fadd<Arr<1>, RT, F>(name, k, p, source, back, true, 2, 1, &M::run);
		if (source) {
			fadd<Sub<6>, void, X>(name, k, p, source, back, false, 0, 2, &M::run);
			fadd<Arr<5>, Min, F>(name, k, p, source, back, true, 1, 0, &M::run);
		}
		return true;
	}
#define FALG(NAME, MIN, KIND, PREP, SOURCE, BACK, MODEL, ...) \
	struct M_##NAME { static void run(Model& m) { MODEL } }; \
	struct X_##NAME { template<typename C> static void run(C& c) { namespace NS = ::sprout::fixed; namespace RS = ::sprout::range::fixed; __VA_ARGS__ } }; \
	struct F_##NAME { template<typename C> static void run(C& c) { namespace NS = ::sprout::fit; namespace RS = ::sprout::range::fit; __VA_ARGS__ } }; \
	bool const reg_##NAME = freg<MIN, M_##NAME, X_##NAME, F_##NAME>(#NAME, KIND, PREP, SOURCE, BACK)
#define SALG(NAME, MIN, PREP, MODEL, ...) FALG(NAME, MIN, EXACT, PREP, true, false, MODEL, __VA_ARGS__)
#define CALG(NAME, KIND, PREP, MODEL, ...) FALG(NAME, FT, KIND, PREP, false, false, MODEL, __VA_ARGS__)
#define ONE(F, ...) do { if (c.p.ranged) c.take(RS::F(c.xr(), __VA_ARGS__)); else c.take(NS::F(X2, __VA_ARGS__)); } while (false)
#define TWO(F, ...) do { if (c.p.ranged) c.take(RS::F(c.xr(), c.yr(), __VA_ARGS__)); else c.take(NS::F(X2, Y2, __VA_ARGS__)); } while (false)
#define PAIR(F, ...) do { if (c.p.ranged) c.take(RS::F(c.xr(), c.yr(), __VA_ARGS__)); else c.take(NS::F(X2, c.yb(), __VA_ARGS__)); } while (false)
#define X2 c.xb(), c.xe()
#define Y2 c.yb(), c.ye()
#define MX m.x.begin(), m.x.end()
#define MY m.y.begin(), m.y.end()
#define MA m.out = m.a;
#define OA m.out.begin(), m.out.end()
#if SIM_PART == 0
	SALG(copy, FT, RAW, m.out = m.x;, ONE(copy, c.res()););
	SALG(copy_n, FT, RAW, m.out.assign(m.x.begin(), m.x.begin() + m.mx);, c.take(NS::copy_n(c.xb(), c.mx, c.res())););
	SALG(copy_if, FT, RAW, std::copy_if(MX, m.to(), m.pr);, ONE(copy_if, c.res(), c.pr););
	SALG(copy_while, FT, RAW, for (auto i = m.x.begin(); i != m.x.end() && m.pr(*i); ++i) m.out.push_back(*i);, ONE(copy_while, c.res(), c.pr););
	SALG(copy_until, FT, RAW, for (auto i = m.x.begin(); i != m.x.end() && !m.pr(*i); ++i) m.out.push_back(*i);, ONE(copy_until, c.res(), c.pr););
	FALG(copy_backward, BT, EXACT, RAW, true, true, m.out = m.x;, ONE(copy_backward, c.res()););
	SALG(reverse_copy, BT, RAW, std::reverse_copy(MX, m.to());, ONE(reverse_copy, c.res()););
	SALG(rotate_copy, FT, RAW, std::rotate_copy(m.x.begin(), m.x.begin() + m.mx, m.x.end(), m.to());, c.take(NS::rotate_copy(c.xb(), c.xm(), c.xe(), c.res())););
	SALG(swap_element_copy, FT, RAW, m.out = m.x; if (m.mx != (long)m.x.size()) std::iter_swap(m.out.begin(), m.out.begin() + m.mx);, if (c.mx != c.nx) c.take(NS::swap_element_copy(X2, c.res(), c.xb(), c.xm())); else ONE(copy, c.res()););
#elif SIM_PART == 1
	SALG(replace_copy, FT, RAW, std::replace_copy(MX, m.to(), m.v, m.v2);, ONE(replace_copy, c.res(), c.v, c.v2););
	SALG(replace_copy_if, FT, RAW, std::replace_copy_if(MX, m.to(), m.pr, m.v2);, ONE(replace_copy_if, c.res(), c.pr, c.v2););
	SALG(remove_copy, FT, RAW, std::remove_copy(MX, m.to(), m.v);, ONE(remove_copy, c.res(), c.v););
	SALG(remove_copy_if, FT, RAW, std::remove_copy_if(MX, m.to(), m.pr);, ONE(remove_copy_if, c.res(), c.pr););
	SALG(unique_copy, FT, RAW, std::unique_copy(MX, m.to(), m.eq);, if (c.dflt) ONE(unique_copy, c.res()); else ONE(unique_copy, c.res(), c.eq););
	SALG(clamp_range_copy, FT, RAW, for (Cell const& e : m.x) m.out.push_back(m.lt(e, m.v) ? m.v : m.lt(m.v2, e) ? m.v2 : e);, if (c.dflt) ONE(clamp_range_copy, c.res(), c.v, c.v2); else ONE(clamp_range_copy, c.res(), c.v, c.v2, c.lt););
	SALG(transform, FT, RAW, std::transform(MX, m.to(), m.un);, ONE(transform, c.res(), c.un););
	SALG(transform_two, FT, MERGE, m.y.resize(m.x.size()); std::transform(MX, m.y.begin(), m.to(), m.bin);, PAIR(transform, c.res(), c.bin););
	FALG(partition_copy, FT, PART, RAW, true, false, m.x.resize(std::min<long>(m.x.size(), m.n)); m.out = m.x; std::stable_partition(OA, m.pr); m.fitn = std::count_if(MX, m.pr);, ONE(partition_copy, c.res(), c.pr););
	SALG(stable_partition_copy, BT, RAW, m.out = m.x; std::stable_partition(OA, m.pr); m.fitn = std::count_if(MX, m.pr);, ONE(stable_partition_copy, c.res(), c.pr););
#elif SIM_PART == 2
	SALG(merge, FT, MERGE, std::merge(MX, MY, m.to(), m.lt);, if (c.dflt) TWO(merge, c.res()); else TWO(merge, c.res(), c.lt););
	SALG(set_union, FT, MERGE, std::set_union(MX, MY, m.to(), m.lt);, if (c.dflt) TWO(set_union, c.res()); else TWO(set_union, c.res(), c.lt););
	SALG(set_intersection, FT, MERGE, std::set_intersection(MX, MY, m.to(), m.lt);, if (c.dflt) TWO(set_intersection, c.res()); else TWO(set_intersection, c.res(), c.lt););
	SALG(set_difference, FT, MERGE, std::set_difference(MX, MY, m.to(), m.lt);, if (c.dflt) TWO(set_difference, c.res()); else TWO(set_difference, c.res(), c.lt););
	SALG(set_symmetric_difference, FT, MERGE, std::set_symmetric_difference(MX, MY, m.to(), m.lt);, if (c.dflt) TWO(set_symmetric_difference, c.res()); else TWO(set_symmetric_difference, c.res(), c.lt););
#elif SIM_PART == 3
	SALG(adjacent_difference, FT, RAW, if (m.dflt) std::adjacent_difference(MX, m.to()); else std::adjacent_difference(MX, m.to(), m.bin);, if (c.dflt) ONE(adjacent_difference, c.res()); else ONE(adjacent_difference, c.res(), c.bin););
	SALG(partial_sum, FT, RAW, if (m.dflt) std::partial_sum(MX, m.to()); else std::partial_sum(MX, m.to(), m.bin);, if (c.dflt) ONE(partial_sum, c.res()); else ONE(partial_sum, c.res(), c.bin););
	SALG(inclusive_scan, FT, RAW, std::partial_sum(MX, m.to(), Aff());, ONE(inclusive_scan, c.res(), Aff()););
	SALG(inclusive_scan_plus, FT, RAW, std::partial_sum(MX, m.to());, ONE(inclusive_scan, c.res()););
	SALG(inclusive_scan_init, FT, RAW, m.x.insert(m.x.begin(), m.v); std::partial_sum(MX, m.to(), Aff());, ONE(inclusive_scan, c.res(), Aff(), c.v););
	SALG(exclusive_scan, FT, RAW, bool const some = !m.x.empty(); m.x.insert(m.x.begin(), m.v); m.x.pop_back(); if (some) { if (m.dflt) std::partial_sum(MX, m.to()); else std::partial_sum(MX, m.to(), Aff()); }, if (c.dflt) ONE(exclusive_scan, c.res(), c.v); else ONE(exclusive_scan, c.res(), c.v, Aff()););
	SALG(transform_inclusive_scan, FT, RAW, for (Cell& e : m.x) e = m.un(e); std::partial_sum(MX, m.to(), Aff());, ONE(transform_inclusive_scan, c.res(), Aff(), c.un););
	SALG(transform_inclusive_scan_init, FT, RAW, for (Cell& e : m.x) e = m.un(e); m.x.insert(m.x.begin(), m.v); std::partial_sum(MX, m.to(), Aff());, ONE(transform_inclusive_scan, c.res(), Aff(), c.un, c.v););
	SALG(transform_exclusive_scan, FT, RAW, bool const some = !m.x.empty(); for (Cell& e : m.x) e = m.un(e); m.x.insert(m.x.begin(), m.v); m.x.pop_back(); if (some) std::partial_sum(MX, m.to(), Aff());, ONE(transform_exclusive_scan, c.res(), c.v, Aff(), c.un););
	CALG(iota, EXACT, RAW, for (long i = 0; i != m.n; ++i) m.out.push_back(Cell((int)(m.v.key + i), m.v.id));, c.take(NS::iota(c.res(), Count{c.v.key, c.v.id})););
	CALG(fill, EXACT, RAW, m.out.assign(m.n, m.v);, c.take(NS::fill(c.res(), c.v)););
	CALG(fill_n, EXACT, RAW, m.out.assign(m.m, m.v);, c.take(NS::fill_n(c.res(), c.m, c.v)););
	CALG(generate, EXACT, RAW, for (long i = 0; i != m.n; ++i) m.out.push_back(Cell((int)(m.k + i), (int)(m.k + i)));, c.take(NS::generate(c.res(), c.gen())););
	CALG(generate_n, EXACT, RAW, for (long i = 0; i != m.m; ++i) m.out.push_back(Cell((int)(m.k + i), (int)(m.k + i)));, c.take(NS::generate_n(c.res(), c.m, c.gen())););
	CALG(unfold, EXACT, RAW, for (long i = 0; i != m.n; ++i) m.out.push_back(Cell((int)((m.k + i) * 3 % 17), (int)(m.k + i)));, c.take(NS::unfold(c.res(), Unfold(), c.p.gen0)););
	CALG(unfold_n, EXACT, RAW, for (long i = 0; i != m.m; ++i) m.out.push_back(Cell((int)((m.k + i) * 3 % 17), (int)(m.k + i)));, c.take(NS::unfold_n(c.res(), c.m, Unfold(), c.p.gen0)););
	CALG(recurrence, EXACT, RAW, m.out.assign(m.n, Cell(5, 5));, c.take(NS::recurrence(c.res(), Recur())););
	CALG(recurrence_two, EXACT, RAW, if (m.n >= 2) { m.out.push_back(m.v); m.out.push_back(m.v2); for (long i = 2; i != m.n; ++i) m.out.push_back(mix(m.out[i - 2], m.out[i - 1], 3)); } else m.out.assign(m.n, m.v2);, if (c.n >= 2) c.take(NS::recurrence(c.res(), Recur(), c.v, c.v2)); else c.take(NS::fill(c.res(), c.v2)););
#elif SIM_PART == 4
	CALG(replace, EXACT, RAW, MA std::replace(OA, m.v, m.v2);, c.take(NS::replace(c.res(), c.v, c.v2)););
	CALG(replace_if, EXACT, RAW, MA std::replace_if(OA, m.pr, m.v2);, c.take(NS::replace_if(c.res(), c.pr, c.v2)););
	CALG(remove, EXACT, RAW, std::remove_copy(m.a.begin(), m.a.end(), m.to(), m.v);, c.take(NS::remove(c.res(), c.v)););
	CALG(remove_if, EXACT, RAW, std::remove_copy_if(m.a.begin(), m.a.end(), m.to(), m.pr);, c.take(NS::remove_if(c.res(), c.pr)););
	CALG(unique, EXACT, RAW, std::unique_copy(m.a.begin(), m.a.end(), m.to(), m.eq);, if (c.dflt) c.take(NS::unique(c.res())); else c.take(NS::unique(c.res(), c.eq)););
	CALG(reverse, EXACT, RAW, MA std::reverse(OA);, c.take(NS::reverse(c.res())););
	CALG(rotate, EXACT, RAW, MA std::rotate(m.out.begin(), m.out.begin() + m.m, m.out.end());, c.take(NS::rotate(c.res(), c.mid())););
	CALG(swap_element, EXACT, RAW, MA if (m.m != m.n) std::iter_swap(m.out.begin(), m.out.begin() + m.m);, if (c.m != c.n) c.take(NS::swap_element(c.res(), c.at(0), c.mid())); else c.take(NS::rotate(c.res(), c.at(0))););
	CALG(clamp_range, EXACT, RAW, for (Cell const& e : m.a) m.out.push_back(m.lt(e, m.v) ? m.v : m.lt(m.v2, e) ? m.v2 : e);, if (c.dflt) c.take(NS::clamp_range(c.res(), c.v, c.v2)); else c.take(NS::clamp_range(c.res(), c.v, c.v2, c.lt)););
	CALG(partition, PART, RAW, MA m.fitn = std::count_if(m.a.begin(), m.a.end(), m.pr);, c.take(NS::partition(c.res(), c.pr)););
	CALG(stable_partition, EXACT, RAW, MA m.fitn = std::stable_partition(OA, m.pr) - m.out.begin();, c.take(NS::stable_partition(c.res(), c.pr)););
	CALG(next_permutation, EXACT, RAW, MA m.rets.push_back(std::next_permutation(OA, m.lt));, auto const r = c.dflt ? NS::next_permutation(c.res()) : NS::next_permutation(c.res(), c.lt); c.rn(r.second); c.take(r.first););
	CALG(prev_permutation, EXACT, RAW, MA m.rets.push_back(std::prev_permutation(OA, m.lt));, auto const r = c.dflt ? NS::prev_permutation(c.res()) : NS::prev_permutation(c.res(), c.lt); c.rn(r.second); c.take(r.first););
#elif SIM_PART == 6
	CALG(set, EXACT, RAW, MA if (m.m != m.n) { m.whole = true; m.all[m.room + m.m] = m.v; }, if (c.m == c.n) c.take(NS::rotate(c.res(), c.at(0))); else if (c.dflt) c.take(NS::set(c.res(), c.m, c.v)); else c.take(NS::set(c.res(), c.mid(), c.v)););
	CALG(insert, EXACT, RAW, m.in(m.m, {m.v});, if (c.dflt) c.take(NS::insert(c.res(), c.m, c.v)); else c.take(NS::insert(c.res(), c.mid(), c.v)););
	CALG(insert_two, EXACT, RAW, m.in(m.m, m.many(1));, if (c.dflt) c.take(NS::insert(c.res(), c.m, c.v, c.v2)); else c.take(NS::insert(c.res(), c.mid(), c.v, c.v2)););
	CALG(insert_n, EXACT, RAW, m.in(m.m, m.many(3));, if (c.dflt) c.take(NS::insert_n<3>(c.res(), c.m, c.v, c.v2)); else c.take(NS::insert_n<3>(c.res(), c.mid(), c.v, c.v2)););
	CALG(push_back, EXACT, RAW, m.in(m.n, m.many(1));, c.take(NS::push_back(c.res(), c.v, c.v2)););
	CALG(push_back_n, EXACT, RAW, m.in(m.n, m.many(2));, c.take(NS::push_back_n<2>(c.res(), c.v, c.v2)););
	CALG(push_front, EXACT, RAW, m.in(0, m.many(1));, c.take(NS::push_front(c.res(), c.v, c.v2)););
	CALG(push_front_n, EXACT, RAW, m.in(0, m.many(2));, c.take(NS::push_front_n<2>(c.res(), c.v, c.v2)););
	CALG(append, EXACT, RAW, m.in(m.m, m.many(1));, if (c.dflt) c.take(NS::append(c.res(), c.m, c.pair())); else c.take(NS::append(c.res(), c.mid(), c.pair())););
	CALG(append_back, EXACT, RAW, m.in(m.n, m.many(1));, c.take(NS::append_back(c.res(), c.pair())););
	CALG(append_front, EXACT, RAW, m.in(0, m.many(1));, c.take(NS::append_front(c.res(), c.pair())););
	CALG(append_window, EXACT, RAW, { Cells const w(m.window()); m.in(m.m, w); m.all.resize(m.all.size() + 4 - w.size()); if (m.array) m.size = (long)m.all.size(); }, { auto const f = c.four(); auto const w = c.window(f); if (c.dflt) c.take(NS::append(c.res(), c.m, w)); else c.take(NS::append(c.res(), c.mid(), w)); });
	CALG(erase, EXACT, RAW, MA if (m.m != m.n) m.cut(m.m, 1);, if (c.m == c.n) c.take(NS::rotate(c.res(), c.at(0))); else if (c.dflt) c.take(NS::erase(c.res(), c.m)); else c.take(NS::erase(c.res(), c.mid())););
	CALG(erase_n, EXACT, RAW, MA if (m.m + m.two() <= m.n) m.cut(m.m, m.two());, if (c.m + c.two > c.n) c.take(NS::rotate(c.res(), c.at(0))); else if (c.dflt) c.take(NS::erase_n<C::two>(c.res(), c.m)); else c.take(NS::erase_n<C::two>(c.res(), c.mid())););
	CALG(pop_back, EXACT, RAW, MA if (m.n) m.cut(m.n - 1, 1);, if (!c.n) c.take(NS::rotate(c.res(), c.at(0))); else c.take(NS::pop_back(c.res())););
	CALG(pop_back_n, EXACT, RAW, MA if (m.n >= m.two()) m.cut(m.n - m.two(), m.two());, if (c.n < c.two) c.take(NS::rotate(c.res(), c.at(0))); else c.take(NS::pop_back_n<C::two>(c.res())););
	CALG(pop_front, EXACT, RAW, MA if (m.n) m.cut(0, 1);, if (!c.n) c.take(NS::rotate(c.res(), c.at(0))); else c.take(NS::pop_front(c.res())););
	CALG(pop_front_n, EXACT, RAW, MA if (m.n >= m.two()) m.cut(0, m.two());, if (c.n < c.two) c.take(NS::rotate(c.res(), c.at(0))); else c.take(NS::pop_front_n<C::two>(c.res())););
	CALG(resize, EXACT, RAW, m.fresh(3, 0, 3, m.dflt ? Cell() : m.v);, if (c.dflt) c.take(NS::resize<3>(c.res())); else c.take(NS::resize<3>(c.res(), c.v)););
	CALG(resize_more, EXACT, RAW, m.fresh(8, 0, 8, m.dflt ? Cell() : m.v);, if (c.dflt) c.take(NS::resize<8>(c.res())); else c.take(NS::resize<8>(c.res(), c.v)););
	CALG(resize_backward, EXACT, RAW, m.fresh(3, 3 - m.n, 3, m.dflt ? Cell() : m.v);, if (c.dflt) c.take(NS::resize_backward<3>(c.res())); else c.take(NS::resize_backward<3>(c.res(), c.v)););
	CALG(resize_backward_more, EXACT, RAW, m.fresh(8, 8 - m.n, 8, m.dflt ? Cell() : m.v);, if (c.dflt) c.take(NS::resize_backward<8>(c.res())); else c.take(NS::resize_backward<8>(c.res(), c.v)););
	CALG(realign, EXACT, RAW, m.fresh((long)m.all.size(), 0, m.n, m.dflt ? Cell() : m.v);, if (c.dflt) c.take(NS::realign(c.res())); else c.take(NS::realign(c.res(), c.v)););
	CALG(realign_to, EXACT, RAW, m.fresh(7, 0, m.n, m.dflt ? Cell() : m.v);, if (c.dflt) c.take(NS::realign_to<Arr<7> >(c.res())); else c.take(NS::realign_to<Arr<7> >(c.res(), c.v)););
#else
	CALG(inplace_merge, EXACT, HALVES, MA std::inplace_merge(m.out.begin(), m.out.begin() + m.m, m.out.end(), m.lt);, if (c.dflt) c.take(NS::inplace_merge(c.res(), c.mid())); else c.take(NS::inplace_merge(c.res(), c.mid(), c.lt)););
	CALG(sort, SORTED, RAW, MA, if (c.dflt) c.take(NS::sort(c.res())); else c.take(NS::sort(c.res(), c.lt)););
	CALG(stable_sort, EXACT, RAW, MA std::stable_sort(OA, m.lt);, if (c.dflt) c.take(NS::stable_sort(c.res())); else c.take(NS::stable_sort(c.res(), c.lt)););
	CALG(partial_sort, PSORT, RAW, MA m.fitn = m.m;, if (c.dflt) c.take(NS::partial_sort(c.res(), c.mid())); else c.take(NS::partial_sort(c.res(), c.mid(), c.lt)););
	CALG(nth_element, NTH, RAW, MA m.fitn = std::min(m.n, m.m + 1);, if (c.m == c.n) c.take(NS::sort(c.res())); else if (c.dflt) c.take(NS::nth_element(c.res(), c.mid())); else c.take(NS::nth_element(c.res(), c.mid(), c.lt)););
	CALG(make_heap, HEAP, RAW, MA, if (c.dflt) c.take(NS::make_heap(c.res())); else c.take(NS::make_heap(c.res(), c.lt)););
	CALG(push_heap, HEAP, HEAPED1, MA, if (c.dflt) c.take(NS::push_heap(c.res())); else c.take(NS::push_heap(c.res(), c.lt)););
	CALG(pop_heap, POPPED, HEAPED, MA m.fitn = m.n - 1;, if (c.dflt) c.take(NS::pop_heap(c.res())); else c.take(NS::pop_heap(c.res(), c.lt)););
	CALG(sort_heap, SORTED, HEAPED, MA, if (c.dflt) c.take(NS::sort_heap(c.res())); else c.take(NS::sort_heap(c.res(), c.lt)););
#endif
	void one(Sim& s) {
		FAlg const& g = falgs()[s.choose(falgs().size())];
		Plan p;
		long const N = g.cont == 0 ? 6 : g.cont == 1 ? 5 : 1;
		p.room = g.cont ? 0 : (long)s.choose(4);
		p.n = g.cont ? N : (long)s.choose((std::uint64_t)(N - p.room + 1));
		Keys internal = draw(s, N, 0);
		p.nx = g.source ? (long)s.skewed(9) : 0;
		p.x = draw(s, p.nx, 10000);
		p.y = g.prep == MERGE ? draw(s, (long)s.skewed(7), 20000) : Keys();
		p.m = (long)s.choose((std::uint64_t)p.n + 1);
		p.mx = (long)s.choose((std::uint64_t)p.nx + 1);
		p.dflt = s.chance(1, 2);
		p.desc = s.chance(1, 2);
		p.ranged = g.source && s.chance(1, 3);
		p.div = s.pick(std::vector<int>{1, 2, 5});
		p.kmod = s.pick(std::vector<int>{1, 2, 3, 7});
		p.krest = (int)s.choose((std::uint64_t)p.kmod);
		p.gen0 = (int)s.choose(20);
		Keys const& some = g.source ? p.x : internal;
		p.val = !some.empty() && s.chance(2, 3) ? KI{some[s.choose(some.size())].key, -50} : KI{(int)s.range(0, 12), -50};
		p.val2 = KI{(int)s.range(0, 40), -51};
		Less0 lt{&p};
		if (std::strstr(g.name, "clamp") && lt(p.val2, p.val)) std::swap(p.val.key, p.val2.key);
		auto const wb = internal.begin() + p.room, we = wb + p.n;
		if (g.prep == HALVES) { std::stable_sort(wb, wb + p.m, lt); std::stable_sort(wb + p.m, we, lt); }
		if (g.prep == HEAPED) std::make_heap(wb, we, lt);
		if (g.prep == HEAPED1 && p.n) std::make_heap(wb, we - 1, lt);
		if (g.prep == MERGE && std::strcmp(g.name, "transform_two")) { std::stable_sort(p.x.begin(), p.x.end(), lt); std::stable_sort(p.y.begin(), p.y.end(), lt); }
		if (!std::strcmp(g.name, "transform_two")) p.y = draw(s, p.nx + (long)s.choose(3), 20000);
		if (!std::strcmp(g.name, "pop_heap") && p.n == 0) return;
		if (!std::strcmp(g.name, "push_heap") && p.n == 0) return;
		p.a.assign(wb, we);
		static char const* const cn[] = {"window", "array<5>", "array<1>"};
		static char const* const sn[] = {"weakest", "random access", "pointers"};
		std::string w = cat(g.fit ? "fit::" : "fixed::", g.name, " into ", cn[g.cont], " ", show(internal), " [", p.room, ", ", p.room + p.n, ")");
		w += cat(p.dflt ? "" : cat(" by ", p.desc ? ">" : "<", " of key/", p.div), " pred key%", p.kmod, "==", p.krest, " at ", p.m);
		if (g.source) w += cat(p.ranged ? " from range of " : " from ", sn[g.src], " ", show(p.x), " at ", p.mx);
		if (g.prep == MERGE) w += cat(" and ", show(p.y));
		w += cat(" values ", p.val.key, " ", p.val2.key);
		s.log(w);
		world().reset(0, 0, 1L << 40);
		world().quiet = true;
		Keys want = internal, out;
		long fitn;
		std::vector<long> rets;
		bool whole = false;
		long from = 0, size = 0;
		{
			Model m(p, internal, g.cont != 0);
			g.model(m);
			out = keys_of(m.out);
			fitn = m.fitn < 0 ? (long)out.size() : m.fitn;
			rets = m.rets;
			if (m.whole) { whole = true; want = keys_of(m.all); from = m.from; size = g.fit ? m.fsize : m.size; }
		}
		long const k = std::min((long)out.size(), p.n), at0 = g.back ? p.room + p.n - k : p.room;
		if (!whole) for (long i = 0; i != k; ++i) want[at0 + i] = g.back ? out[out.size() - k + i] : out[i];
		fitn = std::min(fitn, p.n);
		static unsigned const masks[] = {CMP, CMP, COPY | MOVE, READ | STEP, ALL};
		static char const* const kinds[] = {"callback_failed", "callback_failed", "copy_failed", "iterator_failed", "operation_failed"};
		int const mi = (int)s.choose(5);
		FResult r;
		g.run(p, internal, r, masks[mi], 0);
		s.step(r.ops + 1);
		s.check(r.bad.empty() && !r.stopped, "misuse", cat(w, ": ", r.bad));
		s.check(r.leak == 0, "leak", cat(w, ": ", r.leak, " elements alive too many"));
		s.check(!r.threw, "throws", cat(w, ": throws though nothing failed"));
		s.check(r.cont == internal && r.x == p.x && r.y == p.y && !r.moved, "argument_changed", cat(w, ": changes its argument"));
		s.check(!r.t.moved, "moved_result", cat(w, ": delivers moved-from elements"));
		s.check(r.rets == rets, "wrong_return", cat(w, ": reports ", r.rets.empty() ? -1 : r.rets[0]));
		if (!whole) from = g.fit ? (g.back ? p.room + p.n - fitn : p.room) : p.room, size = g.fit ? fitn : p.n;
		s.check(r.t.size == size, "wrong_size", cat(w, ": delivers ", r.t.size, " elements, not ", size));
		s.check(size == 0 || r.t.from == from, "wrong_place", cat(w, ": delivers from position ", r.t.from, ", not ", from));
		if (g.kind == EXACT) s.check(r.t.all == want, "wrong_contents", cat(w, ": delivers ", show(r.t.all), ", not ", show(want)));
		else {
			s.check(ids(r.t.all) == ids(want), "not_a_permutation", cat(w, ": delivers ", show(r.t.all)));
			for (long i = 0; i != N; ++i) if (i < p.room || i >= p.room + p.n) s.check(r.t.all[i] == internal[i], "outside_window", cat(w, ": delivers ", show(r.t.all)));
			auto const b = r.t.all.begin() + p.room, e = b + p.n;
			bool ok = true;
			if (g.kind == SORTED) ok = std::is_sorted(b, e, lt);
			else if (g.kind == PSORT) { ok = std::is_sorted(b, b + p.m, lt); for (auto i = b + p.m; p.m && i != e; ++i) ok = ok && !lt(*i, *(b + p.m - 1)); }
			else if (g.kind == NTH) { if (p.m != p.n) { for (auto i = b; i != b + p.m; ++i) ok = ok && !lt(*(b + p.m), *i); for (auto i = b + p.m; i != e; ++i) ok = ok && !lt(*i, *(b + p.m)); } }
			else if (g.kind == HEAP) ok = std::is_heap(b, e, lt);
			else if (g.kind == POPPED) { ok = std::is_heap(b, e - 1, lt); for (auto i = b; i != e; ++i) ok = ok && !lt(*(e - 1), *i); }
			else if (g.kind == PART) { auto const pr = [&](KI const& c) { return c.key % p.kmod == p.krest; }; ok = std::is_partitioned(b, b + k, pr) && std::equal(b + k, r.t.all.end(), want.begin() + p.room + k); }
			s.check(ok, "wrong_order", cat(w, ": delivers ", show(r.t.all)));
		}
		if (!r.ops) { s.state(mix64(hash_str(cat(g.name, g.fit, g.cont, g.src, p.nx, p.n, mi)))); return; }
		long const at = 1 + (long)s.choose((std::uint64_t)r.ops);
		FResult f;
		g.run(p, internal, f, masks[mi], at);
		s.fault(kinds[mi]);
		std::string const wf = cat(w, ", operation ", at, " of ", r.ops, " (", kinds[mi], ")");
		s.step(f.ops + 1);
		s.check(f.fired, "irreproducible", cat(wf, ": does other operations than before"));
		s.check(f.bad.empty() && !f.stopped, "misuse_after_failure", cat(wf, ": ", f.bad));
		s.check(f.threw, "swallowed", cat(wf, ": hides the failure"));
		s.check(f.leak == 0, "leak", cat(wf, ": ", f.leak, " elements alive too many"));
		s.check(f.cont == internal && f.x == p.x && f.y == p.y && !f.moved, "argument_changed", cat(wf, ": changes its argument"));
		s.state(mix64(hash_str(cat(g.name, g.fit, g.cont, g.src, p.nx, p.n, mi, at))));
		s.nontrivial();
	}
}
#if SIM_PART == 0
SIM_SCENARIO("C12", "copies", 3, one);
#elif SIM_PART == 1
SIM_SCENARIO("C12", "filters", 3, one);
#elif SIM_PART == 2
SIM_SCENARIO("C12", "sets", 2, one);
#elif SIM_PART == 3
SIM_SCENARIO("C12", "numeric", 3, one);
#elif SIM_PART == 4
SIM_SCENARIO("C12", "rearranged", 3, one);
#elif SIM_PART == 6
SIM_SCENARIO("C12", "resized", 3, one);
#else
SIM_SCENARIO("C12", "sorted", 2, one);
#endif
