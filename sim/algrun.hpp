// The bench on which algorithms run twice: once as sprout's, once as the reference's (C10, C11).
#ifndef VERIF_SIM_ALGRUN_HPP
#define VERIF_SIM_ALGRUN_HPP
#include "alg.hpp"
#include <cmath>
#include <cstring>
using namespace sim;
using namespace alg;
namespace {
	enum Kind {
		EXACT,	// every element of every sequence as the standard leaves it
		PREFIX,	// elements before the returned position; the rest is unspecified but alive
		SORTED, PSORT, NTH, HEAP, POPPED, PART, PSCOPY
	};
	enum Cost { FREE, LIN, NLOGN, NLOG2N, LOGN };
	enum Prep { RAW, HALVES, HEAPED, HEAPED1, MERGE, SORTX, PARTX, HEAPX };
	enum Keep { NOTE, PERMUTES, SWAPS };	// PERMUTES: never duplicates; SWAPS: a failing callback loses nothing either
	struct Plan {
		Keys a, b, x, y;
		long n, m, nx, mx;
		bool dflt, ranged = false;
		int kmod, krest, div, gen0;
		bool desc;
		KI val, val2;
		long room = 0;	// positions of the output beyond the elements of the sources
	};
	struct Less0 {	// the order an algorithm without a comparator uses
		Plan const* p;
		bool operator()(KI const& a, KI const& b) const { return p->dflt ? a.key < b.key : p->desc ? b.key / p->div < a.key / p->div : a.key / p->div < b.key / p->div; }
	};
	template<typename F, typename I, typename J, typename O>
	struct Ctx {
		Plan const& p;
		Buf A, B, X, Y, U, V;
		Cell val, val2;
		long n, m, nx, mx;
		bool dflt;
		Pred pr; Pred2 eq; Less lt; Un un; Bin bin;
		std::vector<long> rets;
		Keys vals;
		std::vector<int> seen;
		int gen_at;
		static Keys blank(long n) { return Keys((std::size_t)n, KI{-7, -7}); }
		explicit Ctx(Plan const& q)
			: p(q), A(q.a), B(q.b), X(q.x), Y(q.y), U(blank((long)(q.x.size() + q.y.size() + q.a.size()) + q.room)), V(blank((long)q.x.size())), val(q.val.key, q.val.id), val2(q.val2.key, q.val2.id)
			, n(q.n), m(q.m), nx(q.nx), mx(q.mx), dflt(q.dflt), gen_at(q.gen0)
		{
			pr = Pred{q.kmod, q.krest}; eq = Pred2{q.div}; lt = Less{q.div, q.desc}; un = Un{q.div}; bin = Bin{q.kmod};
		}
		F f() { return Make<F>::at(A, 0); }
		F l() { return Make<F>::at(A, n); }
		F mid() { return Make<F>::at(A, m); }
		F bb() { return Make<F>::at(B, 0); }
		F be() { return Make<F>::at(B, (long)p.b.size()); }
		I xb() { return Make<I>::at(X, 0); }
		I xe() { return Make<I>::at(X, nx); }
		J yb() { return Make<J>::at(Y, 0); }
		J ye() { return Make<J>::at(Y, (long)p.y.size()); }
		O ub() { return Make<O>::at(U, 0); }
		O vb() { return Make<O>::at(V, 0); }
		Gen gen() { return Gen{&gen_at}; }
		Visit visit() { return Visit{&seen}; }
		VisitMut visit_mut() { return VisitMut{&seen}; }
		void ra(F i) { rets.push_back(Make<F>::pos(i, A)); }
		void rb(F i) { rets.push_back(Make<F>::pos(i, B)); }
		void rx(I i) { rets.push_back(Make<I>::pos(i, X)); }
		void ry(J i) { rets.push_back(Make<J>::pos(i, Y)); }
		void ru(O i) { rets.push_back(Make<O>::pos(i, U)); }
		void rv(O i) { rets.push_back(Make<O>::pos(i, V)); }
		void rn(long b) { rets.push_back(b); }
		void rv_(Cell const& c) { vals.push_back(KI{c.key, c.id}); }
	};
	struct Result {
		Keys a, b, x, y, u, v, vals;
		std::vector<long> rets;
		std::vector<int> seen;
		long ops, cmps;
		bool threw, fired, stopped;
		bool moved_x;
		std::vector<bool> amoved;
		std::string bad;
		long leak;
	};
	struct Alg {
		char const* name;
		Kind kind; Prep prep; Cost cost; Keep keep;
		void (*run_sprout)(Plan const&, Result&, unsigned, long, bool);
		void (*run_ref)(Plan const&, Result&, unsigned, long, bool);
		int types;
	};
	template<typename C, typename Body>
	void drive(Plan const& p, Result& r, unsigned mask, long at, bool quiet) {
		World& w = world();
		long const live = w.live;
		r.threw = r.fired = r.stopped = r.moved_x = false;
		{
			w.reset(0, 0, 1L << 40);
			C c(p);
			double const N = (double)(p.a.size() + p.b.size() + p.x.size() + p.y.size() + 4);
			w.reset(mask, at, (long)(20000 + 400 * N * std::log2(N) + (N > 200 ? 0 : 60 * N * N)));
			w.quiet = quiet;
			try { Body::run(c); }
			catch (sim::InjectedFault&) { r.threw = true; }
			catch (Stop&) { r.stopped = true; }
			r.ops = w.ops;
			r.fired = w.fired;
			w.mask = 0; w.budget = 1L << 40;
			c.A.verify("the range"); c.B.verify("the second range"); c.X.verify("the source"); c.Y.verify("the second source"); c.U.verify("the output"); c.V.verify("the second output");
			r.a = c.A.keys(); r.b = c.B.keys(); r.x = c.X.keys(); r.y = c.Y.keys(); r.u = c.U.keys(); r.v = c.V.keys();
			for (long i = 0; i != c.n; ++i) r.amoved.push_back(c.A.at(i)->moved);
			r.moved_x = c.X.any_moved(c.X.n) || c.Y.any_moved(c.Y.n);
			r.rets = c.rets; r.seen = c.seen; r.vals = c.vals;
		}
		r.bad = w.bad;
		r.leak = w.live - live;
	}
	typedef std::forward_iterator_tag FT; typedef std::bidirectional_iterator_tag BT; typedef std::random_access_iterator_tag RT;
	template<typename Min, int T> struct Types;
	template<typename Min> struct Types<Min, 0> { typedef Ctx<It<Min, Cell>, SIt, SIt, OIt> type; };
	template<typename Min> struct Types<Min, 1> { typedef Ctx<It<RT, Cell>, It<RT, Cell const>, It<RT, Cell const>, It<FT, Cell> > type; };
	template<typename Min> struct Types<Min, 2> { typedef Ctx<Cell*, Cell const*, Cell const*, Cell*> type; };
	template<typename Min> struct Types<Min, 3> { typedef Ctx<It<Min, Cell>, It<FT, Cell const>, It<FT, Cell const>, Cell*> type; };
	std::vector<Alg>& algs() { static std::vector<Alg> v; return v; }
	template<typename S, typename R, typename Min, int T>
	bool add(char const* name, Kind k, Prep p, Cost c, Keep keep) {
		typedef typename Types<Min, T>::type C;
		algs().push_back(Alg{name, k, p, c, keep, &drive<C, S>, &drive<C, R>, T});
		return true;
	}
	template<typename S, typename R, typename Min>
	bool add_all(char const* name, Kind k, Prep p, Cost c, Keep keep) {
		return add<S, R, Min, 0>(name, k, p, c, keep) && add<S, R, Min, 1>(name, k, p, c, keep) && add<S, R, Min, 2>(name, k, p, c, keep) && add<S, R, Min, 3>(name, k, p, c, keep);
	}
#define ALG(NAME, MIN, KIND, PREP, COST, KEEP, ...) \
	struct S_##NAME { template<typename C> static void run(C& c) { namespace NS = ::sprout; __VA_ARGS__ } }; \
	struct R_##NAME { template<typename C> static void run(C& c) { namespace NS = ::ref; __VA_ARGS__ } }; \
	bool const reg_##NAME = add_all<S_##NAME, R_##NAME, MIN>(#NAME, KIND, PREP, COST, KEEP)

	Keys draw(Sim& s, long n, int id0) {
		Keys v;
		int const shape = s.choose(7);
		int const span = s.pick(std::vector<int>{2, 3, 5, 12, 40, 1000});
		for (long i = 0; i != n; ++i) v.push_back(KI{(int)s.range(0, span - 1), id0 + (int)i});
		std::vector<int> k;
		for (KI const& e : v) k.push_back(e.key);
		switch (shape) {
		case 0: std::sort(k.begin(), k.end()); break;
		case 1: std::sort(k.rbegin(), k.rend()); break;
		case 2: std::sort(k.begin(), k.end()); std::reverse(k.begin() + (long)k.size() / 2, k.end()); break;
		case 3: if (!k.empty()) { std::sort(k.begin(), k.end()); std::swap(k[s.choose(k.size())], k[s.choose(k.size())]); } break;
		default: break;
		}
		for (std::size_t i = 0; i != v.size(); ++i) v[i].key = k[i];
		return v;
	}
	Keys ids(Keys v) { std::sort(v.begin(), v.end()); return v; }
	std::string what(Alg const& g, Plan const& p) {
		static char const* const t[] = {"<narrow, single-pass, sink>", "<random access>", "<pointers>", "<narrow, forward, pointer>", "<weakest>", "<random access>", "<pointers>", "<random access, weakest>", "<weakest, pointers>"};
		std::string r = cat(g.name, t[g.types], p.dflt ? "" : cat(" by ", p.desc ? ">" : "<", " of key/", p.div), " pred key%", p.kmod, "==", p.krest);
		r += cat(" of ", show(p.a), " at ", p.m);
		if (!p.x.empty()) r += cat(" source ", show(p.x));
		if (!p.y.empty()) r += cat(" and ", show(p.y));
		return r;
	}
}
#endif
