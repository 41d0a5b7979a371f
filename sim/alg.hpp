// Instrumented elements, iterators and callbacks for algorithm properties (C10, C11, C12).
//
// Every operation an algorithm can perform on an element, an iterator or a callback goes through World::tick, where the
// simulator may let it fail.  Elements know whether they are alive, moved from or outside the range under test.
#ifndef VERIF_SIM_ALG_HPP
#define VERIF_SIM_ALG_HPP
#include "core.hpp"
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iterator>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace alg {
	using sim::cat;
	enum { CMP = 1, COPY = 2, MOVE = 4, READ = 8, WRITE = 16, STEP = 32, ALL = 63 };
	struct Stop { };	// leaves an algorithm that has already gone wrong
	struct World {
		unsigned mask;	// operations that count towards fail_at
		long ops, fail_at, steps, budget, live;
		bool fired, quiet;
		std::string bad;
		void reset(unsigned m, long at, long b) { mask = m; ops = 0; fail_at = at; steps = 0; budget = b; fired = false; quiet = false; bad.clear(); }
		void complain(std::string const& what) { if (!quiet && bad.empty()) bad = what; }
		void tick(unsigned op) {
			if (++steps > budget) { complain("does not end"); throw Stop(); }
			if ((op & mask) && ++ops == fail_at) { fired = true; throw sim::InjectedFault(); }
		}
	};
	inline World& world() { static World w; return w; }

	struct Cell {
		int key, id;
		unsigned magic;
		bool moved, guard;
		static unsigned const alive = 0x5ca1ab1eu;
		void use(char const* how, bool value = true) const {
			World& w = world();
			if (magic != alive) { w.complain(cat(how, " a dead element")); throw Stop(); }
			if (guard) { w.complain(cat(how, " an element outside the range")); throw Stop(); }
			if (value && moved) w.complain(cat(how, " a moved-from element"));
		}
		static void born() { ++world().live; }
		Cell() : key(-1), id(-1), magic(alive), moved(false), guard(false) { born(); }
		Cell(int k, int i) : key(k), id(i), magic(alive), moved(false), guard(false) { born(); }
		Cell(Cell const& o) : key(o.key), id(o.id), magic(alive), moved(o.moved), guard(false) { o.use("copies"); world().tick(COPY); born(); }
		Cell(Cell&& o) : key(o.key), id(o.id), magic(alive), moved(o.moved), guard(false) { o.use("moves from"); world().tick(MOVE); o.moved = true; born(); }
		Cell& operator=(Cell const& o) {
			o.use("copies"); use("assigns to", false); world().tick(COPY);
			key = o.key; id = o.id; moved = o.moved;
			return *this;
		}
		Cell& operator=(Cell&& o) {
			use("assigns to", false);
			if (this == &o) { moved = true; return *this; }	// as std::vector does
			o.use("moves from"); world().tick(MOVE);
			key = o.key; id = o.id; moved = o.moved; o.moved = true;
			return *this;
		}
		~Cell() { if (magic != alive) world().complain("destroys a dead element"); magic = 0xdeadu; --world().live; }
		friend bool operator==(Cell const& a, Cell const& b) { a.use("compares"); b.use("compares"); world().tick(CMP); return a.key == b.key; }
		friend bool operator!=(Cell const& a, Cell const& b) { return !(a == b); }
		friend bool operator<(Cell const& a, Cell const& b) { a.use("compares"); b.use("compares"); world().tick(CMP); return a.key < b.key; }
		friend bool operator>(Cell const& a, Cell const& b) { return b < a; }
		friend bool operator<=(Cell const& a, Cell const& b) { return !(b < a); }
		friend bool operator>=(Cell const& a, Cell const& b) { return !(a < b); }
	};
	// sums of cells, for numeric algorithms: associative but not commutative, so that order shows
	inline Cell mix(Cell const& a, Cell const& b, int k) {
		a.use("adds"); b.use("adds"); world().tick(CMP);
		return Cell((int)((a.key * 31u + b.key * 17u + k) & 0xffff), (int)((a.id * 7u + b.id * 3u + k) & 0xffffff));
	}
	inline Cell both(Cell const& a, Cell const& b, bool mul) {
		a.use("adds"); b.use("adds"); world().tick(CMP);
		return mul ? Cell((int)((unsigned)a.key * (unsigned)b.key % 65521u), (int)((unsigned)(a.id & 0xffff) * (unsigned)(b.id & 0xffff) % 65521u)) : Cell((a.key + b.key) & 0xffffff, (a.id + b.id) & 0xffffff);
	}
	inline Cell operator+(Cell const& a, Cell const& b) { return both(a, b, false); }	// associative and commutative
	inline Cell operator*(Cell const& a, Cell const& b) { return both(a, b, true); }
	inline Cell operator-(Cell const& a, Cell const& b) { return mix(a, b, 2); }	// neither
	struct Aff {	// composes x -> key * x + id modulo 65521: associative, not commutative
		Cell operator()(Cell const& a, Cell const& b) const {
			a.use("composes"); b.use("composes"); world().tick(CMP);
			std::int64_t const m = 65521;
			return Cell((int)((std::int64_t)(a.key % m) * (b.key % m) % m), (int)(((std::int64_t)(a.key % m) * (b.id % m) + a.id % m) % m));
		}
	};
	inline Cell& operator++(Cell& a) { a.use("increments"); world().tick(CMP); ++a.key; ++a.id; return a; }
	inline Cell operator++(Cell& a, int) { Cell r(a); ++a; return r; }

	struct KI { int key, id; };
	inline bool operator==(KI const& a, KI const& b) { return a.key == b.key && a.id == b.id; }
	inline bool operator!=(KI const& a, KI const& b) { return !(a == b); }
	inline bool operator<(KI const& a, KI const& b) { return a.key != b.key ? a.key < b.key : a.id < b.id; }
	typedef std::vector<KI> Keys;
	inline std::string show(Keys const& v) {
		std::string r = "[";
		for (std::size_t i = 0; i != v.size() && i != 24; ++i) r += cat(i ? " " : "", v[i].key, "#", v[i].id);
		return r + (v.size() > 24 ? cat(" ... x", v.size(), "]") : std::string("]"));
	}
	// a row of cells between guard cells
	struct Buf {
		enum { G = 3 };
		Cell* mem;
		long n;
		long pos;	// of single-pass and output cursors
		unsigned gen;
		Buf(Keys const& v) : mem(static_cast<Cell*>(::operator new((v.size() + 2 * G) * sizeof(Cell)))), n((long)v.size()), pos(0), gen(0) {
			for (long i = 0; i != n + 2 * G; ++i) {
				bool const in = i >= G && i < n + G;
				::new (static_cast<void*>(mem + i)) Cell(in ? v[i - G].key : 99, in ? v[i - G].id : -99);
				mem[i].guard = !in;
			}
		}
		Buf(Buf const&) = delete;
		Buf& operator=(Buf const&) = delete;
		~Buf() { for (long i = 0; i != n + 2 * G; ++i) mem[i].~Cell(); ::operator delete(mem); }
		Cell* at(long i) const { return mem + G + i; }
		Keys keys() const { Keys r; for (long i = 0; i != n; ++i) r.push_back(KI{at(i)->key, at(i)->id}); return r; }
		bool any_moved(long k) const { for (long i = 0; i != k; ++i) if (at(i)->moved) return true; return false; }
		void verify(char const* name) const {
			for (long i = -G; i != n + G; ++i) {
				if (at(i)->magic != Cell::alive) world().complain(cat("left a dead element in ", name));
				if ((i < 0 || i >= n) && !(at(i)->guard && at(i)->key == 99 && at(i)->id == -99 && !at(i)->moved)) world().complain(cat("wrote outside ", name));
			}
		}
	};
	// iterators that stay inside their buffer
	template<typename Cat, typename T>
	struct It {
		typedef Cat iterator_category;
		typedef Cell value_type;
		typedef std::ptrdiff_t difference_type;
		typedef T* pointer;
		typedef T& reference;
		Buf* b;
		long p;
		It() : b(), p() { }
		It(Buf* b_, long p_) : b(b_), p(p_) { }
		void go(long n) {
			world().tick(STEP);
			p += n;
			if (p < 0 || p > b->n) { world().complain(cat("moves an iterator to ", p, " of ", b->n)); throw Stop(); }
		}
		T& operator*() const {
			world().tick(READ);
			if (p < 0 || p >= b->n) { world().complain(cat("dereferences position ", p, " of ", b->n)); throw Stop(); }
			return *b->at(p);
		}
		T* operator->() const { return &**this; }
		T& operator[](std::ptrdiff_t n) const { return *(*this + n); }
		It& operator++() { go(1); return *this; }
		It operator++(int) { It r(*this); go(1); return r; }
		It& operator--() { go(-1); return *this; }
		It operator--(int) { It r(*this); go(-1); return r; }
		It& operator+=(std::ptrdiff_t n) { go(n); return *this; }
		It& operator-=(std::ptrdiff_t n) { go(-n); return *this; }
		friend It operator+(It i, std::ptrdiff_t n) { return i += n; }
		friend It operator+(std::ptrdiff_t n, It i) { return i += n; }
		friend It operator-(It i, std::ptrdiff_t n) { return i -= n; }
		static void same(It const& x, It const& y) { if (x.b != y.b) { world().complain("compares iterators of different ranges"); throw Stop(); } }
		friend std::ptrdiff_t operator-(It const& x, It const& y) { same(x, y); return x.p - y.p; }
		friend bool operator==(It const& x, It const& y) { same(x, y); return x.p == y.p; }
		friend bool operator!=(It const& x, It const& y) { same(x, y); return x.p != y.p; }
		friend bool operator<(It const& x, It const& y) { same(x, y); return x.p < y.p; }
		friend bool operator>(It const& x, It const& y) { same(x, y); return x.p > y.p; }
		friend bool operator<=(It const& x, It const& y) { same(x, y); return x.p <= y.p; }
		friend bool operator>=(It const& x, It const& y) { same(x, y); return x.p >= y.p; }
	};
	// a stream: one position for all copies; a copy left behind must not be used
	struct SIt {
		typedef std::input_iterator_tag iterator_category;
		typedef Cell value_type;
		typedef std::ptrdiff_t difference_type;
		typedef Cell const* pointer;
		typedef Cell const& reference;
		Buf* b;
		bool end;
		unsigned gen;
		SIt() : b(), end(true), gen() { }
		SIt(Buf* b_, bool e) : b(b_), end(e), gen(b_->gen) { }
		void fresh(char const* how) const {
			if (gen != b->gen) { world().complain(cat(how, " an iterator of a single-pass source that was left behind")); throw Stop(); }
			if (end || b->pos >= b->n) { world().complain(cat(how, " the end of a single-pass source")); throw Stop(); }
		}
		Cell const& operator*() const { fresh("dereferences"); world().tick(READ); return *b->at(b->pos); }
		Cell const* operator->() const { return &**this; }
		SIt& operator++() { fresh("increments"); world().tick(STEP); ++b->pos; gen = ++b->gen; return *this; }
		struct Old { Cell c; Cell const& operator*() const { return c; } };
		Old operator++(int) { Old r = {**this}; ++*this; return r; }
		static bool done(SIt const& x) { return x.end || x.b->pos >= x.b->n; }
		friend bool operator==(SIt const& x, SIt const& y) {
			SIt const& z = x.end ? y : x;
			if (!z.end && z.gen != z.b->gen) { world().complain("compares an iterator of a single-pass source that was left behind"); throw Stop(); }
			return done(x) == done(y);
		}
		friend bool operator!=(SIt const& x, SIt const& y) { return !(x == y); }
	};
	// a sink: each position is assigned once, then left
	struct OIt {
		typedef std::output_iterator_tag iterator_category;
		typedef void value_type;
		typedef void difference_type;
		typedef void pointer;
		typedef void reference;
		Buf* b;
		struct Ref {
			Buf* b;
			void slot() const {
				if (b->pos >= b->n) { world().complain("writes past the end of the output"); throw Stop(); }
				if (b->gen) { world().complain("writes an output position twice"); throw Stop(); }
				world().tick(WRITE);
			}
			Ref const& operator=(Cell const& c) const { slot(); *b->at(b->pos) = c; b->gen = 1; return *this; }
			Ref const& operator=(Cell&& c) const { slot(); *b->at(b->pos) = std::move(c); b->gen = 1; return *this; }
		};
		struct Old { Buf* b; Ref r; Ref const& operator*() const { return r; } };
		Ref operator*() const { return Ref{b}; }
		OIt& operator++() {
			if (!b->gen) { world().complain("skips an output position"); throw Stop(); }
			world().tick(STEP);
			++b->pos; b->gen = 0;
			return *this;
		}
		struct Late {	// *it++ = v: the write comes after the increment was asked for
			Buf* b;
			struct LRef {
				Buf* b;
				template<typename T> LRef const& operator=(T&& v) const { Ref{b} = std::forward<T>(v); ++b->pos; b->gen = 0; return *this; }
			};
			LRef operator*() const { return LRef{b}; }
		};
		Late operator++(int) { world().tick(STEP); return Late{b}; }
	};
	template<typename I> struct Make;
	template<typename C, typename T> struct Make<It<C, T> > {
		static It<C, T> at(Buf& b, long p) { return It<C, T>(&b, p); }
		static long pos(It<C, T> const& i, Buf&) { return i.p; }
	};
	template<> struct Make<SIt> {
		static SIt at(Buf& b, long p) { return SIt(&b, p == b.n); }
		static long pos(SIt const& i, Buf& b) {
			if (!i.end && i.gen != b.gen) world().complain("returns an iterator of a single-pass source that was left behind");
			return i.end ? b.n : b.pos;
		}
	};
	template<> struct Make<OIt> {
		static OIt at(Buf& b, long) { OIt o; o.b = &b; return o; }
		static long pos(OIt const& i, Buf&) { return i.b->pos; }
	};
	template<typename T> struct Make<T*> {
		static T* at(Buf& b, long p) { return b.at(p); }
		static long pos(T* i, Buf& b) { return i - b.at(0); }
	};
	// callbacks
	struct Pred {
		int mod, rest;
		bool operator()(Cell const& c) const { c.use("asks about"); world().tick(CMP); return ((c.key % mod) + mod) % mod == rest; }
	};
	struct Pred2 {	// an equivalence: needed by unique and search
		int div;
		bool operator()(Cell const& a, Cell const& b) const { a.use("compares"); b.use("compares"); world().tick(CMP); return a.key / div == b.key / div; }
	};
	struct Less {
		int div; bool desc;
		bool operator()(Cell const& a, Cell const& b) const { a.use("compares"); b.use("compares"); world().tick(CMP); return desc ? b.key / div < a.key / div : a.key / div < b.key / div; }
	};
	struct Un { int k; Cell operator()(Cell const& c) const { c.use("transforms"); world().tick(CMP); return Cell(c.key + k, c.id); } };
	struct Bin { int k; Cell operator()(Cell const& a, Cell const& b) const { return mix(a, b, k); } };
	struct Gen { int* at; Cell operator()() const { world().tick(CMP); int const i = (*at)++; return Cell(i, i); } };
	struct Visit { std::vector<int>* seen; void operator()(Cell const& c) const { c.use("visits"); world().tick(CMP); seen->push_back(c.id); } };
	struct VisitMut { std::vector<int>* seen; void operator()(Cell& c) const { c.use("visits"); world().tick(CMP); seen->push_back(c.id); c.key += 1; } };
}
#endif
