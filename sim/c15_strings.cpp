// C15: fixed-capacity strings, string views and C string functions follow their model through any history, including
// operations that exceed the capacity, positions outside the string, sources inside the string itself and single-pass
// sources that fail.
#include "core.hpp"
#include <iterator>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <cstring>
#include <sprout/string.hpp>
#include <sprout/string/stretch.hpp>
#include <sprout/string/shrink.hpp>
#include <sprout/utility/string_view.hpp>
#include <sprout/cstring.hpp>
#include <sprout/cwchar.hpp>
#include <algorithm>
#include <sprout/functional/hash.hpp>
#ifndef SIM_PART
#define SIM_PART 0
#endif
using sim::cat;
namespace {
	std::size_t const npos = (std::size_t)-1;
#if SIM_PART < 3
#if SIM_PART == 0
	typedef char T;
	char const* const scenario = "char strings";
#elif SIM_PART == 1
	typedef wchar_t T;
	char const* const scenario = "wchar_t strings";
#else
	typedef char32_t T;
	char const* const scenario = "char32_t strings";
#endif
	typedef std::basic_string<T> M;
	std::string show(M const& m) {
		std::string r = "\"";
		for (std::size_t i = 0; i != m.size(); ++i) { if (m[i] >= T('a') && m[i] <= T('z')) r += (char)m[i]; else r += cat("\\", (long)m[i] & 0xffff); }
		return r + "\"";
	}
	// a source of characters: single-pass or not, exactly as long as it says, failing where it is told to
	struct Feed { M text; std::size_t pos; unsigned gen; long ops, fail_at; bool fired; };
	template<typename Cat>
	struct In {
		typedef Cat iterator_category;
		typedef T value_type;
		typedef std::ptrdiff_t difference_type;
		typedef T const* pointer;
		typedef T const& reference;
		Feed* f; std::size_t i; unsigned gen; sim::Sim* s;
		static bool const once = std::is_same<Cat, std::input_iterator_tag>::value;
		void tick() const { if (++f->ops == f->fail_at) { f->fired = true; throw sim::InjectedFault(); } if (f->ops > 400) s->fail("stuck", "reading the source does not end"); }
		void use(bool read) const {
			if (once && (gen != f->gen)) s->fail("single-pass", "a copy of a single-pass iterator is used after another one was incremented");
			if (read && i >= f->text.size()) s->fail("overread", "reads past the end of the source");
		}
		T const& operator*() const { use(true); tick(); return f->text[i]; }
		In& operator++() { use(true); tick(); ++i; if (once) gen = ++f->gen; return *this; }
		In operator++(int) { In r(*this); ++*this; return r; }
		In& operator--() { tick(); if (i == 0) s->fail("overread", "steps before the source"); --i; return *this; }
		In operator--(int) { In r(*this); --*this; return r; }
		In& operator+=(std::ptrdiff_t n) { tick(); i += n; if (i > f->text.size()) s->fail("overread", "leaves the source"); return *this; }
		In& operator-=(std::ptrdiff_t n) { return *this += -n; }
		T const& operator[](std::ptrdiff_t n) const { return *(*this + n); }
		friend In operator+(In a, std::ptrdiff_t n) { return a += n; }
		friend In operator-(In a, std::ptrdiff_t n) { return a -= n; }
		friend std::ptrdiff_t operator-(In const& a, In const& b) { return (std::ptrdiff_t)a.i - (std::ptrdiff_t)b.i; }
		friend bool operator==(In const& a, In const& b) { a.tick(); if (a.i != a.f->text.size()) a.use(false); if (b.i != b.f->text.size()) b.use(false); return a.i == b.i; }
		friend bool operator!=(In const& a, In const& b) { return !(a == b); }
		friend bool operator<(In const& a, In const& b) { return a.i < b.i; }
		friend bool operator>(In const& a, In const& b) { return b < a; }
		friend bool operator<=(In const& a, In const& b) { return !(b < a); }
		friend bool operator>=(In const& a, In const& b) { return !(a < b); }
	};
	template<std::size_t N> struct Str { typedef sprout::basic_string<T, N> type; };
	typedef Str<6>::type S6;
	typedef Str<10>::type S10;
	typedef Str<3>::type S3;
	typedef sprout::basic_string_view<T> View;
	enum { COUNT = 4 };

	struct World {
		sim::Sim& s;
		std::unique_ptr<S6> a, b;
		std::unique_ptr<S10> c;
		std::unique_ptr<S3> d;
		M m[COUNT];
		explicit World(sim::Sim& s) : s(s), a(new S6), b(new S6), c(new S10), d(new S3) { }
		T ch() { static T const t[] = {T('a'), T('b'), T('c'), T(0), T(-1), T('d')}; return t[s.choose(6)]; }
		T letter() { static T const t[] = {T('a'), T('b'), T('c'), T(-1)}; return t[s.choose(4)]; }
		M text(std::size_t max, bool nul = true) { M r; std::size_t n = s.choose(max + 1); while (r.size() != n) r += nul ? ch() : letter(); return r; }
		std::size_t where(std::size_t n) { std::size_t k = s.choose(n + 4); return k == n + 3 ? npos : k; }
		std::string name(int i) { return cat("s", i); }

		template<typename S>
		void same(S const& x, M const& m, std::string const& what) {
			s.check(x.size() == m.size(), "size", cat(what, " has size ", x.size(), ", expected ", show(m)));
			s.check(x.length() == m.size() && x.empty() == m.empty() && x.max_size() == S::static_size && x.capacity() == S::static_size, "size", cat(what, ": length, empty, max_size or capacity do not match"));
			M const got(x.begin(), x.end());
			s.check(got == m, "content", cat(what, " is ", show(got), ", expected ", show(m)));
			s.check(x.c_str()[m.size()] == T(), "terminator", cat(what, ": no terminator after ", show(m)));
			s.check(x.data() == x.c_str() && M(x.data(), x.size()) == m && M(x.rbegin(), x.rend()) == M(m.rbegin(), m.rend()) && M(x.cbegin(), x.cend()) == m, "content", cat(what, ": data or reverse iterators do not match"));
		}
		void look(char const* when) {
			same(*a, m[0], cat("s0 ", when)); same(*b, m[1], cat("s1 ", when)); same(*c, m[2], cat("s2 ", when)); same(*d, m[3], cat("s3 ", when));
		}
		// runs an operation that the model says ends in `want` (or throws: bad); the object at i becomes want
		template<typename S, typename F>
		void run(std::string const& what, int i, S& x, bool bad, M const& want, Feed* feed, F f) {
			bad = bad || want.size() > S::static_size;
			s.log(cat(what, bad ? " (to be refused)" : ""));
			s.step();
			int thrown = 0;
			try { f(); }
			catch (sim::InjectedFault const&) { thrown = 2; }
			catch (std::logic_error const& e) { thrown = 1; }
			if (feed && feed->fired) {
				s.fault("source fails");
				s.check(thrown == 2, "failure-lost", cat(what, ": the failure of the source does not reach the caller"));
			} else if (bad) {
				s.fault("refused operation");
				s.check(thrown == 1, "not-refused", cat(what, ": ", want.size() > S::static_size ? "exceeds the capacity" : "is outside the string", " but is not refused"));
			} else {
				s.check(thrown == 0, "refused", cat(what, " is refused"));
				if (i >= 0) m[i] = want;
			}
			look(cat("after ", what).c_str());
			s.state(sim::hash_str(cat(what.substr(what.find('.') == std::string::npos ? 0 : what.find('.')), thrown, m[0].size(), m[1].size())));
		}
		template<typename S, typename F>
		void fresh(std::string const& what, bool bad, M const& want, Feed* feed, F f) {	// a new object of type S
			bad = bad || want.size() > S::static_size;
			s.log(cat(what, bad ? " (to be refused)" : ""));
			s.step();
			int thrown = 0;
			try { std::unique_ptr<S> x(f()); same(*x, want, what); if (bad && !(feed && feed->fired)) s.fail("not-refused", cat(what, " is not refused")); }
			catch (sim::InjectedFault const&) { thrown = 2; }
			catch (std::logic_error const&) { thrown = 1; }
			if (feed && feed->fired) { s.fault("source fails"); s.check(thrown == 2, "failure-lost", cat(what, ": the failure of the source does not reach the caller")); }
			else if (bad) { s.fault("refused operation"); s.check(thrown == 1, "not-refused", cat(what, " is not refused")); }
			else s.check(thrown == 0, "refused", cat(what, " is refused"));
			look(cat("after ", what).c_str());
		}
		Feed feed(M const& t) {
			Feed f; f.text = t; f.pos = 0; f.gen = 0; f.ops = 0; f.fired = false;
			f.fail_at = s.chance(1, 3) ? (long)s.choose(4 * t.size() + 2) + 1 : 0;
			return f;
		}
		static std::size_t cut(std::size_t size, std::size_t pos, std::size_t n) { return n < size - pos ? n : size - pos; }
		static M nul(M const& t) { std::size_t k = t.find(T()); return k == npos ? t : t.substr(0, k); }

		template<typename S> void fresh_ops(S& x, int i) {
			M const was = m[i];
			switch (s.choose(12)) {
			case 0: fresh<S>("S()", false, M(), 0, [&] { return new S(); }); break;
			case 1: fresh<S>(cat("S(", name(i), ")"), false, was, 0, [&] { return new S(x); }); break;
			case 2: { S const& cx = x; fresh<S>(cat("S(const ", name(i), ")"), false, was, 0, [&] { return new S(cx); }); break; }
			case 3: { std::size_t const p = where(was.size()), n = where(was.size()); fresh<S>(cat("S(", name(i), ", ", (long)p, ", ", (long)n, ")"), p > was.size(), p > was.size() ? M() : was.substr(p, n), 0, [&] { return new S(x, p, n); }); break; }
			case 4: { M const t = text(12); std::vector<T> z(t.begin(), t.end()); z.push_back(T()); T const* p = z.data(); fresh<S>(cat("S(", show(t), ")"), false, nul(t), 0, [&] { return new S(p); }); break; }
			case 5: { M const t = text(12); std::vector<T> z(t.begin(), t.end()); z.push_back(T()); T const* p = z.data(); std::size_t const n = s.choose(14); fresh<S>(cat("S(", show(t), ", ", n, ")"), false, nul(t).substr(0, n), 0, [&] { return new S(p, n); }); break; }
			case 6: { std::size_t const n = s.choose(12); T const k = ch(); fresh<S>(cat("S(", n, ", c)"), false, M(n, k), 0, [&] { return new S(n, k); }); break; }
			case 7: { M const t = text(3); T arr[4] = {}; for (std::size_t k = 0; k != t.size(); ++k) arr[k] = t[k]; T const (&r)[4] = arr; fresh<S>(cat("S(array ", show(t), ")"), false, nul(t), 0, [&] { return new S(r); }); break; }
			case 8: { M t = text(12); Feed f = feed(t); typedef In<std::input_iterator_tag> I; fresh<S>(cat("S(single-pass ", show(t), ") failing at ", f.fail_at), false, t, &f, [&] { return new S(I{&f, 0, 0, &s}, I{&f, t.size(), 0, &s}); }); break; }
			case 9: { M t = text(12); Feed f = feed(t); typedef In<std::bidirectional_iterator_tag> I; fresh<S>(cat("S(bidirectional ", show(t), ") failing at ", f.fail_at), false, t, &f, [&] { return new S(I{&f, 0, 0, &s}, I{&f, t.size(), 0, &s}); }); break; }
			case 10: { M t = text(12); Feed f = feed(t); typedef In<std::random_access_iterator_tag> I; fresh<S>(cat("S(random access ", show(t), ") failing at ", f.fail_at), false, t, &f, [&] { return new S(I{&f, 0, 0, &s}, I{&f, t.size(), 0, &s}); }); break; }
			case 11: { T const p = ch(), q = ch(); fresh<S>("S({p, q})", false, M{p, q}, 0, [&] { return new S{p, q}; }); break; }
			}
		}
		template<typename S> void own_ops(S& x, int i) {
			M const was = m[i];
			std::string const n0 = name(i);
			std::size_t const size = was.size();
			switch (s.choose(27)) {
			case 25: { std::size_t const p = s.choose(size + 1); T const* const q = x.c_str() + p; M const t = nul(was.substr(p)); bool const l = s.chance(1, 3); s.probe("source inside the string"); run(cat(n0, l ? " <<= " : " >>= ", "own C string at ", p), i, x, false, l ? was + t : t + was, 0, [&] { if (l) x <<= q; else x >>= q; }); break; }
			case 26: if (size) { std::size_t const p = s.choose(size), n = s.choose(3); int const o = (int)s.choose(5); s.probe("source inside the string"); T const k = was[p];
				run(cat(n0, o == 0 ? " <<= " : o == 1 ? " >>= " : o == 2 ? ".push_back " : o == 3 ? ".append(n, " : ".assign(n, ", "own character ", p), i, x, false, o == 0 || o == 2 ? was + k : o == 1 ? M(1, k) + was : o == 3 ? was + M(n, k) : M(n, k), 0, [&] { switch (o) { case 0: x <<= x[p]; break; case 1: x >>= x[p]; break; case 2: x.push_back(x[p]); break; case 3: x.append(n, x[p]); break; default: x.assign(n, x[p]); } }); } break;
			case 24: { std::size_t const n = npos - s.choose(16); T const k = letter(); bool const as = s.chance(1, 3); run(cat(n0, as ? ".assign(" : ".append(", n, ", c)"), i, x, true, was, 0, [&] { if (as) x.assign(n, k); else x.append(n, k); }); break; }
			case 0: { T const k = letter(); run(cat(n0, ".push_back(", (long)k, ")"), i, x, false, was + k, 0, [&] { x.push_back(k); }); break; }
			case 1: if (size) run(cat(n0, ".pop_back()"), i, x, false, was.substr(0, size - 1), 0, [&] { x.pop_back(); }); break;
			case 2: { std::size_t const n = s.choose(12); T const k = ch(); M w = was; w.resize(n, k); run(cat(n0, ".resize(", n, ", c)"), i, x, false, w, 0, [&] { x.resize(n, k); }); break; }
			case 3: { std::size_t const n = s.choose(12); M w = was; w.resize(n); run(cat(n0, ".resize(", n, ")"), i, x, false, w, 0, [&] { x.resize(n); }); break; }
			case 4: run(cat(n0, ".clear()"), i, x, false, M(), 0, [&] { x.clear(); }); break;
			case 5: { std::size_t const p = s.choose(size + 3); T const k = ch(); M w = was; if (p < size) w[p] = k; run(cat(n0, ".at(", p, ") = c"), i, x, p >= size, w, 0, [&] { x.at(p) = k; }); break; }
			case 6: if (size) { std::size_t const p = s.choose(size); T const k = ch(); M w = was; w[p] = k; run(cat(n0, "[", p, "] = c"), i, x, false, w, 0, [&] { x[p] = k; }); } break;
			case 7: if (size) { T const k = ch(), l = ch(); M w = was; w[0] = k; w[size - 1] = l; run(cat(n0, ".front(), back() = c"), i, x, false, w, 0, [&] { x.front() = k; x.back() = l; }); } break;
			case 8: if (size) { std::size_t const p = s.choose(size); T const k = ch(); M w = was; w[p] = k; run(cat(n0, ".begin()[", p, "] = c"), i, x, false, w, 0, [&] { if (s.chance(1, 2)) *(x.begin() + p) = k; else if (s.chance(1, 2)) x.data()[p] = k; else *(x.rbegin() + (size - 1 - p)) = k; }); } break;
			case 9: { M const t = text(7, false); run(cat(n0, " = ", show(t)), i, x, false, t, 0, [&] { x = t.c_str(); }); break; }
			case 10: { T const k = ch(); run(cat(n0, " = ", (long)k), i, x, false, M(1, k), 0, [&] { x = k; }); break; }
			case 11: { T const p = ch(), q = ch(); run(cat(n0, " = {p, q}"), i, x, false, M{p, q}, 0, [&] { x = {p, q}; }); break; }
			case 12: { M const t = text(7); std::vector<T> z(t.begin(), t.end()); T const* p = z.data(); bool const as = s.chance(1, 2); run(cat(n0, as ? ".assign(" : ".append(", show(t), ", n)"), i, x, false, as ? t : was + t, 0, [&] { if (as) x.assign(p, t.size()); else x.append(p, t.size()); }); break; }
			case 13: { M const t = text(7, false); bool const as = s.chance(1, 2); run(cat(n0, as ? ".assign(" : ".append(", show(t), ")"), i, x, false, as ? t : was + t, 0, [&] { if (as) x.assign(t.c_str()); else x.append(t.c_str()); }); break; }
			case 14: { std::size_t const n = s.choose(9); T const k = ch(); bool const as = s.chance(1, 2); run(cat(n0, as ? ".assign(" : ".append(", n, ", c)"), i, x, false, as ? M(n, k) : was + M(n, k), 0, [&] { if (as) x.assign(n, k); else x.append(n, k); }); break; }
			case 15: { T const p = ch(), q = ch(); bool const as = s.chance(1, 2); run(cat(n0, as ? ".assign({p, q})" : ".append({p, q})"), i, x, false, as ? M{p, q} : was + M{p, q}, 0, [&] { if (as) x.assign({p, q}); else x.append({p, q}); }); break; }
			case 16: { M const t = text(7); Feed f = feed(t); typedef In<std::input_iterator_tag> I; bool const as = s.chance(1, 2); run(cat(n0, as ? ".assign" : ".append", "(single-pass ", show(t), ") failing at ", f.fail_at), i, x, false, as ? t : was + t, &f, [&] { I p{&f, 0, 0, &s}, q{&f, t.size(), 0, &s}; if (as) x.assign(p, q); else x.append(p, q); }); break; }
			case 17: { M const t = text(7); Feed f = feed(t); typedef In<std::forward_iterator_tag> I; bool const as = s.chance(1, 2); run(cat(n0, as ? ".assign" : ".append", "(forward ", show(t), ") failing at ", f.fail_at), i, x, false, as ? t : was + t, &f, [&] { I p{&f, 0, 0, &s}, q{&f, t.size(), 0, &s}; if (as) x.assign(p, q); else x.append(p, q); }); break; }
			case 18: { M const t = text(7); Feed f = feed(t); typedef In<std::random_access_iterator_tag> I; bool const as = s.chance(1, 2); run(cat(n0, as ? ".assign" : ".append", "(random access ", show(t), ") failing at ", f.fail_at), i, x, false, as ? t : was + t, &f, [&] { I p{&f, 0, 0, &s}, q{&f, t.size(), 0, &s}; if (as) x.assign(p, q); else x.append(p, q); }); break; }
			case 19: {	// from itself
				std::size_t const p = s.choose(size + 1), n = s.choose(size - p + 1); M const t = was.substr(p, n); bool const as = s.chance(1, 2), it = s.chance(1, 2);
				s.probe("source inside the string");
				run(cat(n0, as ? ".assign" : ".append", "(own ", p, "+", n, it ? " by iterators)" : ")"), i, x, false, as ? t : was + t, 0, [&] { T const* q = x.data() + p; if (it) { if (as) x.assign(q, q + n); else x.append(q, q + n); } else { if (as) x.assign(q, n); else x.append(q, n); } });
				break;
			}
			case 20: { T const k = letter(); bool const l = s.chance(1, 2); run(cat(n0, l ? " <<= c" : " >>= c"), i, x, false, l ? was + k : M(1, k) + was, 0, [&] { if (l) x <<= k; else x >>= k; }); break; }
			case 21: { M const t = text(4, false); bool const l = s.chance(1, 2); run(cat(n0, l ? " <<= " : " >>= ", show(t)), i, x, false, l ? was + t : t + was, 0, [&] { if (l) x <<= t.c_str(); else x >>= t.c_str(); }); break; }
			case 22: { T const p = ch(), q = ch(); bool const l = s.chance(1, 2); std::initializer_list<T> const il = {p, q}; run(cat(n0, l ? " <<= {p, q}" : " >>= {p, q}"), i, x, false, l ? was + M{p, q} : M{p, q} + was, 0, [&] { if (l) x <<= il; else x >>= il; }); break; }
			case 23: {
				std::size_t const p = where(size), n = s.choose(size + 3); std::vector<T> out(size + 4, T('z')); std::size_t r = 99;
				run(cat(n0, ".copy(out, ", n, ", ", (long)p, ")"), i, x, p > size, was, 0, [&] { r = x.copy(out.data(), n, p); });
				if (p <= size) { std::size_t const k = cut(size, p, n); s.check(r == k && M(out.data(), k) == was.substr(p, k) && out[k] == T('z'), "content", cat(n0, ".copy(", n, ", ", (long)p, ") of ", show(was), " copies ", r)); }
				break;
			}
			}
		}
		template<typename S, typename Y> void two_ops(S& x, int i, Y& y, int j) {
			M const was = m[i], o = m[j];
			std::string const n0 = name(i), n1 = name(j);
			Y const& cy = y;
			if (i == j) s.probe("source is the string itself");
			switch (s.choose(14)) {
			case 12: case 13: {	// from an iterator of a string
				std::size_t const p = s.choose(o.size() + 1), n = s.choose(o.size() - p + 1); bool const as = s.chance(1, 2), all = s.chance(1, 2), op = s.chance(1, 3); M const t = all ? nul(o.substr(p)) : o.substr(p, n);
				run(cat(n0, as ? all && op ? " = (" : ".assign(" : ".append(", "iterator of ", n1, " at ", p, all ? ")" : cat(", ", n, ")")), i, x, false, as ? t : was + t, 0, [&] { if (s.chance(1, 2)) { auto const q = cy.begin() + p; if (all) { if (as) { if (op) x = q; else x.assign(q); } else x.append(q); } else { if (as) x.assign(q, n); else x.append(q, n); } } else { auto const q = y.begin() + p; if (all) { if (as) { if (op) x = q; else x.assign(q); } else x.append(q); } else { if (as) x.assign(q, n); else x.append(q, n); } } });
				break;
			}
			case 0: run(cat(n0, " = ", n1), i, x, false, o, 0, [&] { x = cy; }); break;
			case 1: run(cat(n0, ".assign(", n1, ")"), i, x, false, o, 0, [&] { x.assign(cy); }); break;
			case 2: run(cat(n0, ".append(", n1, ")"), i, x, false, was + o, 0, [&] { x.append(cy); }); break;
			case 3: case 4: {
				std::size_t const p = where(o.size()), n = where(o.size()); bool const as = s.chance(1, 2), bad = p > o.size(); M const t = bad ? M() : o.substr(p, n);
				run(cat(n0, as ? ".assign(" : ".append(", n1, ", ", (long)p, ", ", (long)n, ")"), i, x, bad, as ? t : was + t, 0, [&] { if (as) x.assign(cy, p, n); else x.append(cy, p, n); });
				break;
			}
			case 5: run(cat(n0, " <<= ", n1), i, x, false, was + o, 0, [&] { x <<= cy; }); break;
			case 6: run(cat(n0, " >>= ", n1), i, x, false, o + was, 0, [&] { x >>= cy; }); break;
			case 7: { bool const r = s.chance(1, 2), as = s.chance(1, 2); M const t = r ? M(o.rbegin(), o.rend()) : o; if (r && i == j) break; run(cat(n0, as ? ".assign(" : ".append(", n1, r ? " reversed)" : " range)"), i, x, false, as ? t : was + t, 0, [&] { if (r) { if (as) x.assign(cy.rbegin(), cy.rend()); else x.append(cy.rbegin(), cy.rend()); } else { if (as) x.assign(cy.begin(), cy.end()); else x.append(cy.begin(), cy.end()); } }); break; }
			case 8: {
				auto const r = x + cy; same(r, was + o, cat(n0, " + ", n1)); T const k = letter(); same(x + k, was + k, cat(n0, " + c")); same(k + x, M(1, k) + was, cat("c + ", n0));
				T const lit[3] = {letter(), letter(), T()}; same(x + lit, was + lit, cat(n0, " + array")); same(lit + x, lit + was, cat("array + ", n0));
				break;
			}
			case 9: fresh<S>(cat(n0, " << ", n1), false, was + o, 0, [&] { return new S(x << cy); }); break;
			case 10: { T const k = letter(); fresh<S>(cat(n0, " << c"), false, was + k, 0, [&] { return new S(x << k); }); break; }
			case 11: compare(x, was, cy, o, cat(n0, " and ", n1)); break;
			}
		}
		static int sign(int v) { return v < 0 ? -1 : v > 0; }
		template<typename X, typename Y> void compare(X const& x, M const& mx, Y const& y, M const& my, std::string const& what) {
			s.log(cat("compares ", what)); s.step();
			int const w = sign(mx.compare(my));
			std::string const t = cat(what, ": ", show(mx), " and ", show(my), " compare");
			s.check(sign(x.compare(y)) == w, "compare", cat(t, " ", x.compare(y)));
			s.check((x == y) == (w == 0) && (x != y) == (w != 0) && (x < y) == (w < 0) && (x > y) == (w > 0) && (x <= y) == (w <= 0) && (x >= y) == (w >= 0), "compare", cat(t, " wrongly by operators"));
			M const c = nul(my); std::vector<T> z(c.begin(), c.end()); z.push_back(T()); T const* p = z.data();
			int const v = sign(mx.compare(c));
			s.check(sign(x.compare(p)) == v, "compare", cat(t, " wrongly as C strings"));
			s.check((x == p) == (v == 0) && (p == x) == (v == 0) && (x != p) == (v != 0) && (p != x) == (v != 0) && (x < p) == (v < 0) && (p < x) == (v > 0) && (x > p) == (v > 0) && (p > x) == (v < 0) && (x <= p) == (v <= 0) && (p <= x) == (v >= 0) && (x >= p) == (v >= 0) && (p >= x) == (v <= 0), "compare", cat(t, " wrongly by operators with a C string"));
			auto const it = start(x, y, z); s.check(sign(x.compare(it)) == v, "compare", cat(t, " wrongly as a string's iterator"));
			std::size_t const p1 = s.choose(mx.size() + 2), n1 = where(mx.size()), p2 = s.choose(my.size() + 2), n2 = where(my.size());
			bool const bad = p1 > mx.size() || p2 > my.size();
			int got = 0; bool thrown = false;
			try { got = sign(x.compare(p1, n1, y, p2, n2)); } catch (std::out_of_range const&) { thrown = true; }
			s.check(thrown == bad, "compare", cat(t, ": compare(", p1, ", ", (long)n1, ", ., ", p2, ", ", (long)n2, bad ? ") is not refused" : ") is refused"));
			if (!bad) s.check(got == sign(mx.compare(p1, n1, my, p2, n2)), "compare", cat(t, ": compare(", p1, ", ", (long)n1, ", ., ", p2, ", ", (long)n2, ") gives ", got));
			if (p1 <= mx.size()) {
				s.check(sign(x.compare(p1, n1, y)) == sign(mx.compare(p1, n1, my)), "compare", cat(t, ": compare(", p1, ", ", (long)n1, ", .)"));
				s.check(sign(x.compare(p1, n1, it)) == sign(mx.compare(p1, n1, c)) && sign(x.compare(p1, n1, it, c.size())) == sign(mx.compare(p1, n1, c)), "compare", cat(t, ": compare(", p1, ", ", (long)n1, ", iterator)"));
				std::size_t const k = s.choose(my.size() + 1); std::vector<T> e(my.begin(), my.begin() + k);
				s.check(sign(x.compare(p1, n1, e.data(), k)) == sign(mx.compare(p1, n1, e.data(), k)), "compare", cat(t, ": compare(", p1, ", ", (long)n1, ", p, ", k, ")"));
			}
			if (std::is_same<X, Y>::value && mx == my) s.check(sprout::hash<X>()(x) == sprout::hash<Y>()(y), "hash", cat(t, " equal but hash differently"));
		}
		// a text given by an iterator of a string (or by a pointer, where there is none), up to its first null character
		template<std::size_t N1, std::size_t N2> static typename Str<N2>::type::const_iterator start(typename sprout::basic_string<T, N1> const&, sprout::basic_string<T, N2> const& y, std::vector<T> const&) { return y.begin(); }
		template<typename X, typename Y> static T const* start(X const&, Y const&, std::vector<T> const& z) { return z.data(); }
#define FIND(F, DEF) { \
			std::size_t const p = where(mx.size()); std::vector<T> e(my.begin(), my.end()); \
			M const c = nul(my); std::vector<T> z(c.begin(), c.end()); z.push_back(T()); T const k = s.chance(1, 3) ? ch() : letter(); \
			std::string const t = cat(what, ": ", show(mx), "." #F "(", show(my), ", ", (long)p, ")"); \
			s.check(x.F(y, p) == mx.F(my, p) && x.F(y) == mx.F(my), "find", t); \
			s.check(x.F(e.data(), p, e.size()) == mx.F(my.data(), p, my.size()), "find", cat(t, " of a range")); \
			s.check(x.F(z.data(), p) == mx.F(c, p) && x.F(z.data()) == mx.F(c), "find", cat(t, " of a C string")); \
			auto const it = start(x, y, z); \
			s.check(x.F(it, p) == mx.F(c, p) && x.F(it) == mx.F(c) && x.F(it, p, c.size()) == mx.F(c.data(), p, c.size()), "find", cat(t, " of a string's iterator")); \
			s.check(x.F(k, p) == mx.F(k, p) && x.F(k) == mx.F(k), "find", cat(what, ": ", show(mx), "." #F "(", (long)k, ", ", (long)p, ")")); \
			break; \
		}
		template<typename X, typename Y> void find(X const& x, M const& mx, Y const& y, M const& my, std::string const& what) {
			s.log(cat("searches ", what)); s.step();
			switch (s.choose(6)) {
			case 0: FIND(find, 0)
			case 1: FIND(rfind, 0)
			case 2: FIND(find_first_of, 0)
			case 3: FIND(find_last_of, 0)
			case 4: FIND(find_first_not_of, 0)
			case 5: FIND(find_last_not_of, 0)
			}
		}
		template<typename S> void part(S const& x, M const& mx, std::string const& what) {
			std::size_t const p = where(mx.size()), n = where(mx.size());
			s.log(cat(what, ".substr(", (long)p, ", ", (long)n, ")")); s.step();
			bool thrown = false;
			try {
				auto const r = x.substr(p, n);
				s.check(p <= mx.size(), "not-refused", cat(what, ".substr(", (long)p, ") of ", show(mx), " is not refused"));
				M const g(r.begin(), r.end());
				s.check(g == mx.substr(p, n), "content", cat(show(mx), ".substr(", (long)p, ", ", (long)n, ") is ", show(g)));
			} catch (std::out_of_range const&) { thrown = true; }
			s.check(thrown == (p > mx.size()), "refused", cat(what, ".substr(", (long)p, ") of ", show(mx), " is refused"));
		}
		template<typename S> void access(S const& x, M const& mx, std::string const& what) {
			std::size_t const p = s.choose(mx.size() + 3);
			int thrown = 0; T got = T();
			try { got = x.at(p); } catch (std::out_of_range const&) { ++thrown; }
			s.check(p < mx.size() ? !thrown && got == mx[p] : thrown == 1, "access", cat(what, ".at(", p, ") of ", show(mx)));
			if (!mx.empty()) s.check(x.front() == mx[0] && x.back() == mx[mx.size() - 1], "access", cat(what, ".front() or back() of ", show(mx)));
			for (std::size_t i = 0; i != mx.size(); ++i) s.check(x[i] == mx[i], "access", cat(what, "[", i, "] of ", show(mx)));
		}
		void view_ops(View v, M mv, std::string const& what) {	// a view that is cut and searched
			T const* const base = v.data();
			for (int k = 0; k != 4; ++k) {
				switch (s.choose(6)) {
				case 0: { std::size_t const n = s.choose(mv.size() + 2), e = n < mv.size() ? n : mv.size(); bool const c = s.chance(1, 2); View const cv = v; if (c) v = cv.remove_prefix(n); else v.remove_prefix(n); mv = mv.substr(e); break; }
				case 1: { std::size_t const n = s.choose(mv.size() + 2), e = n < mv.size() ? n : mv.size(); bool const c = s.chance(1, 2); View const cv = v; if (c) v = cv.remove_suffix(n); else v.remove_suffix(n); mv = mv.substr(0, mv.size() - e); break; }
				case 2: {
					std::size_t const p = where(mv.size()), n = where(mv.size()); bool thrown = false;
					try { View const r = v.substr(p, n); s.check(p <= mv.size(), "not-refused", cat(what, ".substr(", (long)p, ") is not refused")); v = r; mv = mv.substr(p, n); }
					catch (std::out_of_range const&) { thrown = true; }
					s.check(!thrown || p > mv.size(), "refused", cat(what, ".substr(", (long)p, ", ", (long)n, ") of ", show(mv), " is refused"));
					break;
				}
				case 3: { View w; w.swap(v); v.swap(w); break; }
				case 4: {
					std::size_t const p = where(mv.size()), n = s.choose(mv.size() + 3); std::vector<T> out(mv.size() + 4, T('z')); std::size_t r = 99; bool thrown = false;
					try { r = v.copy(out.data(), n, p); } catch (std::out_of_range const&) { thrown = true; }
					s.check(thrown == (p > mv.size()), "refused", cat(what, ".copy(", n, ", ", (long)p, ") of ", show(mv), thrown ? " is refused" : " is not refused"));
					if (!thrown) { std::size_t const c = cut(mv.size(), p, n); s.check(r == c && M(out.data(), c) == mv.substr(p, c) && out[c] == T('z'), "content", cat(what, ".copy(", n, ", ", (long)p, ") of ", show(mv), " copies ", r)); }
					break;
				}
				case 5: {
					bool const fits = mv.size() <= 6; bool thrown = false;
					try { S6 const t = v.template to_string<6>(); s.check(fits, "not-refused", cat(what, ": a string of 6 made of ", show(mv))); same(t, mv, cat(what, ".to_string<6>()")); } catch (std::length_error const&) { thrown = true; }
					s.check(thrown == !fits, "refused", cat(what, ".to_string<6>() of ", show(mv)));
					std::basic_string<T, sprout::char_traits<T> > const st = v.template to_string<std::allocator<T> >();
					s.check(M(st.data(), st.size()) == mv, "content", cat(what, ".to_string()"));
					break;
				}
				}
				s.check(v.size() == mv.size() && v.length() == mv.size() && v.empty() == mv.empty() && v.data() >= base && M(v.begin(), v.end()) == mv && M(v.rbegin(), v.rend()) == M(mv.rbegin(), mv.rend()) && M(v.data(), v.size()) == mv, "content", cat(what, " is ", show(M(v.begin(), v.end())), ", expected ", show(mv)));
				s.step();
			}
			access(v, mv, what);
			M const t = s.chance(1, 2) ? text(3) : mv.substr(s.choose(mv.size() + 1));
			std::vector<T> e(t.begin(), t.end()); View const w(e.data(), e.size());
			find(v, mv, w, t, what);
			compare(v, mv, w, t, what);
			s.check(v.starts_with(w) == (mv.compare(0, t.size(), t) == 0 && mv.size() >= t.size()), "compare", cat(what, ": ", show(mv), " starts with ", show(t)));
			s.check(v.ends_with(w) == (mv.size() >= t.size() && mv.compare(mv.size() - t.size(), npos, t) == 0), "compare", cat(what, ": ", show(mv), " ends with ", show(t)));
			T const k = letter();
			s.check(v.starts_with(k) == (!mv.empty() && mv[0] == k) && v.ends_with(k) == (!mv.empty() && mv[mv.size() - 1] == k), "compare", cat(what, ": ", show(mv), " starts or ends with ", (long)k));
		}
		template<typename S> void look_ops(S& x, int i) {
			M const t = s.chance(1, 3) ? text(3) : m[i].substr(s.choose(m[i].size() + 1), s.choose(3));
			switch (s.choose(5)) {
			case 0: { sprout::basic_string<T, 12> y(t.data(), 0); y.assign(t.data(), t.size()); find(x, m[i], y, t, name(i)); break; }
			case 1: { sprout::basic_string<T, 12> y(t.data(), 0); y.assign(t.data(), t.size()); compare(x, m[i], y, t, name(i)); break; }
			case 2: part(x, m[i], name(i)); break;
			case 3: access(x, m[i], name(i)); break;
			case 4: if (s.chance(1, 2)) { View const v(x); view_ops(v, m[i], cat("view of ", name(i))); }
				else { std::vector<T> e(m[i].begin(), m[i].end()); view_ops(View(e.data(), e.size()), m[i], "view of an exact range"); }
				break;
			}
		}
		template<typename S> void other(S& x, int i) {
			int const j = (int)s.choose(COUNT);
			switch (j) { case 0: two_ops(x, i, *a, j); break; case 1: two_ops(x, i, *b, j); break; case 2: two_ops(x, i, *c, j); break; default: two_ops(x, i, *d, j); }
		}
		template<typename S> void one(S& x, int i) {
			switch (s.choose(10)) {
			case 0: case 1: case 2: case 3: own_ops(x, i); break;
			case 4: case 5: case 6: other(x, i); break;
			case 7: fresh_ops(x, i); break;
			default: look_ops(x, i); break;
			}
		}
		void step() {
			int const i = (int)s.choose(COUNT + 1);
			switch (i) {
			case 0: one(*a, 0); break;
			case 1: one(*b, 1); break;
			case 2: one(*c, 2); break;
			case 3: one(*d, 3); break;
			default: {
				bool const mem = s.chance(1, 2), self = s.chance(1, 4); M const p = m[0], q = m[1];
				s.log("swap");
				S6& o = self ? *a : *b;
				if (mem) a->swap(o); else { using sprout::swap; swap(*a, o); }
				if (!self) { m[0] = q; m[1] = p; }
				look("after swap");
				// conversions between capacities
				same(sprout::stretch<10>(*a), m[0], "stretch"); same(sprout::shrink<3>(*a), m[0].substr(0, 3), "shrink"); sprout::basic_string<T, 3> const sh = sprout::shrink(*a); same(sh, m[0].substr(0, 3), "shrink");
				std::unique_ptr<S10> w(new S10(*a)); same(*w, m[0], "S10(S6)");
				std::basic_string<T, sprout::char_traits<T> > const st(*a);
				s.check(M(st.data(), st.size()) == m[0], "content", "conversion to std::basic_string");
				std::size_t const po = s.choose(m[0].size() + 2); bool thrown = false;
				try { std::unique_ptr<S10> y(new S10(*a, po, 2)); s.check(po <= m[0].size(), "not-refused", cat("S10(S6, ", po, ", 2) is not refused")); same(*y, m[0].substr(po, 2), "S10(S6, pos, 2)"); } catch (std::out_of_range const&) { thrown = true; }
				s.check(thrown == (po > m[0].size()), "refused", cat("S10(S6, ", po, ", 2)"));
			}
			}
		}
	};
	void strings(sim::Sim& s) {
		World w(s);
		w.look("at the start");
		do w.step(); while (s.more(15, 16));
	}
	SIM_SCENARIO("C15", scenario, 1, strings);
#else
	// ---- C string functions, over buffers with room to spare and exact-size sources
	template<typename T> struct Ops;
	// the functions for characters without functions of their own
	template<typename T> struct Generic {
		static std::size_t len(T const* a) { return sprout::strlen(a); }
		static T* cpy(T* a, T const* b) { return sprout::strcpy(a, b); }
		static T* ncpy(T* a, T const* b, std::size_t n) { return sprout::strncpy(a, b, n); }
		static T* cat_(T* a, T const* b) { return sprout::strcat(a, b); }
		static T* ncat(T* a, T const* b, std::size_t n) { return sprout::strncat(a, b, n); }
		static int cmp(T const* a, T const* b) { return sprout::strcmp(a, b); }
		static int ncmp(T const* a, T const* b, std::size_t n) { return sprout::strncmp(a, b, n); }
		static int coll(T const* a, T const* b) { return sprout::strcoll(a, b); }
		static std::size_t spn(T const* a, T const* b) { return sprout::strspn(a, b); }
		static std::size_t cspn(T const* a, T const* b) { return sprout::strcspn(a, b); }
		static T const* chr(T const* a, T c) { return sprout::strchr(a, c); }
		static T* chr(T* a, T c) { return sprout::strchr(a, c); }
		static T const* rchr(T const* a, T c) { return sprout::strrchr(a, c); }
		static T* rchr(T* a, T c) { return sprout::strrchr(a, c); }
		static T const* pbrk(T const* a, T const* b) { return sprout::strpbrk(a, b); }
		static T* pbrk(T* a, T const* b) { return sprout::strpbrk(a, b); }
		static T const* str(T const* a, T const* b) { return sprout::strstr(a, b); }
		static T* str(T* a, T const* b) { return sprout::strstr(a, b); }
		// blocks of memory
		static T const* mchr(T const* a, T c, std::size_t n) { return sprout::char_traits<T>::find(a, n, c); }
		static T* mchr(T* a, T c, std::size_t n) { return const_cast<T*>(static_cast<T const*>(sprout::char_traits<T>::find(a, n, c))); }
		static int mcmp(T const* a, T const* b, std::size_t n) { return sprout::char_traits<T>::compare(a, b, n); }
		static T* mcpy(T* a, T const* b, std::size_t n) { return sprout::char_traits<T>::copy(a, b, n); }
		static T* mmove(T* a, T const* b, std::size_t n) { return n % 2 ? sprout::char_traits<T>::move(a, b, n) : sprout::char_traits<T>::move(a, const_cast<T*>(b), n); }
		static T* mset(T* a, T c, std::size_t n) { return sprout::char_traits<T>::assign(a, n, c); }
	};
	template<> struct Ops<char16_t> : Generic<char16_t> { static char16_t neg() { return 0xffff; } };
	template<> struct Ops<char> : Generic<char> {
		static char neg() { return (char)-1; }
		static char const* chr(char const* a, char c) { return sprout::strchr(a, (int)c); }
		static char* chr(char* a, char c) { return sprout::strchr(a, (int)(unsigned char)c); }
		static char const* rchr(char const* a, char c) { return sprout::strrchr(a, (int)(unsigned char)c); }
		static char* rchr(char* a, char c) { return sprout::strrchr(a, (int)c); }
		static char const* mchr(char const* a, char c, std::size_t n) { return (char const*)sprout::memchr((void const*)a, (int)c, n); }
		static char* mchr(char* a, char c, std::size_t n) { return (char*)sprout::memchr((unsigned char*)a, 0x100 + (int)(unsigned char)c, n); }
		static int mcmp(char const* a, char const* b, std::size_t n) { return sprout::memcmp((void const*)a, (void const*)b, n); }
		static char* mcpy(char* a, char const* b, std::size_t n) { return (char*)sprout::memcpy((void*)a, (void const*)b, n); }
		static char* mmove(char* a, char const* b, std::size_t n) { return (char*)sprout::memmove((unsigned char*)a, (void const*)b, n); }
		static char* mset(char* a, char c, std::size_t n) { return (char*)sprout::memset((void*)a, 0x300 + (int)(unsigned char)c, n); }
	};
	template<> struct Ops<wchar_t> {
		typedef wchar_t T;
		static T neg() { return (T)-1; }
		static std::size_t len(T const* a) { return sprout::wcslen(a); }
		static T* cpy(T* a, T const* b) { return sprout::wcscpy(a, b); }
		static T* ncpy(T* a, T const* b, std::size_t n) { return sprout::wcsncpy(a, b, n); }
		static T* cat_(T* a, T const* b) { return sprout::wcscat(a, b); }
		static T* ncat(T* a, T const* b, std::size_t n) { return sprout::wcsncat(a, b, n); }
		static int cmp(T const* a, T const* b) { return sprout::wcscmp(a, b); }
		static int ncmp(T const* a, T const* b, std::size_t n) { return sprout::wcsncmp(a, b, n); }
		static int coll(T const* a, T const* b) { return sprout::wcscoll(a, b); }
		static std::size_t spn(T const* a, T const* b) { return sprout::wcsspn(a, b); }
		static std::size_t cspn(T const* a, T const* b) { return sprout::wcscspn(a, b); }
		static T const* chr(T const* a, T c) { return sprout::wcschr(a, c); }
		static T* chr(T* a, T c) { return sprout::wcschr(a, c); }
		static T const* rchr(T const* a, T c) { return sprout::wcsrchr(a, c); }
		static T* rchr(T* a, T c) { return sprout::wcsrchr(a, c); }
		static T const* pbrk(T const* a, T const* b) { return sprout::wcspbrk(a, b); }
		static T* pbrk(T* a, T const* b) { return sprout::wcspbrk(a, b); }
		static T const* str(T const* a, T const* b) { return sprout::wcsstr(a, b); }
		static T* str(T* a, T const* b) { return sprout::wcsstr(a, b); }
		static T const* mchr(T const* a, T c, std::size_t n) { return sprout::wmemchr(a, c, n); }
		static T* mchr(T* a, T c, std::size_t n) { return sprout::wmemchr(a, c, n); }
		static int mcmp(T const* a, T const* b, std::size_t n) { return sprout::wmemcmp(a, b, n); }
		static T* mcpy(T* a, T const* b, std::size_t n) { return sprout::wmemcpy(a, b, n); }
		static T* mmove(T* a, T const* b, std::size_t n) { return sprout::wmemmove(a, b, n); }
		static T* mset(T* a, T c, std::size_t n) { return sprout::wmemset(a, c, n); }
	};
	int sign(int x) { return x < 0 ? -1 : x > 0; }
	template<typename T>
	struct Buffers {
		typedef Ops<T> O;
		typedef std::vector<T> V;
		enum { COUNT = 3, CAP = 20 };
		sim::Sim& s;
		T* real[COUNT];
		V m[COUNT];
		explicit Buffers(sim::Sim& s_) : s(s_) {
			for (int i = 0; i != COUNT; ++i) { real[i] = new T[CAP]; m[i].resize(CAP); for (int k = 0; k != CAP; ++k) real[i][k] = m[i][k] = k + 1 == CAP || k % 7 == 6 ? T(0) : letter(); }
		}
		~Buffers() { for (int i = 0; i != COUNT; ++i) delete[] real[i]; }
		T letter() { static T const t[] = {T('a'), T('b'), T('c'), O::neg()}; return t[s.choose(4)]; }
		static std::string show(V const& v) {
			std::string r = "\"";
			for (std::size_t i = 0; i != v.size(); ++i) { if (v[i] >= T('a') && v[i] <= T('z')) r += (char)v[i]; else r += cat("\\", (long)v[i] & 0xffff); }
			return r + "\"";
		}
		static long key(T c) { return sizeof(T) == 1 ? (long)(unsigned char)c : (long)c; }
		static std::size_t mlen(V const& v, std::size_t at) { std::size_t n = 0; while (v[at + n]) ++n; return n; }
		static V text(V const& v, std::size_t at) { return V(v.begin() + at, v.begin() + at + mlen(v, at)); }
		static int order(V const& a, V const& b) {
			for (std::size_t i = 0; i != a.size() && i != b.size(); ++i) if (key(a[i]) != key(b[i])) return key(a[i]) < key(b[i]) ? -1 : 1;
			return a.size() < b.size() ? -1 : a.size() > b.size();
		}
		void look(char const* what) {
			for (int i = 0; i != COUNT; ++i) { V const v(real[i], real[i] + CAP); if (v != m[i]) s.fail("content", cat(what, ": buffer ", i, " is ", show(v), ", expected ", show(m[i]))); }
			std::string st; for (int i = 0; i != COUNT; ++i) st += show(m[i]); s.state(std::hash<std::string>()(st));
			s.step();
		}
		// an exact-size text: the terminated string, and nothing behind it
		struct Exact { std::unique_ptr<T[]> p; V v; };
		Exact exact(bool terminated) {
			Exact e; std::size_t n = s.chance(1, 8) ? s.choose(20) : s.choose(6);
			int const kind = (int)s.choose(3);
			for (std::size_t i = 0; i != n; ++i) e.v.push_back(kind == 0 ? letter() : kind == 1 ? (s.chance(1, 5) ? T('b') : T('a')) : letter());
			if (kind == 2) { V const t = text(m[s.choose(COUNT)], 0); std::size_t const k = s.choose(t.size() + 1); e.v.assign(t.begin() + k, t.begin() + k + std::min<std::size_t>(n, t.size() - k)); if (e.v.size() && s.chance(1, 3)) e.v.back() = letter(); }
			e.p.reset(new T[e.v.size() + terminated]);
			for (std::size_t i = 0; i != e.v.size(); ++i) e.p[i] = e.v[i];
			if (terminated) e.p[e.v.size()] = T(0);
			return e;
		}
		template<typename P> void at(P got, T const* base, long want, std::string const& what) {
			s.check(got == (want < 0 ? (P)nullptr : const_cast<P>(base + want)), "result", cat(what, " gives ", got ? cat("position ", (long)(got - base)) : std::string("null"), ", expected ", want));
		}
		void write() {
			int const i = (int)s.choose(COUNT); std::size_t const pos = s.choose(CAP);
			T* const d = real[i]; V& v = m[i];
			switch (s.choose(7)) {
			case 0: {
				Exact const e = exact(true); if (pos + e.v.size() + 1 > CAP) return;
				s.log(cat("strcpy to ", i, "+", pos, " of ", show(e.v)));
				s.check(O::cpy(d + pos, e.p.get()) == d + pos, "result", "strcpy() does not give its destination");
				for (std::size_t k = 0; k <= e.v.size(); ++k) v[pos + k] = k == e.v.size() ? T(0) : e.v[k];
				break;
			}
			case 1: {
				bool const term = s.chance(2, 3); Exact const e = exact(term); std::size_t const n = term ? s.choose(8) : s.choose(e.v.size() + 1);
				if (pos + n > CAP || (pos + n == CAP && n <= e.v.size())) return;
				s.log(cat("strncpy to ", i, "+", pos, " of ", show(e.v), term ? "" : " (not terminated)", ", ", n));
				s.check(O::ncpy(d + pos, e.p.get(), n) == d + pos, "result", "strncpy() does not give its destination");
				for (std::size_t k = 0; k != n; ++k) v[pos + k] = k < e.v.size() ? e.v[k] : T(0);
				break;
			}
			case 2: {
				Exact const e = exact(true); if (pos == CAP) return;
				std::size_t const l = mlen(v, pos); if (pos + l + e.v.size() + 1 > CAP) return;
				s.log(cat("strcat to ", i, "+", pos, " of ", show(e.v)));
				s.check(O::cat_(d + pos, e.p.get()) == d + pos, "result", "strcat() does not give its destination");
				for (std::size_t k = 0; k <= e.v.size(); ++k) v[pos + l + k] = k == e.v.size() ? T(0) : e.v[k];
				break;
			}
			case 3: {
				bool const term = s.chance(2, 3); Exact const e = exact(term); std::size_t const n = term ? (s.chance(1, 6) ? npos : s.choose(8)) : s.choose(e.v.size() + 1);
				std::size_t const l = mlen(v, pos), k1 = std::min(n, e.v.size()); if (pos + l + k1 + 1 > CAP) return;
				s.log(cat("strncat to ", i, "+", pos, " of ", show(e.v), term ? "" : " (not terminated)", ", ", n));
				s.check(O::ncat(d + pos, e.p.get(), n) == d + pos, "result", "strncat() does not give its destination");
				for (std::size_t k = 0; k <= k1; ++k) v[pos + l + k] = k == k1 ? T(0) : e.v[k];
				break;
			}
			case 4: {
				std::size_t const n = s.choose(CAP - pos + 1); T const c = s.chance(1, 4) ? T(0) : letter(); if (pos + n == CAP && c) return;
				s.log(cat("memset ", i, "+", pos, ", ", n));
				s.check(O::mset(d + pos, c, n) == d + pos, "result", "memset() does not give its destination");
				for (std::size_t k = 0; k != n; ++k) v[pos + k] = c;
				break;
			}
			case 5: {	// the same or another buffer
				int const j = (int)s.choose(COUNT); std::size_t const from = s.choose(CAP), n = s.choose(CAP - std::max(pos, from) + 1); if (pos + n == CAP && from + n != CAP) return;
				bool const over = i == j && (from < pos ? from + n > pos : pos + n > from);
				s.log(cat(over ? "memmove to " : "memcpy to ", i, "+", pos, " from ", j, "+", from, ", ", n)); if (over) s.probe("overlap");
				V const part(m[j].begin() + from, m[j].begin() + from + n);
				s.check((over || s.chance(1, 2) ? O::mmove(d + pos, real[j] + from, n) : O::mcpy(d + pos, real[j] + from, n)) == d + pos, "result", "the copy does not give its destination");
				for (std::size_t k = 0; k != n; ++k) v[pos + k] = part[k];
				break;
			}
			default: {	// through a pointer that a search has found
				T const c = s.chance(1, 4) ? T(0) : letter(); if (!c) return;
				T* const q = s.chance(1, 2) ? O::chr(d + pos, c) : O::rchr(d + pos, c); s.log(cat("replace in ", i, "+", pos));
				if (!q) { for (std::size_t k = 0; k != mlen(v, pos); ++k) s.check(v[pos + k] != c, "result", "a character that is there is not found"); return; }
				s.check(*q == c && q >= d + pos && q < d + pos + mlen(v, pos), "result", "a search leaves the string");
				*q = T('d'); v[q - d] = T('d');
				break;
			}
			}
			s.nontrivial();
			look("after writing");
		}
		void read() {
			int const i = (int)s.choose(COUNT); std::size_t const pos = s.chance(1, 2) ? 0 : s.choose(CAP);
			bool const own = s.chance(1, 2);	// the text: a buffer, or an exact-size copy
			Exact a; T* p = real[i] + pos; V t = text(m[i], pos);
			if (!own) { a = exact(true); p = a.p.get(); t = a.v; }
			T const* const cp = p; bool const mut = s.chance(1, 2);
			s.log(cat("look at ", show(t)));
			switch (s.choose(8)) {
			case 0: s.check(O::len(cp) == t.size(), "result", cat("the length of ", show(t), " is given as ", O::len(cp))); break;
			case 1: {
				T const c = s.chance(1, 5) ? T(0) : s.chance(1, 8) ? T('z') : letter();
				long first = -1, last = -1; for (std::size_t k = 0; k <= t.size(); ++k) if ((k == t.size() ? T(0) : t[k]) == c) { if (first < 0) first = (long)k; last = (long)k; }
				if (mut) { at(O::chr(p, c), p, first, cat("strchr in ", show(t))); at(O::rchr(p, c), p, last, cat("strrchr in ", show(t))); }
				else { at(O::chr(cp, c), p, first, cat("strchr in ", show(t))); at(O::rchr(cp, c), p, last, cat("strrchr in ", show(t))); }
				break;
			}
			case 2: {
				Exact const e = exact(true); std::size_t in = 0, out = 0;
				while (in != t.size() && std::find(e.v.begin(), e.v.end(), t[in]) != e.v.end()) ++in;
				while (out != t.size() && std::find(e.v.begin(), e.v.end(), t[out]) == e.v.end()) ++out;
				std::string const w = cat(" of ", show(t), " and ", show(e.v));
				s.check(O::spn(cp, e.p.get()) == in, "result", cat("strspn", w, " gives ", O::spn(cp, e.p.get())));
				s.check(O::cspn(cp, e.p.get()) == out, "result", cat("strcspn", w, " gives ", O::cspn(cp, e.p.get())));
				long const want = out == t.size() ? -1 : (long)out;
				if (mut) at(O::pbrk(p, e.p.get()), p, want, cat("strpbrk", w)); else at(O::pbrk(cp, e.p.get()), p, want, cat("strpbrk", w));
				break;
			}
			case 3: {
				Exact e = exact(true);
				if (t.size() && s.chance(1, 2)) { std::size_t const k = s.choose(t.size()), n = 1 + s.choose(t.size() - k); e.v.assign(t.begin() + k, t.begin() + k + n); e.p.reset(new T[n + 1]); std::copy(e.v.begin(), e.v.end(), e.p.get()); e.p[n] = T(0); }
				typename V::const_iterator const f = std::search(t.begin(), t.end(), e.v.begin(), e.v.end()); long const want = f == t.end() && e.v.size() ? -1 : (long)(f - t.begin());
				std::string const w = cat("strstr of ", show(t), " and ", show(e.v));
				if (mut) at(O::str(p, e.p.get()), p, want, w); else at(O::str(cp, e.p.get()), p, want, w);
				break;
			}
			case 4: {
				Exact e = exact(true); if (s.chance(1, 2)) { e.v = t; if (e.v.size() && s.chance(1, 2)) { std::size_t const k = s.choose(e.v.size()); if (s.chance(1, 3)) e.v.resize(k); else e.v[k] = letter(); } e.p.reset(new T[e.v.size() + 1]); std::copy(e.v.begin(), e.v.end(), e.p.get()); e.p[e.v.size()] = T(0); }
				T const* const q = e.p.get(); int const want = order(t, e.v); std::string const w = cat(" of ", show(t), " and ", show(e.v));
				s.check(sign(O::cmp(cp, q)) == want, "order", cat("strcmp", w, " gives ", O::cmp(cp, q))); s.check(sign(O::cmp(q, cp)) == -want, "order", cat("strcmp (reversed)", w, " gives ", O::cmp(q, cp)));
				s.check(sign(O::coll(cp, q)) == want, "order", cat("strcoll", w, " gives ", O::coll(cp, q)));
				std::size_t const n = s.chance(1, 8) ? npos >> s.choose(3) : s.choose(t.size() + 3); V const t2(t.begin(), t.begin() + std::min(n, t.size())), e2(e.v.begin(), e.v.begin() + std::min(n, e.v.size()));
				s.check(sign(O::ncmp(cp, q, n)) == order(t2, e2), "order", cat("strncmp", w, ", ", n, " gives ", O::ncmp(cp, q, n)));
				break;
			}
			case 5: {	// the parts of texts that are not terminated
				Exact const e = exact(false), g = exact(false); std::size_t const n = s.choose(std::min(e.v.size(), g.v.size()) + 1);
				V const e2(e.v.begin(), e.v.begin() + n), g2(g.v.begin(), g.v.begin() + n); T const *const x = e.p.get(), *const y = g.p.get();
				s.check(sign(O::ncmp(x, y, n)) == order(e2, g2), "order", cat("strncmp of ", show(e.v), " and ", show(g.v), ", ", n, " gives ", O::ncmp(x, y, n)));
				s.check(sign(O::mcmp(x, y, n)) == order(e2, g2), "order", cat("memcmp of ", show(e.v), " and ", show(g.v), ", ", n, " gives ", O::mcmp(x, y, n)));
				break;
			}
			case 6: {	// memory with terminators inside
				std::size_t const b = s.choose(CAP), n = s.choose(CAP - b + 1); T const c = s.chance(1, 4) ? T(0) : letter(); V const& v = m[i];
				long want = -1; for (std::size_t k = 0; k != n; ++k) if (v[b + k] == c) { want = (long)k; break; }
				T* const base = real[i] + b; T const* const cb = base;
				if (mut) at(O::mchr(base, c, n), base, want, cat("memchr in ", show(V(v.begin() + b, v.begin() + b + n)))); else at(O::mchr(cb, c, n), base, want, cat("memchr in ", show(V(v.begin() + b, v.begin() + b + n))));
				int const j = (int)s.choose(COUNT); std::size_t const b2 = s.choose(CAP), n2 = std::min(n, (std::size_t)CAP - b2);
				int const w = order(V(v.begin() + b, v.begin() + b + n2), V(m[j].begin() + b2, m[j].begin() + b2 + n2));
				s.check(sign(O::mcmp(cb, real[j] + b2, n2)) == w, "order", cat("memcmp of ", i, "+", b, " and ", j, "+", b2, ", ", n2, " gives ", O::mcmp(cb, real[j] + b2, n2)));
				break;
			}
			default: {	// a text that ends where the memory ends
				Exact const e = exact(false); T const c = letter(); long want = -1; for (std::size_t k = 0; k != e.v.size() && want < 0; ++k) if (e.v[k] == c) want = (long)k;
				at(O::mchr((T const*)e.p.get(), c, e.v.size()), e.p.get(), want, cat("memchr in ", show(e.v)));
				break;
			}
			}
			look("after reading");
		}
	};
	template<typename T>
	void buffers(sim::Sim& s) {
		Buffers<T> b(s);
		do { if (s.chance(1, 2)) b.write(); else b.read(); } while (s.more(15, 16));
	}
	SIM_SCENARIO("C15", "C strings of char", 1, buffers<char>);
	SIM_SCENARIO("C15", "C strings of wchar_t", 1, buffers<wchar_t>);
	SIM_SCENARIO("C15", "C strings of char16_t", 1, buffers<char16_t>);
#endif
}
