// C17: valarrays with their subsets, bitsets and intrusive lists through random histories, against std types and plain vectors.
#include "core.hpp"
#include <algorithm>
#include <bitset>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>
#include <sprout/array.hpp>
#include <sprout/valarray.hpp>
#include <sprout/bitset.hpp>
#include <sprout/forward_clist.hpp>
using namespace sim;
namespace {
	template<typename V> std::string show_all(V const& v) {
		std::string r = "[";
		for (std::size_t i = 0; i != v.size(); ++i) r += (i ? " " : "") + cat(v[i]);
		return r + "]";
	}
}
#if SIM_PART == 0
namespace {
	typedef std::uint32_t U;
	typedef std::vector<U> M;
	typedef std::vector<std::size_t> X;
	enum { N = 8, SLOTS = 3 };
	typedef sprout::valarray<U, N> V;
	typedef sprout::valarray<bool, N> B;
	struct Add { U operator()(U a, U b) const { return a + b; } };
	struct Sub { U operator()(U a, U b) const { return a - b; } };
	struct Mul { U operator()(U a, U b) const { return a * b; } };
	struct Div { U operator()(U a, U b) const { return a / b; } };
	struct Mod { U operator()(U a, U b) const { return a % b; } };
	struct And { U operator()(U a, U b) const { return a & b; } };
	struct Or { U operator()(U a, U b) const { return a | b; } };
	struct Xor { U operator()(U a, U b) const { return a ^ b; } };
	struct Shl { U operator()(U a, U b) const { return a << b; } };
	struct Shr { U operator()(U a, U b) const { return a >> b; } };
	U twice(U x) { return x * 2; }
	U twice_ref(U const& x) { return x * 2 + 1; }
	struct Fn { long* left; U operator()(U x) const { if (!(*left)--) throw InjectedFault(); return x * 3 + 1; } };
	template<typename F> M map2(M const& a, M const& b, F f) { M r; for (std::size_t i = 0; i != a.size(); ++i) r.push_back(f(a[i], b[i])); return r; }
	struct Valarrays {
		Sim& s;
		V v[SLOTS];
		M m[SLOTS];
		explicit Valarrays(Sim& s_) : s(s_), v() { for (int i = 0; i != SLOTS; ++i) { M const x = values(s.range(0, N)); v[i] = V(x.data(), x.size()); m[i] = x; } }
		U value() { return s.chance(1, 5) ? (U)s.bits() : (U)s.range(0, 9); }
		U operand(int op) { return op == 3 || op == 4 ? (U)s.range(1, 9) : op >= 8 ? (U)s.range(0, 31) : value(); }
		M values(long n) { M r; while (n--) r.push_back(value()); return r; }
		M operands(int op, long n) { M r; while (n--) r.push_back(operand(op)); return r; }
		template<typename T> void same(char const* op, T const& got, M const& want) {
			s.checked();
			bool ok = got.size() == want.size();
			for (std::size_t i = 0; ok && i != want.size(); ++i) ok = (U)got[i] == want[i];
			if (!ok) s.fail("result", cat(op, " gives ", show_all(got), " instead of ", show_all(want)));
		}
		void look(int i) {
			V const& c = v[i];
			M const& w = m[i];
			same("the array", c, w);
			s.check(c.empty() == w.empty(), "observer", cat("empty() of ", show_all(w)));
			s.check(c.max_size() == N, "observer", "max_size()");
			s.check((std::size_t)(c.end() - c.begin()) == w.size() && std::equal(w.begin(), w.end(), c.begin()), "observer", cat("begin() and end() of ", show_all(w)));
			s.check((std::size_t)(v[i].end() - v[i].begin()) == w.size() && std::equal(w.begin(), w.end(), v[i].begin()), "observer", cat("begin() and end() of ", show_all(w)));
			s.check(std::equal(w.rbegin(), w.rend(), c.rbegin()) && (std::size_t)(c.rend() - c.rbegin()) == w.size(), "observer", cat("rbegin() and rend() of ", show_all(w)));
			s.check(std::equal(w.rbegin(), w.rend(), v[i].rbegin()) && std::equal(w.rbegin(), w.rend(), c.crbegin()) && c.crend() - c.crbegin() == (long)w.size() && c.cend() - c.cbegin() == (long)w.size(), "observer", cat("the iterators of ", show_all(w)));
			if (!w.empty()) s.check(c.front() == w.front() && c.back() == w.back() && v[i].front() == w.front() && v[i].back() == w.back() && c.data() == &c[0], "observer", cat("front(), back() and data() of ", show_all(w)));
		}
		template<typename F> void throws(char const* op, F f) {
			bool length = false, range = false;
			try { f(); } catch (std::length_error const&) { length = true; } catch (std::out_of_range const&) { range = true; }
			s.fault("refused operation");
			s.check(length || range, "refusal", cat(op, " does not throw"));
		}
		X indexes(int kind, std::size_t n, sprout::slice& sl, sprout::gslice<2>& gs, B& mask, sprout::valarray<std::size_t, 5>& ind) {
			X r;
			switch (kind) {
			case 0: {
				std::size_t const start = (std::size_t)s.range(0, (long)n), stride = (std::size_t)s.range(1, 3), most = start < n ? (n - start + stride - 1) / stride : 0;
				std::size_t const size = (std::size_t)s.range(0, (long)most);
				sl = sprout::slice(start, size, stride);
				for (std::size_t k = 0; k != size; ++k) r.push_back(start + k * stride);
				break;
			}
			case 1: {
				std::size_t const a = (std::size_t)s.range(1, 3), b = (std::size_t)s.range(1, 3), p = (std::size_t)s.range(1, 4), q = (std::size_t)s.range(1, 4), start = (std::size_t)s.range(0, 2);
				if (start + (a - 1) * p + (b - 1) * q >= n) { gs = sprout::gslice<2>(0, sprout::valarray<std::size_t, 2>({1, 1}), sprout::valarray<std::size_t, 2>({1, 1})); if (n) r.push_back(0); break; }
				gs = sprout::gslice<2>(start, sprout::valarray<std::size_t, 2>({a, b}), sprout::valarray<std::size_t, 2>({p, q}));
				for (std::size_t i = 0; i != a; ++i) for (std::size_t j = 0; j != b; ++j) r.push_back(start + i * p + j * q);
				X u(r);
				std::sort(u.begin(), u.end());
				if (std::unique(u.begin(), u.end()) != u.end() || r.size() > N) { gs = sprout::gslice<2>(0, sprout::valarray<std::size_t, 2>({1, n}), sprout::valarray<std::size_t, 2>({1, 1})); r.clear(); for (std::size_t i = 0; i != n; ++i) r.push_back(i); }
				break;
			}
			case 2: {
				mask = B(n);
				for (std::size_t i = 0; i != n; ++i) if ((mask[i] = s.chance(1, 2))) r.push_back(i);
				break;
			}
			default: {
				X all;
				for (std::size_t i = 0; i != n; ++i) all.push_back(i);
				for (std::size_t i = 0; i + 1 < n; ++i) std::swap(all[i], all[i + (std::size_t)s.range(0, (long)(n - 1 - i))]);
				all.resize((std::size_t)s.range(0, (long)std::min<std::size_t>(n, 5)));
				ind = sprout::valarray<std::size_t, 5>(all.data(), all.size());
				r = all;
			}
			}
			return r;
		}
		// what a subset gives, and writing through it
		template<typename S> void subset(char const* name, S sub, V const& copied, X const& ix, int i) {
			M want;
			for (std::size_t k : ix) want.push_back(m[i][k]);
			same(name, copied, want);
			same(cat(name, " in place").c_str(), sub, want);
			s.check(sub.empty() == want.empty() && (std::size_t)(sub.end() - sub.begin()) == want.size() && std::equal(want.begin(), want.end(), sub.begin()) && std::equal(want.rbegin(), want.rend(), sub.rbegin()) && (std::size_t)(sub.rend() - sub.rbegin()) == want.size(), "subset", cat("the iterators of ", name));
			if (!want.empty()) {
				s.check(sub.front() == want.front() && sub.back() == want.back(), "subset", cat("front() and back() of ", name));
				std::size_t const k = (std::size_t)s.range(0, (long)want.size() - 1);
				s.check(*sub.nth(k) == want[k] && sub.index_of(sub.nth(k)) == k && sub.at(k) == want[k], "subset", cat("nth(), index_of() and at() of ", name));
			}
			throws("at() behind the end of a subset", [&] { (void)sub.at(ix.size() + (std::size_t)s.range(0, 2)); });
			throws("nth() behind the end of a subset", [&] { (void)sub.nth(ix.size() + (std::size_t)s.range(0, 2)); });
			V const whole(sub);
			same(cat("an array from ", name).c_str(), whole, want);
			int const op = (int)s.range(0, 12);
			M const by = operands(op, (long)ix.size());
			V const w(by.data(), by.size());
			switch (op) {
			case 0: sub += w; apply(i, ix, by, Add()); break;
			case 1: sub -= w; apply(i, ix, by, Sub()); break;
			case 2: sub *= w; apply(i, ix, by, Mul()); break;
			case 3: sub /= w; apply(i, ix, by, Div()); break;
			case 4: sub %= w; apply(i, ix, by, Mod()); break;
			case 5: sub &= w; apply(i, ix, by, And()); break;
			case 6: sub |= w; apply(i, ix, by, Or()); break;
			case 7: sub ^= w; apply(i, ix, by, Xor()); break;
			case 8: sub <<= w; apply(i, ix, by, Shl()); break;
			case 9: sub >>= w; apply(i, ix, by, Shr()); break;
			case 10: sub = w; for (std::size_t k = 0; k != ix.size(); ++k) m[i][ix[k]] = by[k]; break;
			case 11: { U const x = value(); sub = x; for (std::size_t k : ix) m[i][k] = x; break; }
			case 12: {	// another array takes the subset
				int const j = (int)s.range(0, SLOTS - 1);
				M got;
				for (std::size_t k : ix) got.push_back(m[i][k]);
				if (j == i) break;
				v[j] = sub;
				m[j] = got;
				break;
			}
			}
		}
		template<typename F> void apply(int i, X const& ix, M const& by, F f) { for (std::size_t k = 0; k != ix.size(); ++k) m[i][ix[k]] = f(m[i][ix[k]], by[k]); }
		// a subset takes the elements of a subset of the same kind
		void across(int kind, int i, int j) {
			std::size_t const n = std::min(m[i].size(), m[j].size());
			sprout::slice a, b; sprout::gslice<2> ga, gb; B ma, mb; sprout::valarray<std::size_t, 5> ia, ib;
			X ix = indexes(kind, n, a, ga, ma, ia), jx;
			for (int t = 0; t != 8 && (t == 0 || jx.size() != ix.size()); ++t) jx = indexes(kind, n, b, gb, mb, ib);
			if (i == j || ix.size() != jx.size()) return;
			switch (kind) {
			case 0: v[i][a] = v[j][b]; break;
			case 1: if (!n) return; v[i][ga] = v[j][gb]; break;
			case 2: v[i][ma] = v[j][mb]; break;
			default: v[i][ia] = v[j][ib];
			}
			for (std::size_t k = 0; k != ix.size(); ++k) m[i][ix[k]] = m[j][jx[k]];
		}
		template<typename F> void binary(char const* op, V const& vv, V const& vs, V const& sv, M const& a, M const& b, U x, F f) {
			M c;
			for (U e : a) c.push_back(f(e, x));
			same(cat("array ", op, " array").c_str(), vv, map2(a, b, f));
			same(cat("array ", op, " value").c_str(), vs, c);
			c.clear();
			for (U e : b) c.push_back(f(x, e));
			same(cat("value ", op, " array").c_str(), sv, c);
		}
		template<typename F> void relation(char const* op, B const& vv, B const& vs, B const& sv, M const& a, M const& b, U x, F f) {
			M c;
			for (U e : a) c.push_back(f(e, x));
			same(cat("array ", op, " array").c_str(), vv, map2(a, b, f));
			same(cat("array ", op, " value").c_str(), vs, c);
			c.clear();
			for (U e : b) c.push_back(f(x, e));
			same(cat("value ", op, " array").c_str(), sv, c);
		}
		void operators(int i, int j) {
			int const op = (int)s.range(0, 18);
			M a = m[i], b = operands(op, (long)a.size());
			(void)j;
			U const x = operand(op);
			if ((op == 3 || op == 4 || op == 8 || op == 9) && !a.empty()) for (U& e : a) e = (op < 5 ? e : e);
			V const va(a.data(), a.size()), vb(b.data(), b.size());
			switch (op) {
			case 0: binary("+", va + vb, va + x, x + vb, a, b, x, Add()); break;
			case 1: binary("-", va - vb, va - x, x - vb, a, b, x, Sub()); break;
			case 2: binary("*", va * vb, va * x, x * vb, a, b, x, Mul()); break;
			case 3: binary("/", va / vb, va / x, x / vb, a, b, x, Div()); break;
			case 4: binary("%", va % vb, va % x, x % vb, a, b, x, Mod()); break;
			case 5: binary("&", va & vb, va & x, x & vb, a, b, x, And()); break;
			case 6: binary("|", va | vb, va | x, x | vb, a, b, x, Or()); break;
			case 7: binary("^", va ^ vb, va ^ x, x ^ vb, a, b, x, Xor()); break;
			case 8: binary("<<", va << vb, va << x, x << vb, a, b, x, Shl()); break;
			case 9: binary(">>", va >> vb, va >> x, x >> vb, a, b, x, Shr()); break;
			case 10: relation("==", va == vb, va == x, x == vb, a, b, x, std::equal_to<U>()); break;
			case 11: relation("!=", va != vb, va != x, x != vb, a, b, x, std::not_equal_to<U>()); break;
			case 12: relation("<", va < vb, va < x, x < vb, a, b, x, std::less<U>()); break;
			case 13: relation(">", va > vb, va > x, x > vb, a, b, x, std::greater<U>()); break;
			case 14: relation("<=", va <= vb, va <= x, x <= vb, a, b, x, std::less_equal<U>()); break;
			case 15: relation(">=", va >= vb, va >= x, x >= vb, a, b, x, std::greater_equal<U>()); break;
			case 16: relation("&&", va && vb, va && x, x && vb, a, b, x, std::logical_and<U>()); break;
			case 17: relation("||", va || vb, va || x, x || vb, a, b, x, std::logical_or<U>()); break;
			case 18: {
				M n, t, g;
				for (U e : a) { n.push_back(!e); t.push_back(~e); g.push_back(-e); }
				same("!", !va, n); same("~", ~va, t); same("-", -va, g); same("+", +va, a);
				break;
			}
			}
		}
		void scalar(int i) {
			int const op = (int)s.range(0, 9);
			U const x = operand(op);
			V* r = 0;
			switch (op) {
			case 0: r = &(v[i] += x); for (U& e : m[i]) e += x; break;
			case 1: r = &(v[i] -= x); for (U& e : m[i]) e -= x; break;
			case 2: r = &(v[i] *= x); for (U& e : m[i]) e *= x; break;
			case 3: r = &(v[i] /= x); for (U& e : m[i]) e /= x; break;
			case 4: r = &(v[i] %= x); for (U& e : m[i]) e %= x; break;
			case 5: r = &(v[i] &= x); for (U& e : m[i]) e &= x; break;
			case 6: r = &(v[i] |= x); for (U& e : m[i]) e |= x; break;
			case 7: r = &(v[i] ^= x); for (U& e : m[i]) e ^= x; break;
			case 8: r = &(v[i] <<= x); for (U& e : m[i]) e <<= x; break;
			case 9: r = &(v[i] >>= x); for (U& e : m[i]) e >>= x; break;
			}
			s.check(r == &v[i], "result", "what a computed assignment returns");
		}
		void one(int op, int i, int j) {
			V const& c = v[i];
			switch (op) {
			case 0: { long const n = s.range(0, N); v[i] = V((std::size_t)n); m[i] = M((std::size_t)n, 0); break; }
			case 1: { long const n = s.range(0, N); U const x = value(); v[i] = V(x, (std::size_t)n); m[i] = M((std::size_t)n, x); break; }
			case 2: { M const x = values(s.range(0, N)); v[i] = V(x.data(), x.size()); m[i] = x; break; }
			case 3: {
				U const x = value(), y = value(), z = value();
				if (s.chance(1, 2)) v[i] = V({x, y, z}); else v[i] = {x, y, z};
				m[i] = M{x, y, z};
				break;
			}
			case 4: v[i] = v[j]; m[i] = m[j]; break;
			case 5: { V t(v[j]); V u(std::move(t)); v[i] = std::move(u); m[i] = m[j]; break; }
			case 6: { U const x = value(); v[i] = x; std::fill(m[i].begin(), m[i].end(), x); break; }
			case 7: scalar(i); break;
			case 8: operators(i, j); break;
			case 9: {
				U sum = 0;
				for (U e : m[i]) sum += e;
				s.check(c.sum() == sum, "result", cat("sum() of ", show_all(m[i])));
				if (!m[i].empty()) s.check(c.min() == *std::min_element(m[i].begin(), m[i].end()) && c.max() == *std::max_element(m[i].begin(), m[i].end()), "result", cat("min() and max() of ", show_all(m[i])));
				break;
			}
			case 10: case 11: {
				long const k = s.range(-10, 10), n = (long)m[i].size();
				M a((std::size_t)n, 0), b((std::size_t)n, 0);
				for (long x = 0; x != n; ++x) {
					if (x + k >= 0 && x + k < n) a[(std::size_t)x] = m[i][(std::size_t)(x + k)];
					b[(std::size_t)x] = m[i][(std::size_t)(((x + k) % n + n) % n)];
				}
				if (op == 10) same(cat("shift(", k, ") of ", show_all(m[i])).c_str(), c.shift((int)k), a);
				else same(cat("cshift(", k, ") of ", show_all(m[i])).c_str(), c.cshift((int)k), b);
				break;
			}
			case 12: {
				M a, b, d;
				for (U e : m[i]) { a.push_back(e * 2); b.push_back(e * 2 + 1); d.push_back(e * 3 + 1); }
				same("apply(f)", c.apply(&twice), a);
				same("apply(f of a reference)", c.apply(&twice_ref), b);
				long left = s.chance(1, 2) ? 100 : s.range(0, N);
				try { same("apply(a function object)", c.apply(Fn{&left}), d); }
				catch (InjectedFault const&) { s.fault("failing function"); }
				break;
			}
			case 13: {
				std::size_t const n = (std::size_t)s.range(0, N);
				if (s.chance(1, 2)) { U const x = value(); v[i].resize(n, x); m[i].assign(n, x); }
				else { v[i].resize(n); m[i].assign(n, 0); }
				break;
			}
			case 14: if (i != j) { if (s.chance(1, 2)) v[i].swap(v[j]); else { using sprout::swap; swap(v[i], v[j]); } m[i].swap(m[j]); } break;
			case 15: { U const x = value(); if (s.chance(1, 2)) v[i].fill(x); else v[i].assign(x); std::fill(m[i].begin(), m[i].end(), x); break; }
			case 16: { U const x = value(); same("fill() of a const array", c.fill(x), M(m[i].size(), x)); same("assign() of a const array", c.assign(x), M(m[i].size(), x)); break; }
			case 17: {
				if (m[i].empty()) break;
				std::size_t const k = (std::size_t)s.range(0, (long)m[i].size() - 1);
				U const x = value();
				s.check(c.at(k) == m[i][k] && *c.nth(k) == m[i][k] && c.index_of(c.begin() + (long)k) == k && v[i].index_of(v[i].begin() + (long)k) == k, "observer", "at(), nth() and index_of()");
				if (s.chance(1, 3)) v[i][k] = x; else if (s.chance(1, 2)) v[i].at(k) = x; else *v[i].nth(k) = x;
				m[i][k] = x;
				v[i].rangecheck(k);
				break;
			}
			case 18: {
				std::size_t const k = m[i].size() + (std::size_t)s.range(0, 3);
				throws("at() behind the end", [&] { (void)c.at(k); });
				throws("at() behind the end of an array that is not const", [&] { (void)v[i].at(k); });
				throws("nth() behind the end", [&] { (void)c.nth(k); });
				throws("rangecheck() behind the end", [&] { c.rangecheck(k); });
				break;
			}
			case 19: {
				std::size_t const k = N + (std::size_t)s.range(1, 4);
				M const x = values((long)k);
				throws("resize() beyond the capacity", [&] { v[i].resize(k, 7); });
				throws("an array longer than its capacity", [&] { v[i] = V(k); });
				throws("an array of more values than its capacity", [&] { v[i] = V(7, k); });
				throws("an array from more elements than its capacity", [&] { v[i] = V(x.data(), k); });
				throws("an initializer list longer than the capacity", [&] { v[i] = {x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]}; });
				throws("a construction from a longer initializer list", [&] { v[i] = V({x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]}); });
				break;
			}
			case 20: case 21: case 22: case 23: {
				sprout::slice sl; sprout::gslice<2> gs; B mask; sprout::valarray<std::size_t, 5> ind;
				if (op == 21 && m[i].empty()) break;
				X const ix = indexes(op - 20, m[i].size(), sl, gs, mask, ind);
				switch (op) {
				case 20: subset("a slice", v[i][sl], c[sl], ix, i); break;
				case 21: subset("a gslice", v[i][gs], c[gs], ix, i); break;
				case 22: subset("a mask", v[i][mask], c[mask], ix, i); break;
				default: subset("a list of indexes", v[i][ind], c[ind], ix, i);
				}
				break;
			}
			case 24: across((int)s.range(0, 3), i, j); break;
			case 25: {
				M const x = values(4);
				sprout::array<U, 4> const a{{x[0], x[1], x[2], x[3]}};
				U const b[4] = {x[0], x[1], x[2], x[3]};
				same("to_valarray(array)", sprout::to_valarray(a), x);
				same("to_valarray(T[])", sprout::to_valarray(b), x);
				break;
			}
			}
		}
		void run() {
			long const ops = 3 + s.skewed(25);
			std::uint64_t seen = 7;
			for (long k = 0; k != ops; ++k) {
				s.step();
				int const op = (int)s.range(0, 25), i = (int)s.range(0, SLOTS - 1), j = (int)s.range(0, SLOTS - 1);
				s.log(cat("op ", op, " on ", i, " ", show_all(m[i]), " and ", j, " ", show_all(m[j])));
				one(op, i, j);
				for (int x = 0; x != SLOTS; ++x) look(x);
				seen = seen * 1099511628211ull + (std::uint64_t)(op * 16 + (int)m[i].size());
				s.state(seen);
			}
			if (ops > 3) s.nontrivial();
		}
	};
	void valarrays(Sim& s) { Valarrays v(s); v.run(); }
	// functions of every element give what they give for the element
	typedef sprout::valarray<double, 6> D;
	typedef std::vector<double> MD;
	double odd(Sim& s) { return (double)s.range(-40, 40) / 8; }
	void same_d(Sim& s, char const* op, D const& got, MD const& want) {
		s.checked();
		bool ok = got.size() == want.size();
		for (std::size_t i = 0; ok && i != want.size(); ++i) ok = got[i] == want[i] || (got[i] != got[i] && want[i] != want[i]);
		if (!ok) s.fail("result", cat(op, " gives ", show_all(got), " instead of ", show_all(want)));
	}
	void functions(Sim& s) {
		std::size_t const n = (std::size_t)s.range(0, 6);
		MD x, y;
		for (std::size_t i = 0; i != n; ++i) { x.push_back(odd(s)); y.push_back(odd(s)); }
		double const c = odd(s);
		D const v(x.data(), n), w(y.data(), n);
		int const op = (int)s.range(0, 27);
		s.log(cat("op ", op, " of ", show_all(x), ", ", show_all(y), ", ", c));
		s.step();
		MD r, l, q;
		switch (op) {
#define SIM_F1(K, F) case K: for (double e : x) r.push_back(sprout::math::F(e)); same_d(s, #F, F(v), r); break;
		SIM_F1(0, acos) SIM_F1(1, asin) SIM_F1(2, atan) SIM_F1(3, cos) SIM_F1(4, sin) SIM_F1(5, tan) SIM_F1(6, acosh) SIM_F1(7, asinh) SIM_F1(8, atanh) SIM_F1(9, cosh) SIM_F1(10, sinh) SIM_F1(11, tanh)
		SIM_F1(12, exp) SIM_F1(13, exp10) SIM_F1(14, exp2) SIM_F1(15, expm1) SIM_F1(16, log) SIM_F1(17, log10) SIM_F1(18, log1p) SIM_F1(19, log2) SIM_F1(20, cbrt) SIM_F1(21, sqrt)
#define SIM_F2(K, F) case K: for (std::size_t i = 0; i != n; ++i) { r.push_back(sprout::math::F(x[i], y[i])); l.push_back(sprout::math::F(x[i], c)); q.push_back(sprout::math::F(c, x[i])); } \
			same_d(s, #F " of arrays", F(v, w), r); same_d(s, #F " of an array and a value", F(v, c), l); same_d(s, #F " of a value and an array", F(c, v), q); break;
		SIM_F2(22, atan2) SIM_F2(23, hypot) SIM_F2(24, pow) SIM_F2(25, log_a)
		case 26: for (double e : x) r.push_back(e < 0 ? -e : e); same_d(s, "abs", abs(v), r); break;
		default: if (n) {
			D t(v);
			sprout::tuples::get<0>(t) = c;
			s.check(t[0] == c && sprout::tuples::get<0>(v) == x[0], "observer", "tuples::get<0>()");
			if (x == y) s.check(sprout::hash<D>()(v) == sprout::hash<D>()(w), "hash", "equal arrays have different hashes");
		}
		}
		s.state((std::uint64_t)op * 8 + n);
		if (n) s.nontrivial();
	}
}
SIM_SCENARIO("C17", "valarrays", 3, valarrays);
SIM_SCENARIO("C17", "functions", 1, functions);
#elif SIM_PART == 1
namespace {
	template<std::size_t N> struct Bits {
		typedef sprout::bitset<N> T;
		typedef std::bitset<N> R;
		enum { SLOTS = 3 };
		Sim& s;
		T v[SLOTS];
		R m[SLOTS];
		explicit Bits(Sim& s_) : s(s_) { }
		std::size_t pos() { return (std::size_t)s.range(0, (long)N - 1); }
		std::size_t any() { return s.chance(1, 8) ? N + (std::size_t)s.range(0, 2) : s.chance(1, 6) ? (std::size_t)s.range(0, (long)(N / 32 + 1)) * 32 : (std::size_t)s.range(0, (long)N + 70); }
		static std::string str(R const& r) { return r.to_string(); }
		void is(char const* op, T const& got, R const& want) {
			s.checked();
			if (got.to_string() != str(want)) s.fail("result", cat(op, " of bitset<", N, "> gives ", got.to_string(), " instead of ", str(want)));
			if (got.count() != want.count() || got.any() != want.any() || got.none() != want.none() || got.all() != (want.count() == N) || got.size() != N)
				s.fail("observer", cat("count(), any(), none() or all() of ", str(want), " after ", op));
		}
		template<typename A, typename B> void both(char const* op, A a, B b) {	// the same value or exception
			std::string x, y;
			try { x = cat(a()); } catch (std::out_of_range const&) { x = "out_of_range"; } catch (std::overflow_error const&) { x = "overflow_error"; } catch (std::invalid_argument const&) { x = "invalid_argument"; }
			try { y = cat(b()); } catch (std::out_of_range const&) { y = "out_of_range"; } catch (std::overflow_error const&) { y = "overflow_error"; } catch (std::invalid_argument const&) { y = "invalid_argument"; }
			if (y.find('_') != std::string::npos) s.fault("refused operation");
			s.check(x == y, "result", cat(op, " of bitset<", N, "> gives ", x, " instead of ", y));
		}
		void look(int i) {
			T const& c = v[i];
			R const& r = m[i];
			is("the set", c, r);
			std::size_t f = 0;
			while (f != N && !r[f]) ++f;
			s.check(c.find_first() == f, "observer", cat("find_first() of ", str(r), " is ", c.find_first()));
			std::size_t const p = pos();
			f = p + 1;
			while (f < N && !r[f]) ++f;
			s.check(c.find_next(p) == std::min(f, N), "observer", cat("find_next(", p, ") of ", str(r), " is ", c.find_next(p)));
			s.check(c[p] == r[p] && c.test(p) == r[p] && (bool)v[i][p] == r[p] && ~v[i][p] == !r[p], "observer", cat("[", p, "] of ", str(r)));
		}
		std::string text(long n, char zero, char one, bool damaged) {
			std::string t;
			while (n--) t += damaged && s.chance(1, 12) ? 'x' : s.chance(1, 2) ? one : zero;
			return t;
		}
		void one(int op, int i, int j) {
			T const& c = v[i];
			switch (op) {
			case 0: { T& r = v[i].set(); m[i].set(); s.check(&r == &v[i], "result", "what set() returns"); break; }
			case 1: v[i].reset(); m[i].reset(); break;
			case 2: v[i].flip(); m[i].flip(); break;
			case 3: { std::size_t const p = any(); bool const x = s.chance(1, 2); both("set(i, x)", [&] { return v[i].set(p, x).to_string(); }, [&] { return str(m[i].set(p, x)); }); break; }
			case 4: { std::size_t const p = any(); both("reset(i)", [&] { return v[i].reset(p).to_string(); }, [&] { return str(m[i].reset(p)); }); break; }
			case 5: { std::size_t const p = any(); both("flip(i)", [&] { return v[i].flip(p).to_string(); }, [&] { return str(m[i].flip(p)); }); break; }
			case 6: { std::size_t const p = any(); both("test(i)", [&] { return c.test(p); }, [&] { return m[i].test(p); }); break; }
			case 7: v[i] &= v[j]; m[i] &= m[j]; break;
			case 8: v[i] |= v[j]; m[i] |= m[j]; break;
			case 9: v[i] ^= v[j]; m[i] ^= m[j]; break;
			case 10: { std::size_t const p = any(); v[i] <<= p; m[i] <<= p; break; }
			case 11: { std::size_t const p = any(); v[i] >>= p; m[i] >>= p; break; }
			case 12: { std::size_t const p = any(); is("<<", c << p, m[i] << p); is(">>", c >> p, m[i] >> p); break; }
			case 13: is("~", ~c, ~m[i]); is("&", c & v[j], m[i] & m[j]); is("|", c | v[j], m[i] | m[j]); is("^", c ^ v[j], m[i] ^ m[j]); break;
			case 14: s.check((c == v[j]) == (m[i] == m[j]) && (c != v[j]) == (m[i] != m[j]), "result", cat("== of ", str(m[i]), " and ", str(m[j]))); break;
			case 15: both("to_ulong()", [&] { return c.to_ulong(); }, [&] { return m[i].to_ulong(); }); both("to_ullong()", [&] { return c.to_ullong(); }, [&] { return m[i].to_ullong(); }); break;
			case 16: {
				both("to_string('a', 'b')", [&] { return c.to_string('a', 'b'); }, [&] { return m[i].to_string('a', 'b'); });
				s.check(c.template to_string<wchar_t>() == m[i].template to_string<wchar_t>(), "result", "to_string<wchar_t>()");
				break;
			}
			case 17: { unsigned long long const x = s.bits() >> s.range(0, 63); v[i] = T(x); m[i] = R(x); break; }
			case 18: case 19: {
				bool const other = s.chance(1, 3);
				char const z = other ? 'a' : '0', o = other ? 'b' : '1';
				std::string const t = text(s.range(0, (long)N + 8), z, o, s.chance(1, 4));
				std::size_t const p = (std::size_t)s.range(0, (long)t.size() + (s.chance(1, 6) ? 2 : 0)), n = s.chance(1, 4) ? std::string::npos : (std::size_t)s.range(0, (long)N + 8);
				int const form = (int)s.range(0, 3);
				bool a = false, b = false, a2 = false, b2 = false;
				try { v[i] = form == 0 ? T(t, p, n, z, o) : form == 1 && !other ? T(t, p) : form == 2 && !other ? T(t, p, n) : T(t.c_str(), std::min(n, t.size()), z, o); }
				catch (std::out_of_range const&) { a = true; } catch (std::invalid_argument const&) { a2 = true; }
				try { m[i] = form == 0 ? R(t, p, n, z, o) : form == 1 && !other ? R(t, p) : form == 2 && !other ? R(t, p, n) : R(t.c_str(), std::min(n, t.size()), z, o); }
				catch (std::out_of_range const&) { b = true; } catch (std::invalid_argument const&) { b2 = true; }
				if (b || b2) s.fault("refused text");
				s.check(a == b && a2 == b2, "refusal", cat("a bitset<", N, "> from \"", t, "\" at ", p, ", ", (long)n));
				break;
			}
			case 20: v[i] = v[j]; m[i] = m[j]; break;
			case 21: { T t(v[j]); T u(std::move(t)); v[i] = std::move(u); m[i] = m[j]; break; }
			case 22: { std::size_t const p = pos(); bool const x = s.chance(1, 2); typename T::reference& r = v[i][p] = x; (void)r; m[i][p] = x; break; }
			case 23: { std::size_t const p = pos(), q = pos(); v[i][p] = v[j][q]; m[i][p] = m[j][q]; break; }
			case 24: { std::size_t const p = pos(); v[i][p].flip(); m[i][p].flip(); break; }
			case 25: { std::size_t const p = pos(); bool const x = s.chance(1, 2); is("set() of a const set", c.set(), R().set()); is("reset() of a const set", c.reset(), R()); is("flip() of a const set", c.flip(), ~m[i]); is("set(i, x) of a const set", c.set(p, x), R(m[i]).set(p, x)); is("reset(i) of a const set", c.reset(p), R(m[i]).reset(p)); is("flip(i) of a const set", c.flip(p), R(m[i]).flip(p)); break; }
			case 26: {
				std::size_t const p = N + (std::size_t)s.range(0, 40);
				int n = 0;
				try { (void)c.set(p); } catch (std::out_of_range const&) { ++n; }
				try { (void)c.reset(p); } catch (std::out_of_range const&) { ++n; }
				try { (void)c.flip(p); } catch (std::out_of_range const&) { ++n; }
				s.fault("refused operation");
				s.check(n == 3, "refusal", cat("a const bitset<", N, "> accepts position ", p));
				break;
			}
			case 27: if (m[i] == m[j]) s.check(sprout::to_hash(c) == sprout::to_hash(v[j]), "hash", cat("equal sets ", str(m[i]), " have different hashes")); break;
			}
		}
		void run() {
			long const ops = 4 + s.skewed(36);
			std::uint64_t seen = N;
			for (long k = 0; k != ops; ++k) {
				s.step();
				int const op = (int)s.range(0, 27), i = (int)s.range(0, SLOTS - 1), j = (int)s.range(0, SLOTS - 1);
				s.log(cat("op ", op, " on ", i, " and ", j));
				one(op, i, j);
				for (int x = 0; x != SLOTS; ++x) look(x);
				seen = seen * 1099511628211ull + (std::uint64_t)(op * 256 + (int)m[i].count());
				s.state(seen);
			}
			if (ops > 4) s.nontrivial();
		}
	};
	template<std::size_t N> void bits(Sim& s) { Bits<N> b(s); b.run(); }
	void bitsets(Sim& s) {
		switch (s.range(0, 9)) {
		case 0: bits<1>(s); break;
		case 1: bits<5>(s); break;
		case 2: bits<32>(s); break;
		case 3: bits<33>(s); break;
		case 4: bits<63>(s); break;
		case 5: bits<64>(s); break;
		case 6: bits<65>(s); break;
		case 7: bits<128>(s); break;
		case 8: bits<130>(s); break;
		default: bits<200>(s);
		}
	}
}
SIM_SCENARIO("C17", "bitsets", 1, bitsets);
#elif SIM_PART == 2
namespace {
	typedef sprout::forward_clist<int> L;
	typedef L::item Item;
	struct Refs {	// a range of items
		typedef std::input_iterator_tag iterator_category;
		typedef Item value_type;
		typedef std::ptrdiff_t difference_type;
		typedef Item* pointer;
		typedef Item& reference;
		Item* const* p;
		Item& operator*() const { return **p; }
		Refs& operator++() { ++p; return *this; }
		Refs operator++(int) { Refs r(*this); ++p; return r; }
		friend bool operator==(Refs a, Refs b) { return a.p == b.p; }
		friend bool operator!=(Refs a, Refs b) { return a.p != b.p; }
	};
	struct Lists {
		enum { ITEMS = 9, LISTS = 2 };
		Sim& s;
		std::vector<Item> items;
		L a, b;
		std::vector<int> m[LISTS];
		std::vector<int> free;
		explicit Lists(Sim& s_) : s(s_) { for (int i = 0; i != ITEMS; ++i) { items.push_back(Item(i * 11)); free.push_back(i); } }
		L& list(int i) { return i ? b : a; }
		int take() { std::size_t const k = (std::size_t)s.range(0, (long)free.size() - 1); int const r = free[k]; free.erase(free.begin() + (long)k); return r; }
		void give(int i) { free.push_back(i); std::sort(free.begin(), free.end()); }
		template<typename I> I at(I i, std::size_t k) { while (k--) ++i; return i; }
		template<typename I, typename E> void walk(char const* name, I i, E const& l, std::vector<int> const& w) {
			s.checked();
			std::size_t k = 0;
			for (; i != l; ++i, ++k) {
				if (k == w.size()) s.fail("content", cat(name, " goes on after ", show_all(w)));
				if (*i != w[k] * 11 || &*i != items[(std::size_t)w[k]].get_pointer() || i.operator->() != &*i) s.fail("content", cat(name, " gives ", *i / 11, " at ", k, " of ", show_all(w)));
			}
			if (k != w.size()) s.fail("content", cat(name, " ends after ", k, " of ", show_all(w)));
		}
		void look(int i) {
			L& l = list(i);
			L const& c = l;
			std::vector<int> const& w = m[i];
			walk("the list", l.begin(), l.end(), w);
			walk("the const list", c.begin(), c.end(), w);
			walk("cbegin()", c.cbegin(), c.cend(), w);
			walk("before_begin()", ++l.before_begin(), l.end(), w);
			walk("before_begin() of a const list", ++c.before_begin(), c.end(), w);
			walk("cbefore_begin()", ++c.cbefore_begin(), c.cend(), w);
			s.check(c.empty() == w.empty(), "observer", cat("empty() of ", show_all(w)));
			if (!w.empty()) s.check(&l.front() == items[(std::size_t)w[0]].get_pointer() && c.front() == w[0] * 11, "observer", cat("front() of ", show_all(w)));
			for (std::size_t k = 0; k + 1 < w.size(); ++k) s.check(items[(std::size_t)w[k]].is_linked(), "observer", "is_linked() of an item in a list");
		}
		std::vector<Item*> some(std::vector<int>& ids) {
			std::vector<Item*> r;
			for (long n = s.range(0, std::min<long>(3, (long)free.size())); n--; ) { int const x = take(); ids.push_back(x); r.push_back(&items[(std::size_t)x]); }
			return r;
		}
		void one(int op, int i, int j) {
			L& l = list(i);
			std::vector<int>& w = m[i];
			long const n = (long)w.size();
			switch (op) {
			case 0: case 1: if (!free.empty()) { int const x = take(); l.push_front(items[(std::size_t)x]); w.insert(w.begin(), x); } break;
			case 2: { std::vector<int> ids; std::vector<Item*> const r = some(ids); l.push_front(Refs{r.data()}, Refs{r.data() + r.size()}); w.insert(w.begin(), ids.begin(), ids.end()); break; }
			case 3: if (n) { l.pop_front(); give(w[0]); w.erase(w.begin()); } break;
			case 4: case 5: if (!free.empty()) {
				long const k = s.range(0, n);
				int const x = take();
				L::iterator const r = l.insert_after(at(l.before_begin(), (std::size_t)k), items[(std::size_t)x]);
				w.insert(w.begin() + k, x);
				s.check(&*r == items[(std::size_t)x].get_pointer(), "result", "what insert_after() returns");
				break;
			} break;
			case 6: {
				std::vector<int> ids;
				std::vector<Item*> const r = some(ids);
				long const k = s.range(0, n);
				L::iterator const p = at(l.before_begin(), (std::size_t)k);
				L::iterator const e = l.insert_after(p, Refs{r.data()}, Refs{r.data() + r.size()});
				w.insert(w.begin() + k, ids.begin(), ids.end());
				s.check(e == at(l.before_begin(), (std::size_t)k + ids.size()), "result", "what insert_after() of a range returns");
				break;
			}
			case 7: if (n) {
				long const k = s.range(0, n - 1);
				L::iterator const e = l.erase_after(at(l.before_begin(), (std::size_t)k));
				give(w[(std::size_t)k]);
				w.erase(w.begin() + k);
				s.check(e == at(l.begin(), (std::size_t)k), "result", "what erase_after() returns");
				break;
			} break;
			case 8: {
				long const k = s.range(0, n), e = s.range(k, n);
				L::iterator const last = at(l.begin(), (std::size_t)e);
				L::iterator const r = l.erase_after(at(l.before_begin(), (std::size_t)k), last);
				for (long x = k; x != e; ++x) give(w[(std::size_t)x]);
				w.erase(w.begin() + k, w.begin() + e);
				s.check(r == at(l.begin(), (std::size_t)k), "result", "what erase_after() of a range returns");
				break;
			}
			case 9: if (n) { long const k = s.range(0, n - 1); l.unlink(items[(std::size_t)w[(std::size_t)k]]); give(w[(std::size_t)k]); w.erase(w.begin() + k); } break;
			case 10: {	// several items, also such that are in no list
				std::vector<Item*> r;
				for (long t = s.range(0, 3); t--; ) r.push_back(&items[(std::size_t)s.range(0, ITEMS - 1)]);
				std::vector<int> const other = m[1 - i];
				for (std::size_t t = 0; t != r.size(); )
					if (std::find(other.begin(), other.end(), (int)(r[t] - items.data())) != other.end()) r.erase(r.begin() + (long)t); else ++t;
				l.unlink(Refs{r.data()}, Refs{r.data() + r.size()});
				for (Item* p : r) {
					std::vector<int>::iterator const f = std::find(w.begin(), w.end(), (int)(p - items.data()));
					if (f != w.end()) { give(*f); w.erase(f); }
				}
				break;
			}
			case 11: if (s.chance(1, 3)) { l.clear(); for (int x : w) give(x); w.clear(); } break;
			case 12: a.swap(b); m[0].swap(m[1]); break;
			case 13: if (i != j) { list(j).clear(); for (int x : m[j]) give(x); m[j].clear(); list(j) = std::move(l); m[j] = w; w.clear(); } break;
			case 14: { L t(std::move(l)); std::vector<int> k; k.swap(w); look(i); walk("a moved list", t.begin(), t.end(), k); l = std::move(t); w = k; s.check(t.empty(), "observer", "a list that was moved from is not empty"); break; }
			case 15: {
				std::vector<int> ids;
				std::vector<Item*> const r = some(ids);
				l.assign(Refs{r.data()}, Refs{r.data() + r.size()});
				for (int x : w) give(x);
				w = ids;
				break;
			}
			case 16: {
				std::vector<int> ids;
				std::vector<Item*> const r = some(ids);
				L t(Refs{r.data()}, Refs{r.data() + r.size()});
				walk("a list of a range", t.begin(), t.end(), ids);
				t.clear();
				for (int x : ids) give(x);
				break;
			}
			case 17: if (n) {	// elements change in place
				long const k = s.range(0, n - 1);
				int const x = w[(std::size_t)k];
				int const v = (int)s.range(0, 99);
				*at(l.begin(), (std::size_t)k) = v;
				s.check(*items[(std::size_t)x] == v && items[(std::size_t)x].get() == v, "content", "the item of an element that was assigned");
				if (s.chance(1, 2)) *items[(std::size_t)x] = x * 11;
				else if (s.chance(1, 2)) items[(std::size_t)x] = x * 11;
				else { int const eleven = x * 11; items[(std::size_t)x] = eleven; }	// the value only; the links remain
				break;
			} break;
			case 18: {
				L::iterator p = l.begin();
				L::const_iterator q = p;
				s.check(q == p && p == q && !(p != q), "result", "a const_iterator made from an iterator");
				for (long k = 0; k != n; ++k) { L::iterator const o = p++; s.check(&*o == items[(std::size_t)w[(std::size_t)k]].get_pointer() && &*q == &*o, "content", "it++"); ++q; }
				s.check(p == l.end() && q == l.cend(), "content", "the end of a walk with it++");
				break;
			}
			}
		}
		void run() {
			long const ops = 4 + s.skewed(36);
			std::uint64_t seen = 3;
			for (long k = 0; k != ops; ++k) {
				s.step();
				int const op = (int)s.range(0, 18), i = (int)s.range(0, LISTS - 1), j = (int)s.range(0, LISTS - 1);
				s.log(cat("op ", op, " on ", i, " ", show_all(m[i]), " and ", j, " ", show_all(m[j])));
				one(op, i, j);
				for (int x = 0; x != LISTS; ++x) look(x);
				for (int x : free) s.check(!items[(std::size_t)x].is_linked(), "observer", "is_linked() of an item in no list");
				seen = seen * 1099511628211ull + hash_str(cat(op, show_all(m[0]), show_all(m[1])));
				s.state(seen);
			}
			if (ops > 4) s.nontrivial();
		}
	};
	void lists(Sim& s) { Lists l(s); l.run(); }
}
SIM_SCENARIO("C17", "lists", 1, lists);
#endif
