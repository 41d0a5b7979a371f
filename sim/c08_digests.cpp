// C08: digests of data that arrives in pieces.
#include "core.hpp"
#include <cstdint>
#include <algorithm>
#include <list>
#include <deque>
#include <iterator>
#include <memory>
#include <sprout/checksum.hpp>
#include <sprout/array.hpp>
#include <sprout/string.hpp>
#include <sprout/uuid.hpp>
using namespace sim;
namespace {
	typedef std::vector<unsigned char> Bytes;
	typedef std::vector<bool> Bits;

	// ------------------------------------------------------------------------------ reference digests (RFC 1321, FIPS 180-1)
	inline std::uint32_t rol(std::uint32_t x, unsigned n) { return (x << n) | (x >> (32 - n)); }
	// the message as whole bytes plus padding; bits are packed most significant first
	Bytes padded(Bits const& m, bool big) {
		Bits b(m);
		b.push_back(true);
		while (b.size() % 512 != 448) b.push_back(false);
		Bytes r(b.size() / 8);
		for (std::size_t i = 0; i != b.size(); ++i) if (b[i]) r[i / 8] |= (unsigned char)(0x80 >> i % 8);
		std::uint64_t n = m.size();
		for (int i = 0; i != 8; ++i) r.push_back((unsigned char)(n >> 8 * (big ? 7 - i : i)));
		return r;
	}
	Bytes ref_sha1(Bits const& m) {
		Bytes p = padded(m, true);
		std::uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
		for (std::size_t o = 0; o != p.size(); o += 64) {
			std::uint32_t w[80];
			for (int i = 0; i != 16; ++i) w[i] = (std::uint32_t)p[o + 4 * i] << 24 | (std::uint32_t)p[o + 4 * i + 1] << 16 | (std::uint32_t)p[o + 4 * i + 2] << 8 | p[o + 4 * i + 3];
			for (int i = 16; i != 80; ++i) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
			std::uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
			for (int i = 0; i != 80; ++i) {
				std::uint32_t f = i < 20 ? ((b & c) | (~b & d)) : i < 40 ? (b ^ c ^ d) : i < 60 ? ((b & c) | (b & d) | (c & d)) : (b ^ c ^ d);
				static std::uint32_t const k[4] = {0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xCA62C1D6};
				std::uint32_t t = rol(a, 5) + f + e + k[i / 20] + w[i];
				e = d; d = c; c = rol(b, 30); b = a; a = t;
			}
			h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
		}
		Bytes r;
		for (int i = 0; i != 20; ++i) r.push_back((unsigned char)(h[i / 4] >> (24 - 8 * (i % 4))));
		return r;
	}
	Bytes ref_md5(Bits const& m) {
		static std::uint32_t k[64];
		static int const s[16] = {7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21};
		if (!k[0]) for (int i = 0; i != 64; ++i) {	// floor(2^32 |sin(i+1)|), by the published table's definition
			double v = __builtin_sin(i + 1.0);
			k[i] = (std::uint32_t)(std::uint64_t)((v < 0 ? -v : v) * 4294967296.0);
		}
		Bytes p = padded(m, false);
		std::uint32_t h[4] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476};
		for (std::size_t o = 0; o != p.size(); o += 64) {
			std::uint32_t x[16];
			for (int i = 0; i != 16; ++i) x[i] = (std::uint32_t)p[o + 4 * i + 3] << 24 | (std::uint32_t)p[o + 4 * i + 2] << 16 | (std::uint32_t)p[o + 4 * i + 1] << 8 | p[o + 4 * i];
			std::uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
			for (int i = 0; i != 64; ++i) {
				std::uint32_t f; int g;
				if (i < 16) { f = (b & c) | (~b & d); g = i; }
				else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; }
				else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; }
				else { f = c ^ (b | ~d); g = 7 * i % 16; }
				std::uint32_t t = d; d = c; c = b; b = b + rol(a + f + k[i] + x[g], s[i / 16 * 4 + i % 4]); a = t;
			}
			h[0] += a; h[1] += b; h[2] += c; h[3] += d;
		}
		Bytes r;
		for (int i = 0; i != 16; ++i) r.push_back((unsigned char)(h[i / 4] >> 8 * (i % 4)));
		return r;
	}
	Bits bits_of(Bytes const& b) { Bits r; for (unsigned char c : b) for (int i = 7; i >= 0; --i) r.push_back(c >> i & 1); return r; }
	Bytes whole(Bits const& b) { Bytes r(b.size() / 8); for (std::size_t i = 0; i != r.size() * 8; ++i) if (b[i]) r[i / 8] |= (unsigned char)(0x80 >> i % 8); return r; }
	template<typename I> Bytes number(I v) { Bytes r; for (int i = (int)sizeof(I) - 1; i >= 0; --i) r.push_back((unsigned char)((std::uint64_t)v >> 8 * i)); return r; }

	template<typename D> struct R;
	template<> struct R<sprout::sha1> { static Bytes ref(Bits const& m, std::uint64_t) { return ref_sha1(m); } static Bytes val(sprout::sha1::value_type const& v) { return Bytes(v.begin(), v.end()); } enum { bitwise = 0, start = 0 }; static char const* name() { return "sha1"; } };
	template<> struct R<sprout::md5> { static Bytes ref(Bits const& m, std::uint64_t) { return ref_md5(m); } static Bytes val(sprout::md5::value_type const& v) { return Bytes(v.begin(), v.end()); } enum { bitwise = 1, start = 0 }; static char const* name() { return "md5"; } };
	template<std::size_t N> struct R<sprout::sum_basic<N> > {
		typedef typename sprout::sum_basic<N>::value_type V;
		static Bytes ref(Bits const& m, std::uint64_t start) { std::uint64_t t = start; for (unsigned char c : whole(m)) t += c; return number((V)t); }
		static Bytes val(V v) { return number(v); }
		enum { bitwise = 0, start = 1 };
		static char const* name() { return N == 8 ? "sum8" : N == 16 ? "sum16" : "sum32"; }
	};
	template<> struct R<sprout::xor8> {
		static Bytes ref(Bits const& m, std::uint64_t start) { unsigned char t = (unsigned char)start; for (unsigned char c : whole(m)) t ^= c; return Bytes(1, t); }
		static Bytes val(std::uint8_t v) { return Bytes(1, v); }
		enum { bitwise = 0, start = 1 };
		static char const* name() { return "xor8"; }
	};

	// ------------------------------------------------------------------------------ where the bytes come from
	template<typename E>
	struct Feed {	// a device that hands out elements and may fail at one of them
		std::vector<E> v;
		std::size_t fail_at;
		std::size_t pos;	// single pass: the position of every iterator over it
	};
	struct FeedError {};
	template<typename E>
	struct SinglePass {	// an input iterator: all copies share the position
		typedef std::input_iterator_tag iterator_category;
		typedef E value_type;
		typedef std::ptrdiff_t difference_type;
		typedef E const* pointer;
		typedef E reference;
		Feed<E>* f;
		bool end;
		E operator*() const { if (f->pos == f->fail_at) throw FeedError(); return f->v.at(f->pos); }
		SinglePass& operator++() { ++f->pos; return *this; }
		SinglePass operator++(int) { SinglePass r(*this); ++*this; return r; }
		bool at_end() const { return end || f->pos == f->v.size(); }
		friend bool operator==(SinglePass const& a, SinglePass const& b) { return a.at_end() == b.at_end(); }
		friend bool operator!=(SinglePass const& a, SinglePass const& b) { return !(a == b); }
	};
	template<typename E>
	struct Forward {	// a forward iterator over the same device
		typedef std::forward_iterator_tag iterator_category;
		typedef E value_type;
		typedef std::ptrdiff_t difference_type;
		typedef E const* pointer;
		typedef E reference;
		Feed<E> const* f;
		std::size_t i;
		E operator*() const { if (i == f->fail_at) throw FeedError(); return f->v.at(i); }
		Forward& operator++() { ++i; return *this; }
		Forward operator++(int) { Forward r(*this); ++*this; return r; }
		friend bool operator==(Forward const& a, Forward const& b) { return a.i == b.i; }
		friend bool operator!=(Forward const& a, Forward const& b) { return a.i != b.i; }
	};

	template<typename D> struct Session {
		D acc, snap;
		Bits m, snap_m;
		std::uint64_t start, snap_start;
		bool broken;	// an in-place operation failed: only a restore or a reset makes it usable again
		Session() : acc(), snap(), start(0), snap_start(0), broken(false) {}
	};
	void append(Bits& m, Bytes const& b) { for (unsigned char c : b) for (int i = 7; i >= 0; --i) m.push_back(c >> i & 1); }

	template<typename D, bool B> struct BitFeed { static void run(Sim&, D&, Bits&) {} };
	template<typename D> struct BitFeed<D, true> {
		static void run(Sim& s, D& d, Bits& m) {
			unsigned n = (unsigned)s.choose(9);
			std::uint8_t v = (std::uint8_t)s.bits();
			unsigned how = (unsigned)s.choose(4);
			s.log(cat("  ", n, " bits of ", (int)v, " how ", how));
			if (how == 0) d.process_bits(v, n);
			else if (how == 1) d = static_cast<D const&>(d).process_bits(v, n);
			else for (unsigned i = n; i--; ) if (how == 2) d.process_bit(v >> i & 1); else d = d.c_process_bit(v >> i & 1);
			for (unsigned i = n; i--; ) m.push_back(v >> i & 1);
		}
	};
	template<typename D, bool B> struct Restart { static void run(Sim&, Session<D>& x) { x.acc.reset(); x.start = 0; } };
	template<typename D> struct Restart<D, true> {
		static void run(Sim& s, Session<D>& x) {
			std::uint64_t v = s.chance(1, 2) ? s.bits() >> 1 : 0;
			if (s.chance(1, 2)) x.acc = D((typename D::sum_type)v); else if (v) x.acc.reset((typename D::sum_type)v); else x.acc.reset();
			x.start = v;
		}
	};

	enum { how_byte, how_c_byte, how_const_byte, how_block, how_c_block, how_const_block, how_bytes, how_c_bytes, how_const_bytes, how_range, how_c_range, how_const_range, hows };
	// one packet; returns false when the device failed in the middle
	// instantiating the functional form is costly (64 levels per iterator type), so only some iterators take it
	template<typename It> struct Functional { enum { value = 0 }; };
	template<> struct Functional<unsigned char const*> { enum { value = 1 }; };
	template<> struct Functional<wchar_t const*> { enum { value = 1 }; };
	template<> struct Functional<std::uint64_t const*> { enum { value = 1 }; };
	template<> struct Functional<std::uint16_t const*> { enum { value = 1 }; };
	template<> struct Functional<Forward<unsigned char> > { enum { value = 1 }; };
	template<typename D, typename It> bool in_place(D& d, It b, It e, std::size_t n, unsigned how) { if (how == how_block) d.process_block(b, e); else d.process_bytes(b, n); return true; }
	template<typename D, typename E, typename It> typename std::enable_if<!Functional<It>::value, bool>::type feed_iter(Sim&, D& d, It b, It e, std::size_t n, unsigned how) { return in_place(d, b, e, n, how); }
	template<typename D, typename E, typename It> typename std::enable_if<Functional<It>::value, bool>::type
	feed_iter(Sim&, D& d, It b, It e, std::size_t n, unsigned how) {
		D const& c = d;
		switch (how) {
		case how_block: d.process_block(b, e); break;
		case how_c_block: d = c.c_process_block(b, e); break;
		case how_const_block: d = c.process_block(b, e); break;
		case how_bytes: d.process_bytes(b, n); break;
		case how_c_bytes: d = c.c_process_bytes(b, n); break;
		default: d = c.process_bytes(b, n); break;
		}
		return true;
	}
	template<typename D, typename C> void feed_range(D& d, C const& r, unsigned) { d.process_range(r); }
	template<typename D>
	void feed_range(D& d, std::vector<unsigned char> const& r, unsigned how) {
		D const& c = d;
		if (how == how_range) d.process_range(r); else if (how == how_c_range) d = c.c_process_range(r); else d = c.process_range(r);
	}
	template<typename D, typename E>
	bool packet(Sim& s, Session<D>& x, char const* ename) {
		std::size_t n = (std::size_t)s.choose(s.chance(1, 4) ? 140 / sizeof(E) : 12);
		Feed<E> f;
		f.pos = 0;
		f.fail_at = (std::size_t)-1;
		std::uint64_t key = s.bits();
		bool zeros = s.chance(1, 6);
		Bytes b;
		for (std::size_t i = 0; i != n; ++i) {
			E v = zeros ? E() : (E)mix64(key + i);
			f.v.push_back(v);
			for (int k = (int)sizeof(E) - 1; k >= 0; --k) b.push_back((unsigned char)((std::uint64_t)v >> 8 * k));
		}
		unsigned how = (unsigned)s.choose(hows), where = (unsigned)s.choose(3);
		if (n && s.chance(1, 6)) f.fail_at = (std::size_t)s.choose(n);
		bool failing = f.fail_at != (std::size_t)-1;
		s.log(cat("  ", n, " x ", ename, " how ", how, " from ", where, failing ? cat(" fails at ", f.fail_at) : ""));
		s.step(b.size() + 1);
		if (how <= how_const_byte) {	// no device involved
			D const& c = x.acc;
			for (unsigned char v : b) if (how == how_byte) x.acc.process_byte(v); else x.acc = how == how_c_byte ? c.c_process_byte(v) : c.process_byte(v);
			append(x.m, b);
			return true;
		}
		D const before(x.acc);
		try {
			if (how >= how_range) {
				if (where == 0 || failing) feed_range(x.acc, f.v, how), failing = false;
				else if (where == 1) feed_range(x.acc, std::list<E>(f.v.begin(), f.v.end()), how);
				else { sprout::array<E, 3> a = {{E(), E(), E()}}; if (n >= 3) { for (int i = 0; i != 3; ++i) a[i] = f.v[i]; b.resize(3 * sizeof(E)); } else b.assign(3 * sizeof(E), 0); feed_range(x.acc, a, how); }
			} else if (failing || where == 2) {
				Forward<E> p = {&f, 0}, q = {&f, n};
				// only an in-place block is specified for a single-pass source
				if (how == how_block && s.chance(1, 2)) { SinglePass<E> p1 = {&f, false}, q1 = {&f, true}; s.probe("single_pass"); x.acc.process_block(p1, q1); }
				else feed_iter<D, E>(s, x.acc, p, q, n, how);
			} else if (where == 1) {
				std::list<E> l(f.v.begin(), f.v.end());
				feed_iter<D, E>(s, x.acc, l.begin(), l.end(), n, how);
			} else {
				E const* p = f.v.data();
				feed_iter<D, E>(s, x.acc, p, p + n, n, how);
			}
		} catch (FeedError const&) {
			s.fault("source-fails");
			if (sizeof(E) != 1 || !Functional<Forward<E> >::value || how == how_block || how == how_bytes) x.broken = true;	// in place: the accumulator took an unknown part
			return false;
		}
		s.check(!failing, "fault_swallowed", cat(R<D>::name(), " swallowed the failure of its source"));
		append(x.m, b);
		return true;
	}
	template<typename D>
	void verify(Sim& s, Session<D> const& x, char const* when) {
		Bytes want = R<D>::ref(x.m, x.start), got = R<D>::val(s.chance(1, 2) ? x.acc() : x.acc.checksum());
		s.check(got == want, "wrong_digest", cat(R<D>::name(), " of ", x.m.size(), " bits is ", quote(std::string(got.begin(), got.end())), " ", when, ", the whole data has ", quote(std::string(want.begin(), want.end()))));
		s.state(hash_str(cat(R<D>::name(), x.m.size(), when)));
	}
	template<typename D>
	void run(Sim& s) {
		std::vector<Session<D> > x(1 + s.choose(3));
		unsigned events = 0;
		do {
			std::size_t k = s.choose(x.size());
			Session<D>& c = x[k];
			unsigned ev = (unsigned)s.choose(10);
			s.log(cat("client ", k, " event ", ev));
			if (c.broken && ev < 6) ev = 8;
			if (ev < 4) {
				bool ok;
				switch (s.choose(7)) {
				case 0: ok = packet<D, unsigned char>(s, c, "u8"); break;
				case 1: ok = packet<D, signed char>(s, c, "s8"); break;
				case 2: ok = packet<D, std::uint16_t>(s, c, "u16"); break;
				case 3: ok = packet<D, std::int32_t>(s, c, "s32"); break;
				case 4: ok = packet<D, char>(s, c, "char"); break;
				case 5: ok = packet<D, wchar_t>(s, c, "wchar"); break;
				default: ok = packet<D, std::uint64_t>(s, c, "u64"); break;
				}
				if (!ok && !c.broken) verify(s, c, "after a packet that failed");
			} else if (ev == 4) {
				BitFeed<D, R<D>::bitwise>::run(s, c.acc, c.m);
			} else if (ev == 5) {
				verify(s, c, "on the way");
			} else if (ev == 6) {
				if (!c.broken) { c.snap = c.acc; c.snap_m = c.m; c.snap_start = c.start; }
			} else if (ev <= 8) {	// crash: back to the snapshot
				s.fault("crash");
				if (s.chance(1, 2)) c.acc = c.snap; else { D t(c.snap); c.acc = t; }
				c.m = c.snap_m; c.start = c.snap_start; c.broken = false;
			} else {
				Restart<D, R<D>::start>::run(s, c);
				c.m.clear();
				c.broken = false;
			}
		} while (++events < 40 && s.more(7, 8));
		for (std::size_t k = 0; k != x.size(); ++k) if (!x[k].broken) verify(s, x[k], "at the end");
	}

	// long messages: the length counter itself is part of the digest
	template<typename D>
	void long_run(Sim& s) {
		D d, copy;
		Bytes all;
		std::uint64_t key = s.bits();
		std::size_t total = s.chance(1, 25) ? 2097152 + (std::size_t)s.choose(65536) : (std::size_t)s.choose(70000);
		while (all.size() < total) {
			Bytes b(std::min<std::size_t>(total - all.size(), 1 + (std::size_t)s.choose(s.chance(1, 3) ? 200 : 1 << 20)));
			for (std::size_t i = 0; i < b.size(); i += 8) { std::uint64_t v = mix64(key++); for (std::size_t k = i; k != b.size() && k != i + 8; ++k, v >>= 8) b[k] = (unsigned char)v; }
			if (s.chance(1, 8)) {	// the client dies with half of the packet taken and goes on from its copy
				s.fault("crash");
				d.process_bytes(b.data(), b.size() / 2);
				d = copy;
			}
			d.process_block(b.data(), b.data() + b.size());
			copy = d;
			all.insert(all.end(), b.begin(), b.end());
			s.step(b.size());
		}
		s.log(cat(R<D>::name(), " of ", all.size()));
		s.check(R<D>::val(d()) == R<D>::ref(bits_of(all), 0), "wrong_digest", cat(R<D>::name(), " of ", all.size(), " bytes"));
		s.state(hash_str(cat(R<D>::name(), "long", all.size() >> 4)));
	}

	// ------------------------------------------------------------------------------ one-shot forms and names of uuids
	template<typename C> std::basic_string<C> gen_name(Sim& s) {
		std::basic_string<C> n;
		std::size_t len = s.choose(s.chance(1, 4) ? 130 : 12);
		std::uint64_t key = s.bits();
		for (std::size_t i = 0; i != len; ++i) { C c = (C)mix64(key + i); n += c ? c : C(1); }
		return n;
	}
	template<typename C> Bytes be(std::basic_string<C> const& n) { Bytes b; for (C c : n) for (int k = (int)sizeof(C) - 1; k >= 0; --k) b.push_back((unsigned char)((std::uint64_t)c >> 8 * k)); return b; }
	template<typename C> sprout::basic_string<C, 140> fixed(std::basic_string<C> const& n) { sprout::basic_string<C, 140> r; r.resize(n.size()); for (std::size_t i = 0; i != n.size(); ++i) r[i] = n[i]; return r; }
	Bytes as_uuid(Bytes b, int version) { b.resize(16); b[6] = (unsigned char)((b[6] & 0x0F) | version << 4); b[8] = (unsigned char)((b[8] & 0x3F) | 0x80); return b; }
	Bytes of(sprout::uuids::uuid const& u) { return Bytes(u.begin(), u.end()); }
	template<typename C>
	void names(Sim& s) {
		namespace u = sprout::uuids;
		Bytes ns(16);
		bool nil = s.chance(1, 4);
		if (!nil) for (auto& c : ns) c = (unsigned char)s.bits();
		u::uuid n;
		for (int i = 0; i != 16; ++i) n.begin()[i] = ns[i];
		u::sha1_name_generator g5 = nil ? u::sha1_name_generator() : u::sha1_name_generator(n);
		u::md5_name_generator g3 = nil ? u::md5_name_generator() : u::md5_name_generator(n);
		do {
			std::basic_string<C> const name = gen_name<C>(s);
			Bytes b = be(name);
			bool str = s.chance(1, 2);
			s.log(cat("name of ", name.size(), str ? " as a string" : " as a pointer"));
			s.step(b.size() + 1);
			Bytes all(ns);
			all.insert(all.end(), b.begin(), b.end());
			unsigned k = (unsigned)s.choose(6);
			if (k >= 4) { s.fault("crash"); }	// the generator is lost and made again
			if (k == 4) g5 = nil ? u::sha1_name_generator() : u::sha1_name_generator(n);
			if (k == 5) g3 = nil ? u::md5_name_generator() : u::md5_name_generator(n);
			if (k == 0 || k == 4) s.check(of(str ? g5(fixed(name)) : g5(name.c_str())) == as_uuid(ref_sha1(bits_of(all)), 5), "wrong_uuid", cat("version 5 uuid of a name of ", name.size()));
			else if (k == 1 || k == 5) s.check(of(str ? g3(fixed(name)) : g3(name.c_str())) == as_uuid(ref_md5(bits_of(all)), 3), "wrong_uuid", cat("version 3 uuid of a name of ", name.size()));
			else if (k == 2) s.check(of(nil ? (str ? u::make_uuid5(fixed(name)) : u::make_uuid5(name.c_str())) : (str ? u::make_uuid5(n, fixed(name)) : u::make_uuid5(n, name.c_str()))) == as_uuid(ref_sha1(bits_of(all)), 5), "wrong_uuid", "make_uuid5");
			else s.check(of(nil ? (str ? u::make_uuid3(fixed(name)) : u::make_uuid3(name.c_str())) : (str ? u::make_uuid3(n, fixed(name)) : u::make_uuid3(n, name.c_str()))) == as_uuid(ref_md5(bits_of(all)), 3), "wrong_uuid", "make_uuid3");
			s.state(hash_str(cat("name", k, b.size(), str)));
#define SIM_ONESHOT(D, F) { Bytes got = R<sprout::D>::val(str ? sprout::F(fixed(name)) : s.chance(1, 2) ? sprout::F(name.c_str()) : sprout::F(name.data(), name.data() + name.size())); s.check(got == R<sprout::D>::ref(bits_of(b), 0), "wrong_digest", cat(#F " of a text of ", name.size())); }
			switch (s.choose(8)) {
			case 0: SIM_ONESHOT(sha1, make_sha1) break;
			case 1: SIM_ONESHOT(md5, make_md5) break;
			case 2: SIM_ONESHOT(sum8, make_sum8) break;
			case 3: SIM_ONESHOT(sum16, make_sum16) break;
			case 4: SIM_ONESHOT(sum32, make_sum32) break;
			case 5: SIM_ONESHOT(xor8, make_xor8) break;
			default: break;
			}
		} while (s.more(2, 3));
	}
}
#if SIM_PART == 0
SIM_SCENARIO("C08", "sha1", 4, run<sprout::sha1>);
SIM_SCENARIO("C08", "sha1/long", 1, long_run<sprout::sha1>);
#elif SIM_PART == 1
SIM_SCENARIO("C08", "md5", 4, run<sprout::md5>);
SIM_SCENARIO("C08", "md5/long", 1, long_run<sprout::md5>);
SIM_SCENARIO("C08", "sum8", 1, run<sprout::sum8>);
SIM_SCENARIO("C08", "sum16", 1, run<sprout::sum16>);
SIM_SCENARIO("C08", "sum32", 1, run<sprout::sum32>);
SIM_SCENARIO("C08", "xor8", 1, run<sprout::xor8>);
#elif SIM_PART == 2
SIM_SCENARIO("C08", "names/char", 1, names<char>);
#elif SIM_PART == 3
SIM_SCENARIO("C08", "names/wchar_t", 1, names<wchar_t>);
#else
SIM_SCENARIO("C08", "names/char16_t", 1, names<char16_t>);
#endif
