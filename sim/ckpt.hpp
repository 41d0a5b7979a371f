// C01: a node that owns random engines, checkpoints them to a disk as text, loses its memory in crashes and restores.
// C02: the same text, damaged, truncated or delivered by a failing device.
#ifndef SIM_CKPT_HPP
#define SIM_CKPT_HPP

#include "engines.hpp"
#include "io.hpp"

namespace sim {
	template<typename C>
	struct Grouping : std::numpunct<C> {	// 1,234,567
		C do_thousands_sep() const override { return C(','); }
		std::string do_grouping() const override { return "\3"; }
	};
	template<typename C>
	struct Format {	// stream formatting in force on both the writing and the reading side
		int base;	// 0 dec, 1 hex, 2 oct
		bool showbase, upper, group, noskip;
		C fill;
		explicit Format(Sim& s) : base(0), showbase(false), upper(false), group(false), noskip(false), fill(C(' ')) {
			if (s.chance(1, 3)) {
				base = (int)s.choose(3);
				showbase = s.chance(1, 2);
				upper = s.chance(1, 3);
				group = s.chance(1, 6);
				noskip = s.chance(1, 4);
				if (s.chance(1, 3)) fill = C('0' + s.choose(10));
			}
		}
		void apply(std::basic_ios<C>& f) const {
			std::ios_base& i = f;
			i.setf(base == 0 ? std::ios_base::dec : base == 1 ? std::ios_base::hex : std::ios_base::oct, std::ios_base::basefield);
			if (showbase) i.setf(std::ios_base::showbase);
			if (upper) i.setf(std::ios_base::uppercase);
			if (group) f.imbue(std::locale(f.getloc(), new Grouping<C>));
			if (noskip) i.unsetf(std::ios_base::skipws);
			f.fill(fill);
		}
		void skip(std::basic_istream<C>& is) const {	// white space between the parts is the node's own business then
			if (noskip) is >> std::ws;
		}
	};

	template<typename I, typename C>
	void ckpt_run(Sim& s) {
		typedef typename I::engine E;
		typedef std::basic_string<C> S;
		std::size_t const m = 1 + s.choose(3);
		// the tape: what each engine produces when nothing ever happens to it
		std::vector<E> tape_eng, eng;
		std::vector<std::vector<std::uint64_t> > tape(m);
		std::vector<std::uint64_t> seeds;
		for (std::size_t i = 0; i != m; ++i) {
			std::uint64_t sd = pick_seed<I>(s);
			seeds.push_back(sd);
			tape_eng.push_back(I::make(sd));
			eng.push_back(I::make(sd));
			s.log(cat("engine ", i, " seed ", sd));
		}
		auto at = [&](std::size_t i, std::size_t p) {
			while (tape[i].size() <= p) tape[i].push_back((std::uint64_t)tape_eng[i]());
			return tape[i][p];
		};
		std::vector<std::size_t> pos(m, 0);
		struct Rec { std::vector<std::size_t> pos; S text; Format<C> fmt; S sep; bool open_end; };
		std::vector<Rec> recs;
		std::map<std::string, std::size_t> file_rec;	// file -> latest record written to it
		SimDisk<C> disk(s);
		std::size_t since_sync = 0, restores = 0;

		auto verify = [&](std::size_t i, std::uint64_t n, bool functional, char const* when) {
			for (std::uint64_t k = 0; k != n; ++k) {
				std::uint64_t v;
				if (functional) {
					E const& ce = eng[i];
					auto r = ce();
					v = (std::uint64_t)r.result();
					eng[i] = r.engine();
				} else {
					v = (std::uint64_t)eng[i]();
				}
				std::uint64_t w = at(i, pos[i]);
				s.step();
				if (v != w) s.fail("continuation-differs", cat(I::name(), ": draw ", pos[i], " of engine ", i, " (seed ", seeds[i], ") gave ", v, " instead of ", w, " ", when));
				++pos[i];
			}
			s.checked();
		};
		auto restore = [&](std::string const& file, bool dirty) {
			Rec const& r = recs[file_rec[file]];
			S const& content = disk.read(file);
			SimIn<C> sb(s, content, s.chance(2, 3));
			std::basic_istream<C> is(&sb);
			r.fmt.apply(is);
			bool complete = content == r.text;
			std::vector<E> in;
			for (std::size_t i = 0; i != m; ++i) {
				E e = I::make(dirty ? seeds[i] + 7 : 1);
				if (dirty) for (std::uint64_t k = s.choose(5); k; --k) e();
				in.push_back(e);
			}
			unsigned long tag = ~0ul;
			is >> tag;
			for (std::size_t i = 0; i != m; ++i) {
				r.fmt.skip(is);
				is >> in[i];
			}
			C mark = 0;
			if (!r.open_end) { r.fmt.skip(is); is >> mark; }
			if (!complete) {
				s.log(cat("restore of torn file ", file, " abandoned"));
				s.probe("torn-file-read");
				return false;
			}
			s.check(!is.fail(), "restore-refused", cat(I::name(), ": a complete checkpoint could not be read back: ", quote(content, 120)));
			s.check(tag == file_rec[file], "stream-out-of-step", "the tag before the engines came back wrong");
			s.check(r.open_end || mark == C(';'), "stream-out-of-step", cat(I::name(), ": the character after the engines was not the next one read"));
			eng = in;
			pos = r.pos;
			++restores;
			s.log(cat("restored ", file, " = record ", file_rec[file]));
			// same state as an engine that was advanced there without any checkpoint
			for (std::size_t i = 0; i != m; ++i) {
				E twin = I::make(seeds[i]);
				for (std::size_t k = 0; k != pos[i]; ++k) twin();
				s.check(twin == eng[i] && !(twin != eng[i]), "restored-unequal", cat(I::name(), ": the restored engine does not compare equal to the saved one at draw ", pos[i]));
				s.state(hash_str(I::name(), pos[i] * 31 + seeds[i]));
			}
			return true;
		};

		std::size_t ops = 0;
		while (ops++ < 40 && s.more(9, 10)) {
			s.step();
			std::uint64_t op = s.choose(10);
			if (op < 4) {
				std::size_t i = s.choose(m);
				std::uint64_t n = pick_draws<I>(s);
				s.log(cat("draw ", n, " from ", i));
				verify(i, n, false, restores ? "after a restore" : "before any restore");
			} else if (op == 4) {
				std::size_t i = s.choose(m);
				std::uint64_t n = s.choose(3);
				s.log(cat("const-draw ", n, " from ", i));
				verify(i, n, true, restores ? "after a restore" : "before any restore");
			} else if (op < 7) {
				Rec r = {pos, S(), Format<C>(s), S(), s.chance(1, 2)};
				static char const* const seps[] = {" ", "\n", "\t ", "  \n"};
				r.sep = widen<C>(seps[s.choose(4)]);
				SimOut<C> ob(s);
				std::basic_ostream<C> os(&ob);
				r.fmt.apply(os);
				std::string file = s.chance(1, 2) ? "b" : "a";
				os << (unsigned long)recs.size();
				for (std::size_t i = 0; i != m; ++i) {
					os << r.sep;
					if (r.fmt.fill == C(' ') && s.chance(1, 8)) os.width((std::streamsize)s.choose(24));
					E const& ce = eng[i];
					os << ce;
				}
				if (!r.open_end) os << C(' ') << C(';');
				s.check(os.good(), "checkpoint-refused", "writing a checkpoint to a healthy device failed");
				r.text = ob.data();
				recs.push_back(r);
				disk.write(file, r.text);
				file_rec[file] = recs.size() - 1;
				++since_sync;
				s.log(cat("checkpoint -> ", file, " record ", recs.size() - 1, " (", r.text.size(), " chars, base ", r.fmt.base, ")"));
				// checkpointing must not disturb the engine
				std::size_t i = s.choose(m);
				verify(i, s.choose(3), false, "after being checkpointed");
			} else if (op == 7) {
				disk.sync();
				since_sync = 0;
				s.log("sync");
			} else if (op == 8) {	// crash and restart
				disk.crash();
				s.log("crash");
				std::string best;
				bool dirty = s.chance(1, 2);
				if (since_sync) s.probe("crash-with-unsynced-checkpoint");
				since_sync = 0;
				std::vector<std::string> files;
				for (auto& f : file_rec) if (disk.has(f.first)) files.push_back(f.first);
				// newest record first
				std::size_t a = files.size() > 1 && file_rec[files[1]] > file_rec[files[0]] ? 1 : 0;
				bool ok = false;
				for (std::size_t k = 0; k != files.size() && !ok; ++k) {
					std::string const& f = files[(a + k) % files.size()];
					// a lost write leaves the file's previous contents: find which record that is
					S const& c = disk.read(f);
					for (std::size_t q = recs.size(); q-- != 0;) if (recs[q].text == c) { file_rec[f] = q; break; }
					ok = restore(f, dirty);
				}
				if (!ok) {
					s.log("nothing to restore: start over from the seeds");
					for (std::size_t i = 0; i != m; ++i) { eng[i] = I::make(seeds[i]); pos[i] = 0; }
				}
				for (std::size_t i = 0; i != m; ++i) verify(i, 1 + s.choose(4), false, "after a crash");
			} else {	// live read-back without a crash (a replica catching up)
				if (!file_rec.empty()) {
					auto f = file_rec.begin();
					std::advance(f, s.choose(file_rec.size()));
					if (disk.has(f->first) && disk.read(f->first) == recs[f->second].text) {
						s.nontrivial();
						restore(f->first, true);
						std::size_t i = s.choose(m);
						verify(i, pick_draws<I>(s), false, "after a read-back");
					}
				}
			}
		}
		for (std::size_t i = 0; i != m; ++i) verify(i, 2, false, "at the end");
	}

	template<typename I, typename C>
	void damage_run(Sim& s) {
		typedef typename I::engine E;
		typedef std::basic_string<C> S;
		E src = I::make(pick_seed<I>(s)), dst = I::make(pick_seed<I>(s));
		for (std::uint64_t n = pick_draws<I>(s); n; --n) src();
		for (std::uint64_t n = s.choose(I::state_words < 40 ? 8 : 400); n; --n) dst();
		SimOut<C> ob(s);
		std::basic_ostream<C> os(&ob);
		os << src;
		S text = ob.data();
		bool minus = false;
		std::size_t faults = 0, keep = text.size();
		typename SimIn<C>::End end = SimIn<C>::eof;
		while (faults < 3 && s.more(3, 4)) {
			++faults;
			std::size_t p = text.empty() ? 0 : s.choose(text.size());
			if (s.chance(1, 3) && !text.empty()) p = text.size() - 1 - s.choose(text.size() < 30 ? text.size() : 30);	// near the end
			switch (s.choose(7)) {
			case 0:
				s.fault("truncate");
				text.resize(p);
				s.log(cat("truncate at ", p));
				break;
			case 1: {
				static char const alt[] = "x;,.aF /\n";
				C c = C(alt[s.choose(sizeof alt - 1)]);
				if (!text.empty()) { s.fault("byte-to-junk"); text[p] = c; s.log(cat("byte ", p, " -> junk ", (int)c)); }
				break;
			}
			case 2:
				if (!text.empty() && text[p] >= C('0') && text[p] <= C('9')) {
					s.fault("digit-flip");
					text[p] = C('0' + s.choose(10));
					s.log(cat("digit ", p, " -> ", (char)text[p]));
				}
				break;
			case 3: {
				std::size_t n = 1 + s.choose(12);
				s.fault("digits-inserted");
				text.insert(p, S(n, C('9')));
				s.log(cat(n, " nines inserted at ", p));
				break;
			}
			case 4:
				if (!text.empty()) { s.fault("byte-lost"); text.erase(p, 1); s.log(cat("byte ", p, " lost")); }
				break;
			case 5: {
				std::size_t n = 1 + s.choose(30);
				n = p + n > text.size() ? text.size() - p : n;
				s.fault("block-lost");
				text.erase(p, n);
				s.log(cat("block ", p, "+", n, " lost"));
				break;
			}
			default:
				s.fault("sign-inserted");
				text.insert(p, 1, C('-'));
				minus = true;
				s.log(cat("minus at ", p));
				break;
			}
		}
		if (s.chance(1, 6)) { end = SimIn<C>::throws; keep = s.choose(text.size() + 1); text.resize(keep); s.log(cat("device dies after ", keep)); }
		std::ios_base::iostate mask = std::ios_base::goodbit;
		if (s.chance(1, 5)) mask = s.chance(1, 2) ? std::ios_base::failbit | std::ios_base::badbit : std::ios_base::failbit | std::ios_base::badbit | std::ios_base::eofbit;
		s.log(cat("text ", text.size(), " chars, exception mask ", (int)mask));

		// what an independent reader makes of the text
		std::vector<std::uint64_t> ref;
		{
			std::basic_istringstream<C> is(text);
			std::uint64_t v;
			while (ref.size() < I::state_words && is >> v) ref.push_back(v);
		}
		E const before(cref(dst));
		SimIn<C> sb(s, text, s.chance(1, 2), end);
		std::basic_istream<C> is(&sb);
		bool threw = false;
		if (s.chance(1, 16)) { is.setstate(std::ios_base::failbit); s.fault("stream-already-failed"); }
		try {
			is.exceptions(mask);
			is >> dst;
		} catch (std::ios_base::failure const&) {
			threw = true;
		} catch (DeviceError const&) {
			threw = true;
		}
		bool ok = !threw && !is.fail();
		s.log(ok ? "accepted" : "refused");
		s.state(hash_str(I::name(), faults * 4 + ok * 2 + threw));
		if (!faults && mask == std::ios_base::goodbit && end == SimIn<C>::eof && is.good()) s.probe("undamaged-accepted");
		if (ok) {
			s.probe(faults ? "damaged-but-accepted" : "intact-accepted");
			s.check(ref.size() == I::state_words, "damage-accepted", cat(I::name(), ": the text holds only ", ref.size(), " readable numbers of ", int(I::state_words), ", yet the restore reported success"));
			if (!minus) {
				SimOut<C> o2(s);
				std::basic_ostream<C> os2(&o2);
				os2 << dst;
				std::basic_istringstream<C> i2(o2.data());
				for (std::size_t k = 0; k != ref.size(); ++k) {
					std::uint64_t v = 0;
					i2 >> v;
					s.check(v == ref[k], "wrong-state-accepted", cat(I::name(), ": number ", k, " of the text is ", ref[k], " but the restored engine holds ", v));
				}
			}
			for (unsigned k = 0; k != 2 * I::state_words + 2; ++k) {
				std::uint64_t v = (std::uint64_t)dst();
				s.step();
				if (!(v >= (std::uint64_t)dst.min() && v <= (std::uint64_t)dst.max())) s.fail("accepted-out-of-range", cat(I::name(), ": after an accepted restore draw ", k, " is ", v, ", outside [", dst.min(), ", ", dst.max(), "]"));
			}
			s.checked();
		} else {
			s.check(dst == before, "target-changed-on-failure", cat(I::name(), ": the restore reported failure but changed the engine"));
			E e(before);
			for (unsigned k = 0; k != I::state_words + 2; ++k) {
				std::uint64_t v = (std::uint64_t)dst(), w = (std::uint64_t)e();
				s.step();
				if (v != w) s.fail("target-changed-on-failure", cat(I::name(), ": the restore reported failure but draw ", k, " changed from ", w, " to ", v));
			}
			s.checked();
		}
	}
}	// namespace sim

#define SIM_CKPT(I) \
	static ::sim::Register SIM_CAT(sim_regc_, I)("C01", #I "/char", 3, ::sim::ckpt_run< ::sim::I, char>); static ::sim::Register SIM_CAT(sim_regw_, I)("C01", #I "/wchar", 1, ::sim::ckpt_run< ::sim::I, wchar_t>);
#define SIM_DAMAGE(I) \
	static ::sim::Register SIM_CAT(sim_regd_, I)("C02", #I "/char", 3, ::sim::damage_run< ::sim::I, char>); static ::sim::Register SIM_CAT(sim_regdw_, I)("C02", #I "/wchar", 1, ::sim::damage_run< ::sim::I, wchar_t>);

#endif
