// Driver process for the simulator: explores, executes one choice sequence, or minimises a failing one.
#include "core.hpp"

#include <fstream>
#include <iostream>
#include <algorithm>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>

namespace sim {
	std::vector<Scenario>& scenarios() {
		static std::vector<Scenario> v;
		return v;
	}
}
using namespace sim;

namespace {
	double now() {
		timespec t;
		clock_gettime(CLOCK_MONOTONIC, &t);
		return t.tv_sec + t.tv_nsec * 1e-9;
	}
	void arm(double sec) {	// CPU-time watchdog: kills the process (SIGVTALRM) if one run makes no progress
		itimerval v;
		std::memset(&v, 0, sizeof v);
		v.it_value.tv_sec = (long)sec;
		v.it_value.tv_usec = (long)((sec - (long)sec) * 1e6);
		setitimer(ITIMER_VIRTUAL, &v, 0);
	}
	void limits() {
		rlimit c = {0, 0};
		setrlimit(RLIMIT_CORE, &c);
#ifndef SIM_ASAN
		rlimit a = {6ull << 30, 6ull << 30};
		setrlimit(RLIMIT_AS, &a);
#endif
	}

	struct Outcome {
		std::string cls, msg;	// cls empty: the property held
		std::uint64_t hash;
		std::vector<std::uint64_t> rec;
		std::string log;
	};

	// runs one scenario in this process
	Outcome run_here(Scenario const& sc, Sim& s) {
		Outcome o;
		try {
			sc.fn(s);
		} catch (Violation const& v) {
			o.cls = v.cls;
			o.msg = v.msg;
		} catch (StepBudget const& b) {
			o.cls = "no-progress";
			o.msg = b.what;
		} catch (InjectedFault const& f) {
			o.cls = "escaped-fault";
			o.msg = cat("injected fault ", f.id, " escaped to the top of the run");
		} catch (std::exception const& e) {
			o.cls = "unexpected-exception";
			o.msg = e.what();
		} catch (...) {
			o.cls = "unexpected-exception";
			o.msg = "(unknown type)";
		}
		o.hash = hash_str(o.cls, s.hash());
		o.rec = s.record();
		o.log = s.text();
		return o;
	}

	// runs one choice sequence in a forked child, so crashes and hangs are outcomes too
	Outcome run_forked(Scenario const& sc, std::vector<std::uint64_t> const* choices, std::uint64_t seed, bool verbose, double cpu) {
		std::fflush(0);
		int fd[2];
		if (pipe(fd)) { std::perror("pipe"); std::exit(2); }
		pid_t p = fork();
		if (p < 0) { std::perror("fork"); std::exit(2); }
		if (p == 0) {
			close(fd[0]);
			limits();
			arm(cpu);
			int nul = open("/dev/null", O_WRONLY);
			if (!std::getenv("SIM_DEBUG")) { dup2(nul, 1); dup2(nul, 2); }
			Stats st;
			Sim s = choices ? Sim(st, *choices) : Sim(st, seed);
			s.verbose(verbose);
			Outcome o = run_here(sc, s);
			arm(0);
			std::string buf;
			struct W {
				static void u(std::string& b, std::uint64_t v) { b.append((char const*)&v, 8); }
				static void t(std::string& b, std::string const& v) { u(b, v.size()); b += v; }
			};
			W::t(buf, o.cls); W::t(buf, o.msg); W::u(buf, o.hash);
			W::u(buf, o.rec.size());
			for (std::size_t i = 0; i != o.rec.size(); ++i) W::u(buf, o.rec[i]);
			W::t(buf, o.log);
			for (std::size_t i = 0; i < buf.size();) {
				ssize_t n = write(fd[1], buf.data() + i, buf.size() - i);
				if (n <= 0) break;
				i += n;
			}
			_exit(0);
		}
		close(fd[1]);
		std::string buf;
		char tmp[65536];
		for (;;) {
			ssize_t n = read(fd[0], tmp, sizeof tmp);
			if (n <= 0) break;
			buf.append(tmp, n);
		}
		close(fd[0]);
		int stt = 0;
		waitpid(p, &stt, 0);
		Outcome o;
		o.hash = 0;
		if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0) {
			std::size_t i = 0;
			struct R {
				static std::uint64_t u(std::string const& b, std::size_t& i) { std::uint64_t v = 0; if (i + 8 <= b.size()) std::memcpy(&v, &b[i], 8); i += 8; return v; }
				static std::string t(std::string const& b, std::size_t& i) { std::size_t n = u(b, i); std::string r = i <= b.size() ? b.substr(i, n) : std::string(); i += n; return r; }
			};
			o.cls = R::t(buf, i); o.msg = R::t(buf, i); o.hash = R::u(buf, i);
			std::size_t n = R::u(buf, i);
			for (std::size_t k = 0; k != n; ++k) o.rec.push_back(R::u(buf, i));
			o.log = R::t(buf, i);
		} else if (WIFSIGNALED(stt)) {
			int sg = WTERMSIG(stt);
			if (sg == SIGVTALRM) { o.cls = "hang"; o.msg = "no termination within the CPU budget of one run"; }
			else if (sg == SIGKILL) { o.cls = "killed"; o.msg = "killed"; }
			else { o.cls = cat("signal:", sg); o.msg = cat("the code under test died with signal ", sg, " (", strsignal(sg), ")"); }
			if (choices) o.rec = *choices;
			o.hash = hash_str(o.cls);
		} else {
			o.cls = "memory-error";
			o.msg = cat("sanitizer report (exit code ", WEXITSTATUS(stt), ")");
			if (choices) o.rec = *choices;
			o.hash = hash_str(o.cls);
		}
		return o;
	}

	std::string jstr(std::string const& s) {
		std::string r = "\"";
		for (std::size_t i = 0; i != s.size(); ++i) {
			unsigned char c = s[i];
			if (c == '"' || c == '\\') r += '\\', r += (char)c;
			else if (c == '\n') r += "\\n";
			else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
			else r += (char)c;
		}
		return r + "\"";
	}
	std::string jout(Outcome const& o) {
		std::string r = "{\"class\": " + jstr(o.cls) + ", \"message\": " + jstr(o.msg) + ", \"hash\": \"" + cat(std::hex, o.hash) + "\", \"choices\": [";
		for (std::size_t i = 0; i != o.rec.size(); ++i) r += cat(i ? "," : "", o.rec[i]);
		return r + "], \"log\": " + jstr(o.log) + "}";
	}

	std::uint64_t run_seed(std::uint64_t seed, Scenario const& sc, std::uint64_t index) {
		return mix64(mix64(seed) ^ hash_str(sc.prop + "/" + sc.name) ^ mix64(index * 2 + 1));
	}

	struct Args {
		std::map<std::string, std::string> m;
		Args(int c, char** v, int from) {
			for (int i = from; i + 1 < c; i += 2) m[v[i]] = v[i + 1];
		}
		std::string s(char const* k, char const* d = "") const { auto i = m.find(k); return i == m.end() ? d : i->second; }
		std::uint64_t u(char const* k, std::uint64_t d) const { auto i = m.find(k); return i == m.end() ? d : std::strtoull(i->second.c_str(), 0, 10); }
		double f(char const* k, double d) const { auto i = m.find(k); return i == m.end() ? d : std::atof(i->second.c_str()); }
	};

	std::vector<Scenario const*> of_prop(std::string const& prop) {
		std::vector<Scenario const*> v;
		for (auto& s : scenarios()) if (s.prop == prop) v.push_back(&s);
		std::sort(v.begin(), v.end(), [](Scenario const* a, Scenario const* b) { return a->name < b->name; });
		return v;
	}
	Scenario const& find(std::string const& prop, std::string const& name) {
		for (auto p : of_prop(prop)) if (p->name == name) return *p;
		std::fprintf(stderr, "no scenario %s/%s\n", prop.c_str(), name.c_str());
		std::exit(2);
	}

	int cmd_run(Args const& a) {
		auto scs = of_prop(a.s("--prop"));
		std::uint64_t seed = a.u("--seed", 1), shard = a.u("--shard", 0), shards = a.u("--shards", 1), runs = a.u("--runs", 1);
		double budget = a.f("--budget", 60), t0 = now(), cpu = a.f("--cpu", 10);
		std::set<std::string> skip;
		{
			std::istringstream is(a.s("--skip"));
			std::string w;
			while (std::getline(is, w, ',')) if (!w.empty()) skip.insert(w);
		}
		int pf = open(a.s("--progress").c_str(), O_RDWR | O_CREAT, 0600);
		if (pf < 0 || ftruncate(pf, 64)) { std::perror("progress"); return 2; }
		std::uint64_t volatile* prog = (std::uint64_t volatile*)mmap(0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, pf, 0);
		prog[0] = prog[1] = ~0ull;
		std::uint64_t resume_round = a.u("--from-round", 0);
		limits();
		Stats st;
		std::vector<std::string> viol, samples;
		std::map<std::string, std::uint64_t> per;
		std::set<std::string> stopped(skip);
		bool capped = false;
		std::uint64_t n = 0, rechecks = 0, r = resume_round;
		for (; r < runs && !capped; ++r) {
			for (std::size_t si = 0; si != scs.size() && !capped; ++si) {
				Scenario const& sc = *scs[si];
				for (unsigned w = 0; w != sc.weight; ++w) {
					if (stopped.count(sc.name)) break;
					std::uint64_t idx = r * sc.weight + w;
					if (mix64(idx * 1000003 + si) % shards != shard) continue;
					if ((n & 15) == 0 && now() - t0 > budget) { capped = true; break; }
					prog[0] = si; prog[1] = idx; prog[2] = r;
					arm(cpu);
					Sim s(st, run_seed(seed, sc, idx));
					bool sample = per[sc.name] < 1 && samples.size() < 400 && shard == 0;
					s.verbose(sample);
					Outcome o = run_here(sc, s);
					++per[sc.name];
					++st.runs;
					++n;
					if (st.histories.size() < 3000000) {
						st.histories.insert(o.hash);
						if (s.is_nontrivial()) st.nontrivial.insert(o.hash);
					}
					if (sample) samples.push_back("{\"scenario\": " + jstr(sc.name) + ", \"index\": " + cat(idx) + ", \"log\": " + jstr(o.log.substr(0, 1500)) + "}");
					if (n % 61 == 0) {	// determinism: the same choices must give the same event log
						Stats dummy;
						Sim s2(dummy, o.rec);
						Outcome o2 = run_here(sc, s2);
						++rechecks;
						if (o2.hash != o.hash || o2.rec != o.rec) {
							std::fprintf(stderr, "NONDETERMINISM scenario=%s index=%llu\n", sc.name.c_str(), (unsigned long long)idx);
							return 4;
						}
					}
					if (!o.cls.empty()) {
						viol.push_back("{\"scenario\": " + jstr(sc.name) + ", \"index\": " + cat(idx) + ", \"class\": " + jstr(o.cls) + ", \"message\": " + jstr(o.msg) + "}");
						stopped.insert(sc.name);
					}
				}
			}
		}
		arm(0);
		std::ofstream os(a.s("--out"));
		os << "{\"runs\": " << st.runs << ", \"steps\": " << st.steps << ", \"checks\": " << st.checks << ", \"capped\": " << (capped ? "true" : "false")
			<< ", \"rounds\": " << r << ", \"rechecks\": " << rechecks << ", \"wall\": " << (now() - t0);
		auto mp = [&](char const* k, std::map<std::string, std::uint64_t> const& m) {
			os << ", \"" << k << "\": {";
			bool f = true;
			for (auto& e : m) { os << (f ? "" : ", ") << jstr(e.first) << ": " << e.second; f = false; }
			os << "}";
		};
		mp("faults", st.faults);
		mp("probes", st.probes);
		mp("per_scenario", per);
		auto ls = [&](char const* k, std::vector<std::string> const& m) {
			os << ", \"" << k << "\": [";
			for (std::size_t i = 0; i != m.size(); ++i) os << (i ? ", " : "") << m[i];
			os << "]";
		};
		ls("violations", viol);
		ls("samples", samples);
		os << ", \"n_histories\": " << st.histories.size() << ", \"n_nontrivial\": " << st.nontrivial.size() << ", \"n_states\": " << st.states.size() << "}\n";
		os.close();
		// hash sets, so the parent can count distinct ones over all shards
		std::ofstream hs(a.s("--out") + ".hashes", std::ios::binary);
		auto dump = [&](std::set<std::uint64_t> const& s) {
			std::uint64_t c = s.size();
			hs.write((char const*)&c, 8);
			for (auto v : s) hs.write((char const*)&v, 8);
		};
		dump(st.histories);
		dump(st.nontrivial);
		dump(st.states);
		return os && hs ? 0 : 2;
	}

	// Shrinks a choice sequence while the violation class stays the same.
	int cmd_minimize(Args const& a) {
		Scenario const& sc = find(a.s("--prop"), a.s("--scenario"));
		double cpu = a.f("--cpu", 10), wall = a.f("--wall", 60), t0 = now();
		std::uint64_t execs = 0, max_execs = a.u("--execs", 4000);
		Outcome best;
		std::vector<std::uint64_t> cur;
		std::uint64_t sd = run_seed(a.u("--seed", 1), sc, a.u("--index", 0));
		best = run_forked(sc, 0, sd, false, cpu);
		if (best.cls.empty()) {
			std::cout << "{\"class\": \"\", \"message\": \"did not reproduce\", \"hash\": \"0\", \"choices\": [], \"log\": \"\"}\n";
			return 0;
		}
		bool crash = best.rec.empty();
		if (crash) {	// no recorded choices survive a crash: regenerate the raw stream, choices are taken modulo their range
			std::uint64_t r = sd;
			for (int i = 0; i != 4096; ++i) { r += 0x9E3779B97F4A7C15ull; cur.push_back(mix64(r)); }
			// `chance` is recorded as a Boolean but drawn as v % den < num, so a raw stream replays differently; ask the
			// child to record through shared memory instead.
			std::size_t bytes = 8 * (1 << 20);
			std::uint64_t* sh = (std::uint64_t*)mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
			pid_t p = fork();
			if (p == 0) {
				limits();
				arm(cpu);
				int nul = open("/dev/null", O_WRONLY);
				dup2(nul, 1); dup2(nul, 2);
				Stats st;
				Sim s(st, sd);
				s.share(sh, (1 << 20) - 1);
				run_here(sc, s);
				_exit(0);
			}
			int stt;
			waitpid(p, &stt, 0);
			cur.assign(sh + 1, sh + 1 + sh[0]);
			munmap(sh, bytes);
			Outcome o = run_forked(sc, &cur, 0, false, cpu);
			++execs;
			if (o.cls != best.cls) {
				std::cout << "{\"class\": \"\", \"message\": \"crash did not reproduce from recorded choices\", \"hash\": \"0\", \"choices\": [], \"log\": \"\"}\n";
				return 0;
			}
		} else {
			cur = best.rec;
		}
		std::string cls = best.cls;
		double c2 = cls == "hang" ? 3 : cpu;
		if (cls == "hang") max_execs = 12;
		auto attempt = [&](std::vector<std::uint64_t> const& c) -> bool {
			if (execs >= max_execs || now() - t0 > wall) return false;
			++execs;
			Outcome o = run_forked(sc, &c, 0, false, c2);
			if (o.cls != cls) return false;
			if (!crash && o.rec.size() <= c.size()) cur = o.rec; else cur = c;
			return true;
		};
		// drop the unused tail
		for (bool progress = true; progress && execs < max_execs && now() - t0 < wall;) {
			progress = false;
			std::vector<std::uint64_t> start = cur;
			for (std::size_t len = cur.size(); len > 1; len /= 2) {	// truncate
				if (cur.size() > len / 2) {
					std::vector<std::uint64_t> c(cur.begin(), cur.begin() + std::min(cur.size(), cur.size() - len / 2));
					while (c.size() < cur.size() && attempt(c)) {
						if (cur.size() <= len / 2) break;
						c.assign(cur.begin(), cur.begin() + (cur.size() - len / 2));
					}
				}
			}
			for (std::size_t blk = 32; blk; blk /= 2) {	// delete blocks
				for (std::size_t i = 0; i + blk <= cur.size();) {
					std::vector<std::uint64_t> c(cur);
					c.erase(c.begin() + i, c.begin() + i + blk);
					if (!attempt(c)) i += blk > 4 ? blk / 2 : 1;
					if (execs >= max_execs || now() - t0 > wall) break;
				}
			}
			for (std::size_t i = 0; i < cur.size(); ++i) {	// lower values
				if (!cur[i]) continue;
				std::vector<std::uint64_t> c(cur);
				c[i] = 0;
				if (attempt(c)) continue;
				for (std::uint64_t d = i < cur.size() ? cur[i] / 2 : 0; d && i < cur.size() && cur[i] && cur[i] < (1ull << 40); d /= 2) {
					c = cur;
					if (c[i] < d) continue;
					c[i] -= d;
					attempt(c);
				}
				if (execs >= max_execs || now() - t0 > wall) break;
			}
			progress = cur != start;
		}
		while (!cur.empty() && cur.back() == 0) {	// trailing zeros are implied
			std::vector<std::uint64_t> c(cur.begin(), cur.end() - 1);
			cur = c;
		}
		Outcome o = run_forked(sc, &cur, 0, true, cpu);
		Outcome o2 = run_forked(sc, &cur, 0, true, cpu);
		if (o.cls != cls || o2.cls != o.cls || o.hash != o2.hash || o.log != o2.log) {
			std::cerr << "NONDETERMINISM while minimising " << sc.name << "\n";
			return 4;
		}
		o.rec = cur;
		std::cout << jout(o) << "\n";
		return 0;
	}

	int cmd_exec(Args const& a) {
		Scenario const& sc = find(a.s("--prop"), a.s("--scenario"));
		std::vector<std::uint64_t> c;
		std::ifstream is(a.s("--choices"));
		std::uint64_t v;
		while (is >> v) c.push_back(v);
		if (a.s("--in-process") == "1") {
			Stats st;
			Sim s(st, c);
			s.verbose(true);
			Outcome o = run_here(sc, s);
			std::cout << o.log << o.cls << ": " << o.msg << "\n";
			return 0;
		}
		Outcome o = run_forked(sc, &c, 0, true, a.f("--cpu", 10));
		o.rec = c;
		std::cout << jout(o) << "\n";
		return 0;
	}
}

int main(int argc, char** argv) {
	std::string cmd = argc > 1 ? argv[1] : "";
	Args a(argc, argv, 2);
	if (cmd == "list") {
		for (auto p : of_prop(a.s("--prop"))) std::cout << p->name << " " << p->weight << "\n";
		return 0;
	}
	if (cmd == "run") return cmd_run(a);
	if (cmd == "minimize") return cmd_minimize(a);
	if (cmd == "exec") return cmd_exec(a);
	std::cerr << "usage: list|run|minimize|exec --prop P ...\n";
	return 2;
}
