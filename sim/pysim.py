"""Seeded simulation of Python and shell code: choices, search, minimisation, replay and evidence (the counterpart of core.hpp/main.cpp).

A scenario is a function f(sim): every decision it takes comes from sim.choose(), so that the list of choices is the execution.
Choice 0 is always the harmless one; a replayed list that is too short continues with zeros.
"""
import hashlib, importlib, json, os, random, re, subprocess, sys, tempfile, time

SIM = os.path.dirname(os.path.abspath(__file__))


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, msg)
        self.cls = cls


class Sim:
    def __init__(self, seed=None, choices=None):
        self.rng = random.Random(seed) if choices is None else None
        self.given = choices or []
        self.choices, self.lines = [], []
        self.faults, self.probes, self.states = {}, {}, set()
        self.steps = self.checks = 0
        self.nontrivial = False

    def choose(self, n):
        if n <= 1:
            return 0
        i = len(self.choices)
        v = self.rng.randrange(n) if self.rng else (self.given[i] % n if i < len(self.given) else 0)
        self.choices.append(v)
        return v

    def chance(self, n, d):  # 0 is "no"
        return self.choose(d) > d - 1 - n

    def pick(self, seq):
        return seq[self.choose(len(seq))]

    def log(self, s):
        self.lines.append(s)

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.nontrivial = True

    def probe(self, kind):
        self.probes[kind] = self.probes.get(kind, 0) + 1

    def state(self, *what):
        self.states.add(int.from_bytes(hashlib.blake2b(repr(what).encode(), digest_size=8).digest(), "little"))

    def check(self, ok, cls, msg):
        self.checks += 1
        if not ok:
            raise Violation(cls, msg() if callable(msg) else msg)

    def digest(self):
        return hashlib.sha1("\n".join(self.lines).encode()).hexdigest()[:16]


def execute(mod, scen, seed=None, choices=None):
    s = Sim(seed, choices)
    s.cls, s.msg = "", ""
    try:
        mod.SCENARIOS[scen](s)
    except Violation as e:
        s.cls, s.msg = e.cls, str(e)
        s.log("VIOLATION %s: %s" % (e.cls, e))
    return s


def run_seed(seed, scen, index):
    return int.from_bytes(hashlib.blake2b(("%d/%s/%d" % (seed, scen, index)).encode(), digest_size=8).digest(), "little")


def minimise(mod, scen, choices, cls, limit):
    """Shortest prefix, then blocks removed or zeroed, while the same class of violation is reached."""
    end = time.time() + limit
    best = execute(mod, scen, choices=choices)
    if best.cls != cls:
        return best

    def attempt(c):
        nonlocal best
        while c and c[-1] == 0:
            c.pop()
        if time.time() > end or len(c) > len(best.choices):
            return False
        r = execute(mod, scen, choices=c)
        if r.cls == cls:
            r.choices = r.choices[:max(len(c), 0)]
            best = r
            return True
        return False
    attempt(list(best.choices))
    again = True
    while again and time.time() < end:
        again = False
        size = max(1, len(best.choices) // 2)
        while size and time.time() < end:
            i = 0
            while i < len(best.choices):
                c = best.choices
                if attempt(c[:i] + c[i + size:]) or (any(c[i:i + size]) and attempt(c[:i] + [0] * len(c[i:i + size]) + c[i + size:])):
                    again = True
                    if len(best.choices) <= i:
                        break
                    if best.choices[i:i + size] == c[i:i + size]:
                        i += size
                    continue
                i += size
            size //= 2
    return execute(mod, scen, choices=best.choices)


def worker(modname, seed, shard, shards, runs, budget, out):
    mod = importlib.import_module(modname)
    mod.prepare()
    t0 = time.time()
    names = list(mod.SCENARIOS)
    agg = dict(runs=0, steps=0, checks=0, rechecks=0, capped=False, faults={}, probes={}, per_scenario={}, samples=[], violations=[])
    hist, nont, states, seen = set(), set(), set(), set()
    index = shard
    try:
        while index < runs:
            for scen in names:
                if (index // shards) % getattr(mod, "EVERY", {}).get(scen, 1):
                    continue
                if time.time() - t0 > budget:
                    agg["capped"] = True
                    raise StopIteration
                s = execute(mod, scen, seed=run_seed(seed, scen, index))
                agg["runs"] += 1
                agg["steps"] += s.steps
                agg["checks"] += s.checks
                agg["per_scenario"][scen] = agg["per_scenario"].get(scen, 0) + 1
                for a, b in ((agg["faults"], s.faults), (agg["probes"], s.probes)):
                    for k, n in b.items():
                        a[k] = a.get(k, 0) + n
                h = s.digest()
                hist.add(h)
                if s.nontrivial:
                    nont.add(h)
                states |= s.states
                if len(agg["samples"]) < 2 and s.nontrivial and s.lines:
                    agg["samples"].append(dict(scenario=scen, index=index, log="\n".join(s.lines)[:900]))
                if s.cls and (scen, s.cls) not in seen:
                    seen.add((scen, s.cls))
                    agg["violations"].append([scen, index, s.cls, s.msg, s.choices])
                if agg["per_scenario"][scen] % 97 == 1:  # the same choices must give the same execution
                    r = execute(mod, scen, choices=s.choices)
                    agg["rechecks"] += 1
                    if (r.digest(), r.cls) != (h, s.cls):
                        raise RuntimeError("NONDETERMINISM in %s #%d\n%s\n---\n%s" % (scen, index, "\n".join(s.lines)[-1500:], "\n".join(r.lines)[-1500:]))
            index += shards
    except StopIteration:
        pass
    agg.update(hist=sorted(hist), nont=sorted(nont), states=sorted(states))
    json.dump(agg, open(out, "w"))


def check(modname, prop, tier, seed, VERIF, cfg):
    sys.path.insert(0, VERIF)
    from check import known_findings, Error, JOBS
    mod = importlib.import_module(modname)
    t0 = time.time()
    mod.prepare()
    t_build = time.time() - t0
    runs, budget = cfg[tier]
    work = tempfile.mkdtemp(prefix="sim_%s_" % prop)
    try:
        t1 = time.time()
        procs = []
        for k in range(JOBS):
            out = os.path.join(work, str(k))
            procs.append((out, subprocess.Popen([sys.executable, os.path.join(SIM, "pysim.py"), "worker", modname, str(seed), str(k), str(JOBS), str(runs), str(budget), out],
                                                stdout=open(out + ".log", "wb"), stderr=subprocess.STDOUT)))
        parts = []
        for out, p in procs:
            if p.wait():
                raise Error("worker failed (%d): %s" % (p.returncode, open(out + ".log", errors="replace").read()[-3000:]))
            parts.append(json.load(open(out)))
        wall = time.time() - t1
        found = sorted((v for j in parts for v in j["violations"]), key=lambda v: (v[0], v[2], len(v[4])))
        kf = known_findings(prop)
        reported, errors, seen = [], [], set()
        for scen, index, cls, msg, choices in found:
            if (scen, cls) in seen or len(reported) >= 3:
                continue
            if any(re.fullmatch(f[0], scen) and f[1] == cls and re.search(f[2], msg) for f in kf):
                continue
            seen.add((scen, cls))
            m = minimise(mod, scen, choices, cls, 40)
            if m.cls != cls:
                errors.append("%s #%d: %s did not happen again" % (scen, index, cls))
                continue
            if any(re.fullmatch(f[0], scen) and f[1] == m.cls and re.search(f[2], m.msg) for f in kf):
                continue
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s_%s_%d.json" % (prop, re.sub(r"\W+", "_", scen), index))
            rec = dict(property=prop, scenario=scen, seed=seed, index=index, **{"class": m.cls}, message=m.msg, hash=m.digest(), choices=m.choices, trace=m.lines)
            json.dump(rec, open(path, "w"), indent=1)
            r = subprocess.run([sys.executable, os.path.join(SIM, "pysim.py"), "exec", modname, path], stdout=subprocess.PIPE, text=True)
            if r.returncode != 1 or "reproduced exactly" not in r.stdout:
                errors.append("%s #%d did not replay in a fresh process" % (scen, index))
                continue
            reported.append((path, scen, m))
        for f in kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, f[3]))

        def union(key):
            return len(set(x for j in parts for x in j[key]))

        def total(key):
            r = {}
            for j in parts:
                for k, n in j[key].items():
                    r[k] = r.get(k, 0) + n
            return dict(sorted(r.items()))
        n = sum(j["runs"] for j in parts)
        cov = dict(evaluations=n, distinct_nontrivial=union("nont"), rule=cfg["rule"], samples=[s for j in parts for s in j["samples"]][:8],
                   distinct_histories=union("hist"), distinct_states=union("states"), state_measure=cfg["state_measure"],
                   simulated_steps=sum(j["steps"] for j in parts), oracle_checks=sum(j["checks"] for j in parts),
                   runs_per_hour=int(n / max(wall, 1e-3) * 3600), seeds_per_hour=int(n / max(wall, 1e-3) * 3600),
                   runs_by_scenario=total("per_scenario"), faults_injected=total("faults"), probes=total("probes"),
                   determinism_rechecks=sum(j["rechecks"] for j in parts), stopped_by_time_cap=any(j["capped"] for j in parts),
                   real_components=cfg["real"], stub_components=cfg["stub"], build_s=round(t_build, 1), simulation_s=round(wall, 1))
        ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(reported))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        print("%s %s seed=%d: %d runs (%d distinct, non-trivial), %d steps, %d faults, %.1f s" % (prop, tier, seed, n, cov["distinct_nontrivial"], cov["simulated_steps"], sum(cov["faults_injected"].values()), ev["wall_s"]))
        if os.environ.get("SIM_VERBOSE"):
            print(json.dumps(dict(faults=cov["faults_injected"], probes=cov["probes"], per=cov["runs_by_scenario"], states=cov["distinct_states"], rechecks=cov["determinism_rechecks"]), indent=1))
        for path, scen, m in reported:
            print("  %s %s: %s" % (scen, m.cls, m.msg))
        for e in errors:
            print("ERROR: " + e)
        for path, scen, m in reported:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if reported else 3 if errors or not n else 0
    finally:
        for p in os.listdir(work):
            os.unlink(os.path.join(work, p))
        os.rmdir(work)
        mod.finish()


def replay(modname, r, path="-"):
    mod = importlib.import_module(modname)
    mod.prepare()
    try:
        s = execute(mod, r["scenario"], choices=r["choices"])
    finally:
        mod.finish()
    print("\n".join(s.lines))
    print("%s: %s" % (s.cls or "held", s.msg))
    print("reproduced exactly" if (s.cls, s.digest()) == (r["class"], r["hash"]) else "differs from the recorded run")
    if s.cls:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    return 0


if __name__ == "__main__":
    sys.path.insert(0, SIM)
    # this file is imported by the scenarios as `pysim`: they must see the same classes
    sys.modules["pysim"] = sys.modules["__main__"]
    if sys.argv[1] == "worker":
        m = importlib.import_module(sys.argv[2])
        try:
            worker(sys.argv[2], *map(int, sys.argv[3:7]), float(sys.argv[7]), sys.argv[8])
        finally:
            m.finish()
    elif sys.argv[1] == "exec":
        sys.exit(replay(sys.argv[2], json.load(open(sys.argv[3])), sys.argv[3]))
