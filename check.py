#!/usr/bin/env python3
"""Runs the simulation check of one property.

  check.py C01 [--tier quick|thorough] [--seed N]      the check (exit 0 / exit 1 + VIOLATION line / anything else = error)
  check.py replay FILE                                 re-executes a replay file in a fresh process
  check.py build C01 ...                               only builds
Environment: VERIF_SEED, VERIF_TIER (command-line options win).
"""
import json, os, re, struct, subprocess, sys, time, tempfile, shutil, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")
JOBS = int(os.environ.get("SIM_JOBS", str(os.cpu_count() or 8)))

sys.path.insert(0, SIM)
from props import PROPS  # noqa: E402


class Error(Exception):
    pass


def ninja_escape(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def build(prop):
    """Builds the harness of one property from REPO's working tree; returns {variant: binary}."""
    cfg = PROPS[prop]
    d = os.path.join(BUILD, prop)
    os.makedirs(d, exist_ok=True)
    lines = ["ninja_required_version = 1.3",
             "rule cxx",
             "  command = $cxx $flags -MD -MF $out.d -MT $out -c -o $out $in",
             "  depfile = $out.d",
             "  deps = gcc",
             "rule link",
             "  command = $cxx $flags -o $out $in $libs",
             ""]
    bins = {}
    for v in cfg["variants"]:
        std, *opts = v.split("-")
        flags = ["-std=c++" + std, "-O1", "-g0", "-w", "-I" + REPO, "-I" + SIM, "-ftemplate-depth=2048"]
        if "asan" in opts:
            flags += ["-fsanitize=address", "-fno-omit-frame-pointer", "-DSIM_ASAN"]
        if "ptr" in opts:
            flags += ["-DSPROUT_CONFIG_DISABLE_SUPPORT_TEMPORARY_CONTAINER_ITERATION"]
        flags += cfg.get("flags", [])
        cxx = "  cxx = " + ("clang++" if "clang" in opts else "g++")
        objs = []
        vd = os.path.join(d, v)
        os.makedirs(vd, exist_ok=True)
        for src, parts in [("main.cpp", 1)] + cfg["sources"]:
            for k in range(parts):
                o = os.path.join(vd, "%s_%d.o" % (os.path.splitext(src)[0], k))
                lines.append("build %s: cxx %s" % (ninja_escape(o), ninja_escape(os.path.join(SIM, src))))
                lines.append("  flags = " + " ".join(flags + ["-DSIM_PART=%d" % k]))
                lines.append(cxx)
                objs.append(o)
        b = os.path.join(vd, "sim")
        lines.append("build %s: link %s" % (ninja_escape(b), " ".join(map(ninja_escape, objs))))
        lines.append("  flags = " + " ".join(f for f in flags if f.startswith("-f")))
        lines.append(cxx)
        lines.append("  libs = " + cfg.get("libs", ""))
        bins[v] = b
    text = "\n".join(lines) + "\n"
    nf = os.path.join(d, "build.ninja")
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    r = subprocess.run(["ninja", "-C", d, "-j", str(JOBS), "-f", nf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write("\n".join([l[:220] for l in r.stdout.splitlines() if "error" in l][:12]) + "\n")
        raise Error("the harness of %s does not build" % prop)
    return bins


ENV = dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=0:allocator_may_return_null=1:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:handle_sigbus=0:detect_stack_use_after_return=0",
           LC_ALL="C")


def call(args, timeout=900):
    r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout)
    return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")


def known_findings(prop):
    """Lines `finding: property=C01 scenario=... class=... match=<regex> :: text` of KNOWN_FINDINGS.txt."""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) class=(\S+) match=/(.*)/ :: (.*)$", line.rstrip("\n"))
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def execute(binary, prop, scen, choices):
    with tempfile.NamedTemporaryFile("w", suffix=".choices", delete=False) as f:
        f.write("\n".join(map(str, choices)))
        name = f.name
    try:
        rc, out, err = call([binary, "exec", "--prop", prop, "--scenario", scen, "--choices", name])
    finally:
        os.unlink(name)
    if rc:
        raise Error("exec failed (%d): %s" % (rc, err[-500:]))
    return json.loads(out)


def check(prop, tier, seed):
    t0 = time.time()
    cfg = PROPS[prop]
    if "runner" in cfg:  # simulators that are not C++ harnesses
        import importlib
        return importlib.import_module("pysim").check(cfg["runner"], prop, tier, seed, VERIF, cfg)
    bins = build(prop)
    t_build = time.time() - t0
    runs, budget = cfg[tier]
    variants = cfg["variants"]
    work = tempfile.mkdtemp(prefix="sim_%s_" % prop)
    try:
        shards = max(1, JOBS // len(variants))
        procs = []
        for v in variants:
            for k in range(shards):
                procs.append(dict(v=v, k=k, rnd=0, skip=set(), out=os.path.join(work, "%s_%d" % (v, k)), parts=[], n=0))

        def start(p):
            p["n"] += 1
            p["cur"] = p["out"] + ".%d" % p["n"]
            left = max(1.0, budget - (time.time() - t1))
            p["log"] = open(p["cur"] + ".log", "wb")
            p["proc"] = subprocess.Popen([bins[p["v"]], "run", "--prop", prop, "--seed", str(seed), "--shard", str(p["k"]), "--shards", str(shards),
                                          "--runs", str(runs), "--budget", "%.1f" % left, "--progress", p["cur"] + ".prog", "--out", p["cur"] + ".json",
                                          "--from-round", str(p["rnd"]), "--skip", ",".join(sorted(p["skip"]))],
                                         stdout=p["log"], stderr=subprocess.STDOUT, env=ENV)
        t1 = time.time()
        names = {}
        for v in variants:
            rc, out, _ = call([bins[v], "list", "--prop", prop])
            names[v] = [l.rsplit(" ", 1)[0] for l in out.splitlines()]
        found = []  # (variant, scenario, index, class, message)
        for p in procs:
            start(p)
        crashes = 0
        for p in procs:
            while True:
                rc = p["proc"].wait()
                p["log"].close()
                if rc == 0:
                    j = json.load(open(p["cur"] + ".json"))
                    j["hashes"] = p["cur"] + ".json.hashes"
                    p["parts"].append(j)
                    for x in j["violations"]:
                        found.append((p["v"], x["scenario"], x["index"], x["class"], x["message"]))
                    break
                log = open(p["cur"] + ".log", errors="replace").read()
                if rc == 4 or "NONDETERMINISM" in log:
                    raise Error("nondeterministic run: " + log[-500:])
                if rc > 0 and rc != 99:
                    raise Error("worker failed (%d): %s" % (rc, log[-800:]))
                si, idx, rnd = struct.unpack("QQQ", open(p["cur"] + ".prog", "rb").read(24))
                if si == 2 ** 64 - 1:
                    raise Error("worker died before its first run (%d): %s" % (rc, log[-800:]))
                scen = names[p["v"]][si]
                found.append((p["v"], scen, idx, "crash", "worker ended with %d" % rc))
                crashes += 1
                p["skip"].add(scen)
                p["rnd"] = rnd
                if crashes > 12:
                    break
                start(p)
        wall_sim = time.time() - t1
        parts = [j for p in procs for j in p["parts"]]
        # distinct histories and states over all shards of one variant; variants run the same seeds, so union over all
        sets = [set(), set(), set()]
        for j in parts:
            with open(j["hashes"], "rb") as f:
                for s in sets:
                    n, = struct.unpack("Q", f.read(8))
                    s.update(struct.unpack("%dQ" % n, f.read(8 * n)))

        def total(key):
            r = {}
            for j in parts:
                for k, n in j[key].items():
                    r[k] = r.get(k, 0) + n
            return dict(sorted(r.items()))
        # --- violations: minimise, gate, report
        kf = known_findings(prop)
        reported, printed_known, errors = [], set(), []
        seen = set()
        tried = 0
        for v, scen, idx, cls, msg in sorted(found, key=lambda f: (f[3] == "crash", f[1], f[2])):
            key = (scen.split("/")[0], cls)
            if key in seen or len(reported) >= 3 or tried >= 40:
                continue
            # a listed finding is recognised by its own message; only the others are minimised
            if any(re.fullmatch(f[0], scen) and f[1] == cls and re.search(f[2], msg) for f in kf):
                continue
            tried += 1
            seen.add(key)
            rc, out, err = call([bins[v], "minimize", "--prop", prop, "--scenario", scen, "--seed", str(seed), "--index", str(idx)])
            if rc:
                errors.append("minimise of %s #%d failed (%d): %s" % (scen, idx, rc, err[-400:]))
                continue
            m = json.loads(out)
            if not m["class"]:
                errors.append("%s #%d: %s" % (scen, idx, m["message"]))
                continue
            k = [f for f in kf if re.fullmatch(f[0], scen) and f[1] == m["class"] and re.search(f[2], m["message"])]
            if k:
                seen.discard(key)
                continue  # a listed finding; those are printed below
            again = execute(bins[v], prop, scen, m["choices"])
            if (again["class"], again["hash"]) != (m["class"], m["hash"]):
                errors.append("%s #%d did not replay in a fresh process: %s/%s then %s/%s" % (scen, idx, m["class"], m["hash"], again["class"], again["hash"]))
                continue
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s_%s_%s_%d.json" % (prop, re.sub(r"\W+", "_", scen), v, idx))
            json.dump(dict(property=prop, variant=v, scenario=scen, seed=seed, index=idx, **{"class": m["class"]}, message=m["message"], hash=m["hash"],
                           choices=m["choices"], trace=m["log"].splitlines()), open(path, "w"), indent=1)
            reported.append((path, scen, v, m))
        for f in kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, f[3]))
        ev = dict(
            property=prop, tier=tier, seed=seed, level="exploration",
            coverage=dict(
                evaluations=sum(j["runs"] for j in parts),
                distinct_nontrivial=len(sets[1]),
                rule=cfg["rule"],
                samples=[s for j in parts for s in j["samples"]][:12],
                distinct_histories=len(sets[0]),
                distinct_states=len(sets[2]),
                state_measure=cfg.get("state_measure", "hash of the abstract state the scenario reports after each operation"),
                simulated_steps=sum(j["steps"] for j in parts),
                oracle_checks=sum(j["checks"] for j in parts),
                runs_per_hour=int(sum(j["runs"] for j in parts) / max(wall_sim, 1e-3) * 3600),
                seeds_per_hour=int(sum(j["runs"] for j in parts) / max(wall_sim, 1e-3) * 3600),
                runs_by_scenario=total("per_scenario"),
                faults_injected=total("faults"),
                probes=total("probes"),
                determinism_rechecks=sum(j["rechecks"] for j in parts),
                stopped_by_time_cap=any(j["capped"] for j in parts),
                build_variants=variants,
                real_components=cfg["real"],
                stub_components=cfg["stub"],
                build_s=round(t_build, 1), simulation_s=round(wall_sim, 1),
            ),
            assumptions=cfg.get("assumptions", []),
            wall_s=round(time.time() - t0, 1), violations=len(reported))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        c = ev["coverage"]
        print("%s %s seed=%d: %d runs (%d distinct, non-trivial), %d steps, %d faults, %.1f s (build %.1f s)" % (
            prop, tier, seed, c["evaluations"], c["distinct_nontrivial"], c["simulated_steps"], sum(c["faults_injected"].values()), ev["wall_s"], t_build))
        if os.environ.get("SIM_VERBOSE"):
            print(json.dumps(dict(faults=c["faults_injected"], probes=c["probes"], states=c["distinct_states"], capped=c["stopped_by_time_cap"]), indent=1))
        for path, scen, v, m in reported:
            print("  %s [%s] %s: %s" % (scen, v, m["class"], m["message"]))
        for e in errors:
            print("ERROR: " + e)
        for path, scen, v, m in reported:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        if reported:
            return 1
        if errors:
            return 3
        if not parts or ev["coverage"]["evaluations"] == 0:
            print("ERROR: nothing was explored")
            return 3
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    r = json.load(open(path))
    cfg = PROPS[r["property"]]
    if "runner" in cfg:
        import importlib
        return importlib.import_module("pysim").replay(cfg["runner"], r, path)
    bins = build(r["property"])
    m = execute(bins[r["variant"]], r["property"], r["scenario"], r["choices"])
    print(m["log"])
    print("%s: %s" % (m["class"] or "held", m["message"]))
    same = (m["class"], m["hash"]) == (r["class"], r["hash"])
    print("reproduced exactly" if same else "differs from the recorded run")
    if m["class"]:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "setup":  # every check builds what it needs; here only the tools are verified
        for t in ("g++", "clang++", "ninja"):
            if not shutil.which(t):
                raise Error(t + " is missing")
        return 0
    if a[0] == "build":
        for p in a[1:] or PROPS:
            if "runner" not in PROPS[p]:
                build(p)
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    return check(a[0], tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Error as e:
        print("ERROR: %s" % e)
        sys.exit(3)
