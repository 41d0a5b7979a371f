#!/usr/bin/env python3
"""trybug.py ID [CHECK...]: confirms a planted bug (demo clean/patched, build, stable tests) and runs checks against it.

Works on /repo (or TRY_REPO, with build and test scripts for it in TRY_VP) and always undoes the patch.  --fast skips build and tests."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("TRY_REPO", "/repo")
VP = os.environ.get("TRY_VP", "/opt/vp")
os.environ["SIM_REPO"] = R
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    fast = "--fast" in sys.argv
    a = [x for x in sys.argv[1:] if x != "--fast"]
    id, checks = a[0], a[1:]
    d = os.path.join(V, "seeded", id)
    meta = json.load(open(d + "/meta.json"))
    checks = checks or [meta["property"]]
    assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "repo not clean"
    ok = True
    r = sh("bash %s/demo.sh" % d, cwd=R)
    print(id, "demo clean:", r.returncode, r.stdout[-300:].strip() if r.returncode else "")
    ok &= r.returncode == 0
    r = sh("git -C %s apply %s/patch.diff" % (R, d))
    if r.returncode:
        print(id, "patch does not apply", r.stdout); return 1
    try:
        if not fast:
            b = sh("bash %s/build.sh" % VP)
            t = sh("bash %s/test.sh /tmp/trybug.json" % VP)
            s = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); p = set(json.load(open("/tmp/trybug.json"))["passed"])
            print(id, "build:", b.returncode, "missing stable tests:", sorted(s - p)[:5])
            ok &= b.returncode == 0 and not (s - p)
        r = sh("timeout 300 bash %s/demo.sh" % d, cwd=R)
        print(id, "demo patched:", r.returncode, r.stdout.strip()[-300:])
        ok &= r.returncode != 0
        for c in checks:
            t = time.time()
            r = sh("python3 check.py %s" % c, cwd=V)
            v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or l.startswith("  ") or "ERROR" in l]
            print(id, c, "exit", r.returncode, "%.0fs" % (time.time() - t), *[x[:250] for x in v[:3]], sep="\n   ")
            ok &= r.returncode == 1
    finally:
        sh("git -C %s checkout -- ." % R)
    print(id, "OK" if ok else "NOT OK")
    return 0 if ok else 1
sys.exit(main())
