"""mkbug(id, property, [(file, old, new)...], needs, breaks, demo_cpp, std): writes /verif/seeded/<id> (patch made with git diff, then undone)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0 when the property holds on this input, nonzero when it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=%s -O1 -w -I"$PWD" -o "$t/demo" "$d/demo.cpp" || exit 2
timeout 120 "$t/demo"
'''
def mkbug(id, prop, edits, needs, breaks, demo, std="c++17", repo="/repo"):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    try:
        for f, o, n in edits:
            p = os.path.join(repo, f)
            b = open(p, "rb").read().decode()
            crlf = "\r\n" in b
            s = b.replace("\r\n", "\n")
            assert s.count(o) == 1, (id, f, s.count(o), o)
            s = s.replace(o, n)
            open(p, "wb").write((s.replace("\n", "\r\n") if crlf else s).encode())
        diff = subprocess.run(["git", "-C", repo, "diff", "--binary"], stdout=subprocess.PIPE).stdout
    finally:
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."])
    assert diff
    open(d + "/patch.diff", "wb").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    if demo:
        open(d + "/demo.cpp", "w").write(demo)
        open(d + "/demo.sh", "w").write(SH % std)
    print(id, "written,", len(diff.splitlines()), "diff lines")
