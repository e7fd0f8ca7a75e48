#!/usr/bin/env python3
"""seed.py FILE.py [ID...]       makes /verif/seeded/<id>/ from edits and demonstrations, and confirms each one against /repo (development aid)

FILE.py: S = {id: dict(prop=, needs=, breaks=, edits=[(file, old, new)], demo="C++ source", flags="", run="./demo")}"""
import json, os, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# run with cwd = the repository, after its build
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'cd /; rm -rf "$d"' EXIT
g++ -std=c++11 -O1 -DNDEBUG -DLEARNLOG_USE_TLS -DLEARNLOG_USE_BUNDLED_FMT %(flags)s -I"$repo" -I"$repo/include" "$here/demo.cpp" -o "$d/demo" \\
    -L"$repo/_build" -L"$repo/_build/base" -L"$repo/_build/sinks" \\
    -llearnlog -llearnlog_sinks -llearnlog_base -llearnlog_sinks -llearnlog_base -lpthread || exit 3
cd "$d" && timeout 100 %(run)s
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    ids = sys.argv[2:] or list(g["S"])
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "/repo is not clean"
    for i in ids:
        s = g["S"][i]
        d = os.path.join(V, "seeded", i)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(flags=s.get("flags", ""), run=s.get("run", "./demo")))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        q = [sh("bash %s/demo.sh" % d, cwd="/repo") for _ in range(s.get("n", 3))]
        ok = all(x.returncode == 0 for x in q)
        msg = "clean:%s" % "".join(str(x.returncode) for x in q)
        if not ok:
            print(i, "DEMO FAILS ON THE UNCHANGED TREE", q[-1].stdout[-400:])
            continue
        try:
            for f, old, new in s["edits"]:
                p = os.path.join("/repo", f)
                t = open(p).read()
                assert t.count(old) >= 1, (i, f, old)
                open(p, "w").write(t.replace(old, new, s.get("count", 1)))
            diff = sh("git -C /repo diff").stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            b = sh("bash /opt/vp/build.sh")
            if b.returncode:
                print(i, "DOES NOT BUILD", b.stdout[-600:])
                continue
            t = sh("bash /opt/vp/test.sh /tmp/seed/o.json")
            o = json.load(open("/tmp/seed/o.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            bad = missing(base, o)
            q = [sh("bash %s/demo.sh" % d, cwd="/repo") for _ in range(s.get("n", 3))]
            c = sh("python3 %s/check.py %s quick" % (V, s["prop"]), cwd=V)
            line = [l for l in c.stdout.splitlines() if not l.startswith("VIOLATION")]
            print(i, msg, "tests:", "ok" if not bad else "FAIL %s" % bad[:3], "patched:%s" % "".join(str(x.returncode) + " " for x in q),
                  "| check %s: %d %s" % (s["prop"], c.returncode, (line[0] if line else "")[:150]))
            if "-v" in os.environ.get("V", ""):
                print(q[-1].stdout[-300:])
        finally:
            sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")


def missing(base, o):
    def passed(x):
        r = set()
        if isinstance(x, dict):
            for k in ("passed", "tests", "stable", "results"):
                v = x.get(k)
                if isinstance(v, list):
                    r |= {str(y if not isinstance(y, dict) else y.get("name")) for y in v}
                elif isinstance(v, dict):
                    r |= {a for a, b in v.items() if b in ("passed", "pass", True, "ok")}
        return r
    a, b = passed(base), passed(o)
    return sorted(a - b)


main()
