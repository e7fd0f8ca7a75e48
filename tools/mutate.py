#!/usr/bin/env python3
"""mutate.py FILE.py PID...      runs checks against textual mutations of /repo, each in a scratch copy (development aid)

FILE.py defines M = [(name, [(file, old, new), ...]), ...]; a name starting with '=' is a behaviour-preserving edit.
A mutation 'diff:<path>' applies a patch instead."""
import concurrent.futures as cf, os, re, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(m, pids):
    name, edits = m[:2]
    pids = m[2].split() if len(m) > 2 and pids == ["auto"] else pids
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        r = os.path.join(d, "repo")
        subprocess.run("mkdir -p %s && cd %s && tar cf - src base sinks include cmake CMakeLists.txt | tar xf - -C %s" % (r, os.environ.get("MUTSRC", "/repo"), r), shell=True, check=True)
        if isinstance(edits, str):
            subprocess.run("patch -s -p1 < %s" % edits, shell=True, cwd=r, check=True)
        else:
            for f, old, new in edits:
                p = os.path.join(r, f)
                s = open(p).read()
                if s.count(old) < 1:
                    return name, {"?": "EDIT DOES NOT APPLY: %s: %r" % (f, old[:60])}
                s = s.replace(old, new, 1)
                open(p, "w").write(s)
        env = dict(os.environ, LEARNLOG_REPO=r, LEARNLOG_BUILD=os.path.join(d, "b"), LEARNLOG_EVIDENCE=os.path.join(d, "e"))
        os.makedirs(os.path.join(d, "b"))
        for x in os.listdir(os.path.join(V, ".build")):
            if x.startswith("irx-"):
                shutil.copy(os.path.join(V, ".build", x), os.path.join(d, "b", x))
        out = {}
        for p in pids:
            q = subprocess.run([sys.executable, os.path.join(V, "check.py"), p, "quick"], env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            line = [l for l in q.stdout.splitlines() if not l.startswith("VIOLATION")]
            out[p] = "%d %s" % (q.returncode, (line[0] if q.returncode == 1 and line else line[-1] if line else "").strip()[:230])
        return name, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    pids = sys.argv[2:]
    only = os.environ.get("ONLY")
    ms = [m for m in g["M"] if not only or re.search(only, m[0])]
    with cf.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
        for name, out in ex.map(lambda m: one(m, pids), ms):
            hit = any(v.startswith("1") for v in out.values())
            brk = any(v[:1] not in "01" for v in out.values())
            tag = ("QUIET " if not hit and not brk else "ALARM!") if name.startswith("=") else ("caught" if hit else "MISSED")
            print("%s%s %s" % (tag, " BROKEN" if brk else "", name))
            for p, v in out.items():
                if not v.startswith("0"):
                    print("      %s: %s" % (p, v))
            sys.stdout.flush()


main()
