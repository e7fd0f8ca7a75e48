#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]     decides one property on /repo's current sources

exit 0: held on everything analysed; exit 1: violated (VIOLATION line); any other exit: the analysis could not be carried out"""
import importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, HERE)
import build, lib
from model import AnalysisBroken

EVID = os.environ.get("LEARNLOG_EVIDENCE", os.path.join(HERE, "evidence"))
KNOWN = os.path.join(HERE, "known-findings.txt")


def known(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN, encoding="utf-8"):
            l = l.rstrip("\n")
            if l.startswith("finding: property=%s " % pid):
                key, _, what = l[len("finding: property=%s " % pid):].partition(" || ")
                out.append((key.strip(), what.strip()))
    return out


def evidence(pid, tier, rep, wall, viols, knowns, level):
    d = EVID
    os.makedirs(d, exist_ok=True)
    rules = {}
    for r, w, t in rep.obligations:
        rules.setdefault(r, []).append(("%s: %s" % (w, t))[:300])
    cov = {
        "explanation": rep.explanation or "",
        "functions_analysed": len(rep.functions),
        "obligations": len(rep.obligations),
        "abstract_states": rep.paths,
        "rules": {r: {"obligations": len(v), "samples": v[:12]} for r, v in rules.items()},
        "functions": sorted(rep.functions)[:400],
        "assumptions": rep.assumptions,
    }
    e = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
         "wall_s": round(wall, 2), "violations": len(viols)}
    if viols:
        e["coverage"]["violation_details"] = viols[:20]
    if knowns:
        e["coverage"]["known_findings"] = knowns
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(e, f, indent=1)


def load_rules():
    table = {}
    for f in sorted(os.listdir(os.path.join(HERE, "rules"))):
        if f.endswith(".py") and not f.startswith("_"):
            mod = importlib.import_module("rules." + f[:-3])
            for pid, fn in mod.PROPERTIES.items():
                table[pid] = fn
    return table


def level_of(pid):
    try:
        for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
            if c["property"] == pid:
                return c["level"]
    except Exception:
        pass
    return "other"


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    table = load_rules()
    if pid not in table:
        print("unknown property %s" % pid)
        return 3
    rep = lib.Rep(pid, tier)
    broken = None
    try:
        table[pid](rep)
        if not rep.obligations:
            raise AnalysisBroken("nothing was analysed")
    except (AnalysisBroken, build.AnalysisBroken) as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    kn = known(pid)
    viols, hit = [], []
    replay = os.path.join(EVID, "%s.replay.txt" % pid)
    if os.path.exists(replay):
        os.remove(replay)
    for v in rep.violations:
        k = next((k for k in kn if k[0] == v["key"]), None)
        if k:
            hit.append(k)
        else:
            viols.append(v)
    evidence(pid, tier, rep, time.time() - t0, viols, [k[1] for k in hit], level_of(pid))
    for k in dict.fromkeys(hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, k[1]))
    if viols:
        path = replay
        with open(path, "w") as f:
            for v in viols:
                f.write("[%s] %s\n  %s\n  key: %s\n" % (v["rule"], v["where"], v["msg"], v["key"]))
                for p in v["path"]:
                    f.write("    via %s\n" % p)
        for v in viols[:12]:
            print("  %s: [%s] %s" % (v["where"], v["rule"], v["msg"]))
        if broken:
            print("  (analysis incomplete: %s)" % broken.strip().splitlines()[-1])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if broken:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, broken))
        return 2
    print("held: property=%s, %d obligations in %d functions, %.1f s" % (pid, len(rep.obligations), len(rep.functions), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    sys.exit(main())
