#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.   tools/spec.py writes both."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mechanism, technique, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, observe=list(observe), state=list(state)))


def na(id, title, statement, over, qtext, why, files, mechanism, reason):
    prop(id, title, statement, over, qtext, why, files, mechanism, None, None)
    NA.append((id, reason))


COMMON = ("Decided from the LLVM IR clang emits for the current sources plus a driver that instantiates the public templates; nothing is "
          "executed. Trusted: clang's front end, the model of the C++ standard library calls and of moodycamel's queues, no undefined "
          "behaviour elsewhere. Source shapes the recognisers do not know are reported as violations of the rule that needs them. ")

sys.path.insert(0, os.path.join(V, "tools"))
import spec_props                               # fills P and NA through the functions above


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                             "observe_at": p["observe"], "hook_needed": None}}
            if p["state"]:
                d["anchors"]["state"] = [{"name": n, "meaning": me, "where": w} for n, me, w in p["state"]]
            f.write(json.dumps(d) + "\n")
    checks = []
    for p in P:
        if p["technique"]:
            checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                           "thorough_cmd": "python3 check.py %s thorough" % p["id"], "technique": p["technique"], "level": "other",
                           "level_note": COMMON + p["note"]})
    man = {"version": 1, "setup_cmd": "python3 engine/build.py tls notls debug", "checks": checks,
           "not_applicable": [{"property": i, "reason": r} for i, r in NA]}
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print("%d properties, %d checks, %d not applicable" % (len(P), len(checks), len(NA)))


if __name__ == "__main__":
    sys.modules["spec"] = sys.modules["__main__"]
    spec_props.fill()
    main()
