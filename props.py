#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), na=None, technique=None, level="other", note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=list(state),
                  observe=list(observe), na=na, technique=technique, level=level, note=note))


exec(open(os.path.join(HERE, "props_data.py")).read())

assert len({p["id"] for p in P}) == len(P)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                         "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        f.write(json.dumps(d) + "\n")

checks, na = [], []
for p in P:
    script = os.path.join(HERE, "checks", p["id"] + ".py")
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    elif os.path.exists(script):
        checks.append({"property": p["id"], "quick_cmd": "python3 checks/%s.py" % p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % p["id"],
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: they lower /repo's current sources to LLVM bitcode (clang 18, no execution of cmmc) and decide rules on the IR, "
              "the grammar automaton or the instruction tables. See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(P), "properties,", len(checks), "claimed")
