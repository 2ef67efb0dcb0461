#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from tools/props/*.py entries."""
import json, os, sys, glob
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
P = []
def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note, na=na))
for f in sorted(glob.glob(os.path.join(here, "props", "*.py"))):
    exec(compile(open(f).read(), f, "exec"), {"prop": prop})
P.sort(key=lambda p: p["id"])
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids), "duplicate ids"
with open(os.path.join(root, "properties.jsonl"), "w") as o:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        o.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                       "technique": p["technique"], "level": "other", "level_note": p["note"]})
m = {"version": 1,
     "setup_cmd": "cd analyzer && GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off GOWORK=off go vet -vettool=/bin/true . >/dev/null 2>&1; GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off GOWORK=off go build -o /dev/null .",
     "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: every check type-checks /repo, builds SSA and decides the property's rules from the source; nothing of /repo is executed. See DESIGN.md."}
m["setup_cmd"] = "cd analyzer && GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off GOWORK=off go build -o /dev/null ."
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks", len(na), "not applicable")
