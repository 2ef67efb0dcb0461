#!/usr/bin/env python3
"""Generates DESIGN.md from tools/design/head.md, tools/props, the evidence in DIR (default
/tmp/vv/evidence, written by a run of all checks) and the planted bugs."""
import json, os, sys, glob, re
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
ev = sys.argv[1] if len(sys.argv) > 1 else "/tmp/vv/evidence"
P = []
def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, technique=technique, note=note, na=na))
for f in sorted(glob.glob(here + "/props/*.py")):
    exec(compile(open(f).read(), f, "exec"), {"prop": prop})
P.sort(key=lambda p: p["id"])
nm = nn = nr = 0
for f in glob.glob(here + "/mutants/*.py"):
    t = open(f).read(); nm += len(re.findall(r"^M\(", t, re.M)); nn += len(re.findall(r"^N\(", t, re.M))
for f in glob.glob(here + "/refacs/*.py"):
    nr += len(re.findall(r"^R\(", open(f).read(), re.M))
kn = [l[7:].strip() for l in open(root + "/known_findings.txt") if l.startswith("known: ")]
known = "\nRecorded and not repaired:\n" + "".join("* %s\n" % k for k in kn) if kn else "\nEvery confirmed defect so far was repaired; nothing is recorded as known and open.\n"
caught = {}
cf = here + "/design/caught.txt"
if os.path.exists(cf):
    for l in open(cf):
        a = l.split(None, 1)
        if len(a) == 2: caught[a[0]] = a[1].strip()
rows = ["| planted bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], caught.get(i, "-")))
note = open(here + "/design/refacnote.md").read() if os.path.exists(here + "/design/refacnote.md") else ""
h = open(here + "/design/head.md").read()
for k, v in {"KNOWN": known, "NM": str(nm), "NN": str(nn), "NR": str(nr), "SEEDS": "\n".join(rows), "REFACNOTE": note}.items():
    h = h.replace("@@%s@@" % k, v)
o = [h]
for p in P:
    o.append("### %s %s\n" % (p["id"], p["title"]))
    if p["na"]:
        o.append("Not applicable: %s\n" % p["na"]); continue
    e = {}
    f = "%s/%s.json" % (ev, p["id"])
    if os.path.exists(f): e = json.load(open(f))
    c = e.get("coverage", {})
    o.append("*Specified*: %s\n" % p["statement"])
    o.append("*Quantifies over*: %s. *Tests cannot settle it*: %s\n" % (p["quant"].rstrip("."), p["why"]))
    o.append("*Method*: %s.\n" % p["technique"])
    if c.get("explanation"): o.append("*Rules decided*: %s.\n" % c["explanation"].rstrip("."))
    if c.get("obligations_by_rule"):
        o.append("*Analysed on the present tree*: %d obligations (%s).\n" % (c["obligations_examined"], ", ".join("%s %d" % kv for kv in sorted(c["obligations_by_rule"].items()))))
    o.append("*Bounds and trust*: %s\n" % p["note"])
    if c.get("not_covered"): o.append("*Not covered*: %s.\n" % c["not_covered"].rstrip("."))
    ex = c.get("reasoned_exceptions")
    if ex:
        if isinstance(ex, dict): ex = ["%s: %s" % kv for kv in sorted(ex.items())]
        o.append("*Reasoned exceptions*: " + "; ".join(str(x) if not isinstance(x, dict) else " - ".join(str(v) for v in x.values()) for x in ex) + ".\n")
open(root + "/DESIGN.md", "w").write("\n".join(o))
print(len(P), "properties,", len(rows) - 2, "seeds")
