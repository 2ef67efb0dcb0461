#!/usr/bin/env python3
"""Development aid: applies small edits to scratch copies of /repo and reports whether the
named check fires (M) or stays quiet (N: behaviour-preserving edit).
usage: mutate.py [-j N] [pattern...]   pattern matches property id or mutant file"""
import sys, os, glob, subprocess, shutil, tempfile, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
L = []
def M(prop, f, old, new, n=0): L.append(("M", prop, f, old, new, n, src))
def N(prop, f, old, new, n=0): L.append(("N", prop, f, old, new, n, src))
for fn in sorted(glob.glob(here + "/mutants/*.py")):
    src = os.path.basename(fn)
    exec(compile(open(fn).read(), fn, "exec"))
args = sys.argv[1:]
j = 6
if args[:1] == ["-j"]:
    j = int(args[1]); args = args[2:]
if args:
    L = [m for m in L if any(a in m[1].split(",") or a in m[6] for a in args)]
exe = "/tmp/vstat"
env = dict(os.environ)
for l in subprocess.check_output(["bash", "-c", ". /opt/vp/env.sh; env"], text=True).splitlines():
    if "=" in l:
        k, v = l.split("=", 1); env[k] = v
def one(i):
    kind, prop, f, old, new, n, s = L[i]
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        subprocess.check_call("git -C /repo ls-files -z | (cd /repo && xargs -0 cp --parents -t %s)" % d, shell=True)
        p = os.path.join(d, f)
        t = open(p).read()
        parts = t.split(old)
        if len(parts) < n + 2:
            return i, "NOT-FOUND", ""
        t = old.join(parts[:n+1]) + new + old.join(parts[n+1:])
        open(p, "w").write(t)
        b = subprocess.run(["go", "build", "./..."], cwd=d, env=env, capture_output=True, text=True)
        if b.returncode != 0:
            return i, "NO-BUILD", b.stderr[:400]
        vd = os.path.join(d, ".vv"); os.makedirs(vd)
        if os.path.exists("/verif/known_findings.txt"): shutil.copy("/verif/known_findings.txt", vd)
        r = subprocess.run([exe, "-repo", d, "-verif", vd] + prop.split(","), env=env, capture_output=True, text=True)
        fired = r.returncode == 1
        if r.returncode not in (0, 1): return i, "RC%d" % r.returncode, r.stdout[-300:] + r.stderr[-800:]
        heads = [x for x in r.stdout.splitlines() if " :: " in x][:4]
        ok = fired == (kind == "M")
        return i, "ok" if ok else ("MISSED" if kind == "M" else "FALSE-ALARM"), "; ".join(heads) if fired else ""
    finally:
        shutil.rmtree(d)
with cf.ThreadPoolExecutor(j) as ex:
    res = list(ex.map(one, range(len(L))))
bad = 0
for i, st, info in res:
    kind, prop, f, old, new, n, s = L[i]
    if st != "ok": bad += 1
    print("%-11s %s %-8s %s: %s -> %s   %s" % (st, kind, prop, f, " ".join(old.split())[:50], " ".join(new.split())[:60], info if st != "ok" or "-v" in os.environ.get("MV", "") else info[:90]))
print(len(L), "edits,", bad, "not as expected")
