#!/usr/bin/env python3
"""Development aid: behaviour-preserving refactorings (tools/refacs/*.py) applied to scratch
copies of /repo; every check has to stay quiet on each of them.
usage: refac.py [-j N] [pattern...]"""
import sys, os, glob, subprocess, shutil, tempfile, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
L = []
def R(name, *edits): L.append((src + ":" + name, edits))
for fn in sorted(glob.glob(here + "/refacs/*.py")):
    src = os.path.basename(fn)[:-3]
    exec(compile(open(fn).read(), fn, "exec"))
args = sys.argv[1:]; j = 6
if args[:1] == ["-j"]: j = int(args[1]); args = args[2:]
if args: L = [m for m in L if any(a in m[0] for a in args)]
exe = os.environ.get("VSTAT", "/tmp/vstat")
env = dict(os.environ)
for l in subprocess.check_output(["bash", "-c", ". /opt/vp/env.sh; env"], text=True).splitlines():
    if "=" in l:
        k, v = l.split("=", 1); env[k] = v
def one(i):
    name, edits = L[i]
    d = tempfile.mkdtemp(prefix="ref.", dir="/tmp")
    try:
        subprocess.check_call("git -C /repo ls-files -z | (cd /repo && xargs -0 cp --parents -t %s)" % d, shell=True)
        for e in edits:
            f, old, new = e[:3]; n = e[3] if len(e) > 3 else 0
            p = os.path.join(d, f); t = open(p).read(); parts = t.split(old)
            if len(parts) < n + 2: return i, "NOT-FOUND", old[:80]
            t = old.join(parts[:n+1]) + new + old.join(parts[n+1:])
            open(p, "w").write(t)
        b = subprocess.run(["go", "vet", "./..."] if False else ["go", "build", "./..."], cwd=d, env=env, capture_output=True, text=True)
        if b.returncode != 0: return i, "NO-BUILD", b.stderr[:600]
        if os.environ.get("GOTEST"):
            pk = sorted({"./" + os.path.dirname(e[0]) for e in edits})
            b = subprocess.run(["go", "test", "-count=1"] + pk, cwd=d, env=env, capture_output=True, text=True)
            if b.returncode != 0: return i, "TEST", b.stdout[-1500:]
        vd = os.path.join(d, ".vv"); os.makedirs(vd)
        if os.path.exists("/verif/known_findings.txt"): shutil.copy("/verif/known_findings.txt", vd)
        r = subprocess.run(["timeout", "-s", "QUIT", os.environ.get("TMO", "240"), exe, "-repo", d, "-verif", vd, "all"], env=env, capture_output=True, text=True)
        if r.returncode not in (0, 1): return i, "RC%d" % r.returncode, r.stdout[-300:] + r.stderr[-800:]
        heads = [x for x in r.stdout.splitlines() if " :: " in x or "VIOLATION" in x]
        return i, "ok" if r.returncode == 0 else "ALARM", "\n    ".join(heads[:14])
    finally:
        shutil.rmtree(d)
with cf.ThreadPoolExecutor(j) as ex:
    res = list(ex.map(one, range(len(L))))
bad = 0
for i, st, info in res:
    if st != "ok": bad += 1
    print("%-9s %s   %s" % (st, L[i][0], info if st != "ok" else ""))
print(len(L), "refactorings,", bad, "not as expected")
